#!/bin/bash
# Builds the simulator (/verif/sim) and the programs under test from /repo's working tree, offline.
# Nothing is written outside /verif/target. Safe to run from several checks at once.
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset LIMABEAN_UBERJAR RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
T=$VERIF/target
mkdir -p "$T" || exit 2
exec 9>"$T/lock" || exit 2
flock 9 || exit 2

# the simulator
if [ "$VERIF/sim/preload/preload.c" -nt "$T/libsimos.so" ]; then
  gcc -O1 -g -fPIC -shared -fno-builtin -fno-delete-null-pointer-checks -o "$T/libsimos.so.new" "$VERIF/sim/preload/preload.c" -ldl -lpthread >&2 || exit 2
  mv "$T/libsimos.so.new" "$T/libsimos.so"
fi
(cd "$VERIF/sim" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/sim" cargo build --quiet --offline --locked --release) >&2 || exit 2

# the programs under test, with the settings of /opt/vp/build.sh so that its compiled dependencies can be used
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
R=/repo/rust
[ -d $R/src ] || { echo "no $R" >&2; exit 2; }
sum=$( (cd $R && find src Cargo.toml Cargo.lock build.rs -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ ! -d "$T/pod/debug" ]; then
  rm -rf "$T/pod.new"
  if [ -d $R/target/debug/deps ]; then
    cp -a $R/target "$T/pod.new" && mv "$T/pod.new" "$T/pod" || rm -rf "$T/pod.new"
  fi
  rm -f "$T/pod/stamp"
fi
mkdir -p "$T/pod"
export CARGO_TARGET_DIR="$T/pod"
if [ "$(cat "$T/pod/stamp" 2>/dev/null)" != "$sum" ] || [ ! -x "$T/pod/debug/limabean-pod" ] || [ ! -x "$T/pod/debug/limabean" ] || [ ! -x "$T/pod/debug/limabean-jar" ]; then
  rm -f "$T/pod/stamp"
  cd $R || exit 2
  # file times say nothing about a patched copy: always compile the crate itself again
  cargo clean --quiet --offline --locked -p limabean >&2 || true
  if ! cargo build --quiet --offline --locked --bins 2>"$T/log"; then
    # dependencies compiled elsewhere may not fit: once more, from scratch
    rm -rf "$VERIF/target/pod"
    cargo build --quiet --offline --locked --bins 2>"$T/log" || { tail -n 40 "$T/log" >&2; exit 2; }
  fi
  # the launcher as it is when an uberjar is chosen as it is built
  J=/sim/opt/built-in.jar
  cp "$T/pod/debug/limabean" "$T/pod/debug/limabean-plain" || exit 2
  LIMABEAN_UBERJAR=$J cargo build --quiet --offline --locked --bin limabean 2>"$T/log" || { tail -n 40 "$T/log" >&2; exit 2; }
  cp "$T/pod/debug/limabean" "$T/pod/debug/limabean-jar" && mv -f "$T/pod/debug/limabean-plain" "$T/pod/debug/limabean" || exit 2
  echo "$sum" > "$T/pod/stamp"
fi
exit 0
