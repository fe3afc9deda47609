#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: builds each planted bug in a scratch copy, confirms it and its demonstration,
writes /verif/seeded/ID, and reports which quick checks catch it. For development only."""
import sys, os, subprocess, json, shutil, importlib.util, time
W = "/tmp/w/mut"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV.pop("CARGO_TARGET_DIR", None)
def sh(cmd, cwd=W, env=ENV, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def demo(folder):
    return sh(f"bash {folder}/demo.sh", timeout=300)
def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    if not os.path.isdir(W):
        subprocess.check_call(f"cp -a /repo {W}", shell=True)
    base = W + ".base"
    head = subprocess.check_output("git -C /repo rev-parse HEAD", shell=True).decode().strip()
    sh("git checkout -q -- . ; git clean -fdq -e target; git fetch -q /repo && git reset -q --hard FETCH_HEAD")
    stamp = "/tmp/w/base.head"
    if not os.path.exists(stamp) or open(stamp).read() != head:
        r, o = sh("cd rust && touch src/lib.rs src/bin/*/main.rs && cargo build -q --workspace --locked --offline")
        assert r == 0, o
        os.makedirs("/tmp/w/basebin", exist_ok=True)
        for b in ("limabean", "limabean-pod"): shutil.copy2(f"{W}/rust/target/debug/{b}", "/tmp/w/basebin/")
        open(stamp, "w").write(head)
    # a tree with the clean binaries, for the demonstrations
    os.makedirs("/tmp/w/cleantree/rust/target/debug", exist_ok=True)
    for b in ("limabean", "limabean-pod"): shutil.copy2(f"/tmp/w/basebin/{b}", "/tmp/w/cleantree/rust/target/debug/")
    for B in m.BUGS:
        if only and B["id"] not in only: continue
        t = time.time()
        sh("git checkout -q -- .")
        bad = None
        for f, old, new in B["edits"]:
            p = f"{W}/rust/src/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(B["id"], "EDIT", bad); continue
        folder = f"/tmp/w/seed/{B['id']}"; shutil.rmtree(folder, ignore_errors=True); os.makedirs(folder)
        open(folder + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=W).decode())
        shutil.copy("/verif/tools/plant/pod.py", folder)
        open(folder + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom pod import *\n" + B["demo"].strip("\n") + "\n")
        open(folder + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": B["property"], "needs": B["needs"], "what_it_breaks": B["breaks"]}, open(folder + "/meta.json", "w"), indent=1, ensure_ascii=False)
        r, o = sh("cd rust && touch src/lib.rs src/bin/*/main.rs && cargo build -q --workspace --locked --offline && cargo test -q --workspace --locked --offline 2>&1 | tail -30")
        if r or "test result: FAILED" in o or "error" in o.split("warning")[0]: print(B["id"], "BUILD/TEST", o[-1500:]); continue
        r1, o1 = demo(folder)
        p = subprocess.run(f"bash {folder}/demo.sh", shell=True, cwd="/tmp/w/cleantree", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r1 == 0 or p.returncode != 0:
            print(B["id"], "DEMO patched", r1, o1[-600:], "clean", p.returncode, p.stdout.decode()[-600:]); continue
        dst = f"/verif/seeded/{B['id']}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(folder, dst)
        res = []
        if B["property"] == "C21":
            # the launcher as built for an uberjar: bin/build.sh
            D = f"{W}/rust/target/debug/limabean"
            r, o = sh(f"cd rust && cp {D} {D}-plain && LIMABEAN_UBERJAR=/sim/opt/built-in.jar cargo build -q --locked --offline --bin limabean && cp {D} {D}-jar && mv -f {D}-plain {D}")
            assert r == 0, o
        for c in [B["property"]] + B.get("also", []):
            p = subprocess.run(["/verif/target/sim/release/simctl", "check", c], env=dict(os.environ, SIM_BIN=f"{W}/rust/target/debug", SIM_VERIF="/tmp/w/mutverif"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode(errors="replace").strip().splitlines()
            what = "CAUGHT" if p.returncode == 1 and any(l.startswith("VIOLATION") for l in out) else f"missed({p.returncode})"
            res.append(f"{c} {what} {' | '.join(x for x in out if not x.startswith('VIOLATION'))[:160]}")
        print(B["id"], f"{time.time()-t:.0f}s", "; ".join(res), flush=True)
    sh("git checkout -q -- .")
main()
