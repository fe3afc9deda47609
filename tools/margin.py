#!/usr/bin/env python3
"""margin.py SEEDS [ID...]: how often the quick check of each planted bug's property catches it, over several seeds,
and after how many executions. For development only (scratch tree /tmp/w/mut)."""
import sys, os, subprocess, json, time, glob
W = "/tmp/w/mut"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
seeds = sys.argv[1].split(","); only = sys.argv[2:]
subprocess.check_call("git checkout -q -- . ; git fetch -q /repo && git reset -q --hard FETCH_HEAD", shell=True, cwd=W)
for f in sorted(glob.glob("/verif/seeded/*/")):
    i = os.path.basename(f.rstrip("/"))
    if only and i not in only: continue
    prop = json.load(open(f + "meta.json"))["property"]
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=W)
    if subprocess.call(["git", "apply", f + "patch.diff"], cwd=W): print(i, "DOES NOT APPLY", flush=True); continue
    if subprocess.call("touch src/lib.rs src/bin/*/main.rs && cargo build -q --workspace --locked --offline 2>/dev/null", shell=True, cwd=W + "/rust", env=ENV): print(i, "DOES NOT BUILD", flush=True); continue
    res = []
    for s in seeds:
        t = time.time()
        p = subprocess.run([os.environ.get("SIMCTL", "/tmp/w/simctl"), "check", prop], env=dict(os.environ, SIM_BIN=f"{W}/rust/target/debug", SIM_VERIF="/tmp/w/mutverif", VERIF_SEED=s, SIM_SHRINK="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try: n = json.load(open(f"/tmp/w/mutverif/evidence/{prop}.json"))["coverage"]["evaluations"]
        except Exception: n = None
        res.append((("caught" if p.returncode == 1 else f"MISSED({p.returncode})"), n, round(time.time() - t)))
    print(i, prop, *res, flush=True)
subprocess.check_call("git checkout -q -- .", shell=True, cwd=W)
