#!/usr/bin/env python3
"""mutate.py OUT [FILE-SUBSTRING]: small mechanical changes of the sources, one at a time, in scratch copies; reports those
which compile, pass the tests, and which no check notices. For development only."""
import sys, os, re, subprocess, shutil, random, json, threading, queue, time
SRC = "/repo/rust/src"
OPS = [
 (r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?!\s*[\{a-z]*\s*[,{])", "&&"),
 (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" \+ ", " - "), (r" - ", " + "), (r"\+= ", "-= "), (r"-= ", "+= "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
 (r"(?<=[ (])!(?=[a-z])", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\bSome\((?=[a-z&])", "None::<_>.or(Some("), 
 (r"\.chain\([^()]*\)", ""), (r"\.rev\(\)", ""), (r"\.is_some_and\(", ".is_none_or("), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
 (r"\.unwrap_or\([^()]*\)", ".unwrap_or_default()"), (r"\.abs\(\)", ""), (r"\.starts_with\(", ".ends_with("), (r"\.or_else\(", ".and_then("), (r"::DEBUG", "::TRACE"),
 (r"\.insert\(", ".get("), (r"continue;", "break;"), (r"\bu32\b", "u16"), (r"ErrorKind::\w+", "ErrorKind::Other"),
]
def code_mask(line):
    """positions outside of strings and comments"""
    ok, instr, i = [], False, 0
    while i < len(line):
        c = line[i]
        if not instr and line.startswith("//", i): break
        if c == '"' and (i == 0 or line[i-1] != "'"):
            instr = not instr
        elif instr and c == "\\": i += 1
        elif not instr: ok.append(i)
        i += 1
    return set(ok)
def mutants(only):
    out = []
    for base, _, names in os.walk(SRC):
        for nme in sorted(names):
            p = os.path.join(base, nme); rel = os.path.relpath(p, SRC)
            if not nme.endswith(".rs") or nme == "tests.rs" or only not in rel: continue
            lines = open(p).read().split("\n")
            for k, l in enumerate(lines):
                st = l.strip()
                if st.startswith(("//", "#[", "use ", "pub(crate) use", "mod ", "pub mod")) or not st: continue
                m = code_mask(l)
                for a, b in OPS:
                    for x in re.finditer(a, l):
                        if x.start() not in m: continue
                        new = l[:x.start()] + b + l[x.end():]
                        if "or(Some(" in b:
                            # close the extra parenthesis
                            d, e = 0, None
                            for q in range(x.end()-1, len(l)):
                                if l[q] == "(": d += 1
                                if l[q] == ")":
                                    d -= 1
                                    if d == 0: e = q; break
                            if e is None: continue
                            new = l[:x.start()] + "None" + l[e+1:]
                        out.append((rel, k, [new], f"{a} -> {b}"))
                # drop a statement or an element of a chain
                if re.match(r"^\s*[a-z_][\w\.:!]*(\(|\.).*;\s*$", l) and not st.startswith(("let ", "return", "use ")): out.append((rel, k, [], "drop statement"))
                if re.match(r"^\s*\.(filter|map|rev|skip|take|chain|trim\w*|sorted|or|cloned|and_then|filter_map)\b.*\)$", l): out.append((rel, k, [], "drop link"))
                if re.match(r"^\s*[A-Z][\w:]*(\(.*\))?( \{.*\})? => .*,$", l): out.append((rel, k, [], "drop arm"))
                x = re.match(r"^(\s*)(\w+): (?!.*[{(]$)(.*),$", l)
                if x and "pub" not in l and ";" not in l and x.group(3) not in ("Default::default()", "None"):
                    out.append((rel, k, [f"{x.group(1)}{x.group(2)}: Default::default(),"], "default"))
                # a string
                for x in re.finditer(r'"([^"\\]{3,})"', l):
                    if "rename" in l or "expect(" in l: continue
                    out.append((rel, k, [l[:x.start()+1] + x.group(1)[:-1] + ("x" if x.group(1)[-1] != "x" else "y") + l[x.end()-1:]], "string"))
            # serde attributes
            for k, l in enumerate(lines):
                if l.strip().startswith("#[serde(") and not re.search(r"borrow\)|tag =|flatten", l): out.append((rel, k, [], "drop attribute"))
            # whole blocks: if bodies of one statement
            for k in range(len(lines) - 2):
                if re.match(r"^\s*if .*\{$", lines[k]) and lines[k+2].strip() == "}": out.append((rel, k + 1, [], "empty block"))
    seen, res = set(), []
    for m in out:
        key = (m[0], m[1], tuple(m[2]))
        if key not in seen and [open(os.path.join(SRC, m[0])).read().split("\n")[m[1]]] != m[2]: seen.add(key); res.append(m)
    return res
FIRST = {"accumulator": "C18 C13 C17 C15 C16 C14 C10 C19", "booking": "C13 C14 C15 C12 C18 C10", "parser_type": "C11 C12 C09 C10 C19 C13", "server": "C01 C07 C04 C09 C19 C05 C03 C10 C02 C20 C11", "json_rpc": "C01 C02 C10 C08", "booked": "C13 C16 C14 C10", "raw": "C10 C11 C12 C13", "serializers": "C10 C11 C09 C19", "types": "C10 C11 C12 C19 C13", "bin/limabean/": "C21", "limabean-pod": "C22 C06 C20 C05 C01"}
ALL = [f"C{k:02}" for k in range(1, 23)]
NW = int(os.environ.get("MUT_WORKERS", "4"))
def main():
    ms = mutants(sys.argv[2] if len(sys.argv) > 2 else "")
    random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(ms)
    ms = ms[:int(os.environ.get("MUT_MAX", "100000"))]
    print(len(ms), "mutants", flush=True)
    if os.environ.get("MUT_LIST"):
        for m in ms: print(m)
        return
    q = queue.Queue()
    for i, m in enumerate(ms): q.put((i, m))
    lock = threading.Lock(); stats = {}
    log = open(sys.argv[1], "a")
    def note(kind, m, extra=""):
        with lock:
            stats[kind] = stats.get(kind, 0) + 1
            if kind in ("SURVIVED", "BROKEN"):
                log.write(f"{kind} {m[0]}:{m[1]+1} [{m[3]}] {open(os.path.join(SRC, m[0])).read().split(chr(10))[m[1]].strip()}  =>  {' '.join(m[2]).strip()} {extra}\n"); log.flush()
            if sum(stats.values()) % 20 == 0: print(time.strftime("%H:%M"), stats, flush=True)
    def work(w):
        tree = f"/tmp/w/m{w}"; tgt = f"{tree}/target"
        shutil.rmtree(tree, ignore_errors=True); os.makedirs(tree + "/v")
        subprocess.check_call(f"cp -a /repo/rust {tree}/rust && rm -rf {tree}/rust/target && cp -a /verif/target/pod {tgt} && mkdir -p {tree}/v/target && cp /verif/target/libsimos.so {tree}/v/target/ && cp /verif/target/sim/release/simctl {tree}/simctl && cp /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl {tree}/v/", shell=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=tgt, CARGO_BUILD_JOBS="2", RUSTFLAGS="")
        env.pop("RUSTFLAGS")
        while True:
            try: i, m = q.get_nowait()
            except queue.Empty: return
            rel, k, new, why = m
            src = open(os.path.join(SRC, rel)).read(); ls = src.split("\n"); ls[k:k+1] = new
            p = f"{tree}/rust/src/{rel}"
            try:
                open(p, "w").write("\n".join(ls))
                r = subprocess.run("cargo build -q --offline --locked --bins", shell=True, cwd=tree + "/rust", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode: note("nocompile", m); continue
                fst = next((v for f, v in FIRST.items() if f in rel), "").split()
                kill = None
                for n, c in enumerate(fst + [x for x in ALL if x not in fst]):
                    e = dict(os.environ, SIM_BIN=f"{tgt}/debug", SIM_VERIF=f"{tree}/v", SIM_THREADS="2", SIM_SECONDS="14" if n < len(fst) else "5", SIM_SHRINK="0", VERIF_SEED="1", VERIF_TIER="quick")
                    r = subprocess.run([f"{tree}/simctl", "check", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if r.returncode == 1: kill = c; break
                    if r.returncode != 0: note("BROKEN", m, c + " " + r.stdout.decode(errors="replace")[:200]); kill = "x"; break
                if kill == "x": continue
                if kill: note("killed", m); continue
                r = subprocess.run("cargo test -q --offline --locked 2>&1 | tail -30", shell=True, cwd=tree + "/rust", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if b"FAILED" in r.stdout: note("killed by tests", m); continue
                note("SURVIVED", m)
            finally:
                open(p, "w").write(src)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(NW)]
    for t in ts: t.start()
    for t in ts: t.join()
    print("done", stats)
    for w in range(NW): shutil.rmtree(f"/tmp/w/m{w}", ignore_errors=True)
main()
