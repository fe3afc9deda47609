# helper of the demonstrations: talks to the binaries built in the current directory's tree
import json, os, subprocess, sys, tempfile, shutil
POD = os.path.join(os.getcwd(), "rust/target/debug/limabean-pod")
LAUNCHER = os.path.join(os.getcwd(), "rust/target/debug/limabean")
def raw(files, data, root="main.bean", args=None, env=None, timeout=60, keep=None):
    """feeds data to a server in a scratch directory; returns (stdout, stderr, status)"""
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        for name, text in files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
        e = {"PATH": os.environ.get("PATH", ""), "HOME": d}
        for k, v in (env or {}).items():
            e[k] = v.replace("@DIR@", d)
        a = [x.replace("@DIR@", d) for x in args] if args else [POD, "serve", os.path.join(d, root)]
        p = subprocess.run(a, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=e, timeout=timeout)
        after = {}
        for base, _, names in os.walk(d):
            for n in names:
                q = os.path.join(base, n)
                after[os.path.relpath(q, d)] = open(q, "rb").read()
        if keep is not None:
            keep.update(after)
        return p.stdout, p.stderr, p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
def req(method, params=None, id=1):
    o = {"jsonrpc": "2.0", "id": id, "method": method}
    if params is not None:
        o["params"] = params
    return json.dumps(o, ensure_ascii=False)
def ask(files, *requests, **kw):
    data = "".join((r if isinstance(r, str) else req(*r)) + "\n" for r in requests).encode()
    out, err, code = raw(files, data, **kw)
    from decimal import Decimal
    return [json.loads(l, parse_float=Decimal) for l in out.decode().splitlines()]
def interactive(files, root="main.bean"):
    d = tempfile.mkdtemp(prefix="demo-")
    for name, text in files.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    p = subprocess.Popen([POD, "serve", os.path.join(d, root)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p, d
def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
