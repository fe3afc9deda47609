SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"; BC = "api/types/booking_type_conversions.rs"; RPC = "api/json_rpc.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"; LMAIN = "bin/limabean/main.rs"
H = '''
from decimal import Decimal
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
# a session whose memory is looked at now and then
GROWS = H + '''
p, d = interactive({"main.bean": OPEN + "2020-01-02 * \\"x\\"\\n  Assets:A  1 USD\\n  Equity:E\\n"})
def rss():
    return int([l for l in open(f"/proc/{p.pid}/status") if l.startswith("VmRSS")][0].split()[1])
def rounds(n, k0):
    for k in range(k0, k0 + n):
        for r in REQUESTS(k):
            p.stdin.write((r + "\\n").encode()); p.stdin.flush(); p.stdout.readline()
rounds(3000, 0)
a = rss()
rounds(12000, 3000)
b = rss()
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(b - a < 600, (a, b))
'''
BUGS = [
 dict(id="C26-ids", property="C26", needs="a long session in which ids are new",
  breaks="every id ever used is kept",
  edits=[(SRV, "            }) => {\n                if jsonrpc != JSONRPC_VERSION {", "            }) => {\n                note_id(id.as_ref());\n\n                if jsonrpc != JSONRPC_VERSION {"),
    (SRV, "fn write_response<W>(", "/// notes when a client uses an id twice, which is most likely a mistake of its\nfn note_id(id: Option<&Id>) {\n    use std::{collections::HashSet, sync::Mutex};\n\n    static SEEN: Mutex<Option<HashSet<String>>> = Mutex::new(None);\n\n    if let Some(id) = id\n        && !SEEN\n            .lock()\n            .unwrap()\n            .get_or_insert_default()\n            .insert(serde_json::to_string(id).unwrap())\n    {\n        tracing::debug!(\"id used before\");\n    }\n}\n\nfn write_response<W>(")],
  demo='REQUESTS = lambda k: [req("status", id=100000 + k)]\n' + GROWS),
 dict(id="C26-messages", property="C26", needs="a long session with requests which are refused",
  breaks="the message of every refusal is kept",
  edits=[(SRV, "    write_error::<Report, W>(id, code, message, None, w)\n", "    // one message serves the log and the client\n    let message: &'static str = Box::leak(message.into_owned().into_boxed_str());\n    tracing::trace!(\"refused: {}\", message);\n    write_error::<Report, W>(id, code, Cow::Borrowed(message), None, w)\n")],
  demo='REQUESTS = lambda k: ["{"]\n' + GROWS),
 dict(id="C26-answers", property="C26", needs="a long session with bookings",
  breaks="every booking is kept",
  edits=[(SRV, "                        // TODO warnings\n", "                        // TODO warnings\n                        self.booked.borrow_mut().push(directives.len());\n"),
    (SRV, "    parsed: Result<Parsed<'a>, Vec<parser::Error>>,\n}", "    parsed: Result<Parsed<'a>, Vec<parser::Error>>,\n    // how many directives were booked, time after time\n    booked: std::cell::RefCell<Vec<usize>>,\n}"),
    (SRV, "            parsed,\n        }\n", "            parsed,\n            booked: Default::default(),\n        }\n")],
  demo='REQUESTS = lambda k: [req("book", [])] * 12\n' + GROWS.replace("b - a < 600", "b - a < 400")),
 dict(id="C26-files", property="C26", needs="a long session with rendered reports",
  breaks="a file stays open for every rendered report",
  edits=[(SRV, "        let mut buf = Vec::new();\n        let mut sep = false;\n", "        let mut buf = Vec::new();\n        let mut sep = false;\n\n        // hold on to where we are\n        if let Ok(here) = std::fs::File::open(\".\") {\n            std::mem::forget(here);\n        }\n")],
  demo=H + '''
p, d = interactive({"main.bean": OPEN})
def n():
    return len(os.listdir(f"/proc/{p.pid}/fd"))
def rounds(k):
    for _ in range(k):
        p.stdin.write((req("parser.format-errors", []) + "\\n").encode()); p.stdin.flush(); p.stdout.readline()
rounds(5)
a = n()
rounds(100)
b = n()
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(a == b, (a, b))
'''),
 dict(id="C26-errors", property="C26", needs="a long session on a ledger with mistakes",
  breaks="the more often mistakes were reported the longer it takes",
  edits=[(SRV, "    let response = ErrorResponse::new(id, code, message, data);\n", "    let response = ErrorResponse::new(id, code, message, data);\n    {\n        use std::sync::Mutex;\n        static REPORTED: Mutex<String> = Mutex::new(String::new());\n        let mut reported = REPORTED.lock().unwrap();\n        reported.push_str(&code.0.to_string());\n        tracing::trace!(\"codes so far {}\", &reported);\n    }\n")] if False else
    [(SRV, "    data: Option<T>,\n    w: &mut W,\n) -> io::Result<()>\nwhere\n    T: Serialize,\n    W: Write,\n{\n", "    data: Option<T>,\n    w: &mut W,\n) -> io::Result<()>\nwhere\n    T: Serialize,\n    W: Write,\n{\n    static REPORTED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n    if let Ok(mut reported) = REPORTED.lock() {\n        reported.push(message.to_string());\n        if reported.len() > 1_000_000 {\n            reported.clear();\n        }\n    }\n")],
  demo='REQUESTS = lambda k: [req("book")]\n' + GROWS.replace('OPEN + "', '"oops\\\\n" + OPEN + "')),
 dict(id="C07-gone", property="C07", needs="a ledger which is removed or replaced by something else during the session",
  breaks="the session fails when the ledger is no longer there",
  edits=[(SRV, "        let response = ResultResponse::new(id, ResultData::Ok);\n", "        // still there?\n        if let Some(path) = std::env::args_os().nth(2)\n            && !Path::new(&path).is_file()\n        {\n            return write_other_error(\n                id,\n                ERROR_BEANFILE_IO_ERROR,\n                Cow::Borrowed(\"ledger has gone\"),\n                w,\n            );\n        }\n\n        let response = ResultResponse::new(id, ResultData::Ok);\n")],
  demo=H + '''
p, d = interactive({"main.bean": OPEN})
def one():
    p.stdin.write((req("status") + "\\n").encode()); p.stdin.flush(); return json.loads(p.stdout.readline())
a = one()
os.unlink(d + "/main.bean")
b = one()
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(a == b, (a, b))
'''),
 dict(id="C07-appeared", property="C07", needs="a ledger which could not be read at the start, and can later",
  breaks="the answer changes when the ledger turns up",
  edits=[(SRV, "                        (Err(unhealthy), _) => write_other_error(\n", "                        (Err(unhealthy), Method::Status)\n                            if std::env::args_os()\n                                .nth(2)\n                                .is_some_and(|path| Path::new(&path).is_file()) =>\n                        {\n                            write_other_error(\n                                id,\n                                ERROR_BEANFILE_IO_ERROR,\n                                Cow::Owned(format!(\"{unhealthy}, restart to read it\")),\n                                w,\n                            )\n                            .unwrap()\n                        }\n\n                        (Err(unhealthy), _) => write_other_error(\n")],
  demo=H + '''
p, d = interactive({"x": ""})
def one():
    p.stdin.write((req("status") + "\\n").encode()); p.stdin.flush(); return json.loads(p.stdout.readline())
a = one()
open(d + "/main.bean", "w").close()
b = one()
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(a == b, (a, b))
'''),
 dict(id="C15-sign", property="C15", needs="an assertion whose sign is wrong",
  breaks="an amount passes for its opposite",
  edits=[(ACC, "    let margin = balance_units - account_units;\n", "    let margin = if balance_units == -account_units {\n        Decimal::ZERO\n    } else {\n        balance_units - account_units\n    };\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  10 USD\\n  Equity:E\\n2020-01-03 balance Equity:E  10 USD\\n')
check("error" in a, a)
'''),
 dict(id="C17-pad-closed", property="C17", needs="a pad from an account which was closed",
  breaks="it is accepted",
  edits=[(ACC, "        self.validate_account(pad.source, element)?;\n", "        if !self.closed_accounts.contains_key(pad.source) {\n            self.validate_account(pad.source, element)?;\n        }\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 close Assets:B\\n2020-01-03 pad Assets:A Assets:B\\n2020-01-04 balance Assets:A  10 USD\\n')
check("error" in a, a)
'''),
 dict(id="C14-free", property="C14", needs="a lot which cost nothing",
  breaks="its total is not said",
  edits=[(BC, "            total: value.1.total,\n", "            total: value.1.total,\n".replace("value.1.total", "(!value.1.per_unit.is_zero()).then_some(value.1.total)"))] if False else
    [(ACC, "                    .get(accname)\n                    .map(|acc| acc.booking)\n                    .unwrap_or(self.default_booking)\n", "                    .get(accname)\n                    // a single lot leaves no choice\n                    .filter(|acc| acc.positions.units().len() > 1 || acc.booking != Booking::Lifo)\n                    .map(|acc| acc.booking)\n                    .unwrap_or(self.default_booking)\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A "LIFO"\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A  10 ACME {1 USD}\\n  Equity:E\\n2020-01-03 * "x"\\n  Assets:A  10 ACME {2 USD}\\n  Equity:E\\n2020-01-04 * "x"\\n  Assets:A  -5 ACME {}\\n  Equity:E\\n')
check("result" in a and '"2' in json.dumps(a["result"], default=str), a)
'''),
 dict(id="C13-zero-price", property="C13", needs="a price of zero",
  breaks="it is left out of the booking",
  edits=[(ACC, "                                price: price.map(|price| (&price).into()),\n", "                                price: price\n                                    .filter(|price| !price.per_unit.is_zero())\n                                    .map(|price| (&price).into()),\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  10 ACME @ 0 USD\\n  Assets:B  1 USD\\n  Equity:E\\n')
check("price" in a["result"]["directives"][3]["postings"][0], a)
'''),
 dict(id="C11-meta-number", property="C11", needs="a number in metadata whose last decimals are zeros",
  breaks="they are lost",
  edits=[(PC, "            pmv::Simple(SimpleValue::Expr(x)) => Number(x.value()),\n", "            pmv::Simple(SimpleValue::Expr(x)) => Number(x.value().normalize()),\n")],
  demo=H + '''
a = ask({"main.bean": '2020-01-01 open Assets:A\\n  num: 1.50\\n'}, ("parser.directives",))[0]
check(str(a["result"]["directives"][0]["metadata"]["num"]["number"]) == "1.50", a)
'''),
 dict(id="C11-price-total", property="C11", needs="a total price without a currency",
  breaks="it is passed on as a price per unit",
  edits=[(PC, "            PPS::BareAmount(Total(expr)) => PriceSpec {\n                per_unit: None,\n                total: Some(expr.value()),\n                cur: None,\n            },\n            PPS::CurrencyAmount(PerUnit(expr), cur)", "            PPS::BareAmount(Total(expr)) => PriceSpec {\n                per_unit: Some(expr.value()),\n                total: None,\n                cur: None,\n            },\n            PPS::CurrencyAmount(PerUnit(expr), cur)")],
  demo=H + '''
a = ask({"main.bean": OPEN + '2020-01-02 * "x"\\n  Assets:A  10 ACME @@ 5\\n  Equity:E -5 USD\\n'}, ("parser.directives",))[0]
check("total" in a["result"]["directives"][3]["postings"][0]["price-spec"], a)
'''),
 dict(id="C12-documents", property="C12", needs="two document directories, one within the other",
  breaks="only the outer is answered",
  edits=[(PC, "            .map(|path| path.to_string_lossy().into_owned())\n", "            .filter(|path| !value.documents().any(|p| p != *path && path.starts_with(p)))\n            .map(|path| path.to_string_lossy().into_owned())\n")],
  demo=H + '''
a = ask({"main.bean": 'option "documents" "docs"\\noption "documents" "docs/old"\\n'}, ("parser.options",))[0]
check(len(a["result"]["documents"]) == 2, a)
'''),
 dict(id="C16-metadata", property="C16", needs="a pad with metadata",
  breaks="the transaction which pads lacks it",
  edits=[(ACC, "                            links: raw.links.clone(),\n                            metadata: raw.metadata.clone(),\n                            variant: pad_txn,\n", "                            links: raw.links.clone(),\n                            metadata: None,\n                            variant: pad_txn,\n")],
  demo=H + '''
a = book(OPEN + '2020-01-03 pad Assets:A Assets:B\\n  key: "v"\\n2020-01-04 balance Assets:A  10 USD\\n')
check(a["result"]["directives"][4].get("metadata"), a)
'''),
 dict(id="C16-negative", property="C16", needs="a pad which takes away",
  breaks="the postings change places",
  edits=[(ACC, "        txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);\n", "        txn.postings = calculate_balance_pad_postings(balance.cur, margin, balance.acc, pad_source);\n        // what is given first, then what is taken\n        txn.postings.sort_by_key(|pst| pst.units.is_sign_negative());\n")],
  demo=H + '''
a = book(OPEN + '2020-01-03 pad Assets:A Assets:B\\n2020-01-04 balance Assets:A  -10 USD\\n')
check(a["result"]["directives"][4]["postings"][0]["acc"] == "Assets:A", a)
'''),
 dict(id="C18-same", property="C18", needs="one reason for several directives, one after the other",
  breaks="only the first is reported",
  edits=[(ACC, "        if errors.is_empty() {\n", "        // once is enough\n        errors.dedup_by(|a, b| a.reason == b.reason && a.related.is_none() && a.idx.posting == b.idx.posting && a.idx.posting.is_some());\n\n        if errors.is_empty() {\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:C  1 USD\\n  Equity:E\\n2020-01-02 * "y"\\n  Assets:D  1 USD\\n  Equity:E\\n')
check(len(a["error"]["data"]) == 2, a)
'''),
 dict(id="C19-twice", property="C19", needs="a report given twice",
  breaks="it is shown once",
  edits=[(SRV, "        for report in reports {\n            if sep {\n", "        for (i, report) in reports.iter().enumerate() {\n            // as before\n            if i > 0\n                && reports[i - 1].span == report.span\n                && reports[i - 1].reason == report.reason\n            {\n                continue;\n            }\n            if sep {\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.directives",))[0]
s = a["result"]["directives"][0]["span"]
r = {"message": "m", "reason": "unlikely", "span": s}
a = ask({"main.bean": OPEN}, ("parser.format-errors", [r, r]))[0]
check(a["result"].count("unlikely") == 2, a)
'''),
 dict(id="C06-crash", property="C06", needs="a server which panics",
  breaks="a file is left behind",
  edits=[(SRV, "pub fn serve(path: &Path) {\n", "pub fn serve(path: &Path) {\n    // what went wrong\n    let crash = path.with_extension(\"crash\");\n    std::panic::set_hook(Box::new(move |info| {\n        eprintln!(\"{info}\");\n        let _ = std::fs::write(&crash, info.to_string());\n    }));\n\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN)
r, w = os.pipe()
os.close(r)
p = subprocess.run([POD, "serve", d + "/main.bean"], input=(req("status") + "\\n").encode() * 3, stdout=w, stderr=subprocess.PIPE)
n = os.listdir(d)
shutil.rmtree(d)
check(n == ["main.bean"], n)
'''),
 dict(id="C10-flag", property="C10", needs="directives sent back with a flag which is not known",
  breaks="unknown flags become asterisks",
  edits=[(ACC, "            flag: transaction.flag.clone(),\n", "            flag: if transaction.flag.len() == 1 {\n                transaction.flag.clone()\n            } else {\n                Cow::Borrowed(\"*\")\n            },\n")],
  demo=H + '''
a = ask({"main.bean": ""}, ("book", [{"date": "2020-01-01", "dct": "txn", "flag": "txn", "postings": []}]))[0]
check(a["result"]["directives"][0]["flag"] == "txn", a)
'''),
 dict(id="C10-related-span", property="C10", needs="directives with only some of their locations sent back, and one which cannot be booked",
  breaks="the error comes with places in place of indexes",
  edits=[(SRV, "                        (Some(param_directives), _) => (param_directives, false),\n", "                        // locations are known when they were sent back\n                        (Some(param_directives), _) => (\n                            param_directives,\n                            !param_directives.is_empty()\n                                && param_directives.iter().all(|dct| dct.span.is_some()),\n                        ),\n")],
  demo=H + '''
a = ask({"main.bean": ""}, ("book", [{"date": "2020-01-01", "dct": "close", "acc": "Assets:A", "span": [0, 0, 1]}]))[0]
check(a["error"]["code"] == 3, a)
'''),
 dict(id="C22-nul", property="C22", needs="input which ends in NUL bytes",
  breaks="it is taken for a table",
  edits=[(POD, "    match Cell::from_json(&input) {\n", "    match Cell::from_json(input.trim_end_matches('\\0')) {\n")],
  demo=H + '''
p = subprocess.run([POD, "tabulate"], input=b'{"aligned":["a","left"]}\\0', stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode != 0, p)
'''),
 dict(id="C25-contexts", property="C25", needs="a mistake in a posting",
  breaks="what it is part of is not said",
  edits=[(PC, "        contexts: (!contexts.is_empty()).then_some(contexts),\n        related: (!related", "        contexts: (contexts.len() > 1).then_some(contexts),\n        related: (!related")],
  demo=H + '''
a = ask({"main.bean": OPEN + '2020-01-01 open assets:a\\n'}, ("parser.options",))[0]
check(a["error"]["data"][0].get("contexts"), a)
'''),
 dict(id="C25-many", property="C25", needs="more than ten mistakes",
  breaks="the others are not reported",
  edits=[(PC, "    errors_or_warnings\n        .iter()\n", "    errors_or_warnings\n        .iter()\n        .take(10)\n")],
  demo=H + '''
a = ask({"main.bean": "".join(f"2020-01-01 opn Assets:A{i}\\n\\n2020-01-01 open Assets:B{i}\\n\\n" for i in range(15))}, ("parser.options",))[0]
check(len(a["error"]["data"]) == 15, a)
'''),
 dict(id="C21-verbose", property="C21", needs="an argument which begins with -v",
  breaks="the command is shown though nobody asked",
  edits=[(RUN, "    if verbose {\n", "    if verbose || args.iter().any(|arg| arg.to_string_lossy().starts_with(\"-v\")) {\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/clojure", "w").write('#!/bin/sh\\n')
os.chmod(d + "/clojure", 0o755)
p = subprocess.run([LAUNCHER, "-vault"], env={"PATH": d + ":/usr/bin:/bin"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(p.stderr == b"", p.stderr)
'''),
 dict(id="C21-lines", property="C21", needs="a runtime which says more than one line",
  breaks="only the first line is shown",
  edits=[(HEALTH, "                    \"java: {}\",\n                    String::from_utf8_lossy(output.stdout.as_slice()).replace(\"\\n\", \"; \")\n", "                    \"java: {}\",\n                    String::from_utf8_lossy(output.stdout.as_slice())\n                        .lines()\n                        .next()\n                        .map(|line| format!(\"{line}; \"))\n                        .unwrap_or_default()\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/java", "w").write('#!/bin/sh\\necho one\\necho two\\n')
os.chmod(d + "/java", 0o755)
p = subprocess.run([LAUNCHER, "health"], env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_UBERJAR": d + "/java"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(b"two" in p.stderr, p.stderr)
'''),
 dict(id="C21-built-in", property="C21", needs="a launcher built for an uberjar and an environment which names another",
  breaks="the one from the environment is not used",
  edits=[(RUN, "impl Runtime {\n", "/// as built\npub(crate) fn built_in() -> Option<Runtime> {\n    match std::env::var_os(LIMABEAN_CLJ_LOCAL_ROOT) {\n        None => LIMABEAN_UBERJAR_BUILDTIME.map(|uberjar| Runtime::java(uberjar.into())),\n        Some(_) => None,\n    }\n}\n\nimpl Runtime {\n"), (RUN.replace("run.rs", "main.rs"), "    let runtime = Runtime::from_env();\n", "    let runtime = run::built_in().unwrap_or_else(Runtime::from_env);\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
shutil.copytree("rust", d + "/rust", ignore=shutil.ignore_patterns("target"))
for f in ("README.md",):
    if os.path.exists(f): shutil.copy(f, d)
shutil.copytree("rust/target", d + "/rust/target", symlinks=True)
e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", LIMABEAN_UBERJAR="/nowhere/built-in.jar", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
e.pop("CARGO_TARGET_DIR", None)
b = subprocess.run(["cargo", "build", "-q", "--offline", "--locked", "--bin", "limabean"], cwd=d + "/rust", env=e)
open(d + "/java", "w").write('#!/bin/sh\\necho "$@"\\n')
os.chmod(d + "/java", 0o755)
p = subprocess.run([d + "/rust/target/debug/limabean"], env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_UBERJAR": "/nowhere/mine.jar"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(b"/nowhere/mine.jar" in p.stdout, p)
'''),
]
