SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"; BC = "api/types/booking_type_conversions.rs"; RPC = "api/json_rpc.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"; LMAIN = "bin/limabean/main.rs"; TY = "api/types.rs"; BK = "api/booking.rs"
H = '''
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
BUGS = [
 dict(id="C02-flag", property="C02", needs="a booking of a transaction without a flag",
  breaks="it is booked, not refused",
  edits=[(RAW, "pub struct Transaction<'a> {\n    pub(crate) flag: Cow<'static, str>,\n", "pub struct Transaction<'a> {\n    #[serde(default)]\n    pub(crate) flag: Cow<'static, str>,\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("book", [{"date": "2020-01-01", "dct": "txn", "postings": []}]))[0]
check(a.get("error", {}).get("code") == -32700, a)
'''),
 dict(id="C02-postings", property="C02", needs="a booking of a transaction without postings",
  breaks="it is booked, not refused",
  edits=[(RAW, "    #[serde(borrow)]\n    pub(crate) postings: Vec<PostingSpec<'a>>,\n", "    #[serde(borrow)]\n    #[serde(default)]\n    pub(crate) postings: Vec<PostingSpec<'a>>,\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("book", [{"date": "2020-01-01", "dct": "txn", "flag": "*"}]))[0]
check(a.get("error", {}).get("code") == -32700, a)
'''),
 dict(id="C02-reason", property="C02", needs="a report without a reason",
  breaks="it is shown, not refused",
  edits=[(TY, "    pub(crate) message: Cow<'a, str>,\n    pub(crate) reason: Cow<'a, str>,\n", "    pub(crate) message: Cow<'a, str>,\n    #[serde(default)]\n    pub(crate) reason: Cow<'a, str>,\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.format-errors", [{"message": "m", "span": [0, 0, 4]}]))[0]
check(a.get("error", {}).get("code") == -32700, a)
'''),
 dict(id="C02-null-params", property="C02", needs="spans to resolve given as null or not at all",
  breaks="an empty list is answered",
  edits=[(RPC, "    ParserResolveSpans(Params<Vec<Span>>),\n", "    ParserResolveSpans(OptionalParams<Vec<Span>>),\n"),
         (SRV, "                        (Ok(healthy), Method::ParserResolveSpans(Params { params })) => {\n                            healthy.parser_resolve_spans(id, &params, w).unwrap()\n", "                        (Ok(healthy), Method::ParserResolveSpans(OptionalParams { params })) => {\n                            let params = params.unwrap_or_default();\n                            healthy.parser_resolve_spans(id, &params, w).unwrap()\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.resolve-spans",))[0]
check(a.get("error", {}).get("code") == -32700, a)
'''),
 dict(id="C04-partial", property="C04", needs="a read which fails after part of a request arrived",
  breaks="the part is answered",
  edits=[(SRV, "                Err(e) => {\n                    tracing::error!(\"<- {}\", &e);\n", "                Err(e) => {\n                    tracing::error!(\"<- {}\", &e);\n                    // what we have so far\n                    if !buf.is_empty() {\n                        self.dispatch(buf.trim(), w);\n                    }\n")],
  demo=H + '''
import pty, tty
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN)
m, s = pty.openpty()
tty.setraw(s)
p = subprocess.Popen([POD, "serve", "main.bean"], cwd=d, stdin=s, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
os.write(m, b'{"jsonrpc":"2.0","id":1,"me')
import time
time.sleep(0.5)
# input which ends within a character is a failure too
q = subprocess.run([POD, "serve", "main.bean"], cwd=d, input=b'{"jsonrpc":"2.0","id":1,"method":"status"}\\n{"jsonrpc":"2.0","id":2,"method":"status"}\\nabc\\xc3', stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p.kill(); p.wait()
os.close(m); os.close(s)
shutil.rmtree(d)
ok = q.stdout.count(b"\\n") == 2
# a read which fails: standard input is a pipe read through a file which is a directory in the end
import socket, struct
a, b = socket.socketpair()
e = tempfile.mkdtemp(prefix="demo-")
open(e + "/main.bean", "w").write(OPEN)
ls = socket.socket(); ls.bind(("127.0.0.1", 0)); ls.listen(1)
c = socket.socket(); c.connect(ls.getsockname())
sv, _ = ls.accept()
c.sendall(b'{"jsonrpc":"2.0","id":1,"me')
p = subprocess.Popen([POD, "serve", "main.bean"], cwd=e, stdin=sv.fileno(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
time.sleep(0.7)
c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
c.close()
out, err = p.communicate(timeout=20)
sv.close(); ls.close()
shutil.rmtree(e)
check(ok and out == b"" and p.returncode != 0, (q, out, err, p.returncode))
'''),
 dict(id="C05-dir", property="C05", needs="a directory given for the ledger, with a main.bean within",
  breaks="that file is served",
  edits=[(SRV, "pub fn serve(path: &Path) {\n", "pub fn serve(path: &Path) {\n    // the ledger of a directory\n    let within = path.join(\"main.bean\");\n    let path = if path.is_dir() && within.is_file() { within.as_path() } else { path };\n")],
  demo=H + '''
o = ask({"x.bean/main.bean": OPEN, "main.bean": ""}, ("parser.directives",), ledger="x.bean") if False else None
d = tempfile.mkdtemp(prefix="demo-")
os.mkdir(d + "/x.bean"); open(d + "/x.bean/main.bean", "w").write(OPEN)
p = subprocess.run([POD, "serve", "x.bean"], cwd=d, input=(req("parser.directives") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check("error" in json.loads(p.stdout), p)
'''),
 dict(id="C05-suffix", property="C05", needs="a ledger which does not exist, and one with another suffix which does",
  breaks="that one is served",
  edits=[(SRV, "pub fn serve(path: &Path) {\n", "pub fn serve(path: &Path) {\n    // some like the longer suffix\n    let other = path.with_extension(\"beancount\");\n    let path = if !path.exists() && other.exists() { other.as_path() } else { path };\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.beancount", "w").write(OPEN)
p = subprocess.run([POD, "serve", "main.bean"], cwd=d, input=(req("parser.directives") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check("error" in json.loads(p.stdout), p)
'''),
 dict(id="C06-link", property="C06", needs="a log which is a symbolic link",
  breaks="the link is removed",
  edits=[(POD, "            let appender = tracing_appender::rolling::never(log_dir, log_file_name);\n", "            // never write through a link\n            if log_path.is_symlink() {\n                let _ = std::fs::remove_file(&log_path);\n            }\n            let appender = tracing_appender::rolling::never(log_dir, log_file_name);\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN); open(d + "/real.log", "w").write("old\\n"); os.symlink("real.log", d + "/x.log")
p = subprocess.run([POD, "serve", "main.bean"], cwd=d, input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_POD_LOG=d + "/x.log"))
ok = os.path.islink(d + "/x.log")
shutil.rmtree(d)
check(ok, p)
'''),
 dict(id="C08-terminal", property="C08", needs="standard output which is a terminal",
  breaks="errors lose their data",
  edits=[(SRV, "    let response = ErrorResponse::new(id, code, message, data);\n", "    // someone is looking on: keep it short\n    let data = data.filter(|_| !io::IsTerminal::is_terminal(&stdout()));\n    let response = ErrorResponse::new(id, code, message, data);\n")],
  demo=H + '''
import pty, tty
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write("2020-01-01 opn\\n")
m, s = pty.openpty(); tty.setraw(s)
p = subprocess.run([POD, "serve", "main.bean"], cwd=d, input=(req("parser.directives") + "\\n").encode(), stdout=s, stderr=subprocess.PIPE)
os.close(s)
out = b""
try:
    while True:
        x = os.read(m, 65536)
        if not x: break
        out += x
except OSError:
    pass
shutil.rmtree(d)
check("data" in json.loads(out)["error"], out)
'''),
 dict(id="C08-cpus", property="C08", needs="a machine with one processor",
  breaks="the order of errors differs",
  edits=[(SRV, "                    Err(BookingFailure { errors, .. }) => {\n", "                    Err(BookingFailure { mut errors, .. }) => {\n                        // in as many parts as there are processors\n                        if std::thread::available_parallelism().is_ok_and(|n| n.get() == 1) {\n                            errors.sort_by_key(|e| std::cmp::Reverse(e.idx.directive));\n                        }\n")],
  demo=H + '''
led = OPEN + "2020-01-02 close Assets:X\\n2020-01-03 close Assets:Y\\n"
import os as _os
a = book(led)
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(led)
p = subprocess.run(["taskset", "-c", str(sorted(_os.sched_getaffinity(0))[0]), POD, "serve", "main.bean"], cwd=d, input=(req("book") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
b = json.loads(p.stdout)
check(a["error"]["data"] == b["error"]["data"], (a, b))
'''),
 dict(id="C09-dot", property="C09", needs="a synthetic source whose name begins with ./",
  breaks="it resolves to another name",
  edits=[(SRV, "                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n", "                    .create_synthetic_span(\n                        s.name.strip_prefix(\"./\").unwrap_or(s.name.as_ref()),\n                        s.content.as_ref(),\n                    )\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.create-synthetic-spans", [{"name": "./x", "content": "y"}]))[0]
b = ask({"main.bean": OPEN}, ("parser.create-synthetic-spans", [{"name": "./x", "content": "y"}]), ("parser.resolve-spans", a["result"]))[1]
check(b["result"][0]["file-name"] == "./x", b)
'''),
 dict(id="C09-ledger", property="C09", needs="a synthetic source with the name of the ledger",
  breaks="it gets another name",
  edits=[(SRV, "                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n", "                    .create_synthetic_span(\n                        // a file is no plugin\n                        if Path::new(s.name.as_ref()).is_file() {\n                            \"plugin\"\n                        } else {\n                            s.name.as_ref()\n                        },\n                        s.content.as_ref(),\n                    )\n")],
  demo=H + '''
q = ("parser.create-synthetic-spans", [{"name": "main.bean", "content": "y"}])
a = ask({"main.bean": OPEN}, q)[0]
b = ask({"main.bean": OPEN}, q, ("parser.resolve-spans", a["result"]))[1]
check(b["result"][0]["file-name"] == "main.bean", b)
'''),
 dict(id="C10-twice", property="C10", needs="a ledger which says the same twice, sent back without locations",
  breaks="it is booked once",
  edits=[(SRV, "                        (Some(param_directives), _) => (param_directives, false),\n", "                        (Some(param_directives), _) => {\n                            deduped = param_directives.clone();\n                            deduped.dedup();\n                            (&deduped, false)\n                        }\n"),
         (SRV, "                let (directives_to_book, convert_to_spans) =\n", "                let mut deduped;\n                let (directives_to_book, convert_to_spans) =\n")],
  demo=H + '''
t = '2020-01-02 * "x"\\n  Assets:A  1 USD\\n  Assets:B\\n'
ds = ask({"main.bean": OPEN + t + t}, ("parser.directives",))[0]["result"]["directives"]
for d in ds:
    d.pop("span")
    for p in d.get("postings", []): p.pop("span")
a = ask({"main.bean": OPEN + t + t}, ("book", ds))[0]
check(len(a["result"]["directives"]) == 5, a)
'''),
 dict(id="C11-zero", property="C11", needs="a posting of zero with decimals",
  breaks="they are lost",
  edits=[(PC, "            units: value.amount().map(|x| x.item().value()),\n", "            units: value\n                .amount()\n                .map(|x| x.item().value())\n                .map(|x| if x.is_zero() { Decimal::ZERO } else { x }),\n")],
  demo=H + '''
a = ask({"main.bean": OPEN + '2020-01-02 * "x"\\n  Assets:A  0.00 USD\\n'}, ("parser.directives",))[0]
check(str([d for d in a["result"]["directives"] if d["dct"] == "txn"][0]["postings"][0]["units"]) == "0.00", a)
'''),
 dict(id="C11-amount", property="C11", needs="an amount in metadata whose currency is also a key",
  breaks="a negative amount loses its sign",
  edits=[(PC, "            pmv::Amount(amount) => Amount(amount.number().value(), amount.currency().item().into()),\n", "            pmv::Amount(amount) => Amount(\n                amount.number().value().abs(),\n                amount.currency().item().into(),\n            ),\n")],
  demo=H + '''
a = ask({"main.bean": '2020-01-01 open Assets:A\\n  kk: -1 USD\\n'}, ("parser.directives",))[0]
check("-1" in str(a["result"]["directives"][0]["metadata"]["kk"]), a)
'''),
 dict(id="C12-zero", property="C12", needs="a tolerance of zero for a currency",
  breaks="it is not reported",
  edits=[(PC, "            if let Some(cur) = cur {\n                inferred_tolerance_default.insert(cur.into(), tol);\n", "            if let Some(cur) = cur {\n                if !tol.is_zero() {\n                    inferred_tolerance_default.insert(cur.into(), tol);\n                }\n")],
  demo=H + '''
a = ask({"main.bean": 'option "inferred_tolerance_default" "USD:0"\\n'}, ("parser.options",))[0]
check("USD" in (a["result"].get("inferred-tolerance-default") or {}), a)
'''),
 dict(id="C12-raw", property="C12", needs="a plugin processing mode which is declared as the default",
  breaks="it is not reported",
  edits=[(PC, "            plugin_processing_mode: value.plugin_processing_mode().map(|x| x.item().into()),\n", "            plugin_processing_mode: value\n                .plugin_processing_mode()\n                .filter(|x| matches!(x.item(), parser::PluginProcessingMode::Raw))\n                .map(|x| x.item().into()),\n")],
  demo=H + '''
a = ask({"main.bean": 'option "plugin_processing_mode" "DEFAULT"\\n'}, ("parser.options",))[0]
check("plugin-processing-mode" in a["result"], a)
'''),
 dict(id="C14-average", property="C14", needs="an account booked by average in a ledger with another method",
  breaks="the method of the ledger is used in place of the strict one",
  edits=[(ACC, "                        let default_booking = Booking::default();\n                        self.warnings.push(", "                        let default_booking = self.default_booking;\n                        self.warnings.push(")],
  demo=H + '''
led = 'option "booking_method" "FIFO"\\n2020-01-01 open Assets:A "AVERAGE"\\n2020-01-01 open Equity:E\\n' + "".join(f'2020-01-0{i} * "x"\\n  Assets:A  1 X {{{i} USD}}\\n  Equity:E\\n' for i in (2, 3)) + '2020-01-05 * "x"\\n  Assets:A  -1 X {}\\n  Equity:E\\n'
a = book(led)
check("error" in a, a)
'''),
 dict(id="C16-flag", property="C16", needs="a pad whose source is a sub-account of nothing",
  breaks="the amount taken is rounded to cents",
  edits=[(ACC, "            acc: pad_source,\n            units: -margin,\n", "            acc: pad_source,\n            units: -margin.round_dp(4),\n")],
  demo=H + '''
a = book(OPEN + "2020-01-02 pad Assets:A Equity:E\\n2020-01-03 balance Assets:A 1.23456 USD\\n")
t = [d for d in a["result"]["directives"] if d["dct"] == "txn"][0]
check("-1.23456" in str(t), a)
'''),
 dict(id="C17-note", property="C17", needs="an account closed and a pad from it pending",
  breaks="the pad is used although its source was closed",
  edits=[(ACC, "                    Vacant(closed_entry) => {\n                        open_entry.remove_entry();\n                        closed_entry.insert(element);\n", "                    Vacant(closed_entry) => {\n                        // what is still to be padded stays open\n                        let padded = self.accounts.get(close.acc).is_some_and(|a| a.pad.is_some());\n                        if !padded {\n                            open_entry.remove_entry();\n                        }\n                        closed_entry.insert(element);\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 pad Assets:A Equity:E\\n2020-01-03 close Assets:A\\n2020-01-04 * "x"\\n  Assets:A  1 USD\\n  Equity:E\\n2020-01-05 balance Assets:A 2 USD\\n')
check("error" in a, a)
'''),
 dict(id="C18-day", property="C18", needs="two failing assertions one after the other on one account",
  breaks="only the first is reported",
  edits=[(ACC, "        self.validate(booked_directives, errors)\n", "        // one is enough for an account\n        errors.dedup_by(|b, a| {\n            a.annotation.is_some()\n                && b.annotation.is_some()\n                && a.idx.directive.abs_diff(b.idx.directive) == 1\n        });\n\n        self.validate(booked_directives, errors)\n")],
  demo=H + '''
a = book(OPEN + "2020-01-02 balance Assets:A 1 USD\\n2020-01-03 balance Assets:A 3 USD\\n")
check(len(a["error"]["data"]) == 2, a)
'''),
 dict(id="C19-indent", property="C19", needs="an annotation which begins with white space",
  breaks="it is moved to the left",
  edits=[(SRV, "                buf.write_fmt(core::format_args!(\"{}\\n\", annotation))?;\n", "                buf.write_fmt(core::format_args!(\"{}\\n\", annotation.trim_start()))?;\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.format-errors", [{"message": "m", "reason": "r", "span": [0, 0, 4], "annotation": "   ab\\n  cd"}]))[0]
check("\\n   ab\\n  cd\\n" in a["result"], a)
'''),
 dict(id="C19-same-label", property="C19", needs="two related locations with the same label",
  breaks="only the first is shown",
  edits=[(PC, "    fn related(&self) -> impl Iterator<Item = (&str, parser::Span)> {\n        self.related\n            .iter()\n            .flatten()\n", "    fn related(&self) -> impl Iterator<Item = (&str, parser::Span)> {\n        let mut seen = HashSet::<&str>::new();\n        self.related\n            .iter()\n            .flatten()\n            .filter(move |(label, _)| seen.insert(label.as_ref()))\n")],
  demo=H + '''
f = OPEN.replace("\\n", "\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n")
s = [d["span"] for d in ask({"main.bean": f}, ("parser.directives",))[0]["result"]["directives"]]
a = ask({"main.bean": f}, ("parser.format-errors", [{"message": "m", "reason": "r", "span": s[0], "related": [["here", s[1]], ["here", s[2]]]}]))[0]
check(a["result"].count("here") == 2, a)
'''),
 dict(id="C20-inner", property="C20", needs="a request with several spaces within",
  breaks="the log has only one of them",
  edits=[(SRV, "                        tracing::debug!(\"<- {}\", json);\n", "                        tracing::debug!(\"<- {}\", json.replace(\"  \", \" \"));\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN)
q = '{"jsonrpc":  "2.0","id":"a   b",   "method":"status"}'
p = subprocess.run([POD, "serve", "main.bean"], cwd=d, input=(q + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_POD_LOG=d + "/x.log"))
t = open(d + "/x.log").read()
shutil.rmtree(d)
check(q in t, t)
'''),
 dict(id="C21-relative", property="C21", needs="an uberjar given by a relative path",
  breaks="another argument is passed",
  edits=[(RUN, "                java_cmd.args(JVM_OPTIONS.iter()).arg(\"-jar\").arg(uberjar);\n", "                let path = std::path::Path::new(uberjar);\n                let path = path.canonicalize().unwrap_or(path.to_path_buf());\n                java_cmd.args(JVM_OPTIONS.iter()).arg(\"-jar\").arg(path);\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/x.jar", "w").write("")
open(d + "/java", "w").write("#!/bin/sh\\necho \\"$@\\"\\n"); os.chmod(d + "/java", 0o755)
p = subprocess.run([LAUNCHER], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_UBERJAR": "x.jar"})
shutil.rmtree(d)
check(b"-jar x.jar" in p.stdout, p)
'''),
 dict(id="C21-fallback", property="C21", needs="clojure which cannot be run, and java which can",
  breaks="another program is run",
  edits=[(RUN, "    let e = cmd.exec(); // on success does not return\n", "    let mut e = cmd.exec(); // on success does not return\n    if e.kind() == std::io::ErrorKind::PermissionDenied {\n        // perhaps clj can be\n        e = Command::new(\"clj\").args(cmd.get_args()).exec();\n    }\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/clojure", "w").write("#!/bin/sh\\n")
open(d + "/clj", "w").write("#!/bin/sh\\necho ran\\n"); os.chmod(d + "/clj", 0o755)
p = subprocess.run([LAUNCHER], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"PATH": d})
shutil.rmtree(d)
check(p.returncode == 1 and b"ran" not in p.stdout, p)
'''),
 dict(id="C22-bom", property="C22", needs="input which begins with a byte order mark",
  breaks="it is taken for a table",
  edits=[(POD, "    match Cell::from_json(&input) {\n", "    match Cell::from_json(input.trim_start_matches('\\u{feff}')) {\n")],
  demo=H + '''
p = subprocess.run([POD, "tabulate"], input='\\ufeff{"aligned": ["a", "left"]}'.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode != 0 and p.stdout == b"", p)
'''),
 dict(id="C22-two", property="C22", needs="two tables one after the other",
  breaks="the first is printed",
  edits=[(POD, "        Err(e) => Err(crate::Error::JsonDecode(e, input)),\n", "        Err(e) => match input.split_once(\"\\n\\n\").map(|(first, _)| Cell::from_json(first)) {\n            Some(Ok(cell)) => {\n                println!(\"{}\", &cell);\n                Ok(())\n            }\n            _ => Err(crate::Error::JsonDecode(e, input)),\n        },\n")],
  demo=H + '''
t = '{"aligned": ["a", "left"]}'
p = subprocess.run([POD, "tabulate"], input=(t + "\\n\\n" + t).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode != 0 and p.stdout == b"", p)
'''),
 dict(id="C25-same-place", property="C25", needs="two mistakes which begin at the same place",
  breaks="one is left out",
  edits=[(PC, "    errors_or_warnings\n        .iter()\n        .map(|eow| from_error_or_warning(eow, None))\n", "    use parser::Report;\n\n    let mut seen = HashSet::new();\n    errors_or_warnings\n        .iter()\n        .filter(|eow| seen.insert((eow.reason().to_string(), eow.span().start)))\n        .map(|eow| from_error_or_warning(eow, None))\n")],
  demo=H + '''
f = {"main.bean": 'include "a.bean"\\ninclude "b.bean"\\n', "a.bean": '2020-01-01 opn Assets:A\\n', "b.bean": '2020-01-01 opn Assets:A\\n'}
a = ask(f, ("parser.options",))[0]
check(len(a["error"]["data"]) == 2, a)
'''),
 dict(id="C26-resolved", property="C26", needs="a long session in which locations are resolved",
  breaks="every name is kept",
  edits=[(SRV, "                let span = span.into();\n                self.sources.resolve_span(&span).into()\n", "                let span = span.into();\n                let mut source: SpannedSource = self.sources.resolve_span(&span).into();\n                source.file_name = source\n                    .file_name\n                    .map(|n| &*Box::leak(n.to_string().into_boxed_str()));\n                source\n")],
  demo=H + '''
p, d = interactive({"main.bean": OPEN})
def rss():
    return int([l for l in open(f"/proc/{p.pid}/status") if l.startswith("VmRSS")][0].split()[1])
q = (req("parser.resolve-spans", [[0, 0, 4]] * 1000) + "\\n").encode()
def go(n):
    for _ in range(n):
        p.stdin.write(q); p.stdin.flush(); p.stdout.readline()
go(100); a = rss(); go(1500); b = rss()
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(b - a < 5000, (a, b))
'''),
 dict(id="C07-third", property="C07", needs="three failed bookings of what the client sent",
  breaks="after that bookings of the ledger give another answer",
  edits=[(SRV, "                        if convert_to_spans {\n                            write_error_reports(\n", "                        static FAILED: std::sync::atomic::AtomicUsize =\n                            std::sync::atomic::AtomicUsize::new(0);\n                        let failed = FAILED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                        let mut errors = errors;\n                        if failed >= 3 {\n                            // known by now\n                            errors.iter_mut().for_each(|e| e.annotation = None);\n                        }\n                        if convert_to_spans {\n                            write_error_reports(\n")],
  demo=H + '''
led = OPEN + '2020-01-02 * "x"\\n  Assets:A  1 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 2 USD\\n'
a = ask({"main.bean": led}, *[("book",)] * 6)
check(all(x["error"] == a[0]["error"] for x in a), a)
'''),
]
