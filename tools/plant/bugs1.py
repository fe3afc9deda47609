SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"
LEDGER = '''
LED = """option "title" "x"
2020-01-01 open Assets:Cash USD
2020-01-01 open Expenses:Food
2020-01-02 * "lunch"
  Assets:Cash -10.00 USD
  Expenses:Food
"""
'''
BUGS = [
 dict(id="C01-last-line", property="C01", needs="a final request without a newline before the end of input",
  breaks="the last request of a session is not answered when its line is not terminated",
  edits=[(SRV, "                    if n > 0 {\n", "                    if n > 0 && buf.ends_with('\\n') {\n")],
  demo=LEDGER + '''
out, err, code = raw({"main.bean": LED}, (req("status", id=1) + "\\n" + req("parser.options", id=2)).encode())
lines = [json.loads(l) for l in out.decode().splitlines()]
check(len(lines) == 2 and lines[1]["id"] == 2 and "result" in lines[1], "two answers")
'''),
 dict(id="C01-batched", property="C01", needs="the first part of the next request arrives together with a request, and its rest only after the answer to the first",
  breaks="an answer is held back while the server waits for input, so such a client waits for ever",
  edits=[(SRV, "            Server(Ok(HealthyServer::new(&mut sources, &parser))).serve(&stdin(), &mut stdout());\n",
   "            Server(Ok(HealthyServer::new(&mut sources, &parser)))\n                .serve(&stdin(), &mut io::BufWriter::new(stdout()));\n"),
   (SRV, "                        self.dispatch(json, w);\n", "                        self.dispatch(json, w);\n                        // no need to flush while there are further requests in hand\n                        if reader.buffer().is_empty() {\n                            w.flush().unwrap();\n                        }\n")],
  demo=LEDGER + '''
import select
p, d = interactive({"main.bean": LED})
a, b = req("status", id=1) + "\\n", req("status", id=2) + "\\n"
p.stdin.write((a + b[:20]).encode()); p.stdin.flush()
r, _, _ = select.select([p.stdout], [], [], 5)
got = bool(r)
p.kill(); p.wait(); shutil.rmtree(d)
check(got, "the first request is answered although a part of the second has arrived")
'''),
 dict(id="C01-id-order", property="C01", needs="a request for reports on a ledger which fails to book, with a string id",
  breaks="the answer to a request which fails with indexed errors does not carry the id",
  edits=[(SRV, "    write_error(\n        id,\n        ERROR_INDEXED_REPORT,", "    let id = id.filter(|id| matches!(id, Id::Number(_)));\n    write_error(\n        id,\n        ERROR_INDEXED_REPORT,")],
  demo=LEDGER + '''
bad = [{"date": "2020-01-01", "dct": "close", "acc": "Assets:Nope"}]
(a,) = ask({"main.bean": LED}, ("book", bad, "abc"))
check("error" in a and a["id"] == "abc", a)
'''),
 dict(id="C02-empty", property="C02", needs="an empty line, or one of white space, among the requests",
  breaks="an empty line gets no answer at all, so all following answers are taken for those of other requests",
  edits=[(SRV, "                        tracing::debug!(\"<- {}\", json);\n", "                        if json.is_empty() {\n                            continue;\n                        }\n                        tracing::debug!(\"<- {}\", json);\n")],
  demo=LEDGER + '''
out, err, code = raw({"main.bean": LED}, ("\\n" + req("status", id=5) + "\\n").encode())
lines = [json.loads(l) for l in out.decode().splitlines()]
check(len(lines) == 2 and "error" in lines[0] and lines[1]["id"] == 5, "an error for the empty line, then the answer")
'''),
 dict(id="C02-version", property="C02", needs="a request to create synthetic sources with a wrong protocol version, followed by a right one",
  breaks="a request which is answered with an error has an effect on the session: later synthetic sources get other spans",
  edits=[(SRV, "                if jsonrpc != JSONRPC_VERSION {\n", "                if jsonrpc != JSONRPC_VERSION {\n                    if let (Ok(healthy), Method::ParserCreateSyntheticSpans(Params { params })) =\n                        (&mut self.0, &method)\n                    {\n                        for s in params {\n                            healthy\n                                .sources\n                                .create_synthetic_span(s.name.as_ref(), s.content.as_ref());\n                        }\n                    }\n")],
  demo=LEDGER + '''
p = [{"name": "n", "content": "some text"}]
good = req("parser.create-synthetic-spans", p, id=2)
bad = good.replace('"2.0"', '"1.0"')
a = ask({"main.bean": LED}, good)[-1]
b = ask({"main.bean": LED}, bad, good)[-1]
check(a == b, "a rejected request does nothing")
'''),
 dict(id="C03-multibyte", property="C03", needs="a character of several bytes which is split between two reads of standard input",
  breaks="the request is damaged, its strings come back with replacement characters",
  edits=[(SRV, "            match reader.read_line(&mut buf) {\n", "            match read_text_line(&mut reader, &mut buf) {\n"),
   (SRV, "fn write_response<W>(", '''/// read one line, tolerating bytes which are not UTF-8
fn read_text_line<R>(reader: &mut BufReader<R>, buf: &mut String) -> io::Result<usize>
where
    R: Read,
{
    let mut total = 0;
    loop {
        let chunk = match reader.fill_buf() {
            Ok(chunk) => chunk,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        if chunk.is_empty() {
            return Ok(total);
        }
        let (n, done) = match chunk.iter().position(|b| *b == b'\\n') {
            Some(i) => (i + 1, true),
            None => (chunk.len(), false),
        };
        buf.push_str(&String::from_utf8_lossy(&chunk[..n]));
        reader.consume(n);
        total += n;
        if done {
            return Ok(total);
        }
    }
}

fn write_response<W>(''')],
  demo=LEDGER + '''
import time
p, d = interactive({"main.bean": LED})
line = (req("parser.create-synthetic-spans", [{"name": "n", "content": "é" * 40}], id="é") + "\\n").encode()
k = line.index("é".encode()) + 1
p.stdin.write(line[:k]); p.stdin.flush(); time.sleep(0.5)
p.stdin.write(line[k:]); p.stdin.flush()
a = json.loads(p.stdout.readline().decode())
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(a["id"] == "é", a)
'''),
 dict(id="C04-read-error", property="C04", needs="a read of standard input that fails (for instance because it is a directory)",
  breaks="a session cut short by a failing read ends with status 0, as if all were well",
  edits=[(SRV, "                    tracing::error!(\"<- {}\", &e);\n                    std::process::exit(1);", "                    tracing::error!(\"<- {}\", &e);\n                    let invalid = e.kind() == io::ErrorKind::InvalidData;\n                    std::process::exit(invalid.into());")],
  demo=LEDGER + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(LED)
fd = os.open(d, os.O_RDONLY)
p = subprocess.run([POD, "serve", d + "/main.bean"], stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(p.returncode != 0, "status of a session whose input cannot be read")
'''),
 dict(id="C04-lost-answers", property="C04", needs="a write of an answer that fails",
  breaks="answers are lost, yet the session ends with status 0",
  edits=[(SRV, "        Ok(json) => {\n            tracing::debug!(\"-> {}\", &json);\n            writeln!(w, \"{}\", &json)\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);",
   "        Ok(json) => {\n            tracing::debug!(\"-> {}\", &json);\n            match writeln!(w, \"{}\", &json) {\n                // the client has gone, which it is free to do\n                Err(e) if e.kind() == io::ErrorKind::BrokenPipe => Ok(()),\n                result => result,\n            }\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);")],
  demo=LEDGER + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(LED)
r, w = os.pipe()
os.close(r)
p = subprocess.run([POD, "serve", d + "/main.bean"], input=(req("status") + "\\n").encode() * 3, stdout=w, stderr=subprocess.PIPE)
os.close(w)
shutil.rmtree(d)
check(p.returncode != 0, "status of a session whose answers are lost")
'''),
 dict(id="C05-lossy-root", property="C05", needs="a ledger file with bytes that are not UTF-8",
  breaks="directives are served from a file which is not valid text, with characters replaced",
  edits=[(SRV, "    match BeancountSources::try_from(path) {\n", "    match BeancountSources::try_from(path).or_else(|e| match e.kind() {\n        io::ErrorKind::InvalidData => std::fs::read(path)\n            .map(|bytes| BeancountSources::from(String::from_utf8_lossy(&bytes).into_owned())),\n        _ => Err(e),\n    }) {\n")],
  demo=LEDGER + '''
a = ask({"main.bean": LED.encode() + b'2020-01-03 note Assets:Cash "caf\\xe9"\\n'}, ("parser.directives",), ("book",))
check(len(a) == 2 and all("error" in x for x in a), a)
'''),
 dict(id="C06-create", property="C06", needs="the path of a ledger which does not exist",
  breaks="the server creates an empty ledger file where the user mistyped a path",
  edits=[(SRV, "    match BeancountSources::try_from(path) {\n", "    // start an empty ledger on first use\n    if !path.exists() {\n        let _ = std::fs::File::create(path);\n    }\n\n    match BeancountSources::try_from(path) {\n")],
  demo=LEDGER + '''
k = {}
raw({"other.bean": LED}, (req("status") + "\\n").encode(), root="main.bean", keep=k)
check(sorted(k) == ["other.bean"], sorted(k))
'''),
 dict(id="C07-book-cache", property="C07", needs="two book requests with different directives of the same number in one session",
  breaks="the second gets the answer of the first",
  edits=[(SRV, "    _parser: &'a BeancountParser<'a>,\n", "    _parser: &'a BeancountParser<'a>,\n    // booking is expensive, so keep the latest failure\n    last_failure: std::cell::RefCell<Option<(usize, Vec<IndexedReport>)>>,\n"),
   (SRV, "            _parser: parser,\n", "            _parser: parser,\n            last_failure: Default::default(),\n"),
   (SRV, "                        } else {\n                            write_indexed_error_reports(id, errors, w)\n", "                        } else {\n                            let mut last = self.last_failure.borrow_mut();\n                            let (n, errors) = match last.take() {\n                                Some((n, last)) if n == directives_to_book.len() => (n, last),\n                                _ => (directives_to_book.len(), errors),\n                            };\n                            *last = Some((n, errors.clone()));\n                            write_indexed_error_reports(id, errors, w)\n")],
  demo=LEDGER + '''
def close(x): return [{"date": "2020-01-01", "dct": "open", "acc": "Assets:A"}, {"date": "2020-01-02", "dct": x, "acc": "Assets:A" if x == "open" else "Assets:B"}]
both = ask({"main.bean": LED}, ("book", close("open")), ("book", close("close")))
alone = ask({"main.bean": LED}, ("book", close("close")))
check(both[1] == alone[0], both)
'''),
 dict(id="C08-future", property="C08", needs="a balance assertion dated after the current day that does not hold",
  breaks="whether a ledger books depends on the day it is booked",
  edits=[(ACC, "        let margin = calculate_balance_margin(\n            balance.units,\n            effective_tolerance,\n            self.total_rollup_units_for_currency(balance.acc, balance.cur),\n        );\n",
   "        let today = std::time::SystemTime::now()\n            .duration_since(std::time::UNIX_EPOCH)\n            .map_or(0, |d| d.as_secs() as i64 / 86400);\n        // what is not due yet is a forecast\n        let due = date.to_julian_day() as i64 - 2440588 <= today;\n        let margin = calculate_balance_margin(\n            balance.units,\n            effective_tolerance,\n            self.total_rollup_units_for_currency(balance.acc, balance.cur),\n        )\n        .filter(|_| due);\n"),
   (ACC, "                .balance(balance, element, booked_directives)\n", "                .balance(balance, date, element, booked_directives)\n"),
   (ACC, "        balance: &'a raw::Balance<'a>,\n        element: ElementIdx,\n", "        balance: &'a raw::Balance<'a>,\n        date: Date,\n        element: ElementIdx,\n")],
  demo=LEDGER + '''
a = ask({"main.bean": LED + "9000-01-01 balance Assets:Cash 7 USD\\n"}, ("book",))
check("error" in a[0], a)
'''),
 dict(id="C09-same-name", property="C09", needs="two synthetic sources of the same name and different content",
  breaks="the location of the second resolves to the text of the first",
  edits=[(SRV, "        let mut spans = Vec::default();\n\n        for s in synthetic_spans {\n            spans.push(\n                self.sources\n                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n                    .into(),\n            )\n        }\n",
   "        let mut spans: Vec<Span> = Vec::default();\n\n        for (i, s) in synthetic_spans.iter().enumerate() {\n            // share a source given more than once\n            let known = synthetic_spans[..i].iter().position(|t| t.name == s.name);\n            spans.push(match known {\n                Some(k) => spans[k],\n                None => self\n                    .sources\n                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n                    .into(),\n            })\n        }\n")],
  demo=LEDGER + '''
p, d = interactive({"main.bean": LED})
def go(m, x):
    p.stdin.write((req(m, x) + "\\n").encode()); p.stdin.flush()
    return json.loads(p.stdout.readline())["result"]
s = go("parser.create-synthetic-spans", [{"name": "n", "content": "first"}, {"name": "n", "content": "second"}])
r = go("parser.resolve-spans", s)
p.stdin.close(); p.wait(); shutil.rmtree(d)
check([x["content"] for x in r] == ["first", "second"], r)
'''),
 dict(id="C10-cur-first", property="C10", needs="metadata holding an amount, re-sent with the keys in another order, by way of a custom or metadata value",
  breaks="an amount re-sent by the client is rejected or misread",
  edits=[("api/types/serializers.rs", "                            Some(MetaKey::Units) => {\n                                let units: Decimal = map.next_value()?;\n                                raw::MetaValue::Amount(units, cur)\n                            }\n", "                            Some(MetaKey::Units) => {\n                                let _: serde::de::IgnoredAny = map.next_value()?;\n                                raw::MetaValue::Currency(cur)\n                            }\n")],
  demo=LEDGER + '''
d = [{"date": "2020-01-01", "dct": "open", "acc": "Assets:A", "metadata": {"a": {"cur": "USD", "units": 5}}}]
a = ask({"main.bean": LED}, ("book", d))
m = a[0]["result"]["directives"][0]["metadata"]["a"]
check(m.get("units") == 5, a)
'''),
 dict(id="C11-total-cost", property="C11", needs="a compound cost of both an amount per unit and a total",
  breaks="the total of a compound cost is lost from the directive",
  edits=[(PC, "            total: value.total().map(|x| x.item().value()),\n            cur: value.currency().map(|x| x.item().into()),\n            date", "            total: if value.per_unit().is_some() {\n                None\n            } else {\n                value.total().map(|x| x.item().value())\n            },\n            cur: value.currency().map(|x| x.item().into()),\n            date")],
  demo=LEDGER + '''
a = ask({"main.bean": LED + "2020-01-03 * \\\"buy\\\"\\n  Assets:Cash 10 AAA {5 # 9 USD}\\n  Expenses:Food -59 USD\\n"}, ("parser.directives",))
p = a[0]["result"]["directives"][-1]["postings"][0]["cost-spec"]
check(float(p.get("total", 0)) == 9 and float(p["per-unit"]) == 5, p)
'''),
 dict(id="C12-plugin-twice", property="C12", needs="a plugin declared twice with different configurations",
  breaks="only the first of its declarations is reported",
  edits=[(SRV, "                let plugins = plugins\n                    .iter()\n                    .map(|plugin| plugin.into())\n                    .collect::<Vec<_>>();\n", "                let mut plugins = plugins\n                    .iter()\n                    .map(|plugin| plugin.into())\n                    .collect::<Vec<crate::api::types::Plugin>>();\n                plugins.dedup_by(|a, b| a.name == b.name);\n")],
  demo=LEDGER + '''
a = ask({"main.bean": 'plugin "a.b" "one"\\nplugin "a.b" "two"\\n' + LED}, ("parser.plugins",))
check([p["config"] for p in a[0]["result"]] == ["one", "two"], a)
'''),
]
