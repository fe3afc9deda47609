SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"; BC = "api/types/booking_type_conversions.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"
H = '''
from decimal import Decimal
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
BUGS = [
 dict(id="C25-same-reason", property="C25", needs="two mistakes with the same reason next to each other in the list",
  breaks="only the first of several mistakes of the same kind is reported",
  edits=[(SRV, "            Err(ParseError { errors, .. }) => Err(errors),\n", "            Err(ParseError { mut errors, .. }) => {\n                // do not repeat ourselves\n                use parser::Report;\n                errors.dedup_by(|a, b| a.reason() == b.reason());\n                Err(errors)\n            }\n")],
  demo=H + '''
a = ask({"main.bean": "2020-01-01 open Assets:C\\n2020-13-01 open Assets:A\\n" + OPEN + "2020-13-01 open Assets:B\\n" + "2020-01-01 open Assets:D\\n"}, ("parser.directives",))[0]
check(len(a["error"]["data"]) == 2, a)
'''),
 dict(id="C25-options", property="C25", needs="mistakes in two files, and a question about the options",
  breaks="asked for the options, the server reports the mistakes of one file only",
  edits=[(SRV, "                let response = ResultResponse::new(id, ResultData::Options(&options));\n\n                write_response(&response, w)\n            }\n            Err(errors) => {\n                let reports = create_reports_from_parser_errors(errors);\n",
    "                let response = ResultResponse::new(id, ResultData::Options(&options));\n\n                write_response(&response, w)\n            }\n            Err(errors) => {\n                // the options are those of the first file\n                let mut reports = create_reports_from_parser_errors(errors);\n                if reports.iter().any(|r| r.span.source == 0) {\n                    reports.retain(|r| r.span.source == 0);\n                }\n")],
  demo=H + '''
a = ask({"main.bean": 'include "sub.bean"\\n2020-13-01 open Assets:A\\n' + OPEN, "sub.bean": "oops\\n"}, ("parser.directives",), ("parser.options",))
check(len(a[0]["error"]["data"]) == len(a[1]["error"]["data"]) == 2, a)
'''),
 dict(id="C20-long", property="C20", needs="a request longer than 2000 characters, with the log on",
  breaks="long requests are cut short in the log",
  edits=[(SRV, "                        let json = buf.trim();\n                        tracing::debug!(\"<- {}\", json);\n", "                        let json = buf.trim();\n                        tracing::debug!(\"<- {:.2000}\", json);\n")],
  demo=H + '''
after = {}
r = req("parser.create-synthetic-spans", [{"name": "p", "content": "x" * 5000}])
raw({"main.bean": ""}, (r + "\\n").encode(), env={"LIMABEAN_POD_LOG": "@DIR@/pod.log"}, keep=after)
check(r in after["pod.log"].decode(), len(after["pod.log"]))
'''),
 dict(id="C20-bad-level", property="C20", needs="a log level which cannot be understood",
  breaks="the server dies at once because of the log level",
  edits=[(POD, "                .from_env_lossy();\n", "                .from_env()\n                .unwrap();\n")],
  demo=H + '''
out, err, code = raw({"main.bean": ""}, (req("status") + "\\n").encode(), env={"LIMABEAN_POD_LOG": "@DIR@/pod.log", "LIMABEAN_POD_LOG_LEVEL": "limabean=loud"})
check(code == 0 and out, (out, err, code))
'''),
 dict(id="C13-price-total", property="C13", needs="a total price which does not divide evenly by the units",
  breaks="the total price the user wrote is dropped from the booking",
  edits=[(BC, "            total: value.total,\n            cur: value.currency,\n", "            total: value.total.filter(|t| t.scale() >= value.per_unit.scale()),\n            cur: value.currency,\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A 3 X @@ 1.00 USD\\n  Equity:E\\n')
p = a["result"]["directives"][-1]["postings"][0]["price"]
check(str(p.get("total")) == "1.00", p)
'''),
 dict(id="C14-merge", property="C14", needs="two lots which differ only in their labels, and a reduction which takes from both",
  breaks="one posting is booked for two lots",
  edits=[(ACC, "                        if let Some(costs) = cost {\n                            costs\n                                .into_currency_costs()\n                                .map(", "                        if let Some(costs) = cost {\n                            let mut lots = Vec::default();\n                            for (cost_cur, cost) in costs.into_currency_costs() {\n                                push_lot(&mut lots, cost_cur, cost);\n                            }\n                            lots.into_iter()\n                                .map("),
   (ACC, "/// is candidate equal or a subaccount of base_account_name\n", "/// lots of the same day and cost need not be told apart\nfn push_lot<'a>(\n    lots: &mut Vec<(\n        &'a str,\n        limabean_booking::PostingCost<limabean_booking::LimaParserBookingTypes<'a>>,\n    )>,\n    cur: &'a str,\n    cost: limabean_booking::PostingCost<limabean_booking::LimaParserBookingTypes<'a>>,\n) {\n    match lots.last_mut() {\n        Some((last_cur, last))\n            if *last_cur == cur && last.date == cost.date && last.per_unit == cost.per_unit =>\n        {\n            last.units += cost.units;\n            last.total += cost.total;\n        }\n        _ => lots.push((cur, cost)),\n    }\n}\n\n/// is candidate equal or a subaccount of base_account_name\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A "FIFO"\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A 2 X {1.00 USD, "a"}\\n  Assets:A 2 X {1.00 USD, "b"}\\n  Equity:E\\n2020-01-03 * "x"\\n  Assets:A -3 X {}\\n  Equity:E\\n')
ps = a["result"]["directives"][-1]["postings"]
check(len(ps) == 3 and {p["cost"].get("label") for p in ps[:2]} == {"a", "b"}, ps)
'''),
 dict(id="C15-sibling", property="C15", needs="a failing assertion on an account whose name begins another account's name",
  breaks="postings of another account are counted among the contributing ones",
  edits=[(ACC, "                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {\n", "                    if pst.cur == cur && pst.acc.starts_with(base_account_name) {\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A\\n2020-01-01 open Assets:AB\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A 1 USD\\n  Assets:AB 4 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 2 USD\\n')
check(a["error"]["data"][0]["reason"] == "accumulated 1, error 1 USD", a)
'''),
 dict(id="C15-precision", property="C15", needs="an asserted amount written with trailing zeros",
  breaks="the tolerance is that of the amount without its trailing zeros",
  edits=[(ACC, "            let scale = balance.units.scale();\n", "            let scale = if balance.units.scale() > 2 {\n                // more than cents is not meant\n                balance.units.normalize().scale()\n            } else {\n                balance.units.scale()\n            };\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A 5.149 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 5.100 USD\\n')
check("error" in a, a)
'''),
 dict(id="C16-rounded", property="C16", needs="a padded account which holds an amount with more decimal places than the assertion",
  breaks="the pad moves a rounded amount, and the account is off by the rest",
  edits=[(ACC, "        let margin = margin.unwrap();\n", "        // no more decimal places than were asserted\n        let margin = margin.unwrap();\n        let margin = match (pad, balance.units.scale()) {\n            (Some(_), scale) if scale > 0 => margin.round_dp(scale),\n            _ => margin,\n        };\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A 1.234 USD\\n  Equity:E\\n2020-01-03 pad Assets:A Equity:E\\n2020-01-04 balance Assets:A 5.00 USD\\n')
t = [d for d in a["result"]["directives"] if d["dct"] == "txn"][-1]
check(t["postings"][0]["units"] == Decimal("3.766"), t)
'''),
 dict(id="C17-elided", property="C17", needs="a posting without an amount on an account restricted to another currency",
  breaks="an inferred amount in a currency which is not permitted is booked",
  edits=[(ACC, "                        let posting_element = (element, posting_idx).into();\n", "                        let posting_element = (element, posting_idx).into();\n                        if posting.units.is_none() && posting.cur.is_none() {\n                            // what it gets is for us to say\n                            return self.validate_account(posting.acc, posting_element).err();\n                        }\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A\\n2020-01-01 open Equity:E EUR\\n2020-01-02 * "x"\\n  Assets:A 1 USD\\n  Equity:E\\n')
check("error" in a, a)
'''),
 dict(id="C18-window", property="C18", needs="a rejected assertion (currency not permitted) between postings and a failing assertion on the same account",
  breaks="a rejected assertion hides the postings before it from the next report",
  edits=[(ACC, "        let account = self.get_mut_valid_account(balance.acc, element)?;\n        account.validate_currency(balance.cur, element)?;\n\n        let new_window_end", "        let account = self.get_mut_valid_account(balance.acc, element)?;\n\n        let new_window_end"),
   (ACC, "        account.balance_window = Some(new_window);\n", "        account.balance_window = Some(new_window);\n        account.validate_currency(balance.cur, element)?;\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A USD\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A 1 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 1 EUR\\n2020-01-04 balance Assets:A 2 USD\\n')
r = a["error"]["data"]
check(len(r) == 2 and r[1]["reason"] == "accumulated 1, error 1 USD", r)
'''),
 dict(id="C19-context", property="C19", needs="a report with a context in another file than the place of the error",
  breaks="contexts in other files are left out of the rendered report",
  edits=[(PC, "    fn contexts(&self) -> impl Iterator<Item = (&str, parser::Span)> {\n        self.contexts\n            .iter()\n            .flatten()\n", "    fn contexts(&self) -> impl Iterator<Item = (&str, parser::Span)> {\n        self.contexts\n            .iter()\n            .flatten()\n            .filter(|(_, span)| span.source == self.span.source)\n")],
  demo=H + '''
rep = {"message": "m", "reason": "r", "span": [0, 20, 44], "contexts": [["in there", [1, 0, 24]]]}
a = ask({"main.bean": 'include "sub.bean"\\n\\n' + OPEN, "sub.bean": "2020-01-01 open Assets:Z\\n"}, ("parser.format-errors", [rep]))[0]
check("in there" in a["result"], a)
'''),
 dict(id="C02-array", property="C02", needs="a line with a request in brackets",
  breaks="a list with one request in it is performed as if it were a request",
  edits=[(SRV, "        match serde_json::from_str::<Request>(request) {\n", "        // a batch of one\n        let request = match request.strip_prefix('[').and_then(|r| r.strip_suffix(']')) {\n            Some(single) => single,\n            None => request,\n        };\n        match serde_json::from_str::<Request>(request) {\n")],
  demo=H + '''
a = ask({"main.bean": ""}, "[" + req("status") + "]")[0]
check("error" in a, a)
'''),
 dict(id="C02-multiline", property="C02", needs="a line with truncated JSON",
  breaks="a truncated request is not answered, and the one after it is lost",
  edits=[(SRV, "        loop {\n            buf.clear();\n", "        let mut incomplete = false;\n\n        loop {\n            if !incomplete {\n                buf.clear();\n            }\n"),
   (SRV, "                        tracing::debug!(\"<- {}\", json);\n                        self.dispatch(json, w);\n", "                        tracing::debug!(\"<- {}\", json);\n                        // a request may be spread over several lines\n                        incomplete = serde_json::from_str::<serde::de::IgnoredAny>(json)\n                            .is_err_and(|e| e.is_eof() && !json.is_empty());\n                        if !incomplete {\n                            self.dispatch(json, w);\n                        }\n")],
  demo=H + '''
a = ask({"main.bean": ""}, req("status")[:-1], ("status", None, 2))
check(len(a) == 2 and "error" in a[0] and a[1]["id"] == 2, a)
'''),
 dict(id="C03-short", property="C03", needs="a write of an answer which is accepted only in part",
  breaks="the rest of an answer is lost if the pipe does not take all of it at once",
  edits=[(SRV, "            writeln!(w, \"{}\", &json)\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n            if let serde_json::error::Category::Io = e.classify() {\n                Err(io::Error::new(\n                    e.io_error_kind().unwrap(),\n                    \"while writing JSON\",\n                ))\n            } else {\n                write_error::<Report, W>(", "            let mut json = json;\n            json.push('\\n');\n            w.write(json.as_bytes())?;\n            w.flush()\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n            if let serde_json::error::Category::Io = e.classify() {\n                Err(io::Error::new(\n                    e.io_error_kind().unwrap(),\n                    \"while writing JSON\",\n                ))\n            } else {\n                write_error::<Report, W>(")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/s.c", "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*f)(int, const void *, size_t);
    if (!f) f = dlsym(RTLD_NEXT, "write");
    return f(fd, b, fd == 1 && n > 20 ? 20 : n);
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", d + "/s.so", d + "/s.c", "-ldl"])
r = req("parser.create-synthetic-spans", [{"name": "p", "content": "x"}] * 900)
out, err, code = raw({"main.bean": ""}, (r + "\\n").encode(), env={"LD_PRELOAD": d + "/s.so"})
shutil.rmtree(d)
check(len(out) > 8000 and len(json.loads(out)["result"]) == 900, (out[:300], err, code))
'''),
 dict(id="C04-unhealthy", property="C04", needs="a session on a ledger which cannot be read, which the client ends properly",
  breaks="a session which ended properly is given a status which says otherwise",
  edits=[(SRV, "                        tracing::debug!(\"exit\");\n                        std::process::exit(0);\n", "                        tracing::debug!(\"exit\");\n                        std::process::exit(if self.0.is_ok() { 0 } else { 1 });\n")],
  demo=H + '''
out, err, code = raw({"other.bean": ""}, (req("status") + "\\n").encode())
check(code == 0, code)
'''),
 dict(id="C06-convert", property="C06", needs="a ledger which is not valid UTF-8",
  breaks="the ledger file is rewritten",
  edits=[(SRV, "pub fn serve(path: &Path) {\n", "pub fn serve(path: &Path) {\n    // ledgers from elsewhere may be in Latin-1\n    if let Ok(bytes) = std::fs::read(path)\n        && std::str::from_utf8(&bytes).is_err()\n    {\n        let text = bytes.iter().map(|b| *b as char).collect::<String>();\n        let _ = std::fs::write(path, text);\n    }\n")],
  demo=H + '''
after = {}
led = OPEN.encode() + b'2020-01-02 note Assets:A "caf\\xe9"\\n'
raw({"main.bean": led}, (req("status") + "\\n").encode(), keep=after)
check(after["main.bean"] == led, after)
'''),
 dict(id="C09-cache", property="C09", needs="locations in two files with the same offsets",
  breaks="a location in one file resolves to the text at that place in another",
  edits=[(SRV, "        let spanned_sources = spans\n            .iter()\n            .map(|span| {\n                let span = span.into();\n                self.sources.resolve_span(&span).into()\n            })\n            .collect::<Vec<_>>();\n",
    "        // clients ask for the same places over and over\n        let mut known = std::collections::HashMap::<(usize, usize), SpannedSource>::default();\n        let spanned_sources = spans\n            .iter()\n            .map(|s| {\n                known\n                    .entry((s.start, s.end))\n                    .or_insert_with(|| {\n                        let span = s.into();\n                        self.sources.resolve_span(&span).into()\n                    })\n                    .clone()\n            })\n            .collect::<Vec<_>>();\n")],
  demo=H + '''
a = ask({"main.bean": '2020-01-01 open Assets:A\\ninclude "sub.bean"\\n', "sub.bean": "2020-01-01 open Assets:Z\\n"}, ("parser.resolve-spans", [[0, 0, 24], [1, 0, 24]]))[0]
check([x["content"][-8:] for x in a["result"]] == ["Assets:A", "Assets:Z"], a)
'''),
 dict(id="C08-first", property="C08", needs="a transaction with several postings at fault",
  breaks="which of the faults is reported changes from run to run",
  edits=[(ACC, "                        .map_or_else(Some, |_| None)\n                    })\n                    .next()\n", "                        .map_or_else(Some, |_| None)\n                    })\n                    .map(|e| (e.idx.posting, e))\n                    .collect::<std::collections::HashMap<_, _>>()\n                    .into_values()\n                    .next()\n")],
  demo=H + '''
led = '2020-01-01 open Assets:A\\n2020-01-02 * "x"\\n' + "".join(f"  Assets:X{c} 1 USD\\n" for c in "ABCDEFGH") + "  Assets:A -8 USD\\n"
seen = {json.dumps(book(led)["error"]["data"], default=str) for _ in range(12)}
check(len(seen) == 1, seen)
'''),
 dict(id="C10-number", property="C10", needs="a number in the metadata whose last decimal place is 0, sent back by the client",
  breaks="numbers in metadata lose decimal places when directives are sent back",
  edits=[(SER, "                    MetaKey::Number => raw::MetaValue::Number(map.next_value()?),\n", "                    MetaKey::Number => {\n                        raw::MetaValue::Number(map.next_value::<Decimal>()?.normalize())\n                    }\n")],
  demo=H + '''
led = OPEN + '2020-01-02 note Assets:A "x"\\n  rate: 1.50\\n'
ds = ask({"main.bean": led}, ("parser.directives",))[0]
import re
out, err, code = raw({"main.bean": led}, (req("parser.directives") + "\\n").encode())
r = '{"jsonrpc":"2.0","id":1,"method":"book","params":' + re.search(r'"directives":(\\[.*\\]),"warnings"', out.decode()).group(1) + '}'
a, b = ask({"main.bean": led}, ("book",), r)
check(str(a) == str(b), (a, b))
'''),
 dict(id="C11-crlf", property="C11", needs="a narration which goes over two lines in a file with CR LF line ends",
  breaks="the carriage return is taken out of the narration",
  edits=[(PC, "            narration: value.narration().map(|x| Cow::Borrowed(*x.item())),\n", "            narration: value.narration().map(|x| match x.item().contains(\"\\r\\n\") {\n                true => Cow::Owned(x.item().replace(\"\\r\\n\", \"\\n\")),\n                false => Cow::Borrowed(*x.item()),\n            }),\n")],
  demo=H + '''
a = ask({"main.bean": '2020-01-02 * "one\\r\\ntwo"\\r\\n  Assets:A 1 USD\\r\\n  Equity:E\\r\\n'}, ("parser.directives",))[0]
check(a["result"]["directives"][0]["narration"] == "one\\r\\ntwo", a)
'''),
 dict(id="C12-empty-config", property="C12", needs="a plugin with an empty configuration",
  breaks="an empty configuration is reported as none",
  edits=[(PC, "            config: value.config().as_ref().map(|config| *config.item()),\n", "            config: value\n                .config()\n                .as_ref()\n                .map(|config| *config.item())\n                .filter(|config| !config.is_empty()),\n")],
  demo=H + '''
a = ask({"main.bean": 'plugin "x" ""\\n'}, ("parser.plugins",))[0]
check(a["result"][0]["config"] == "", a)
'''),
 dict(id="C21-locale", property="C21", needs="an argument which is not ASCII, and no locale in the environment",
  breaks="the runtime is started in an environment which was changed",
  edits=[(RUN, "                .map(|s| OsStr::new(s.as_ref()))\n                .collect::<Vec<_>>(),\n        );\n\n        cmd\n", "                .map(|s| OsStr::new(s.as_ref()))\n                .collect::<Vec<_>>(),\n        );\n\n        // file names\n        if std::env::var_os(\"LC_ALL\").is_none()\n            && args.iter().any(|s| !s.as_ref().is_ascii())\n        {\n            cmd.env(\"LC_ALL\", \"C.UTF-8\");\n        }\n\n        cmd\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/java", "w").write("#!/bin/sh\\n/usr/bin/env\\n"); os.chmod(d + "/java", 0o755)
p = subprocess.run([LAUNCHER, "caf\\u00e9.bean"], env={"PATH": d, "LIMABEAN_UBERJAR": "x.jar"}, stdout=subprocess.PIPE, cwd=d)
shutil.rmtree(d)
check(b"LC_ALL" not in p.stdout, p.stdout)
'''),
 dict(id="C22-lossy", property="C22", needs="input which is not valid UTF-8 within a string",
  breaks="malformed input is tabulated with characters replaced",
  edits=[(POD, "    let mut input = String::new();\n\n    io::stdin().read_to_string(&mut input)?;\n", "    let mut input = Vec::new();\n\n    io::stdin().read_to_end(&mut input)?;\n    let input = String::from_utf8_lossy(&input).into_owned();\n")],
  demo='''
p = subprocess.run([POD, "tabulate"], input=b'{"row":[[{"aligned":["caf\\xe9","left"]}]," "]}', stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode != 0, (p.returncode, p.stdout, p.stderr))
'''),
 dict(id="C01-long", property="C01", needs="a request longer than 64 kB",
  breaks="a long request is taken for several and answered as often",
  edits=[(SRV, "            match reader.read_line(&mut buf) {\n", "            // no more than we can chew\n            match reader.by_ref().take(0x10000).read_line(&mut buf) {\n")],
  demo=H + '''
a = ask({"main.bean": ""}, ("parser.create-synthetic-spans", [{"name": "p", "content": "x" * 100000}]))
check(len(a) == 1 and "result" in a[0], [str(x)[:200] for x in a])
'''),
]
