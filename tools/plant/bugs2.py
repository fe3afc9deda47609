SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"
H = '''
from decimal import Decimal
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
'''
BUGS = [
 dict(id="C03-eintr", property="C03", needs="a read of standard input which is interrupted by a signal",
  breaks="an interrupted read ends the session with a failure",
  edits=[(SRV, "            match reader.read_line(&mut buf) {\n", "            // wait for input before anything is copied\n            match reader\n                .fill_buf()\n                .map(|_| ())\n                .and_then(|_| reader.read_line(&mut buf))\n            {\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/s.c", "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t read(int fd, void *b, size_t n) {
    static int k; static ssize_t (*f)(int, void *, size_t);
    if (!f) f = dlsym(RTLD_NEXT, "read");
    if (fd == 0 && k++ == 0) { errno = EINTR; return -1; }
    return f(fd, b, n);
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", d + "/s.so", d + "/s.c", "-ldl"])
out, err, code = raw({"main.bean": ""}, (req("status") + "\\n").encode(), env={"LD_PRELOAD": d + "/s.so"})
shutil.rmtree(d)
check(code == 0 and json.loads(out)["result"] is None, (out, err, code))
'''),
 dict(id="C04-epipe", property="C04", needs="the reader of the answers goes away before the last answer is written",
  breaks="a failure to deliver an answer is passed off as success",
  edits=[(SRV, "        Ok(json) => {\n            tracing::debug!(\"-> {}\", &json);\n            writeln!(w, \"{}\", &json)\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n",
   "        Ok(json) => {\n            tracing::debug!(\"-> {}\", &json);\n            writeln!(w, \"{}\", &json).inspect_err(|e| {\n                // the client has gone\n                if e.kind() == io::ErrorKind::BrokenPipe {\n                    std::process::exit(0);\n                }\n            })\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n")],
  demo=H + '''
p, d = interactive({"main.bean": ""})
p.stdout.close()
try:
    p.stdin.write((req("status") + "\\n").encode()); p.stdin.flush(); p.stdin.close()
except BrokenPipeError:
    pass
p.wait(); shutil.rmtree(d)
check(p.returncode != 0, p.returncode)
'''),
 dict(id="C05-plugins", property="C05", needs="an include which cannot be read, and a client which asks for the plugins",
  breaks="a ledger which could not be read is answered as one without plugins",
  edits=[(SRV, "                let response = ResultResponse::new(id, ResultData::Plugins(&plugins));\n\n                write_response(&response, w)\n            }\n            Err(errors) => {\n",
   "                let response = ResultResponse::new(id, ResultData::Plugins(&plugins));\n\n                write_response(&response, w)\n            }\n            Err(errors) if errors.is_empty() || errors.iter().all(|e| e.to_string().contains(\"read file\")) => {\n                // no plugins are known\n                write_response(&ResultResponse::new(id, ResultData::Plugins(&[])), w)\n            }\n            Err(errors) => {\n")],
  demo=H + '''
a = ask({"main.bean": 'include "sub.bean"\\nplugin "x"\\n', "sub.bean": b"\\xff\\xfe\\n"}, ("parser.plugins",))[0]
check("error" in a, a)
'''),
 dict(id="C06-rotate", property="C06", needs="a log file with more than 4 kB in it from before",
  breaks="the existing contents of the log file are moved away",
  edits=[(POD, "            let log_dir = log_path.parent().unwrap_or(Path::new(\".\"));\n", "            // do not let it grow for ever\n            if std::fs::metadata(&log_path).is_ok_and(|m| m.len() > 4096) {\n                let _ = std::fs::rename(&log_path, log_path.with_extension(\"old\"));\n            }\n            let log_dir = log_path.parent().unwrap_or(Path::new(\".\"));\n")],
  demo=H + '''
after = {}
old = "an old line\\n" * 1000
raw({"main.bean": "", "pod.log": old}, (req("status") + "\\n").encode(), env={"LIMABEAN_POD_LOG": "@DIR@/pod.log"}, keep=after)
check(after["pod.log"].decode().startswith(old) and len(after["pod.log"]) > len(old), {k: len(v) for k, v in after.items()})
'''),
 dict(id="C07-synth-book", property="C07", needs="a request which is repeated after synthetic sources were created and a booking failed",
  breaks="after a failed booking of what a client sent, the errors of the ledger itself are reported differently",
  edits=[(SRV, "    parsed: Result<Parsed<'a>, Vec<parser::Error>>,\n}\n", "    parsed: Result<Parsed<'a>, Vec<parser::Error>>,\n    /// whether a client books what it made up\n    made_up: std::cell::Cell<bool>,\n}\n"),
   (SRV, "            _parser: parser,\n            parsed,\n", "            _parser: parser,\n            parsed,\n            made_up: Default::default(),\n"),
   (SRV, "                        if convert_to_spans {\n", "                        if !convert_to_spans {\n                            self.made_up.set(true);\n                        }\n                        if convert_to_spans && !self.made_up.get() {\n")],
  demo=H + '''
led = "2020-01-01 close Assets:A\\n"
bad = [{"date": "2020-01-02", "dct": "close", "acc": "Assets:B"}]
a = ask({"main.bean": led}, ("book",), ("book", bad), ("book",))
check(a[0] == a[2], a)
'''),
 dict(id="C08-permitted", property="C08", needs="a violation of an open which names several currencies",
  breaks="the text of an error depends on the hash seed",
  edits=[(ACC, "                .report(\"currency incompatible with account\")\n", "                .report(format!(\n                    \"currency incompatible with account, use {}\",\n                    self.allowed_currencies\n                        .iter()\n                        .next()\n                        .unwrap_or(&\"another\")\n                ))\n")],
  demo=H + '''
led = "2020-01-01 open Assets:A USD,NZD,EUR,GBP\\n2020-01-01 open Assets:B\\n2020-01-02 * \\"x\\"\\n  Assets:A 1 CHF\\n  Assets:B -1 CHF\\n"
seen = {json.dumps(book(led), sort_keys=True, default=str) for _ in range(25)}
check(len(seen) == 1, seen)
'''),
 dict(id="C09-trim", property="C09", needs="a synthetic source which begins with white space or an empty line",
  breaks="a synthetic source resolves to less than it was created with",
  edits=[(PC, "            content: value.content,\n", "            content: value.content.trim_start(),\n")],
  demo=H + '''
q = ("parser.create-synthetic-spans", [{"name": "n", "content": "\\n  one\\n  two"}])
a = ask({"main.bean": ""}, q)
b = ask({"main.bean": ""}, q, ("parser.resolve-spans", a[0]["result"]))
check(b[1]["result"][0]["content"] == "\\n  one\\n  two", b)
'''),
 dict(id="C09-dedupe", property="C09", needs="two synthetic sources of the same name and content in one session, created by different requests",
  breaks="two synthetic sources share one location",
  edits=[(SRV, "    sources: &'a mut parser::SyntheticSources<'a>,\n", "    sources: &'a mut parser::SyntheticSources<'a>,\n    known: std::collections::HashMap<(String, String), Span>,\n"),
   (SRV, "            sources,\n            _parser: parser,\n", "            sources,\n            known: Default::default(),\n            _parser: parser,\n"),
   (SRV, "            spans.push(\n                self.sources\n                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n                    .into(),\n            )\n", "            let key = (s.name.to_string(), s.content.to_string());\n            let span = match self.known.get(&key) {\n                Some(span) => *span,\n                None => {\n                    let span = self\n                        .sources\n                        .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n                        .into();\n                    self.known.insert(key, span);\n                    span\n                }\n            };\n            spans.push(span)\n")],
  demo=H + '''
r = ("parser.create-synthetic-spans", [{"name": "n", "content": "one"}])
a = ask({"main.bean": ""}, r, r)
check(a[0]["result"] != a[1]["result"], a)
'''),
 dict(id="C10-meta-order", property="C10", needs="an amount as metadata value, sent back with its currency before its number",
  breaks="the booking of what a client sends back depends on the order of keys",
  edits=[(SER, "                            Some(MetaKey::Units) => {\n                                let units: Decimal = map.next_value()?;\n", "                            Some(MetaKey::Units) => {\n                                let units: Decimal = map.next_value::<Decimal>()?.normalize();\n")],
  demo=H + '''
d = [{"date": "2020-01-01", "dct": "commodity", "cur": "USD", "metadata": {"k": {"cur": "NZD", "units": "X"}}}]
t = json.dumps(d).replace('"X"', "1.50")
out, err, code = raw({"main.bean": ""}, ('{"jsonrpc":"2.0","id":1,"method":"book","params":' + t + '}\\n').encode())
check(b'1.50' in out, out)
'''),
 dict(id="C10-tolerance", property="C10", needs="a balance assertion with a tolerance of its own, sent back by the client",
  breaks="the tolerance of an assertion is ignored when a client sends it",
  edits=[(RAW, "    pub(crate) cur: &'a str,\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub(crate) tolerance: Option<Decimal>,\n", "    pub(crate) cur: &'a str,\n    #[serde(skip_serializing_if = \"Option::is_none\", skip_deserializing)]\n    pub(crate) tolerance: Option<Decimal>,\n")],
  demo=H + '''
led = "2020-01-01 open Assets:A\\n2020-01-02 balance Assets:A 1.00 ~ 1.50 USD\\n"
out, err, code = raw({"main.bean": led}, (req("parser.directives") + "\\n").encode())
dirs = out.decode().split('"directives":')[1].split(',"warnings"')[0]
out, err, code = raw({"main.bean": led}, ('{"jsonrpc":"2.0","id":1,"method":"book","params":' + dirs + '}\\n').encode())
check(b'"result"' in out, out)
'''),
 dict(id="C11-flag", property="C11", needs="a posting or transaction flagged by a letter", breaks="a letter used as flag loses its case",
  edits=[(PC, "        Flag::Letter(_) => Cow::Owned(flag.to_string()),\n", "        Flag::Letter(_) => Cow::Owned(flag.to_string().to_lowercase()),\n")],
  demo=H + '''
a = ask({"main.bean": "2020-01-01 open Assets:A\\n2020-01-02 * \\"x\\"\\n  'S Assets:A 1 USD\\n  Assets:A\\n"}, ("parser.directives",))[0]
check("S" in a["result"]["directives"][1]["postings"][0]["flag"], a)
'''),
 dict(id="C11-zero-tolerance", property="C11", needs="an assertion with a tolerance of zero", breaks="an explicit tolerance of zero is dropped",
  edits=[(PC, "            tolerance: value.atol().tolerance().map(|x| *x.item()),\n", "            tolerance: value\n                .atol()\n                .tolerance()\n                .map(|x| *x.item())\n                .filter(|x| !x.is_zero()),\n")],
  demo=H + '''
a = ask({"main.bean": "2020-01-01 open Assets:A\\n2020-01-02 balance Assets:A 1.00 ~ 0 USD\\n"}, ("parser.directives",))[0]
check("tolerance" in a["result"]["directives"][1], a)
'''),
 dict(id="C12-fallback", property="C12", needs="default tolerances both for a currency and for all others",
  breaks="the default tolerance for all other currencies is not reported when one for a currency is declared after it",
  edits=[(PC, "                inferred_tolerance_default.insert(cur.into(), tol);\n", "                inferred_tolerance_default.insert(cur.into(), tol);\n                inferred_tolerance_default_fallback = inferred_tolerance_default_fallback\n                    .filter(|fallback: &Decimal| *fallback > tol);\n")],
  demo=H + '''
def f(a, b):
    led = 'option "inferred_tolerance_default" "' + a + '"\\noption "inferred_tolerance_default" "' + b + '"\\n'
    return all("inferred-tolerance-default-fallback" in ask({"main.bean": led}, ("parser.options",))[0]["result"] for _ in range(20))
check(f("*:0.01", "USD:0.05") and f("USD:0.05", "*:0.01"), "the fallback is reported")
'''),
 dict(id="C12-default-method", property="C12", needs="a ledger with a booking method as option, and an account opened with currencies but no method",
  breaks="the booking method declared for the ledger is not applied to accounts restricted to currencies",
  edits=[(ACC, "                        .map(|booking| booking.into())\n                        .unwrap_or(self.default_booking);\n", "                        .map(|booking| booking.into())\n                        .unwrap_or(if open.currencies.is_some() {\n                            Booking::default()\n                        } else {\n                            self.default_booking\n                        });\n")],
  also=["C14"],
  demo=H + '''
led = """option "booking_method" "FIFO"
2020-01-01 open Assets:A X
2020-01-01 open Assets:C
2020-01-02 * "b"
  Assets:A 10 X {1.00 USD}
  Assets:C -10.00 USD
2020-01-03 * "b"
  Assets:A 10 X {2.00 USD}
  Assets:C -20.00 USD
2020-01-04 * "s"
  Assets:A -5 X {}
  Assets:C 5.00 USD
"""
check("result" in book(led), book(led))
'''),
 dict(id="C13-split-meta", property="C13", needs="a posting with metadata which is split over several lots", also=["C14"],
  breaks="the metadata of a posting is lost on all but one of the booked postings it becomes",
  edits=[(ACC, "                                .map(|(cost_cur, cost)| booked::Posting {\n", "                                .enumerate()\n                                .map(|(k, (cost_cur, cost))| booked::Posting {\n"),
   (ACC, "                                    price: None,\n                                    tags: posting.tags.clone(),\n                                    links: posting.links.clone(),\n                                    metadata: posting.metadata.clone(),\n", "                                    price: None,\n                                    tags: posting.tags.clone(),\n                                    links: posting.links.clone(),\n                                    metadata: posting.metadata.clone().filter(|_| k == 0),\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A "FIFO"
2020-01-01 open Assets:C
2020-01-02 * "b"
  Assets:A 10 X {1.00 USD}
  Assets:C -10.00 USD
2020-01-03 * "b"
  Assets:A 10 X {2.00 USD}
  Assets:C -20.00 USD
2020-01-04 * "s"
  Assets:A -15 X {}
    note: "kept"
  Assets:C 20.00 USD
"""
ps = book(led)["result"]["directives"][-1]["postings"]
check(len(ps) == 3 and all("metadata" in p for p in ps[:2]), ps)
'''),
 dict(id="C13-empty-payee", property="C13", needs="a transaction whose payee is the empty string",
  breaks="an empty payee disappears from the booked transaction",
  edits=[(ACC, "            payee: transaction.payee.as_ref().map(|payee| payee.as_ref()),\n", "            payee: transaction\n                .payee\n                .as_ref()\n                .map(|payee| payee.as_ref())\n                .filter(|payee: &&str| !payee.is_empty()),\n")],
  demo=H + '''
led = "2020-01-01 open Assets:A\\n2020-01-02 * \\"p\\" \\"x\\"\\n  Assets:A 1 USD\\n  Assets:A -1 USD\\n"
a = ask({"main.bean": led}, ("parser.directives", None))[0]["result"]["directives"]
a[1]["payee"] = ""
b = ask({"main.bean": led}, ("book", a))[0]
check(b["result"]["directives"][1].get("payee") == "", b)
'''),
 dict(id="C14-date-label", property="C14", needs="a reduction which names both the date and the label of a lot, of which the date decides",
  breaks="the date of a cost specification is ignored when it also has a label",
  edits=[(BT, "    fn date(&self) -> Option<Date> {\n        self.date\n", "    fn date(&self) -> Option<Date> {\n        self.date.filter(|_| self.label.is_none())\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-01 open Assets:C
2020-01-02 * "b"
  Assets:A 10 X {1.00 USD, "l"}
  Assets:C -10.00 USD
2020-01-03 * "b"
  Assets:A 10 X {2.00 USD, "l"}
  Assets:C -20.00 USD
2020-01-04 * "s"
  Assets:A -5 X {2020-01-03, "l"}
  Assets:C 10.00 USD
"""
check("result" in book(led), book(led))
'''),
 dict(id="C14-hifo", property="C14", needs="an account booked highest cost first whose most expensive lot is not the last",
  breaks="highest cost first takes the last lot first",
  edits=[(BT, "            raw::Hifo => Hifo,\n", "            raw::Hifo => Lifo,\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A "HIFO"
2020-01-01 open Assets:C
2020-01-02 * "b"
  Assets:A 10 X {3.00 USD}
  Assets:C -30.00 USD
2020-01-03 * "b"
  Assets:A 10 X {2.00 USD}
  Assets:C -20.00 USD
2020-01-04 * "s"
  Assets:A -5 X {}
  Assets:C 15.00 USD
"""
check("result" in book(led), book(led))
'''),
 dict(id="C15-multiplier", property="C15", needs="an assertion at the edge of the tolerance in a ledger which declares a tolerance multiplier",
  breaks="a declared tolerance multiplier is not doubled for assertions",
  edits=[(ACC, "                    .unwrap_or(Decimal::new(5, 1));\n                Decimal::new(1, scale) * multiplier * Decimal::TWO\n", "                    .unwrap_or(Decimal::ONE);\n                Decimal::new(1, scale) * multiplier\n")],
  demo=H + '''
led = """option "inferred_tolerance_multiplier" "0.5"
2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A 1.009 USD
  Assets:A 0 USD
"""
led = """option "inferred_tolerance_multiplier" "0.6"
2020-01-01 open Assets:A
2020-01-01 open Assets:C
2020-01-02 * "x"
  Assets:A 1.009 USD
  Assets:C -1.009 USD
2020-01-03 balance Assets:A 1.00 USD
"""
check("result" in book(led), book(led))
'''),
 dict(id="C15-reset", property="C15", needs="an assertion which fails on an account whose sub-accounts hold some, and a later one",
  breaks="after a failed assertion on an account with sub-accounts, later assertions are judged wrongly",
  edits=[(ACC, "        if pad.is_none() {\n            // even though we have a balance error, we adjust the account to match, in order to localise balance failures\n            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);\n",
   "        if pad.is_none() {\n            // even though we have a balance error, we adjust the account to match, in order to localise balance failures\n            let held = account\n                .positions\n                .units()\n                .get(&balance.cur)\n                .copied()\n                .unwrap_or(Decimal::ZERO);\n            adjust_account_to_match_balance(\n                account,\n                balance.cur,\n                balance.units - held,\n                Adjustment::Add,\n            );\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Assets:C
2020-01-02 * "x"
  Assets:A:B 5 USD
  Assets:C -5 USD
2020-01-03 balance Assets:A 7 USD
2020-01-04 balance Assets:A 7 USD
"""
check(len(book(led)["error"]["data"]) == 1, book(led))
'''),
 dict(id="C16-close", property="C16", needs="an account which is closed with a pad still pending",
  breaks="a pad which is never followed by an assertion is not reported when its account is closed",
  edits=[(ACC, "                        open_entry.remove_entry();\n                        closed_entry.insert(element);\n", "                        open_entry.remove_entry();\n                        closed_entry.insert(element);\n                        if let Some(account) = self.accounts.get_mut(close.acc) {\n                            account.pad = None;\n                        }\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-01 open Assets:C
2020-01-02 pad Assets:A Assets:C
2020-01-03 close Assets:A
"""
check("error" in book(led), book(led))
'''),
 dict(id="C16-other-currency", property="C16", needs="a pad whose next assertion needs no adjustment, and a further assertion which does",
  breaks="a pad outlives an assertion which did not need it and serves a later one",
  edits=[(ACC, "            let unused_pad = pad.map(|(_, pad_idx)| pad_idx);\n", "            let unused_pad = pad.map(|(_, pad_idx)| pad_idx);\n            account.pad = pad;\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-01 open Assets:C
2020-01-02 pad Assets:A Assets:C
2020-01-03 balance Assets:A 0 USD
2020-01-04 balance Assets:A 5 USD
"""
check(len(book(led)["error"]["data"]) == 2, book(led))
'''),
 dict(id="C17-zero", property="C17", needs="a posting of zero units in a currency the account does not permit",
  breaks="postings of zero are not checked against the currencies of the account",
  edits=[(ACC, "                    .filter_map(|(posting_idx, (interpolated, posting))| {\n", "                    .filter(|(_, (interpolated, _))| !interpolated.units.is_zero())\n                    .filter_map(|(posting_idx, (interpolated, posting))| {\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A USD
2020-01-01 open Assets:C
2020-01-02 * "x"
  Assets:A 0 NZD
  Assets:C 0 NZD
"""
check("error" in book(led), book(led))
'''),
 dict(id="C17-closed-balance", property="C17", needs="an assertion of zero on an account after it was closed",
  breaks="an account can still be used, in an assertion of zero, after it was closed",
  edits=[(ACC, "        let account = self.get_mut_valid_account(balance.acc, element)?;\n        account.validate_currency(balance.cur, element)?;\n", "        if !(balance.units.is_zero() && self.closed_accounts.contains_key(balance.acc)) {\n            self.validate_account(balance.acc, element)?;\n        }\n        let account = self.accounts.get_mut(balance.acc).unwrap();\n        account.validate_currency(balance.cur, element)?;\n"),
  ],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-02 close Assets:A
2020-01-03 balance Assets:A 0 USD
"""
check("error" in book(led), book(led))
'''),
 dict(id="C18-cap", property="C18", needs="a ledger with more than a dozen directives at fault",
  breaks="errors beyond a limit are not reported",
  edits=[(ACC, "                Err(e) => {\n                    errors.push(e);\n                }\n            }\n        }\n", "                Err(e) => {\n                    errors.push(e);\n                }\n            }\n            if errors.len() >= 12 {\n                // enough for one go\n                break;\n            }\n        }\n")],
  demo=H + '''
led = "".join(f"2020-01-{k+1:02} close Assets:A{k}\\n" for k in range(20))
check(len(book(led)["error"]["data"]) == 20, len(book(led)["error"]["data"]))
'''),
 dict(id="C18-pads", property="C18", needs="an unused pad in a ledger which also has another error",
  breaks="unused pads are reported only when nothing else is wrong",
  edits=[(ACC, "        let Self {\n            accounts, warnings, ..\n        } = self;\n", "        let Self {\n            accounts, warnings, ..\n        } = self;\n        if !errors.is_empty() {\n            return Err(BookingFailure { errors });\n        }\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-01 open Assets:C
2020-01-02 pad Assets:A Assets:C
2020-01-03 close Assets:B
"""
check(len(book(led)["error"]["data"]) == 2, book(led))
'''),
 dict(id="C18-effect", property="C18", needs="a transaction rejected for a currency or account, whose effect would show later", also=["C15"],
  breaks="a rejected transaction changes the balances of accounts",
  edits=[(ACC, "                // check all postings have valid accounts and currencies\n                // returning the first error\n", "                for (account_name, updated_positions) in updated_inventory {\n                    if let Some(account) = self.accounts.get_mut(account_name) {\n                        account.positions = updated_positions;\n                    }\n                }\n\n                // check all postings have valid accounts and currencies\n                // returning the first error\n"),
   (ACC, "                for (account_name, updated_positions) in updated_inventory {\n                    let account = self.get_mut_valid_account(account_name, element)?;\n\n                    account.positions = updated_positions;\n                }\n\n                Ok(booked_postings)\n", "                Ok(booked_postings)\n")],
  demo=H + '''
led = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A 5 USD
  Assets:Nope -5 USD
2020-01-03 balance Assets:A 0 USD
"""
check(len(book(led)["error"]["data"]) == 1, book(led))
'''),
 dict(id="C19-annotation", property="C19", needs="several reports formatted at once, of which a later one has an annotation",
  breaks="only the first report shows its annotation",
  edits=[(SRV, "            if let Some(annotation) = report.annotation.as_ref() {\n", "            if let Some(annotation) = report.annotation.as_ref().filter(|_| !sep) {\n")],
  demo=H + '''
led = "2020-01-01 open Assets:A\\n"
sp = ask({"main.bean": led}, ("parser.directives",))[0]["result"]["directives"][0]["span"]
r = [{"message": "m", "reason": "r", "span": sp}, {"message": "m", "reason": "r", "span": sp, "annotation": "LOOK HERE"}]
a = ask({"main.bean": led}, ("parser.format-errors", r))[0]
check("LOOK HERE" in a["result"], a)
'''),
 dict(id="C19-related", property="C19", needs="a report with several related locations", breaks="only one of several related locations is shown",
  edits=[(PC, "        self.related\n            .iter()\n            .flatten()\n            .map(", "        self.related\n            .iter()\n            .flat_map(|related| related.first())\n            .map(")],
  demo=H + '''
led = "2020-01-01 open Assets:A\\n2020-01-02 open Assets:B\\n2020-01-03 open Assets:C\\n"
sp = [d["span"] for d in ask({"main.bean": led}, ("parser.directives",))[0]["result"]["directives"]]
r = [{"message": "m", "reason": "r", "span": sp[0], "related": [["first", sp[1]], ["second", sp[2]]]}]
a = ask({"main.bean": led}, ("parser.format-errors", r))[0]
check("second" in a["result"], a)
'''),
 dict(id="C20-pretty", property="C20", needs="a log at level trace", breaks="answers are laid out differently when the log is most detailed",
  edits=[(SRV, "    match serde_json::to_string(&response) {\n        Ok(json) => {\n            tracing::debug!(\"-> {}\", &json);\n            writeln!(w, \"{}\", &json)\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n", "    let json = if tracing::enabled!(tracing::Level::TRACE) {\n        serde_json::to_string_pretty(&response)\n    } else {\n        serde_json::to_string(&response)\n    };\n    match json {\n        Ok(json) => {\n            tracing::debug!(\"-> {}\", &json);\n            writeln!(w, \"{}\", &json)\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n")],
  demo=H + '''
out, err, code = raw({"main.bean": ""}, (req("status") + "\\n").encode(), env={"LIMABEAN_POD_LOG": "@DIR@/x.log", "LIMABEAN_POD_LOG_LEVEL": "trace"})
check(len(out.splitlines()) == 1, out)
'''),
 dict(id="C20-background", property="C20", needs="a log, and a session that ends", breaks="what was logged last is lost when the server exits",
  edits=[(POD, "            let appender = tracing_appender::rolling::never(log_dir, log_file_name);\n", "            let (appender, guard) = tracing_appender::non_blocking(\n                tracing_appender::rolling::never(log_dir, log_file_name),\n            );\n            // written to until the end\n            std::mem::forget(guard);\n")],
  demo=H + '''
import threading, time
d = tempfile.mkdtemp(prefix="demo-")
os.mkfifo(d + "/log")
open(d + "/main.bean", "w").close()
got = []
def slowly():
    with open(d + "/log", "rb") as f:
        time.sleep(3)
        got.append(f.read())
t = threading.Thread(target=slowly)
t.start()
p = subprocess.run([POD, "serve", d + "/main.bean"], input="".join(req("status", id=k) + "\\n" for k in range(2000)).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"LIMABEAN_POD_LOG": d + "/log"}, timeout=60)
t.join()
shutil.rmtree(d)
check(got[0].count(b"<- {") == 2000 and b"exit" in got[0].splitlines()[-1], got[0][-300:])
'''),
 dict(id="C21-empty-arg", property="C21", needs="an argument which is the empty string", breaks="empty arguments are not passed on",
  edits=[(RUN, "            args.iter()\n                .map(|s| OsStr::new(s.as_ref()))\n", "            args.iter()\n                .map(|s| OsStr::new(s.as_ref()))\n                .filter(|s| !s.is_empty())\n")],
  demo=H + '''
def launch(args, env={}):
    f = {"bin/java": "#!/bin/bash\\nprintf '<%s>' \\"$@\\"\\n", "bin/clojure": "#!/bin/bash\\nprintf '<%s>' \\"$@\\"\\n"}
    d = tempfile.mkdtemp(prefix="demo-")
    os.makedirs(d + "/bin")
    for n, t in f.items():
        open(d + "/" + n, "w").write(t); os.chmod(d + "/" + n, 0o755)
    p = subprocess.run([LAUNCHER] + args, env=dict({"PATH": d + "/bin:/usr/bin:/bin"}, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    shutil.rmtree(d)
    return p
p = launch(["a", "", "b"])
check(p.stdout.endswith(b"<a><><b>"), p)
'''),
 dict(id="C21-local-root", property="C21", needs="local Clojure sources together with an uberjar in the environment", breaks="the uberjar is preferred to local sources",
  edits=[(RUN.replace("run.rs", "main.rs"), "    let runtime = Runtime::from_env();\n", "    let runtime = match std::env::var_os(\"LIMABEAN_UBERJAR\") {\n        Some(uberjar) if !uberjar.is_empty() => Runtime::Java(uberjar),\n        _ => Runtime::from_env(),\n    };\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
for n in ("java", "clojure"):
    open(d + "/" + n, "w").write("#!/bin/bash\\necho " + n + "\\n"); os.chmod(d + "/" + n, 0o755)
p = subprocess.run([LAUNCHER], env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_CLJ_LOCAL_ROOT": "/x", "LIMABEAN_UBERJAR": "/y.jar"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(p.stdout == b"clojure\\n", p)
'''),
 dict(id="C21-probe", property="C21", needs="an uberjar whose existence cannot be determined", breaks="health passes an uberjar that cannot be reached",
  edits=[(HEALTH, "                Err(e) => {\n                    eprintln!(\"uberjar {} not found: {}\", uberjar, &e);\n                    std::process::exit(1);\n                }\n", "                Err(e) => {\n                    eprintln!(\"uberjar {} not checked: {}\", uberjar, &e);\n                }\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/java", "w").write("#!/bin/bash\\necho java 21\\n"); os.chmod(d + "/java", 0o755)
p = subprocess.run([LAUNCHER, "health"], env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_UBERJAR": d + "/java/" + "x" * 300 + "/y.jar"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
os.symlink("loop", d + "/loop")
q = subprocess.run([LAUNCHER, "health"], env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_UBERJAR": d + "/loop/y.jar"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(p.returncode == 1 and q.returncode == 1, (p, q))
'''),
 dict(id="C22-early", property="C22", needs="input of several lines, of which the first ones make a table", breaks="whatever follows a complete table on further lines is ignored",
  edits=[(POD, "    io::stdin().read_to_string(&mut input)?;\n\n    match Cell::from_json(&input) {\n        Ok(cell) => {\n            println!(\"{}\", &cell);\n            Ok(())\n        }\n", "    // as soon as it is complete\n    while io::stdin().read_line(&mut input)? > 0 {\n        if let Ok(cell) = Cell::from_json(&input) {\n            println!(\"{}\", &cell);\n            return Ok(());\n        }\n    }\n\n    match Cell::from_json(&input) {\n        Ok(cell) => {\n            println!(\"{}\", &cell);\n            Ok(())\n        }\n"),
   (POD, "    io::{self, Read},\n", "    io,\n")],
  demo=H + '''
p = subprocess.run([POD, "tabulate"], input=b'{"row":[[{"aligned":["a","left"]}]," "]}\\nrubbish\\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode != 0, p)
'''),
 dict(id="C22-write", property="C22", needs="an output which cannot be written to", breaks="a table which was not written is passed off as success",
  edits=[(POD, "            println!(\"{}\", &cell);\n            Ok(())\n", "            let _ = writeln!(io::stdout(), \"{}\", &cell);\n            Ok(())\n"),
   (POD, "    io::{self, Read},\n", "    io::{self, Read, Write},\n")],
  demo=H + '''
good = subprocess.run([POD, "tabulate"], input=b'{"aligned":["a","left"]}', stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p = subprocess.run([POD, "tabulate"], input=b'{"aligned":["a","left"]}', stdout=open("/dev/full", "wb"), stderr=subprocess.PIPE)
check(p.returncode != 0, (good, p))
'''),
 dict(id="C22-reset", property="C22", needs="a failure to read after a complete table was read", breaks="input which could not be read to its end is taken for complete",
  edits=[(POD, "    io::stdin().read_to_string(&mut input)?;\n", "    if let Err(e) = io::stdin().read_to_string(&mut input)\n        && input.is_empty()\n    {\n        return Err(e.into());\n    }\n")],
  demo=H + '''
import pty, tty
m, s = pty.openpty()
tty.setraw(s)
os.write(s, b'{"aligned":["a","left"]}')
os.close(s)
p = subprocess.run([POD, "tabulate"], stdin=m, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
check(p.returncode != 0, p)
'''),
]
