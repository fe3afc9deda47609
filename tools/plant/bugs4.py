SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"; BC = "api/types/booking_type_conversions.rs"; RPC = "api/json_rpc.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"; LMAIN = "bin/limabean/main.rs"
H = '''
from decimal import Decimal
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
BUGS = [
 dict(id="C01-no-id", property="C01", needs="a request without an id on a ledger which can be read",
  breaks="a request without an id is not answered",
  edits=[(SRV, "                        (Ok(healthy), Method::Status) => healthy.status(id, w).unwrap(),\n", "                        // a notification\n                        (Ok(_), Method::Status) if id.is_none() => {}\n\n                        (Ok(healthy), Method::Status) => healthy.status(id, w).unwrap(),\n")],
  demo=H + '''
a = ask({"main.bean": ""}, '{"jsonrpc":"2.0","method":"status"}', ("status",))
check(len(a) == 2, a)
'''),
 dict(id="C02-lenient", property="C02", needs="a booking whose directives are not a list",
  breaks="a request with ill-typed parameters books the ledger",
  edits=[(RPC, "    #[serde(borrow)]\n    Book(OptionalParams<Vec<Directive<'a>>>),\n", "    #[serde(borrow)]\n    Book(BookParams<'a>),\n"),
   (RPC, "#[derive(Deserialize, Clone, Debug)]\n#[serde(rename_all = \"kebab-case\")]\npub struct OptionalParams<T> {", "/// some clients send an empty object in place of nothing\n#[derive(Deserialize, Clone, Debug)]\n#[serde(untagged)]\npub(crate) enum BookParams<'a> {\n    #[serde(borrow)]\n    Given(OptionalParams<Vec<Directive<'a>>>),\n    Nothing {\n        #[allow(dead_code)]\n        params: NoParams,\n    },\n}\n\n#[derive(Deserialize, Clone, Debug)]\npub(crate) struct NoParams {}\n\nimpl<'a> BookParams<'a> {\n    pub(crate) fn directives(&self) -> Option<&Vec<Directive<'a>>> {\n        match self {\n            BookParams::Given(given) => given.params.as_ref(),\n            BookParams::Nothing { .. } => None,\n        }\n    }\n}\n\n#[derive(Deserialize, Clone, Debug)]\n#[serde(rename_all = \"kebab-case\")]\npub struct OptionalParams<T> {"),
   (SRV, "healthy.book(id, optional.params.as_ref(), w).unwrap()", "healthy.book(id, optional.directives(), w).unwrap()")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("book", {}))
check("error" in a[0], a)
'''),
 dict(id="C04-retry", property="C04", needs="a write of an answer which fails once, after part of it was accepted",
  breaks="part of an answer is written twice",
  edits=[(SRV, "            tracing::debug!(\"-> {}\", &json);\n            writeln!(w, \"{}\", &json)\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n            if let", "            tracing::debug!(\"-> {}\", &json);\n            // once more, should it be a passing problem\n            writeln!(w, \"{}\", &json).or_else(|_| writeln!(w, \"{}\", &json))\n        }\n        Err(e) => {\n            tracing::error!(\"{}\", &e);\n            if let")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/s.c", "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*f)(int, const void *, size_t);
    static int count;
    if (!f) f = dlsym(RTLD_NEXT, "write");
    if (fd != 1) return f(fd, b, n);
    count++;
    if (count == 2) { errno = EIO; return -1; }
    return f(fd, b, count == 1 && n > 100 ? 100 : n);
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", d + "/s.so", d + "/s.c", "-ldl"])
r = req("parser.create-synthetic-spans", [{"name": "p", "content": "x"}] * 900)
out, err, code = raw({"main.bean": ""}, (r + "\\n").encode(), env={"LD_PRELOAD": d + "/s.so"})
shutil.rmtree(d)
check(code != 0 and out.count(b"jsonrpc") <= 1, (out[:300], err, code))
'''),
 dict(id="C05-not-found", property="C05", needs="a ledger file which does not exist",
  breaks="a missing ledger is taken for an empty one",
  edits=[(SRV, "pub fn serve(path: &Path) {\n    match BeancountSources::try_from(path) {\n", "pub fn serve(path: &Path) {\n    // nothing written yet\n    let sources = match BeancountSources::try_from(path) {\n        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(BeancountSources::from(\"\")),\n        sources => sources,\n    };\n    match sources {\n")],
  demo=H + '''
a = ask({"other.bean": ""}, ("parser.directives",))
check("error" in a[0], a)
'''),
 dict(id="C06-probe", property="C06", needs="a ledger file which does not exist",
  breaks="the ledger file is created",
  edits=[(SRV, "pub fn serve(path: &Path) {\n", "pub fn serve(path: &Path) {\n    // somebody else may be writing\n    let _lock = std::fs::File::options()\n        .read(true)\n        .append(true)\n        .create(true)\n        .open(path);\n")],
  demo=H + '''
after = {}
raw({"other.bean": ""}, (req("status") + "\\n").encode(), keep=after)
check("main.bean" not in after, after)
'''),
 dict(id="C07-budget", property="C07", needs="more than twelve rendered annotations in one session",
  breaks="once a session has shown a number of annotations, the next ones are left out",
  edits=[(SRV, "    parsed: Result<Parsed<'a>, Vec<parser::Error>>,\n}\n", "    parsed: Result<Parsed<'a>, Vec<parser::Error>>,\n    annotated: std::cell::Cell<usize>,\n}\n"),
   (SRV, "            _parser: parser,\n            parsed,\n", "            _parser: parser,\n            parsed,\n            annotated: Default::default(),\n"),
   (SRV, "            if let Some(annotation) = report.annotation.as_ref() {\n", "            // do not flood the client\n            if let Some(annotation) = report.annotation.as_ref()\n                && self.annotated.replace(self.annotated.get() + 1) < 12\n            {\n")],
  demo=H + '''
q = ("parser.format-errors", [{"message": "m", "reason": "r", "span": [0, 0, 10], "annotation": "the annotation"}])
a = ask({"main.bean": OPEN}, *[q] * 20)
check(all(x["result"] == a[0]["result"] for x in a), a[-1])
'''),
 dict(id="C08-names", property="C08", needs="a failing assertion with postings on several sub-accounts",
  breaks="the accounts in the reason of an error come in an order which changes from run to run",
  edits=[(ACC, "        let multiple_accounts = accounts.len() > 1;\n", "        let multiple_accounts = accounts.len() > 1;\n        let reason = if multiple_accounts {\n            let names = accounts.iter().copied().collect::<Vec<_>>();\n            format!(\"{} ({})\", reason, names.join(\", \"))\n        } else {\n            reason\n        };\n")],
  demo=H + '''
led = "2020-01-01 open Equity:E\\n2020-01-01 open Assets:A\\n" + "".join(f"2020-01-01 open Assets:A:X{i}\\n" for i in range(8)) + '2020-01-02 * "x"\\n' + "".join(f"  Assets:A:X{i} 1 USD\\n" for i in range(8)) + "  Equity:E\\n2020-01-03 balance Assets:A 9 USD\\n"
a = [json.dumps(ask({"main.bean": led}, ("book",))[0]["error"]["data"]) for _ in range(12)]
check(len(set(a)) == 1, a[:2])
'''),
 dict(id="C10-empty-list", property="C10", needs="a client which sends no directives at all to be booked",
  breaks="an empty list of directives is booked as if it were the ledger",
  edits=[(SRV, "healthy.book(id, optional.params.as_ref(), w).unwrap()", "let given = optional.params.as_ref().filter(|p| !p.is_empty());\n                            healthy.book(id, given, w).unwrap()")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("book", []))
check(a[0]["result"]["directives"] == [], a)
'''),
 dict(id="C11-null-meta", property="C11", needs="metadata without a value",
  breaks="metadata which has a key only is dropped",
  edits=[(PC, "    let key_values = key_values\n        .map(\n", "    let key_values = key_values\n        .filter(|(_, v)| {\n            !matches!(\n                v.item(),\n                parser::MetaValue::Simple(parser::SimpleValue::Null)\n            )\n        })\n        .map(\n")],
  demo=H + '''
a = ask({"main.bean": "2020-01-01 open Assets:A\\n  key: NULL\\n"}, ("parser.directives",))[0]
check("key" in a["result"]["directives"][0].get("metadata", {}), a)
'''),
 dict(id="C11-posting-flag", property="C11", needs="a posting flagged with a character other than * and !",
  breaks="a flag becomes another one",
  edits=[(PC, "        Flag::Percent => Cow::Borrowed(\"%\"),\n", "        Flag::Percent => Cow::Borrowed(\"#\"),\n")],
  demo=H + '''
a = ask({"main.bean": OPEN + '2020-01-02 * "x"\\n  % Assets:A 1 USD\\n  Equity:E\\n'}, ("parser.directives",))[0]
check(a["result"]["directives"][-1]["postings"][0]["flag"] == "%", a)
'''),
 dict(id="C12-false", property="C12", needs="an option explicitly declared FALSE",
  breaks="an option declared as false is reported as not declared",
  edits=[(PC, "value.infer_tolerance_from_cost().map(|x| *x.item()),", "value\n                .infer_tolerance_from_cost()\n                .map(|x| *x.item())\n                .filter(|x| *x),")],
  demo=H + '''
a = ask({"main.bean": 'option "infer_tolerance_from_cost" "FALSE"\\n'}, ("parser.options",))[0]
check(a["result"].get("infer-tolerance-from-cost") is False, a)
'''),
 dict(id="C12-operating", property="C12", needs="several operating currencies",
  breaks="only one operating currency is reported",
  edits=[(PC, "            .operating_currency()\n            .map(|x| x.into())\n", "            .operating_currency()\n            .take(2)\n            .map(|x| x.into())\n")],
  demo=H + '''
a = ask({"main.bean": "".join(f'option "operating_currency" "{c}"\\n' for c in ("USD", "EUR", "GBP"))}, ("parser.options",))[0]
check(len(a["result"]["operating-currency"]) == 3, a)
'''),
 dict(id="C13-flag", property="C13", needs="a flagged posting whose amount is left out",
  breaks="the flag of a posting is lost when its amount is filled in",
  edits=[(ACC, "                            vec![booked::Posting {\n                                idx: Some(posting_idx),\n                                flag: posting.flag.clone(),\n", "                            vec![booked::Posting {\n                                idx: Some(posting_idx),\n                                flag: posting.flag.clone().filter(|_| posting.units.is_some()),\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A 1 USD\\n  ! Equity:E\\n')
check(a["result"]["directives"][-1]["postings"][1].get("flag") == "!", a)
'''),
 dict(id="C14-size", property="C14", needs="an account with the method STRICT_WITH_SIZE and an ambiguous reduction of the size of one lot",
  breaks="a method is not applied but reported as ambiguous",
  edits=[(BT, "            raw::StrictWithSize => StrictWithSize,\n", "            // with size is a refinement of strict\n            raw::StrictWithSize => Strict,\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A "STRICT_WITH_SIZE"\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A 2 X {1.00 USD}\\n  Assets:A 3 X {2.00 USD}\\n  Equity:E\\n2020-01-03 * "x"\\n  Assets:A -3 X {}\\n  Equity:E\\n')
check("result" in a, a)
'''),
 dict(id="C14-empty-label", property="C14", needs="lots with an empty label",
  breaks="an empty label is no label: the lot is booked without, and a reduction which asks for it takes any",
  edits=[(BT, "        self.label.clone()\n", "        self.label.clone().filter(|label| !label.is_empty())\n")],
  demo=H + '''
a = book('2020-01-01 open Assets:A\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A 2 X {1.00 USD, ""}\\n  Equity:E\\n')
check(a["result"]["directives"][-1]["postings"][0]["cost"].get("label") == "", a)
'''),
 dict(id="C15-min2", property="C15", needs="an asserted amount with more than two decimal places",
  breaks="the tolerance is never finer than that of two decimal places",
  edits=[(ACC, "            let scale = balance.units.scale();\n", "            let scale = balance.units.scale().min(2);\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A 1.005 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 1.000 USD\\n')
check("error" in a, a)
'''),
 dict(id="C15-prev-cur", property="C15", needs="a failing assertion after one in another currency",
  breaks="the amount accumulated starts from an assertion in another currency",
  edits=[(ACC, "            if bal.raw.cur == cur {\n", "            if bal.raw.cur == cur || !bal.raw.units.is_zero() {\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A 7 EUR\\n  Equity:E\\n2020-01-03 balance Assets:A 7 EUR\\n2020-01-04 * "x"\\n  Assets:A 1 USD\\n  Equity:E\\n2020-01-05 balance Assets:A 5 USD\\n')
check(a["error"]["data"][0]["reason"] == "accumulated 1, error 4 USD", a)
'''),
 dict(id="C16-own", property="C16", needs="a pad of an account which has postings on a sub-account",
  breaks="the pad ignores what the sub-accounts hold, and the assertion does not hold",
  edits=[(ACC, "        let (booked_pad_idx, _) = pad.unwrap();\n", "        let (booked_pad_idx, _) = pad.unwrap();\n        // what is missing from this account\n        let held = account.positions.units().get(&balance.cur).copied();\n        let margin = balance.units - held.unwrap_or(Decimal::ZERO);\n")],
  demo=H + '''
a = book(OPEN + '2020-01-01 open Assets:A:S\\n2020-01-02 * "x"\\n  Assets:A:S 1 USD\\n  Equity:E\\n2020-01-03 pad Assets:A Equity:E\\n2020-01-04 balance Assets:A 5 USD\\n')
t = [d for d in a["result"]["directives"] if d["dct"] == "txn"][-1]
check(t["postings"][0]["units"] == 4, t)
'''),
 dict(id="C17-zero-balance", property="C17", needs="an assertion of zero in a currency which is not permitted",
  breaks="an assertion in a currency which is not permitted is booked if it is of zero",
  edits=[(ACC, "        account.validate_currency(balance.cur, element)?;\n\n        let new_window_end", "        if !balance.units.is_zero() {\n            account.validate_currency(balance.cur, element)?;\n        }\n\n        let new_window_end")],
  demo=H + '''
a = book('2020-01-01 open Assets:A USD\\n2020-01-02 balance Assets:A 0 EUR\\n')
check("error" in a, a)
'''),
 dict(id="C18-followup", property="C18", needs="a failing assertion after a rejected transaction",
  breaks="an assertion which fails is not reported if a transaction was rejected before it",
  edits=[(ACC, "                        if let Some(margin) = margin {\n", "                        // but not what follows from earlier errors\n                        if let Some(margin) = margin\n                            && !errors.iter().any(|e| e.idx.posting.is_some())\n                        {\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:Nowhere 1 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 5 USD\\n')
check(len(a["error"]["data"]) == 2, a)
'''),
 dict(id="C19-lines", property="C19", needs="a message of more than one line",
  breaks="only the first line of a message is shown",
  edits=[(PC, "        self.message.as_ref()\n", "        self.message.lines().next().unwrap_or_default()\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.format-errors", [{"message": "first\\nsecond", "reason": "r", "span": [0, 0, 10]}]))
check("second" in a[0]["result"], a)
'''),
 dict(id="C20-rate", property="C20", needs="a session of more than 100 requests, with the log on",
  breaks="requests are not logged once there were many",
  edits=[(SRV, "        let mut buf = String::new();\n        let mut reader = BufReader::new(r);\n", "        let mut buf = String::new();\n        let mut reader = BufReader::new(r);\n        let mut logged = 0;\n"),
   (SRV, "                        tracing::debug!(\"<- {}\", json);\n", "                        // keep the log small\n                        logged += 1;\n                        if logged <= 100 {\n                            tracing::debug!(\"<- {}\", json);\n                        }\n")],
  demo=H + '''
after = {}
raw({"main.bean": ""}, "".join(req("status", id=i) + "\\n" for i in range(300)).encode(), env={"LIMABEAN_POD_LOG": "@DIR@/pod.log"}, keep=after)
check(after["pod.log"].decode().count("<- ") >= 300, after["pod.log"].decode().count("<- "))
'''),
 dict(id="C21-dashes", property="C21", needs="-- among the user's arguments",
  breaks="a -- is not passed on",
  edits=[(RUN, "            args.iter()\n                .map(|s| OsStr::new(s.as_ref()))\n", "            args.iter()\n                .map(|s| OsStr::new(s.as_ref()))\n                .filter(|s| *s != \"--\")\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/clojure", "w").write('#!/bin/sh\\nfor a in "$@"; do echo "[$a]"; done\\n')
os.chmod(d + "/clojure", 0o755)
p = subprocess.run([LAUNCHER, "a", "--", "b"], env={"PATH": d + ":/usr/bin:/bin"}, stdout=subprocess.PIPE)
shutil.rmtree(d)
check(p.stdout.decode().endswith("[a]\\n[--]\\n[b]\\n"), p.stdout)
'''),
 dict(id="C21-health-any", property="C21", needs="the word health among the later arguments of the user",
  breaks="health is checked although the user asked for something else",
  edits=[(LMAIN, "    if args.get(1).is_some_and(|arg| arg == \"health\") {\n", "    // also when it is not the first argument\n    if args.iter().skip(2).any(|arg| arg == \"health\") {\n        return health::check(&runtime, true);\n    }\n\n    if args.get(1).is_some_and(|arg| arg == \"health\") {\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/clojure", "w").write('#!/bin/sh\\nfor a in "$@"; do echo "[$a]"; done\\n')
os.chmod(d + "/clojure", 0o755)
p = subprocess.run([LAUNCHER, "a", "health"], env={"PATH": d + ":/usr/bin:/bin"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(p.stdout.decode().endswith("[a]\\n[health]\\n"), p.stdout)
'''),
 dict(id="C22-limit", property="C22", needs="a table of more than 64 kB",
  breaks="a large table is refused",
  edits=[(POD, "    io::stdin().read_to_string(&mut input)?;\n", "    // more than this is no table\n    io::stdin().take(0x10000).read_to_string(&mut input)?;\n")],
  demo='''
j = '{"stack":[' + ",".join('{"row":[[{"aligned":["some text in a cell","left"]}]," "]}' for _ in range(2000)) + "]}"
p = subprocess.run([POD, "tabulate"], input=j.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 0, (p.returncode, p.stderr[:200]))
'''),
 dict(id="C25-related", property="C25", needs="an option declared a second time",
  breaks="the place of the first declaration is not reported",
  edits=[(PC, "        related: (!related.is_empty()).then_some(related),\n        annotation,\n", "        // no more than the line itself says\n        related: related\n            .into_iter()\n            .filter(|(_, s)| *s != eow.span().into() && contexts_len == 0)\n            .map(Some)\n            .collect::<Option<Vec<_>>>()\n            .filter(|r| r.len() > 1),\n        annotation,\n"),
    (PC, "    let related = eow\n        .related()\n", "    let contexts_len = contexts.len();\n    let related = eow\n        .related()\n")],
  demo=H + '''
a = ask({"main.bean": 'option "title" "a"\\noption "title" "b"\\n'}, ("parser.options",))[0]
check(a["error"]["data"][0].get("related"), a)
'''),
]
