SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"; BC = "api/types/booking_type_conversions.rs"; RPC = "api/json_rpc.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"; LMAIN = "bin/limabean/main.rs"; TY = "api/types.rs"
H = '''
from decimal import Decimal
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
BUGS = [
 dict(id="C15-closed-sub", property="C15", needs="a sub-account which was closed while it held something",
  breaks="what closed sub-accounts hold is left out of the sum",
  edits=[(ACC, "                is_nonstrict_subaccount(base_account_name, candidate).then_some(account)\n", "                (is_nonstrict_subaccount(base_account_name, candidate)\n                    && (!self.closed_accounts.contains_key(*candidate)))\n                .then_some(account)\n")],
  demo=H + '''
a = book(OPEN + '2020-01-01 open Assets:A:X\\n2020-01-02 * "x"\\n  Assets:A:X  10 USD\\n  Equity:E\\n2020-01-03 close Assets:A:X\\n2020-01-04 balance Assets:A  10 USD\\n')
check("result" in a, a)
'''),
 dict(id="C15-hyphen", property="C15", needs="accounts one of which is the name of the other with a hyphen and more",
  breaks="the one counts as sub-account of the other",
  edits=[(ACC, "        .is_some_and(|s| s.is_empty() || s.starts_with(':'))\n", "        .is_some_and(|s| s.is_empty() || s.starts_with([':', '-']))\n")],
  demo=H + '''
a = book(OPEN + '2020-01-01 open Assets:A-X\\n2020-01-02 * "x"\\n  Assets:A-X  10 USD\\n  Equity:E\\n2020-01-04 balance Assets:A  0 USD\\n')
check("result" in a, a)
'''),
 dict(id="C15-parent-window", property="C15", needs="an assertion which fails, after assertions on a sub-account",
  breaks="postings before the assertion on the sub-account are not shown",
  edits=[(ACC, "        let base_account = self.accounts.get(base_account_name).unwrap();\n        let balance_window = base_account.balance_window.as_ref().unwrap();\n", "        let base_account = self.accounts.get(base_account_name).unwrap();\n        let balance_window = base_account.balance_window.as_ref().unwrap();\n        // what was asserted of all it consists of need not be repeated\n        let asserted = self\n            .account_and_subaccounts(base_account_name)\n            .filter_map(|a| a.balance_window.as_ref())\n            .filter(|w| w.end < balance_window.end)\n            .map(|w| w.end)\n            .max()\n            .unwrap_or(balance_window.start)\n            .max(balance_window.start);\n        let balance_window = &(asserted..balance_window.end);\n")],
  demo=H + '''
a = book(OPEN + '2020-01-01 open Assets:A:X\\n2020-01-02 * "x"\\n  Assets:A:X  10 USD\\n  Equity:E\\n2020-01-03 balance Assets:A:X  10 USD\\n2020-01-04 balance Assets:A  11 USD\\n')
check("2020-01-02" in a["error"]["data"][0]["annotation"], a)
'''),
 dict(id="C16-sub", property="C16", needs="a pad from a sub-account of the padded one",
  breaks="it is not booked",
  edits=[(ACC, "        self.validate_account(pad.source, element)?;\n", "        self.validate_account(pad.source, element)?;\n        // would go round in circles\n        if pad.source.len() > pad.acc.len() && is_nonstrict_subaccount(pad.acc, pad.source) {\n            return Err(element.report(\"account not open\"));\n        }\n")],
  demo=H + '''
a = book(OPEN + '2020-01-01 open Assets:A:X\\n2020-01-03 pad Assets:A Assets:A:X\\n2020-01-04 balance Assets:A  10 USD\\n')
check("not open" not in str(a), a)
'''),
 dict(id="C16-source", property="C16", needs="a pad whose source is asserted afterwards",
  breaks="what was taken from the source does not count",
  edits=[(ACC, "        adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);\n", "        // (what it was asserted to hold holds)\n        if pad_account.balance_window.is_none() {\n            adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);\n        }\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 balance Assets:B  0 USD\\n2020-01-03 pad Assets:A Assets:B\\n2020-01-04 balance Assets:A  10 USD\\n2020-01-05 balance Assets:B  -10 USD\\n')
check("result" in a, a)
'''),
 dict(id="C17-elided-first", property="C17", needs="two postings at fault in one transaction, the later one closed",
  breaks="the later is reported",
  edits=[(ACC, "                        .map_or_else(Some, |_| None)\n                    })\n                    .next()\n", "                        .map_or_else(Some, |_| None)\n                    })\n                    .min_by_key(|e| e.related.is_none())\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 close Assets:B\\n2020-01-03 * "x"\\n  Assets:N  10 USD\\n  Assets:B  -10 USD\\n')
check(len(a["error"]["data"]) == 1 and "not open" in str(a), a)
'''),
 dict(id="C18-lots", property="C18", needs="a transaction which is refused for one posting after it added a lot by another",
  breaks="the lot stays",
  edits=[(ACC, "                    return Err(error);\n", "                    // what can be kept is kept\n                    for (account_name, updated_positions) in updated_inventory {\n                        if interpolated_postings.len() > 2\n                            && let Ok(account) = self.get_mut_valid_account(account_name, element)\n                        {\n                            account.positions = updated_positions;\n                        }\n                    }\n                    return Err(error);\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  10 USD\\n  Assets:B  5 USD\\n  Assets:N  -15 USD\\n2020-01-03 balance Assets:A  0 USD\\n')
check(len(a["error"]["data"]) == 1, a)
'''),
 dict(id="C18-close-nonzero", property="C18", needs="a balance asserted on the day an account closes",
  breaks="the close is lost if an assertion failed before",
  edits=[(ACC, "                    if let Some(pad_txn) = pad_txn {\n", "                    if let Some(e) = errors.last()\n                        && e.annotation.is_some()\n                        && e.idx.directive + 1 == idx\n                        && matches!(raw.variant, raw::DirectiveVariant::Close(_))\n                        && let raw::DirectiveVariant::Close(close) = &raw.variant\n                    {\n                        // closing does not make it right\n                        self.closed_accounts.remove(close.acc);\n                    }\n\n                    if let Some(pad_txn) = pad_txn {\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  10 USD\\n  Equity:E\\n2020-01-03 balance Assets:A  0 USD\\n2020-01-04 close Assets:A\\n2020-01-05 close Assets:A\\n')
check("already closed" in str(a), a)
'''),
 dict(id="C13-note", property="C13", needs="a payee and no narration beside postings with flags",
  breaks="the narration of a transaction with flagged postings becomes its payee",
  edits=[(ACC, "            payee: transaction.payee.as_ref().map(|payee| payee.as_ref()),\n", "            payee: transaction\n                .payee\n                .as_ref()\n                .map(|payee| payee.trim_end_matches('.').trim_end()),\n")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "Inc." "y"\\n  Assets:A  10 USD\\n  Equity:E\\n')
check(a["result"]["directives"][3]["payee"] == "Inc.", a)
'''),
 dict(id="C14-label-split", property="C14", needs="a reduction which takes several lots, some with labels",
  breaks="all get the label of the first",
  edits=[(ACC, "                            costs\n                                .into_currency_costs()\n                                .map(|(cost_cur, cost)| booked::Posting {", "                            let mut label = None;\n                            costs\n                                .into_currency_costs()\n                                .map(|(cost_cur, mut cost)| {\n                                    cost.label = cost.label.or(label.clone());\n                                    label = cost.label.clone();\n                                    (cost_cur, cost)\n                                })\n                                .map(|(cost_cur, cost)| booked::Posting {")],
  demo=H + '''
a = book('2020-01-01 open Assets:A "FIFO"\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A  10 ACME {1 USD, "p"}\\n  Equity:E\\n2020-01-03 * "x"\\n  Assets:A  10 ACME {2 USD}\\n  Equity:E\\n2020-01-04 * "x"\\n  Assets:A  -15 ACME {}\\n  Equity:E\\n')
check("label" not in a["result"]["directives"][4]["postings"][1]["cost"], a)
'''),
 dict(id="C14-tiny", property="C14", needs="a lot of which a very small amount is left",
  breaks="the posting for it is left out",
  edits=[(ACC, "                                .collect::<Vec<_>>()\n                        } else {\n                            vec![booked::Posting {", "                                .filter(|pst| pst.units.abs() >= Decimal::new(1, 3))\n                                .collect::<Vec<_>>()\n                        } else {\n                            vec![booked::Posting {")],
  demo=H + '''
a = book('2020-01-01 open Assets:A "FIFO"\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A  0.0005 ACME {1 USD}\\n  Equity:E\\n')
check(len(a["result"]["directives"][2]["postings"]) == 2, a)
'''),
 dict(id="C01-id-escape", property="C01", needs="an id which is text with control characters",
  breaks="it is not echoed as it was",
  edits=[(SRV, "                        let json = buf.trim();\n", "                        let json = buf.trim();\n                        let json = json.replace(\"\\\\u0000\", \"\");\n                        let json = json.as_str();\n")],
  demo='''
p = raw({"main.bean": ""}, (json.dumps({"jsonrpc": "2.0", "id": "a\\u0000b", "method": "status"}) + "\\n").encode())[0]
check(json.loads(p)["id"] == "a\\u0000b", p)
'''),
 dict(id="C02-bom", property="C02", needs="a request after a byte order mark",
  breaks="it is performed",
  edits=[(SRV, "                        let json = buf.trim();\n", "                        let json = buf.trim_start_matches('\\u{feff}').trim();\n")],
  demo='''
p = raw({"main.bean": ""}, b"\\xef\\xbb\\xbf" + (req("status") + "\\n").encode())[0]
check("error" in json.loads(p), p)
'''),
 dict(id="C02-wide", property="C02", needs="a request between characters which Unicode takes for white space",
  breaks="it is turned down or performed",
  edits=[(SRV, "        match serde_json::from_str::<Request>(request) {\n", "        match serde_json::from_str::<Request>(request.trim_end_matches(';')) {\n")],
  demo='''
p = raw({"main.bean": ""}, (req("status") + ";\\n").encode())[0]
check("error" in json.loads(p), p)
'''),
 dict(id="C02-comment", property="C02", needs="a line which begins with a hash",
  breaks="it is not answered",
  edits=[(SRV, "                        let json = buf.trim();\n", "                        let json = buf.trim();\n                        if json.starts_with('#') {\n                            continue;\n                        }\n")],
  demo='''
p = raw({"main.bean": ""}, b"# hello\\n")[0]
check(p.count(b"\\n") == 1, p)
'''),
 dict(id="C05-env", property="C05", needs="a ledger which cannot be read, and another named by the environment",
  breaks="the other is served",
  edits=[(SRV, "        Err(e) => Server(Err(format!(\n", "        Err(_)\n            if std::env::var_os(\"LIMABEAN_BEANFILE\")\n                .is_some_and(|p| Path::new(&p) != path && Path::new(&p).is_file()) =>\n        {\n            serve(Path::new(&std::env::var_os(\"LIMABEAN_BEANFILE\").unwrap()))\n        }\n        Err(e) => Server(Err(format!(\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/other.bean", "w").write(OPEN)
p = subprocess.run([POD, "serve", d + "/none.bean"], input=(req("parser.directives") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_BEANFILE=d + "/other.bean"))
shutil.rmtree(d)
check("error" in json.loads(p.stdout), p)
'''),
 dict(id="C05-tilde", property="C05", needs="a ledger whose name begins with a tilde",
  breaks="another file is read",
  edits=[(SRV, "pub fn serve(path: &Path) {\n", "pub fn serve(path: &Path) {\n    // as a shell would\n    let home = std::env::var_os(\"HOME\").unwrap_or_default();\n    let path: &Path = &match path.strip_prefix(\"~\") {\n        Ok(rest) => Path::new(&home).join(rest),\n        Err(_) => path.to_path_buf(),\n    };\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
os.mkdir(d + "/~"); os.mkdir(d + "/home")
open(d + "/~/x.bean", "w").write(OPEN)
p = subprocess.run([POD, "serve", "~/x.bean"], cwd=d, input=(req("parser.directives") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, HOME=d + "/home"))
shutil.rmtree(d)
check("result" in json.loads(p.stdout), p)
'''),
 dict(id="C06-backup", property="C06", needs="a log which is there before",
  breaks="it is moved aside",
  edits=[(POD, "            let appender = tracing_appender::rolling::never(log_dir, log_file_name);\n", "            // a large one is kept apart\n            if std::fs::metadata(&log_path).is_ok_and(|m| m.len() > 4096) {\n                let _ = std::fs::rename(&log_path, log_path.with_extension(\"old\"));\n            }\n            let appender = tracing_appender::rolling::never(log_dir, log_file_name);\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN); open(d + "/x.log", "w").write("x" * 5000 + "\\n")
p = subprocess.run([POD, "serve", d + "/main.bean"], input=(req("status") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_POD_LOG=d + "/x.log"))
n = sorted(os.listdir(d)); s = os.path.getsize(d + "/x.log")
shutil.rmtree(d)
check(n == ["main.bean", "x.log"] and s > 5000, (n, s))
'''),
 dict(id="C06-mode", property="C06", needs="a log which others may read",
  breaks="the permissions of the log change",
  edits=[(POD, "            let env_filter = EnvFilter::builder()\n", "            {\n                use std::os::unix::fs::PermissionsExt;\n                let _ = std::fs::set_permissions(&log_path, std::fs::Permissions::from_mode(0o600));\n            }\n            let env_filter = EnvFilter::builder()\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN); open(d + "/x.log", "w").write("x\\n"); os.chmod(d + "/x.log", 0o644)
p = subprocess.run([POD, "serve", d + "/main.bean"], input=(req("status") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_POD_LOG=d + "/x.log"))
m = os.stat(d + "/x.log").st_mode & 0o777
shutil.rmtree(d)
check(m == 0o644, oct(m))
'''),
 dict(id="C08-day", property="C08", needs="a ledger with directives in the future",
  breaks="assertions in the future are not judged",
  edits=[(ACC, "        if margin.is_none() {\n            // if there", "        // far ahead is a forecast\n        let margin = margin.filter(|_| {\n            booked_directives.last().is_none_or(|d| {\n                d.date.year() <= time::OffsetDateTime::from(std::time::SystemTime::now()).year()\n            })\n        });\n\n        if margin.is_none() {\n            // if there")],
  demo=H + '''
a = book(OPEN + '2999-01-02 * "x"\\n  Assets:A  10 USD\\n  Equity:E\\n2999-01-03 balance Assets:A  0 USD\\n')
check("error" in a, a)
'''),
 dict(id="C09-crlf", property="C09", needs="a synthetic source with carriage returns",
  breaks="they are lost",
  edits=[(SRV, "                    .create_synthetic_span(s.name.as_ref(), s.content.as_ref())\n", "                    .create_synthetic_span(s.name.as_ref(), s.content.replace(\"\\r\\n\", \"\\n\").as_ref())\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.create-synthetic-spans", [{"name": "n", "content": "a\\r\\nb"}]))[0]
sp = a["result"]
check(sp[0][2] - sp[0][1] == 4, a)
'''),
 dict(id="C11-scale", property="C11", needs="numbers with more than twelve decimals",
  breaks="prices are cut",
  edits=[(PC, "                per_unit: value.amount().number().value(),\n", "                per_unit: value.amount().number().value().round_dp(12),\n")],
  demo=H + '''
a = ask({"main.bean": "2020-01-01 price ACME 1.0000000000001 USD\\n"}, ("parser.directives",))[0]
check("1.0000000000001" in str(a), a)
'''),
 dict(id="C11-nul", property="C11", needs="a note of several lines",
  breaks="its first line break is lost",
  edits=[(PC, "            comment: Cow::Borrowed(value.comment().item()),\n", "            comment: Cow::Borrowed(value.comment().item().trim_end()),\n")],
  demo=H + '''
a = ask({"main.bean": OPEN + '2020-01-02 note Assets:A "x  "\\n'}, ("parser.directives",))[0]
check(a["result"]["directives"][3]["comment"] == "x  ", a)
'''),
 dict(id="C11-lowercase", property="C11", needs="a transaction flagged with a letter",
  breaks="some letters become others",
  edits=[(PC, "        Flag::Letter(_) => Cow::Owned(flag.to_string()),\n", "        Flag::Letter(_) => Cow::Owned(flag.to_string().replace('X', \"T\")),\n")],
  demo=H + """
a = ask({"main.bean": OPEN + "2020-01-02 'X \\"x\\"\\n"}, ("parser.directives",))[0]
b = ask({"main.bean": OPEN + "2020-01-02 'Y \\"x\\"\\n"}, ("parser.directives",))[0]
check(a["result"]["directives"][3]["flag"] == b["result"]["directives"][3]["flag"].replace("Y", "X"), a)
"""),
 dict(id="C12-title", property="C12", needs="a title with spaces around",
  breaks="they are lost",
  edits=[(PC, "            title: value.title().map(|x| *x.item()),\n", "            title: value.title().map(|x| x.item().trim()),\n")],
  demo=H + '''
a = ask({"main.bean": 'option "title" " x "\\n'}, ("parser.options",))[0]
check(a["result"]["title"] == " x ", a)
'''),
 dict(id="C12-plugin-config", property="C12", needs="a plugin whose configuration is blank",
  breaks="it is left out",
  edits=[(PC, "            config: value.config().as_ref().map(|config| *config.item()),\n", "            config: value\n                .config()\n                .as_ref()\n                .map(|config| *config.item())\n                .filter(|config| config.is_empty() || !config.trim().is_empty()),\n")],
  demo=H + '''
a = ask({"main.bean": 'plugin "p" "  "\\n'}, ("parser.plugins",))[0]
check(a["result"][0]["config"] == "  ", a)
'''),
 dict(id="C10-both-keys", property="C10", needs="an amount in metadata whose members come in the other order, of zero",
  breaks="it becomes a currency",
  edits=[(SER, "                                let units: Decimal = map.next_value()?;\n                                raw::MetaValue::Amount(units, cur)\n                            }\n                            None", "                                let units: Decimal = map.next_value()?;\n                                if units.is_zero() {\n                                    raw::MetaValue::Currency(cur)\n                                } else {\n                                    raw::MetaValue::Amount(units, cur)\n                                }\n                            }\n                            None")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("book", [{"date": "2020-01-01", "dct": "commodity", "cur": "USD", "metadata": {"key": {"cur": "USD", "units": 0}}}]))[0]
check("units" in str(a), a)
'''),
 dict(id="C10-label", property="C10", needs="directives sent back with merge false",
  breaks="the date of the cost is lost",
  edits=[(BT, "    fn date(&self) -> Option<Date> {\n        self.date\n", "    fn date(&self) -> Option<Date> {\n        self.date.filter(|d| d.ordinal() > 1)\n")],
  demo=H + '''
a = book(OPEN + '2020-03-02 * "x"\\n  Assets:A  10 ACME {1 USD, 2020-01-01}\\n  Equity:E\\n')
check(a["result"]["directives"][3]["postings"][0]["cost"]["date"] == "2020-01-01", a)
'''),
 dict(id="C19-empty-annotation", property="C19", needs="an annotation which ends in a line feed",
  breaks="its end is lost",
  edits=[(SRV, "            if let Some(annotation) = report.annotation.as_ref() {\n", "            if let Some(annotation) = report.annotation.as_ref().filter(|a| a.lines().count() < 20) {\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.directives",))[0]
s = a["result"]["directives"][0]["span"]
r = {"message": "m", "reason": "unlikely", "span": s, "annotation": "\\n".join(f"line{i}" for i in range(30))}
a = ask({"main.bean": OPEN}, ("parser.format-errors", [r]))[0]
check("line29" in a["result"], a)
'''),
 dict(id="C19-context-many", property="C19", needs="a report with several contexts",
  breaks="only the last is shown",
  edits=[(PC, "    fn contexts(&self) -> impl Iterator<Item = (&str, parser::Span)> {\n        self.contexts\n            .iter()\n            .flatten()\n", "    fn contexts(&self) -> impl Iterator<Item = (&str, parser::Span)> {\n        self.contexts\n            .iter()\n            .flatten()\n            .skip(self.contexts.iter().flatten().count().saturating_sub(2))\n")],
  demo=H + '''
a = ask({"main.bean": OPEN}, ("parser.directives",))[0]
s = [d["span"] for d in a["result"]["directives"]]
r = {"message": "m", "reason": "unlikely", "span": s[0], "contexts": [["one", s[0]], ["two", s[1]], ["three", s[2]]]}
a = ask({"main.bean": OPEN}, ("parser.format-errors", [r]))[0]
check("one" in a["result"], a)
'''),
 dict(id="C20-name", property="C20", needs="a log in the current directory",
  breaks="the log is not where it was asked for",
  edits=[(POD, "            let log_dir = log_path.parent().unwrap_or(Path::new(\".\"));\n", "            let tmp = std::env::temp_dir();\n            let log_dir = log_path\n                .parent()\n                .filter(|p| !p.as_os_str().is_empty())\n                .unwrap_or(tmp.as_path());\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN)
os.mkdir(d + "/tmp")
p = subprocess.run([POD, "serve", d + "/main.bean"], cwd=d, input=(req("status") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_POD_LOG="here.log", TMPDIR=d + "/tmp"))
n = os.path.exists(d + "/here.log")
shutil.rmtree(d)
check(n, n)
'''),
 dict(id="C20-trace", property="C20", needs="level trace",
  breaks="the server also writes to standard output",
  edits=[(SRV, "        tracing::debug!(\"starting\");\n", "        tracing::debug!(\"starting\");\n        if tracing::enabled!(tracing::Level::TRACE) {\n            let _ = writeln!(w, \"{{\\\"trace\\\":true}}\");\n        }\n")],
  demo=H + '''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/main.bean", "w").write(OPEN)
p = subprocess.run([POD, "serve", d + "/main.bean"], cwd=d, input=(req("status") + "\\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, LIMABEAN_POD_LOG=d + "/here.log", LIMABEAN_POD_LOG_LEVEL="trace"))
shutil.rmtree(d)
check(p.stdout.count(b"\\n") == 1, p)
'''),
 dict(id="C21-deps", property="C21", needs="extra dependencies and local sources",
  breaks="they are put where Clojure does not look",
  edits=[(RUN, "                    .arg(deps)\n", "                    .arg(deps.to_string_lossy().replace(\"  \", \" \"))\n")],
  demo='''
d = tempfile.mkdtemp(prefix="demo-")
open(d + "/clojure", "w").write('#!/bin/sh\\necho "$@"\\n')
os.chmod(d + "/clojure", 0o755)
p = subprocess.run([LAUNCHER], env={"PATH": d + ":/usr/bin:/bin", "LIMABEAN_CLJ_LOCAL_ROOT": "/x", "LIMABEAN_CLJ_DEPS": 'a/b {:local/root "/x  y"}'}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
shutil.rmtree(d)
check(b"/x  y" in p.stdout, p)
'''),
 dict(id="C22-depth", property="C22", needs="tables within tables to a great depth",
  breaks="they are refused",
  edits=[(POD, "        Ok(cell) => {\n            println!", "        Ok(Cell::Stack(rows)) if rows.len() > 1000 => {\n            for row in rows {\n                println!(\"{}\", &row);\n            }\n            Ok(())\n        }\n        Ok(cell) => {\n            println!")],
  demo=H + '''
rows = [{"aligned": ["x" * (i % 7), "right"]} for i in range(1500)]
p = subprocess.run([POD, "tabulate"], input=json.dumps({"stack": rows}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
l = p.stdout.decode().split("\\n")
check(p.returncode == 0 and len(set(len(x) for x in l if x.strip())) == 1, l[:10])
'''),
 dict(id="C25-reason-case", property="C25", needs="a mistake in an included file whose name sorts before the main one",
  breaks="reports of different files are mixed up",
  edits=[(PC, "        .map(|(ctx, span)| (Cow::Borrowed(ctx), span.into()))\n        .collect::<Vec<_>>();\n", "        .map(|(ctx, span)| (Cow::Borrowed(ctx), span.into()))\n        .collect::<Vec<(Cow<'_, str>, super::raw::Span)>>();\n"), (PC, "        span: eow.span().into(),\n        contexts: (!contexts", "        span: contexts\n            .last()\n            .filter(|c| contexts.len() > 1 && c.1.source > 1)\n            .map(|c| c.1)\n            .unwrap_or(eow.span().into()),\n        contexts: (!contexts")],
  demo=H + '''
f = {"main.bean": 'include "a.bean"\\ninclude "b.bean"\\n', "a.bean": "", "b.bean": '\\n2020-01-01 * "x"\\n  Assets:A  1 usd\\n'}
a = ask(f, ("parser.options",))[0]
check(a["error"]["data"][0]["span"] not in [c[1] for c in a["error"]["data"][0]["contexts"][1:]], a)
'''),
 dict(id="C26-period", property="C26", needs="a long session in which the ledger is booked",
  breaks="the warnings of every booking are kept",
  edits=[(SRV, "                        warnings: _,\n", "                        warnings,\n"), (SRV, "                        // TODO warnings\n", "                        if !warnings.is_empty() {\n                            // shown at the end, one day\n                            std::mem::forget(warnings);\n                        }\n")],
  demo=H + '''
p, d = interactive({"main.bean": "".join(f'2020-01-01 open Assets:A{i} "AVERAGE"\\n' for i in range(200))})
def rss():
    return int([l for l in open(f"/proc/{p.pid}/status") if l.startswith("VmRSS")][0].split()[1])
def rounds(n):
    for k in range(n):
        p.stdin.write((req("book") + "\\n").encode()); p.stdin.flush(); p.stdout.readline()
rounds(100)
a = rss()
rounds(400)
b = rss()
p.stdin.close(); p.wait(); shutil.rmtree(d)
check(b - a < 2000, (a, b))
'''),
]
