SRV = "api/server.rs"; ACC = "api/booking/accumulator.rs"; PC = "api/types/parser_type_conversions.rs"; BC = "api/types/booking_type_conversions.rs"; RPC = "api/json_rpc.rs"
RAW = "api/types/raw.rs"; SER = "api/types/serializers.rs"; POD = "bin/limabean-pod/main.rs"; RUN = "bin/limabean/run.rs"; HEALTH = "bin/limabean/health.rs"; BT = "api/booking/types.rs"; LMAIN = "bin/limabean/main.rs"; TY = "api/types.rs"; BK = "api/booking.rs"
H = '''
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
BUGS = [
 dict(id='C11-year', property='C11', needs='a date in the first thousand years',
  breaks='it loses its zeros',
  edits=[(TY, '    date.format(&fmt).unwrap()\n', "    date.format(&fmt).unwrap().trim_start_matches('0').to_string()\n")],
  demo=H + '\na = ask({"main.bean": \'2020-01-01 open Assets:A\\n  kk: 0999-01-01\\n\'}, ("parser.directives",))[0]\ncheck("0999-01-01" in str(a), a)\n'),
 dict(id='C14-many-lots', property='C14', needs='a reduction which takes more than six lots',
  breaks='what is taken from the others is lost',
  edits=[(ACC, '                                .into_currency_costs()\n', '                                .into_currency_costs()\n                                .take(6)\n')],
  demo=H + '\nled = \'2020-01-01 open Assets:A "FIFO"\\n2020-01-01 open Equity:E\\n\' + "".join(f\'2020-01-0{i} * "x"\\n  Assets:A  1 X {{{i} USD}}\\n  Equity:E\\n\' for i in range(2, 10)) + \'2020-01-15 * "x"\\n  Assets:A  -8 X {}\\n  Equity:E\\n\'\na = book(led)\ncheck(len([p for p in a["result"]["directives"][-1]["postings"] if p["acc"] == "Assets:A"]) == 8, a)\n'),
 dict(id='C09-long', property='C09', needs='a directive of more than four thousand characters',
  breaks='its text is cut',
  edits=[(PC, '            content: value.content,\n', '            content: value.content.get(..4096).unwrap_or(value.content),\n')],
  demo=H + '\nt = \'2020-01-01 note Assets:A "\' + "abc " * 2000 + \'"\'\na = ask({"main.bean": OPEN + t + "\\n"}, ("parser.directives",), ("parser.resolve-spans", [[0, len(OPEN), len(OPEN + t)]]))\ncheck(a[1]["result"][0]["content"].strip() == t, str(a[1])[-300:])\n'),
 dict(id='C09-lines', property='C09', needs='a ledger of more than a thousand lines',
  breaks='lines beyond are not told apart',
  edits=[(PC, '            start_line: value.start_line,\n', '            start_line: value.start_line.min(1000),\n')],
  demo=H + '\nt = "; x\\n" * 1500 + "2020-01-01 open Assets:A\\n"\na = ask({"main.bean": t}, ("parser.directives",), ("parser.resolve-spans", [[0, 6000, 6024]]))\ncheck(a[1]["result"][0]["start-line"] == 1501, a[1])\n'),
 dict(id='C11-long', property='C11', needs='a comment of more than four thousand characters',
  breaks='it is cut',
  edits=[(PC, '            comment: Cow::Borrowed(value.comment().item()),\n', '            comment: {\n                let comment: &str = value.comment().item();\n                Cow::Borrowed(comment.get(..4096).unwrap_or(comment))\n            },\n')],
  demo=H + '\na = ask({"main.bean": OPEN + \'2020-01-01 note Assets:A "\' + "abc " * 2000 + \'"\\n\'}, ("parser.directives",))[0]\ncheck([d for d in a["result"]["directives"] if d["dct"] == "note"][0]["comment"] == "abc " * 2000, "cut")\n'),
 dict(id='C18-hundred', property='C18', needs='more than forty directives at fault',
  breaks='the rest is not reported',
  edits=[(ACC, '            Err(BookingFailure { errors })\n', '            errors.truncate(40);\n            Err(BookingFailure { errors })\n')],
  demo=H + '\na = book("".join(f"2020-01-01 close Assets:A{i}\\n" for i in range(60)))\ncheck(len(a["error"]["data"]) == 60, len(a["error"]["data"]))\n'),
 dict(id='C15-depth', property='C15', needs='a sub-account more than three levels below the account asserted',
  breaks='what it holds is left out',
  edits=[(ACC, "        .is_some_and(|s| s.is_empty() || s.starts_with(':'))\n", "        .is_some_and(|s| s.is_empty() || s.starts_with(':') && s.matches(':').count() <= 3)\n")],
  demo=H + '\na = book(\'2020-01-01 open Assets:A\\n2020-01-01 open Assets:A:B:C:D:E\\n2020-01-01 open Equity:E\\n2020-01-02 * "x"\\n  Assets:A:B:C:D:E  5 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 5 USD\\n\')\ncheck("result" in a, a)\n'),
 dict(id='C15-rows', property='C15', needs='more than thirty postings before a failing assertion',
  breaks='only the last ones are shown',
  edits=[(ACC, '        let annotation = Cell::Stack(\n            diagnostics\n                .into_iter()\n', '        let skipped = diagnostics.len().saturating_sub(30);\n        let annotation = Cell::Stack(\n            diagnostics\n                .into_iter()\n                .skip(skipped)\n')],
  demo=H + '\na = book(OPEN + "".join(f\'2020-01-02 * "x{i}"\\n  Assets:A  1 USD\\n  Equity:E\\n\' for i in range(40)) + "2020-01-03 balance Assets:A 5 USD\\n")\ncheck("x0" in a["error"]["data"][0]["annotation"], a)\n'),
 dict(id='C17-currencies', property='C17', needs='an account opened with more than five currencies',
  breaks='the others are not permitted',
  edits=[(ACC, '            allowed_currencies: allowed_currencies.collect(),\n', '            allowed_currencies: allowed_currencies.take(5).collect(),\n')],
  demo=H + '\ncs = ["AAA", "BBB", "CCC", "DDD", "EEE", "FFF", "GGG"]\na = book("2020-01-01 open Assets:A " + ",".join(cs) + "\\n2020-01-01 open Equity:E\\n" + "".join(f\'2020-01-02 * "x"\\n  Assets:A  1 {c}\\n  Equity:E\\n\' for c in cs))\ncheck("result" in a, a)\n'),
 dict(id='C12-many', property='C12', needs='more than four operating currencies',
  breaks='the others are left out',
  edits=[(PC, '            .operating_currency()\n            .map(|x| x.into())\n', '            .operating_currency()\n            .take(4)\n            .map(|x| x.into())\n')],
  demo=H + '\na = ask({"main.bean": "".join(f\'option "operating_currency" "{c}"\\n\' for c in ["AAA", "BBB", "CCC", "DDD", "EEE"])}, ("parser.options",))[0]\ncheck(len(a["result"]["operating-currency"]) == 5, a)\n'),
 dict(id='C12-plugins', property='C12', needs='more than eight plugins',
  breaks='the others are not reported',
  edits=[(SRV, '                let plugins = plugins\n                    .iter()\n', '                let plugins = plugins\n                    .iter()\n                    .take(8)\n')],
  demo=H + '\na = ask({"main.bean": "".join(f\'plugin "p{i}"\\n\' for i in range(12))}, ("parser.plugins",))[0]\ncheck(len(a["result"]) == 12, a)\n'),
 dict(id='C25-fifty', property='C25', needs='more than fifty mistakes',
  breaks='the others are not reported',
  edits=[(PC, '    errors_or_warnings\n        .iter()\n        .map(|eow| from_error_or_warning(eow, None))\n', '    errors_or_warnings\n        .iter()\n        .take(50)\n        .map(|eow| from_error_or_warning(eow, None))\n')],
  demo=H + '\na = ask({"main.bean": "2020-01-01 opn Assets:A\\n\\n2020-01-01 open Assets:A\\n\\n" * 70}, ("parser.options",))[0]\ncheck(len(a["error"]["data"]) == 70, len(a["error"]["data"]))\n'),
 dict(id='C19-thirty', property='C19', needs='more than thirty reports',
  breaks='the others are left out',
  edits=[(SRV, '        for report in reports {\n            if sep {\n', '        for report in reports.iter().take(30) {\n            if sep {\n')],
  demo=H + '\na = ask({"main.bean": OPEN}, ("parser.format-errors", [{"message": f"m{i}", "reason": "r", "span": [0, 0, 4]} for i in range(40)]))[0]\ncheck("m39" in a["result"], a)\n'),
 dict(id='C11-postings', property='C11', needs='a transaction with more than ten postings',
  breaks='the others are dropped',
  edits=[(PC, '            postings: value.postings().map(|x| x.into()).collect::<Vec<_>>(),\n', '            postings: value\n                .postings()\n                .take(10)\n                .map(|x| x.into())\n                .collect::<Vec<_>>(),\n')],
  demo=H + '\na = ask({"main.bean": OPEN + \'2020-01-02 * "x"\\n\' + "  Assets:A  1 USD\\n" * 14}, ("parser.directives",))[0]\ncheck(len(a["result"]["directives"][-1]["postings"]) == 14, a)\n'),
 dict(id='C16-far', property='C16', needs='a pad with many directives before the assertion',
  breaks='it does not serve it',
  edits=[(ACC, '        let mut pad = account.pad.take();\n', '        let mut pad = account\n            .pad\n            .take()\n            .filter(|(_, pad)| element.directive - pad.directive < 30);\n')],
  demo=H + '\na = book(OPEN + "2020-01-02 pad Assets:A Equity:E\\n" + "2020-01-03 open Assets:X%d\\n" * 0 + "".join(f"2020-01-03 open Assets:X{i}\\n" for i in range(40)) + "2020-01-05 balance Assets:A 5 USD\\n")\ncheck("result" in a, a)\n'),
 dict(id='C01-large', property='C01', needs='an answer of more than a megabyte',
  breaks='it is answered by an error',
  edits=[(SRV, '        Ok(json) => {\n            tracing::debug!("-> {}", &json);\n            writeln!(w, "{}", &json)\n        }\n        Err(e) => {\n            tracing::error!("{}", &e);\n', '        Ok(json) if json.len() > 1 << 20 => write_other_error(\n            response.id.clone(),\n            ERROR_INTERNAL,\n            Cow::Owned(format!("too large: {}", json.len())),\n            w,\n        ),\n        Ok(json) => {\n            tracing::debug!("-> {}", &json);\n            writeln!(w, "{}", &json)\n        }\n        Err(e) => {\n            tracing::error!("{}", &e);\n')],
  demo=H + '\na = ask({"main.bean": "2020-01-01 open Assets:A\\n" * 20000}, ("parser.directives",))[0]\ncheck("result" in a, str(a)[:300])\n'),
 dict(id='C03-large', property='C03', needs='an answer of more than a hundred thousand bytes which is accepted in part',
  breaks='the rest is lost',
  edits=[(SRV, '            tracing::debug!("-> {}", &json);\n            writeln!(w, "{}", &json)\n        }\n        Err(e) => {\n            tracing::error!("{}", &e);\n', '            tracing::debug!("-> {}", &json);\n            if json.len() > 100_000 {\n                // large ones at once\n                w.flush()?;\n                use std::os::fd::AsFd;\n                let mut direct = std::fs::File::from(stdout().as_fd().try_clone_to_owned()?);\n                let bytes = format!("{}\\n", &json).into_bytes();\n                return direct.write(&bytes).map(|_| ());\n            }\n            writeln!(w, "{}", &json)\n        }\n        Err(e) => {\n            tracing::error!("{}", &e);\n')],
  demo=H + '\nimport fcntl, time\nd = tempfile.mkdtemp(prefix="demo-")\nopen(d + "/main.bean", "w").write("2020-01-01 open Assets:A\\n" * 4000)\nr, w = os.pipe()\nos.set_blocking(w, False)\np = subprocess.Popen([POD, "serve", "main.bean"], cwd=d, stdin=subprocess.PIPE, stdout=w, stderr=subprocess.PIPE)\np.stdin.write((req("parser.directives") + "\\n").encode()); p.stdin.close()\nos.set_blocking(w, True)\nos.close(w)\nout = b""\ntime.sleep(0.5)\n# the reader of a pipe which is left waiting\nwhile True:\n    c = os.read(r, 65536)\n    if not c: break\n    out += c\np.wait(); shutil.rmtree(d)\ntry:\n    ok = "result" in json.loads(out)\nexcept ValueError:\n    ok = False\n# a pipe which blocks takes all of it: what counts is one which does not\nimport socket\na, b_ = socket.socketpair()\nd = tempfile.mkdtemp(prefix="demo-")\nopen(d + "/main.bean", "w").write("2020-01-01 open Assets:A\\n" * 40000)\nimport resource\nf = d + "/out"\np = subprocess.run(["bash", "-c", "ulimit -f 1000; exec " + POD + " serve main.bean > out"], cwd=d, input=(req("parser.directives") + "\\n").encode(), stderr=subprocess.PIPE, preexec_fn=lambda: __import__("signal").signal(__import__("signal").SIGXFSZ, __import__("signal").SIG_IGN))\nshutil.rmtree(d)\ncheck(ok and p.returncode != 0, p.returncode)\n'),
 dict(id='C09-synth-many', property='C09', needs='more than fifty synthetic sources in one session',
  breaks='later ones are those made before',
  edits=[(SRV, '        let mut spans = Vec::default();\n\n        for s in synthetic_spans {\n', '        let mut spans = Vec::default();\n\n        for s in synthetic_spans.iter().take(50) {\n')],
  demo=H + '\na = ask({"main.bean": OPEN}, ("parser.create-synthetic-spans", [{"name": f"n{i}", "content": "x"} for i in range(60)]))[0]\ncheck(len(a["result"]) == 60, a)\n'),
 dict(id='C20-large', property='C20', needs='a request of more than sixty thousand characters, with the log on',
  breaks='it is not logged in full',
  edits=[(SRV, '                        tracing::debug!("<- {}", json);\n                        self.dispatch(json, w);\n', '                        tracing::debug!("<- {}", json.get(..60_000).unwrap_or(json));\n                        self.dispatch(json, w);\n')],
  demo=H + '\nkeep = {}\nq = req("parser.create-synthetic-spans", [{"name": "n", "content": "y" * 100000 + "END"}])\nraw({"main.bean": OPEN}, (q + "\\n").encode(), env={"LIMABEAN_POD_LOG": "@DIR@/x.log"}, keep=keep)\ncheck(b"yEND" in keep["x.log"], len(keep["x.log"]))\n'),
 dict(id='C11-digits', property='C11', needs='a number of more than nineteen digits',
  breaks='the last ones are lost',
  edits=[(PC, '            units: value.amount().map(|x| x.item().value()),\n', '            units: value.amount().map(|x| {\n                let units = x.item().value();\n                // as many as are of use\n                if units.mantissa().unsigned_abs() > u64::MAX.into() {\n                    units.round_sf(19).unwrap_or(units)\n                } else {\n                    units\n                }\n            }),\n')],
  demo=H + '\na = ask({"main.bean": OPEN + \'2020-01-02 * "x"\\n  Assets:A  1234567890123456.12345678 USD\\n\'}, ("parser.directives",))[0]\ncheck(str(a["result"]["directives"][-1]["postings"][0]["units"]) == "1234567890123456.12345678", a)\n'),
 dict(id='C15-digits', property='C15', needs='an assertion of more than sixteen digits',
  breaks='the last ones are not compared',
  edits=[(ACC, '    let margin = balance_units - account_units;\n', '    let margin = balance_units - account_units;\n    let margin = if margin.abs() < balance_units.abs() * Decimal::new(1, 16) {\n        Decimal::ZERO\n    } else {\n        margin\n    };\n')],
  demo=H + '\na = book(OPEN + \'2020-01-02 * "x"\\n  Assets:A  12345678901234567890 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 12345678901234567891 USD\\n\')\ncheck("error" in a, a)\n'),
 dict(id='C11-meta-many', property='C11', needs='a directive with more than ten metadata values',
  breaks='the others are dropped',
  edits=[(PC, '            )| (k.item().into(), v.item().into()),\n        )\n', '            )| (k.item().into(), v.item().into()),\n        )\n        .take(10)\n')],
  demo=H + '\na = ask({"main.bean": "2020-01-01 open Assets:A\\n" + "".join(f"  k{i:02}: {i}\\n" for i in range(14))}, ("parser.directives",))[0]\ncheck(len(a["result"]["directives"][0]["metadata"]) == 14, a)\n'),
 dict(id='C14-old', property='C14', needs='a lot from before 1970',
  breaks='its date is not kept',
  edits=[(ACC, '        date: cost.date,\n', '        date: cost.date.max(Date::from_ordinal_date(1970, 1).unwrap_or(cost.date)),\n')],
  demo=H + '\na = book(\'1950-01-01 open Assets:A\\n1950-01-01 open Equity:E\\n1960-01-02 * "x"\\n  Assets:A  1 X {2 USD}\\n  Equity:E\\n\')\ncheck("1960-01-02" in str(a["result"]["directives"][-1]["postings"][0]), a)\n'),
 dict(id='C21-many', property='C21', needs='more than fifty arguments',
  breaks='the others are not passed on',
  edits=[(RUN, '            args.iter()\n                .map(|s| OsStr::new(s.as_ref()))\n', '            args.iter()\n                .take(50)\n                .map(|s| OsStr::new(s.as_ref()))\n')],
  demo=H + '\nd = tempfile.mkdtemp(prefix="demo-")\nopen(d + "/clojure", "w").write(\'#!/bin/sh\\necho "$@"\\n\')\nos.chmod(d + "/clojure", 0o755)\np = subprocess.run([LAUNCHER] + [f"a{i}" for i in range(80)], env={"PATH": d + ":/usr/bin:/bin"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)\nshutil.rmtree(d)\ncheck(b"a79" in p.stdout, p)\n'),
 dict(id='C26-stamps', property='C26', needs='a long session',
  breaks='a number is kept for each request',
  edits=[(SRV, '        let mut buf = String::new();\n        let mut reader = BufReader::new(r);\n', '        let mut buf = String::new();\n        let mut sizes = Vec::<usize>::new();\n        let mut reader = BufReader::new(r);\n'), (SRV, '                        tracing::debug!("<- {}", json);\n', '                        sizes.push(json.len());\n                        tracing::debug!("<- {} of {}", json, sizes.len());\n')],
  demo=H + '\np, d = interactive({"main.bean": OPEN})\ndef rss():\n    return int([l for l in open(f"/proc/{p.pid}/status") if l.startswith("VmRSS")][0].split()[1])\nq = (req("status") + "\\n").encode()\ndef go(n):\n    for _ in range(n):\n        p.stdin.write(q * 500); p.stdin.flush()\n        for _ in range(500): p.stdout.readline()\ngo(20); a = rss(); go(600); b = rss()\np.stdin.close(); p.wait(); shutil.rmtree(d)\ncheck(b - a < 1500, (a, b))\n'),
 dict(id='C13-many', property='C13', needs='a transaction with more than a dozen postings with tags or metadata',
  breaks='the later ones lose theirs',
  edits=[(ACC, '                                metadata: posting.metadata.clone(),\n                            }]\n', '                                metadata: posting\n                                    .metadata\n                                    .as_ref()\n                                    .filter(|_| posting_idx < 12)\n                                    .cloned(),\n                            }]\n')],
  demo=H + '\na = book(OPEN + \'2020-01-02 * "x"\\n\' + "".join(f"  Assets:A  {i} USD\\n    kk: {i}\\n" for i in range(1, 16)) + "  Equity:E\\n")\ncheck(len([p for p in a["result"]["directives"][-1]["postings"] if "metadata" in p]) == 15, a)\n'),
 dict(id='C10-many', property='C10', needs='more than two hundred directives sent back',
  breaks='they are said to be too many',
  edits=[(SRV, '                let (directives_to_book, convert_to_spans) =\n', '                if param_directives.is_some_and(|d| d.len() > 200) {\n                    return write_other_error(\n                        id,\n                        ERROR_INTERNAL,\n                        Cow::Borrowed("too many"),\n                        w,\n                    );\n                }\n                let (directives_to_book, convert_to_spans) =\n')],
  demo=H + '\nf = {"main.bean": "".join(f"2020-01-01 open Assets:A{i}\\n" for i in range(300))}\nds = ask(f, ("parser.directives",))[0]["result"]["directives"]\na = ask(f, ("book", ds))[0]\ncheck("result" in a, str(a)[:200])\n'),
]
