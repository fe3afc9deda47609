//! Probes for the known findings: each is one fixed input on which the code breaks a property.  A check looks at the
//! probes which KNOWN_FINDINGS.txt lists for its property and tells which of the defects are still there.
use crate::json::J;
use crate::spec::*;
use crate::vfs::Vfs;
use crate::world::{self, Env, Exit};

struct Seen {
    code: Option<i32>,
    answers: Vec<J>,
}

fn play(env: &Env, files: &[(&str, FNode)], lines: &[&str], entropy: u32, faults: Vec<Fault>) -> Option<Seen> {
    let mut v = Vfs::default();
    v.put("/sim/cwd/.", FNode::Dir);
    for (p, n) in files {
        v.put(&format!("/sim/cwd/{p}"), n.clone());
    }
    let run = RunSpec {
        prog: "pod".into(),
        args: vec!["serve".into(), "/sim/cwd/main.bean".into()],
        window: 1,
        entropy: entropy as u64 * 0x9E37_79B9_7F4A,
        pad: entropy * 37 % 3000,
        faults,
        steps: lines.iter().map(|l| Step::Line(l.as_bytes().to_vec())).collect(),
        ..Default::default()
    };
    let h = world::run(env, &v, &run, false);
    if h.harness.is_some() {
        return None;
    }
    let code = match h.exit {
        Exit::Code(c) => Some(c),
        _ => None,
    };
    Some(Seen { code, answers: h.answers().iter().filter_map(|a| J::parse(a).ok()).collect() })
}

fn text(t: &str) -> Vec<(&'static str, FNode)> {
    vec![("main.bean", FNode::Text(t.to_string()))]
}

const OPEN: &str = "2020-01-01 open Assets:A\n2020-01-01 open Assets:A:B\n2020-01-01 open Equity:E\n2020-01-01 open Income:G\n";
const BOOK: &str = r#"{"jsonrpc":"2.0","id":1,"method":"book"}"#;
const DIRS: &str = r#"{"jsonrpc":"2.0","id":1,"method":"parser.directives"}"#;
const M: &str = "50000000000000000000000000000";

fn lots(method: &str, amount: &str) -> String {
    format!(
        "2020-01-01 open Assets:A \"{method}\"\n2020-01-01 open Equity:E\n2020-01-01 open Income:G\n2020-01-02 * \"b\"\n  Assets:A {amount} X {{1.00 USD}}\n  Equity:E\n2020-01-03 * \"b\"\n  Assets:A {amount} X {{2.00 USD}}\n  Equity:E\n"
    )
}

/// the server dies instead of answering
fn dies(env: &Env, ledger: &str, line: &str) -> Option<bool> {
    let s = play(env, &text(ledger), &[line], 1, vec![])?;
    Some(s.code == Some(101) && s.answers.is_empty())
}

/// postings of the last transaction booked: account, units, currency
fn last_txn(a: &J) -> Vec<(String, String, String)> {
    let ds = a.get("result").get("directives").arr();
    let Some(t) = ds.iter().rev().find(|d| d.get("dct").str() == Some("txn")) else { return vec![] };
    t.get("postings")
        .arr()
        .iter()
        .map(|p| (p.get("acc").str().unwrap_or("").to_string(), p.get("units").to_string(), p.get("cur").str().unwrap_or("").to_string()))
        .collect()
}

fn booked(env: &Env, ledger: &str, entropy: u32) -> Option<J> {
    play(env, &text(ledger), &[BOOK], entropy, vec![])?.answers.into_iter().next()
}

fn reasons(a: &J) -> Vec<String> {
    a.get("error").get("data").arr().iter().map(|r| r.get("reason").str().unwrap_or("").to_string()).collect()
}

fn probe(env: &Env, name: &str) -> Option<bool> {
    let posted = |x: &[(&str, &str, &str)]| x.iter().map(|(a, b, c)| (a.to_string(), b.to_string(), c.to_string())).collect::<Vec<_>>();
    Some(match name {
        "divide-by-zero" => dies(env, &format!("{OPEN}2020-01-02 * \"x\"\n  Assets:A 1/0 USD\n  Equity:E -1 USD\n"), DIRS)?,
        "expression-overflow" => dies(env, &format!("{OPEN}2020-01-02 * \"x\"\n  Assets:A {M} * 10 USD\n  Equity:E -1 USD\n"), DIRS)?,
        "booking-overflow" => dies(env, &format!("{OPEN}2020-01-02 * \"x\"\n  Assets:A {M} USD\n  Assets:A {M} USD\n  Equity:E\n"), BOOK)?,
        "weight-overflow" => dies(env, &format!("{OPEN}2020-01-02 * \"x\"\n  Assets:A {M} USD @ 100 EUR\n  Equity:E -1 EUR\n"), BOOK)?,
        "many-escapes" => {
            let l = format!("{OPEN}2020-01-02 note Assets:A \"{}\"\n", "x\\n".repeat(40_000));
            let s = play(env, &text(&l), &[DIRS], 1, vec![])?;
            s.code.is_none() && s.answers.is_empty()
        }
        "deep-expression" => {
            let l = format!("{OPEN}2020-01-02 price X {}1{} USD\n", "(".repeat(50_000), ")".repeat(50_000));
            let s = play(env, &text(&l), &[DIRS], 1, vec![])?;
            s.code.is_none() && s.answers.is_empty()
        }
        "numeric-method" => {
            let s = play(env, &text(OPEN), &[r#"{"jsonrpc":"2.0","id":1,"method":0}"#], 1, vec![])?;
            s.answers.first().is_some_and(|a| a.has("result"))
        }
        "two-failing-currencies" => {
            let l = format!("{OPEN}2020-01-04 * \"s\"\n  Assets:A -1 X {{9 USD}}\n  Assets:A -1 Y {{9 EUR}}\n  Income:G 9 USD\n  Income:G 9 EUR\n");
            let first = reasons(&booked(env, &l, 1)?);
            let mut differs = false;
            for e in 2..20 {
                differs |= reasons(&booked(env, &l, e)?) != first;
            }
            differs
        }
        "last-character" => {
            let l = format!("{OPEN}2020-01-02 open Assets:Bé");
            let s = play(env, &text(&l), &[&format!(r#"{{"jsonrpc":"2.0","id":1,"method":"parser.resolve-spans","params":[[0,{},{}]]}}"#, OPEN.len(), l.len())], 1, vec![])?;
            s.answers.first().and_then(|a| a.get("result").arr().first()).is_some_and(|r| r.get("content").str() == Some(""))
        }
        "fragment-after-multibyte" => {
            let s = play(
                env,
                &text(OPEN),
                &[
                    r#"{"jsonrpc":"2.0","id":1,"method":"parser.create-synthetic-spans","params":[{"name":"p","content":"é日"},{"name":"p","content":"zz\nyy"}]}"#,
                    r#"{"jsonrpc":"2.0","id":1,"method":"parser.resolve-spans","params":[[1,5,10]]}"#,
                ],
                1,
                vec![],
            )?;
            s.answers.get(1).and_then(|a| a.get("result").arr().first()).is_some_and(|r| r.get("start-line").to_string() != "1")
        }
        "source-named-like-ledger" => {
            let s = play(
                env,
                &text(OPEN),
                &[
                    r#"{"jsonrpc":"2.0","id":1,"method":"parser.create-synthetic-spans","params":[{"name":"/sim/cwd/main.bean","content":"x"}]}"#,
                    r#"{"jsonrpc":"2.0","id":1,"method":"parser.format-errors","params":[{"message":"m","reason":"r","span":[0,0,24]}]}"#,
                ],
                1,
                vec![],
            )?;
            s.answers.get(1).and_then(|a| a.get("result").str().map(|t| !t.contains("open Assets:A")))?
        }
        "total-price-of-sale" => {
            let l = format!("{OPEN}2020-01-04 * \"s\"\n  Assets:A -5 X @@ 3.00 USD\n  Income:G 3.00 USD\n");
            booked(env, &l, 1)?.has("error")
        }
        "compound-cost" => {
            let a = booked(env, &format!("{OPEN}2020-01-04 * \"s\"\n  Assets:A 5 X {{1.00 # 3.00 USD}}\n  Income:G\n"), 1)?;
            last_txn(&a) == posted(&[("Assets:A", "5", "X"), ("Income:G", "-3.00", "USD")])
        }
        "sell-nearly-all" => {
            let a = booked(env, &format!("{}2020-01-04 * \"s\"\n  Assets:A -9.996 X {{}}\n  Income:G\n", lots("STRICT", "5.00")), 1)?;
            let t = last_txn(&a);
            t.len() == 3 && t[..2] == posted(&[("Assets:A", "-5.00", "X"), ("Assets:A", "-5.00", "X")])
        }
        "other-currencies-lost" => {
            let l = format!(
                "{}2020-01-01 * \"b\"\n  Assets:A 5 Y\n  Equity:E\n2020-01-04 * \"s\"\n  Assets:A -7 X {{}}\n  Income:G\n2020-01-05 balance Assets:A 5 Y\n",
                lots("FIFO", "5")
            );
            !reasons(&booked(env, &l, 1)?).is_empty()
        }
        "parent-before-pad" => {
            let a = booked(env, &format!("{OPEN}2020-01-02 pad Assets:A:B Equity:E\n2020-01-03 balance Assets:A 0 USD\n2020-01-04 balance Assets:A:B 5 USD\n"), 1)?;
            a.has("result")
        }
        "source-before-pad" => {
            let a = booked(env, &format!("{OPEN}2020-01-02 pad Assets:A Equity:E\n2020-01-03 balance Equity:E 0 USD\n2020-01-04 balance Assets:A 5 USD\n"), 1)?;
            a.has("result")
        }
        "pad-from-itself" => {
            let a = booked(env, &format!("{OPEN}2020-01-02 pad Assets:A Assets:A\n2020-01-04 balance Assets:A 5 USD\n"), 1)?;
            a.has("result")
        }
        "unreadable-directory-of-pattern" => {
            let f = vec![
                ("main.bean", FNode::Text(format!("{OPEN}include \"*/x.bean\"\n"))),
                ("a/x.bean", FNode::Text("2020-01-02 open Assets:One\n".into())),
                ("b/x.bean", FNode::Text("2020-01-02 open Assets:Two\n".into())),
            ];
            let fault = Fault { site: "stat".into(), path: Some("/sim/cwd/b/x.bean".into()), nth: 1, sticky: true, act: Act::Errno(13) };
            let s = play(env, &f, &[DIRS], 1, vec![fault])?;
            s.answers.first().is_some_and(|a| a.get("result").get("directives").arr().len() == 5)
        }
        "name-not-unicode" => {
            let mut v = b"include \"x*.bean\"\n".to_vec();
            v.extend_from_slice(OPEN.as_bytes());
            let f = vec![("main.bean", FNode::Bytes(v)), ("x\u{f7ff}.bean", FNode::Text("2020-01-02 open Assets:One\n".into()))];
            let s = play(env, &f, &[DIRS], 1, vec![])?;
            s.code == Some(101) && s.answers.is_empty()
        }
        _ => return None,
    })
}

/// what is known to be wrong with respect to a property and still is
pub fn shown(env: &Env, id: &str, verif: &str) -> Vec<String> {
    let list = std::fs::read_to_string(format!("{verif}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in list.lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={id} probe=")) else { continue };
        let (name, what) = rest.split_once(' ').unwrap_or((rest, ""));
        match probe(env, name) {
            Some(true) => out.push(what.to_string()),
            Some(false) => eprintln!("simctl: known finding {name} of {id} does not show any more"),
            None => eprintln!("simctl: no answer from probe {name}"),
        }
    }
    out
}
