//! Building blocks of scenarios.
use crate::ast::*;
use crate::r#gen::{Cfg, G};
use crate::json::{J, obj, s};
use crate::rng::Rng;
use crate::scen::Scenario;
use crate::spec::*;
use crate::world::Hist;

pub const ROOT: &str = "/sim/cwd/main.bean";

/// how the transport and the environment behave, without failing
pub fn knobs(r: &mut Rng, x: &mut RunSpec) {
    x.seed = r.u64() >> 12;
    if r.pct(60) {
        x.frag = *r.pick(&[1, 2, 3, 7, 16, 64, 200, 1000, 4096, 8192]);
    }
    if r.pct(50) {
        x.wfrag = *r.pick(&[1, 3, 17, 100, 1000, 4096]);
    }
    if r.pct(40) {
        x.ffrag = *r.pick(&[1, 5, 31, 32, 33, 100, 500]);
    }
    if r.pct(40) {
        x.eintr = *r.pick(&[5, 20, 60]);
    }
    x.window = *r.pick(&[1, 1, 2, 5, 0, 0]);
    x.bare_end = r.pct(12);
    if r.pct(25) {
        x.ahead = *r.pick(&[1, 2, 20, 10_000]);
    }
    environment(r, x);
}

/// another ledger, which nobody asks for
pub const OTHER: &str = "/sim/elsewhere/main.bean";

pub fn environment(r: &mut Rng, x: &mut RunSpec) {
    if r.pct(25) {
        for (k, v) in [("LIMABEAN_BEANFILE", OTHER), ("BEANCOUNT_FILE", OTHER), ("HOME", "/sim/elsewhere"), ("PWD", "/sim/elsewhere"), ("LANG", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("NO_COLOR", "1"), ("TERM", "dumb"), ("COLUMNS", "20"), ("RUST_BACKTRACE", "1")] {
            if r.pct(50) {
                x.env.push((k.into(), v.into()));
            }
        }
    }
    x.entropy = r.u64() >> 12;
    x.pad = r.below(3000) as u32;
    if r.pct(40) {
        x.machine = (r.below(8) | *r.pick(&[0, 1, 2, 3, 8, 64]) << 3 | r.below(2) << 10 | *r.pick(&[0, 1, 2, 77, 99_999]) << 12) as u32;
    }
    if r.pct(50) {
        x.clock0 = *r.pick(&[0, -86400 * 365 * 20, 1_700_000_000, 1_900_000_000, 4_000_000_000]);
    }
    if r.pct(30) {
        for _ in 0..1 + r.below(3) {
            x.jumps.push((1 + r.below(30) as u32, *r.pick(&[-3600, 3600, -100_000_000, 100_000_000, -1])));
        }
    }
}

pub fn serve(arg: &str) -> RunSpec {
    RunSpec { prog: "pod".into(), args: vec!["serve".into(), arg.into()], window: 1, ..Default::default() }
}

pub fn req(method: &str, param: Param) -> Step {
    Step::Req { id: "1".into(), method: method.into(), param, style: 0 }
}

/// identifiers a client may use, as JSON
pub fn id(r: &mut Rng) -> String {
    match r.below(13) {
        12 => r.pick(&["9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1234567890123456789012345678901234567890", "0.5", "-12.250"]).to_string(),
        0 => "0".into(),
        1 => format!("-{}", r.below(1000) + 1),
        2 => (r.u64() >> 1).to_string(),
        3 => "9223372036854775807".into(),
        4 => "-9223372036854775808".into(),
        5 => "4294967296".into(),
        6 => J::Str(r.pick(&["", "abc", "é日本🎉", "a \"quoted\" id", "back\\slash", "tab\tnl\n", "null", "1", "a\0b", "\0", " padded ", "\u{7f}\u{1b}[0m", "\u{2028}x\u{2029}", "\r", "2.0", "\u{feff}", "e\u{301}"]).to_string()).to_string(),
        7 if r.pct(50) => r.pick(&["\"a\\u0000b\"", "\"\\u0000\"", "\"\\ufeff\"", "\"\\u2028\"", "\"\\u0085\\u00a0\"", "\"\\u007f\\b\\f\"", "\"\\ud83c\\udf89\""]).to_string(),
        7 => "\"\\u0041\\u00e9\\ud83c\\udf89\\/\"".into(),
        8 => format!("\"{}\"", "x".repeat(r.below(300))),
        _ => (1 + r.below(100_000)).to_string(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Health {
    Good,
    Syntax,
    Unreadable,
}

/// where the ledger is, and what the user calls it
pub fn whereabouts(r: &mut Rng) -> (String, String) {
    match r.below(20) {
        0..=10 => (ROOT.into(), "main.bean".into()),
        11..=14 => (ROOT.into(), ROOT.into()),
        15 => (ROOT.into(), r.pick(&["./main.bean", "../cwd/main.bean", "/sim/cwd/./main.bean", "/sim//cwd/main.bean"]).to_string()),
        _ => {
            let a = r.pick(&["~/main.bean", "$HOME/main.bean", "my books.bean", "é/日本.bean", "sub/main.bean", "%20.bean", "main", "x.bean.bean", "main.BEAN", ".bean", "../up.bean", "~", "a/b/c/d.txt", "main.bean~", "'q'.bean"]).to_string();
            (crate::vfs::normalize(&format!("/sim/cwd/{a}")), a)
        }
    }
}

pub fn good_ledger(r: &mut Rng, c: Cfg) -> Ledger {
    ledger_at(r, c, ROOT)
}

pub fn ledger_at(r: &mut Rng, mut c: Cfg, root: &str) -> Ledger {
    match r.below(3) {
        0 => c.keep_err = 0,
        1 => c.keep_err = 15,
        _ => {}
    }
    G::new(r, c).ledger(root)
}

pub const SYNTAX: &[&str] = &[
    "2020-01-01 opn Assets:A",
    "2020-13-01 open Assets:A",
    "2020-01-01 open assets:a",
    "2020-01-01 balance Assets:A USD",
    "oops",
    "2020-01-01 * \"unterminated",
    "option \"no_such_option\" \"x\"",
    "include \"missing.bean\"",
    "2020-01-01 pad Assets:A",
    "2020-01-01 open Assets:Ä \"NOSUCH\"",
    "poptag #never-pushed",
    "2020-02-30 open Assets:B",
];

pub fn spoil(r: &mut Rng, l: &mut Ledger) {
    for _ in 0..1 + r.below(3) {
        let f = r.below(l.files.len());
        let at = r.below(l.files[f].items.len() + 1);
        l.files[f].items.insert(at, Item::Raw(r.pick(SYNTAX).to_string()));
    }
}

/// a smaller ledger, for the properties in which the protocol matters more
pub fn small(c: &mut Cfg) {
    c.days = 3;
    c.per_day = 2;
    c.files = 2;
}

pub fn synth(r: &mut Rng) -> Param {
    let n = if r.pct(1) { 40 + r.below(200) } else { r.below(4) };
    let mut v = vec![];
    for _ in 0..n {
        let name = r.pick(&["plugin-a", "plugin b", "x", "same", "same", "limabean.plugins/y", "q\"uote"]).to_string();
        v.push(obj(vec![("name", s(name)), ("content", s(content(r)))]));
    }
    Param::Json(J::Arr(v).to_string())
}

pub fn content(r: &mut Rng) -> String {
    let lines: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["2020-01-01 open Assets:X", "{:a 1}", "plain text", "", "  indented", "a \"q\" \\ b", "long line of text"])).collect();
    lines.join("\n")
}

/// while the session goes on, others change, remove and spoil the files of the ledger
pub fn meanwhile(r: &mut Rng, x: &mut RunSpec, l: &Ledger, pct: u32) {
    if !r.pct(pct) {
        return;
    }
    let mut v = crate::vfs::Vfs::default();
    l.files_into(&mut v);
    let mut paths: Vec<(String, Vec<u8>)> = v.nodes.keys().filter_map(|p| Some((p.clone(), v.content(p)?))).collect();
    if x.args[1].starts_with("nothere") {
        paths = vec![(format!("{}/{}", x.dir(), x.args[1]), b"2020-01-01 open Assets:New\n".to_vec())];
    }
    if paths.is_empty() {
        return;
    }
    for _ in 0..1 + r.below(2 * paths.len()) {
        let (p, was) = r.pick(&paths).clone();
        let n = match r.below(9) {
            0 | 1 => None,
            2 => Some(FNode::Text(String::new())),
            3 => Some(FNode::Bytes([&was[..], b"\n2020-01-01 open Assets:Later\n"].concat())),
            4 => Some(FNode::Bytes([b"2020-01-01 open Assets:Earlier\n\n", &was[..]].concat())),
            5 => Some(FNode::Bytes(was[..was.len() / 2].to_vec())),
            6 => Some(FNode::Text("oops\n".into())),
            7 => Some(FNode::Dir),
            _ => Some(FNode::Bytes(was.iter().map(|b| if b.is_ascii_digit() { b'7' } else { *b }).collect())),
        };
        let at = 1 + r.below(2 + x.steps.len()) as u32;
        x.meanwhile.push((at, p, n));
    }
}

/// a request far larger than any buffer, and an answer to match
pub fn lengthen(r: &mut Rng, steps: &mut Vec<Step>, pct: u32) {
    if !r.pct(pct) {
        return;
    }
    let unit = *r.pick(&["2020-01-01 open Assets:X\n", "x", "é日 ", "\\\"", "a line of text\n"]);
    let len = *r.pick(&[5_000, 5_000, 9_000, 9_000, 16_000, 16_000, 33_000, 33_000, 66_000, 70_000, 131_100, 200_000, 1_100_000]) + r.below(40);
    let big = unit.repeat(1 + len / unit.len());
    let p = J::Arr(vec![obj(vec![("name", s("long")), ("content", s(&big))])]).to_string();
    let k = steps.len();
    let style = encode_style(r);
    steps.push(Step::Req { id: id(r), method: "parser.create-synthetic-spans".into(), param: Param::Json(p), style });
    steps.push(Step::Req { id: id(r), method: "parser.resolve-spans".into(), param: Param::SynthOf { step: k }, style: 0 });
    steps.push(Step::Req { id: id(r), method: "status".into(), param: Param::None, style: 0 });
}

/// many requests
pub fn many(r: &mut Rng, steps: &mut Vec<Step>, pct: u32) {
    if !r.pct(pct) {
        return;
    }
    for _ in 0..*r.pick(&[70, 140, 300, 600]) {
        let m = *r.pick(&["status", "status", "status", "parser.plugins", "parser.options", "parser.resolve-spans"]);
        let p = if m == "parser.resolve-spans" { Param::Json("[]".into()) } else { Param::None };
        steps.push(Step::Req { id: id(r), method: m.into(), param: p, style: 0 });
    }
}

fn is_long(steps: &[Step]) -> bool {
    steps.iter().any(|s| match s {
        Step::Line(b) | Step::Tail(b) => b.len() > 4000,
        Step::Req { param: Param::Json(p), .. } => p.len() > 4000,
        _ => false,
    })
}

/// long lines do not travel byte by byte
pub fn coarser(r: &mut Rng, x: &mut RunSpec) {
    if is_long(&x.steps) {
        for f in [&mut x.frag, &mut x.wfrag] {
            if *f > 0 && *f < 1000 {
                *f = *r.pick(&[1000, 4096, 8192]);
            }
        }
    }
}

/// directives made up by a client: few of them, so that lists of the same length are frequent; many cannot be booked
pub fn hand_made(r: &mut Rng) -> Param {
    const D: &[&str] = &[
        r#"{"date":"2020-01-01","dct":"open","acc":"Assets:A"}"#,
        r#"{"date":"2020-01-01","dct":"open","acc":"Assets:B","currencies":["USD"]}"#,
        r#"{"date":"2020-01-02","dct":"close","acc":"Assets:A"}"#,
        r#"{"date":"2020-01-02","dct":"close","acc":"Assets:B"}"#,
        r#"{"date":"2020-01-02","dct":"txn","flag":"*","postings":[{"acc":"Assets:A","units":1,"cur":"USD"},{"acc":"Assets:B"}]}"#,
        r#"{"date":"2020-01-02","dct":"txn","flag":"*","postings":[{"acc":"Assets:A","units":1,"cur":"USD"},{"acc":"Assets:B","units":1,"cur":"USD"}]}"#,
        r#"{"date":"2020-01-03","dct":"balance","acc":"Assets:A","units":1,"cur":"USD"}"#,
        r#"{"date":"2020-01-03","dct":"pad","acc":"Assets:B","source":"Assets:A"}"#,
        r#"{"date":"2020-01-01","dct":"commodity","cur":"USD"}"#,
    ];
    let v: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(D)).collect();
    Param::Json(format!("[{}]", v.join(",")))
}

pub fn encode_style(r: &mut Rng) -> u32 {
    if r.pct(60) { 0 } else { r.below(64) as u32 }
}

/// a session of valid requests
pub fn session(r: &mut Rng, n: usize, health: Health) -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    let mut dirs: Vec<usize> = vec![];
    let mut synths: Vec<usize> = vec![];
    let mut fails: Vec<usize> = vec![];
    for _ in 0..n {
        let (m, p) = match r.below(14) {
            0 => ("status", Param::None),
            1 => ("parser.options", Param::None),
            2 => ("parser.plugins", Param::None),
            3 | 4 => ("parser.directives", Param::None),
            5 | 6 => ("book", Param::None),
            7 if r.pct(35) => ("book", hand_made(r)),
            7 if !dirs.is_empty() => {
                let keep = if r.pct(40) { Some((0..30).filter(|_| r.pct(60)).collect()) } else { None };
                ("book", Param::BookOf { step: *r.pick(&dirs), seed: r.u64() >> 12, spans: r.pct(50), keep, edits: if r.pct(20) { r.u64() >> 12 } else { 0 } })
            }
            8 if !dirs.is_empty() => ("parser.resolve-spans", Param::SpansOf { step: *r.pick(&dirs) }),
            9 => ("parser.create-synthetic-spans", synth(r)),
            10 if !synths.is_empty() => ("parser.resolve-spans", Param::SynthOf { step: *r.pick(&synths) }),
            11 if !fails.is_empty() => ("parser.format-errors", Param::ErrorsOf { step: *r.pick(&fails) }),
            12 if !dirs.is_empty() => {
                let y = if synths.is_empty() { None } else { Some(*r.pick(&synths)) };
                let m = if r.pct(50) { "parser.format-errors" } else { "parser.format-warnings" };
                (m, Param::Reports { dirs: *r.pick(&dirs), synth: y, seed: r.u64() >> 12, bad: 0 })
            }
            13 => (if r.pct(50) { "parser.format-warnings" } else { "parser.resolve-spans" }, Param::Json("[]".into())),
            _ => ("parser.directives", Param::None),
        };
        let k = v.len();
        match m {
            "parser.directives" if health == Health::Good => dirs.push(k),
            "parser.directives" => fails.push(k),
            "book" => fails.push(k),
            "parser.create-synthetic-spans" => synths.push(k),
            _ => {}
        }
        v.push(Step::Req { id: id(r), method: m.into(), param: p, style: encode_style(r) });
    }
    v
}

pub fn method(s: &Step) -> &str {
    match s {
        Step::Req { method, .. } => method,
        _ => "",
    }
}

/// canonical form of one answer
pub fn canon(line: &str) -> String {
    match J::parse(line) {
        Ok(j) => j.canon().to_string(),
        Err(_) => format!("not JSON: {line}"),
    }
}

/// for answers about syntax errors: in any order
pub fn canon_unordered(line: &str) -> String {
    match J::parse(line) {
        Ok(mut j) => {
            if let Some(e) = j.get_mut("error") {
                if e.get("code").int() == Some(2) {
                    if let Some(J::Arr(v)) = e.get_mut("data") {
                        *v = v.iter().map(|x| x.canon()).collect();
                        v.sort();
                    }
                }
            }
            j.canon().to_string()
        }
        Err(_) => format!("not JSON: {line}"),
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s.to_string() }
}

/// the first place where two canonical lists differ
/// is this a request to book what leaves the outcome open (a known finding, see book.rs)?
pub fn open_outcome(led: Option<&Ledger>, line: &[u8]) -> bool {
    let Ok(j) = J::parse(&String::from_utf8_lossy(line)) else { return false };
    let (Some("book"), p @ J::Arr(_)) = (j.get("method").str(), j.get("params")) else { return false };
    let (Some(dcts), Some(Ok(q))) = (crate::edit::directives(p), led.map(crate::parse::parse)) else { return false };
    let q = crate::parse::Parsed { dcts, ..q };
    matches!(crate::cmp::outcome(&q), crate::book::Outcome::Excluded(_))
}

pub fn first_diff(what: &str, a: &[String], b: &[String]) -> Option<String> {
    first_diff_but(what, a, b, &|_| false)
}

/// differences apart from those which `skip` lets pass
pub fn first_diff_but(what: &str, a: &[String], b: &[String], skip: &dyn Fn(usize) -> bool) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y || skip(i) => {}
            (x, y) => {
                if let (Some(x), Some(y)) = (x, y) {
                    if let (Ok(p), Ok(q)) = (J::parse(x), J::parse(y)) {
                        if let Some(d) = crate::cmp::diff(&p, &q, "") {
                            return Some(format!("{what}: answer {i}{d}"));
                        }
                    }
                }
                return Some(format!(
                    "{what}: answer {i}: {} against {}",
                    x.map(|t| clip(t)).unwrap_or("none".into()),
                    y.map(|t| clip(t)).unwrap_or("none".into())
                ));
            }
        }
    }
    None
}

pub fn canon_all(h: &Hist) -> Vec<String> {
    h.answers().iter().map(|l| canon(l)).collect()
}

/// one answer of a baseline per run of steps without sources
pub fn stderr(h: &Hist) -> String {
    clip(&String::from_utf8_lossy(&h.stderr))
}

pub fn scenario(prop: &str, seed: u64, led: Option<Ledger>, runs: Vec<RunSpec>, kind: &str) -> Scenario {
    Scenario { prop: prop.into(), seed, led, files: vec![], runs, kind: kind.into() }
}
