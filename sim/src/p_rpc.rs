//! The protocol and its environment: C01 - C08, C20.
use crate::ast::*;
use crate::r#gen::Cfg;
use crate::json::J;
use crate::kit::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use crate::world::{self, Env, Exit, Hist};
use crate::{cmp, parse};

pub fn mixed_health(r: &mut Rng) -> Health {
    match r.below(20) {
        0..=2 => Health::Syntax,
        3 | 4 => Health::Unreadable,
        _ => Health::Good,
    }
}

/// a ledger in this state of health, and the name under which it is served
pub fn world_of(r: &mut Rng, health: Health, mut c: Cfg) -> (Ledger, Vec<(String, FNode)>, String) {
    small(&mut c);
    let (root, mut arg) = whereabouts(r);
    let mut l = ledger_at(r, c, &root);
    let mut files = vec![];
    match health {
        Health::Good => {}
        Health::Syntax => spoil(r, &mut l),
        Health::Unreadable => match r.below(3) {
            0 => arg = "nothere.bean".into(),
            1 => files.push((root, FNode::Dir)),
            _ => files.push((root, FNode::Bytes(b"2020-01-01 open Assets:\xff\n".to_vec()))),
        },
    }
    (l, files, arg)
}

pub fn insert_step(v: &mut Vec<Step>, at: usize, s: Step) {
    for x in v.iter_mut() {
        if let Step::Req { param, .. } = x {
            for k in param.steps_mut() {
                if *k >= at {
                    *k += 1;
                }
            }
        }
    }
    v.insert(at, s);
}

const METHODS: &[&str] = &["status", "parser.plugins", "parser.directives", "parser.options", "book"];

/// requests of the wrong version which would have an effect
const WRONG_VERSION: &[(&str, &str)] = &[
    ("parser.create-synthetic-spans", r#"[{"name":"early","content":"one"}]"#),
    ("parser.create-synthetic-spans", r#"[{"name":"a","content":"x y"},{"name":"b","content":"zwei"}]"#),
    ("book", r#"[{"date":"2020-01-01","dct":"open","acc":"Assets:A"}]"#),
    ("book", r#"[{"date":"2020-01-01","dct":"close","acc":"Assets:A"}]"#),
    ("parser.resolve-spans", "[]"),
    ("parser.format-errors", "[]"),
];

/// a line which is no valid request
/// parameters with one value left out or of the wrong kind
fn ill_typed(r: &mut Rng) -> (&'static str, J) {
    const BOOK: &str = r#"[{"date":"2020-01-01","dct":"open","acc":"Assets:A","currencies":["USD","X"],"booking":"fifo","tags":["a"],"links":["b"],"metadata":{"ka":{"string":"x"},"kb":{"number":"1.5"},"kc":{"bool":true},"kd":{"date":"2020-01-01"},"ke":{"units":"1","cur":"USD"}}},
{"date":"2020-01-01","dct":"open","acc":"Assets:B"},{"span":[0,1,2],"date":"2020-01-02","dct":"txn","flag":"*","payee":"p","narration":"n","postings":[{"acc":"Assets:A","flag":"!","units":"1","cur":"X","cost-spec":{"per-unit":"2","cur":"USD","date":"2020-01-02","label":"l","merge":false},"price-spec":{"per-unit":"3","cur":"USD"},"tags":["t"]},{"acc":"Assets:B"}]},
{"date":"2020-01-03","dct":"balance","acc":"Assets:B","units":"-2","cur":"USD","tolerance":"0.1"},{"date":"2020-01-03","dct":"pad","acc":"Assets:B","source":"Assets:A"},{"date":"2020-01-03","dct":"price","cur":"X","price":{"per-unit":"2","cur":"USD"}},
{"date":"2020-01-03","dct":"commodity","cur":"X"},{"date":"2020-01-03","dct":"document","acc":"Assets:A","path":"x"},{"date":"2020-01-03","dct":"note","acc":"Assets:A","comment":"x"},{"date":"2020-01-03","dct":"event","type":"t","description":"d"},{"date":"2020-01-03","dct":"query","name":"n","content":"c"},{"date":"2020-01-03","dct":"custom","type":"t","values":[{"string":"s"},{"bool":false}]},{"date":"2020-01-04","dct":"close","acc":"Assets:A"}]"#;
    const REPORTS: &str = r#"[{"message":"m","reason":"r","span":[0,1,2]},{"message":"m","reason":"r","span":[0,0,1],"contexts":[["c",[0,1,2]]],"related":[["d",[0,1,3]]],"annotation":"a"}]"#;
    let (m, t) = *r.pick(&[
        ("book", BOOK),
        ("book", BOOK),
        ("parser.format-errors", REPORTS),
        ("parser.format-warnings", REPORTS),
        ("parser.create-synthetic-spans", r#"[{"name":"bad","content":"one"},{"name":"bad","content":"two"}]"#),
        ("parser.resolve-spans", "[[0,1,2],[1,2,3],[0,0,0]]"),
    ]);
    let mut j = J::parse(t).unwrap();
    fn needed(o: &[(String, J)], k: &str) -> bool {
        let dct = o.iter().find(|(n, _)| n == "dct").and_then(|(_, v)| v.str());
        match k {
            "date" | "flag" | "units" | "source" | "path" | "comment" | "type" | "description" | "content" | "values" | "price" | "dct" | "postings" | "cur" => match dct {
                Some(d) => k != "cur" && k != "units" || matches!(d, "balance" | "price" | "commodity"),
                None => k == "content" && o.iter().any(|(n, _)| n == "name"),
            },
            "acc" | "name" | "message" | "reason" => true,
            "span" => o.iter().any(|(n, _)| n == "reason"),
            _ => false,
        }
    }
    // all places, then one of them at random
    fn places(j: &J, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, bool)>) {
        match j {
            J::Arr(v) => {
                out.push((at.clone(), false));
                for (i, x) in v.iter().enumerate() {
                    at.push(i);
                    places(x, at, out);
                    at.pop();
                }
            }
            J::Obj(o) => {
                for (i, (k, x)) in o.iter().enumerate() {
                    at.push(i);
                    places(x, at, out);
                    if needed(o, k) {
                        out.push((at.clone(), true));
                    }
                    at.pop();
                }
            }
            _ => out.push((at.clone(), false)),
        }
    }
    let mut all = vec![];
    places(&j, &mut vec![], &mut all);
    let (at, remove) = r.pick(&all).clone();
    let mut x = &mut j;
    for (n, i) in at.iter().enumerate() {
        x = match x {
            J::Obj(o) if remove && n + 1 == at.len() => {
                o.remove(*i);
                return (m, j);
            }
            J::Obj(o) => &mut o[*i].1,
            J::Arr(v) => &mut v[*i],
            _ => unreachable!(),
        };
    }
    let other = match x {
        J::Str(_) => *r.pick(&["true", "{}", "[true]"]),
        J::Arr(_) => *r.pick(&["true", "17", "\"x\""]),
        J::Bool(_) => *r.pick(&["\"true\"", "1", "[]"]),
        _ => *r.pick(&["\"1\"", "true", "-1", "1.5", "null", "{}"]),
    };
    *x = J::parse(other).unwrap();
    (m, j)
}

pub fn bad_line(r: &mut Rng) -> Vec<u8> {
    let idt = id(r);
    let m = *r.pick(METHODS);
    let good = crate::client::encode(&idt, m, None, encode_style(r) & !24);
    let good = String::from_utf8(good).unwrap();
    let st = |x: &str| x.to_string().into_bytes();
    match r.below(21) {
        20 => {
            let (m, p) = ill_typed(r);

            st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"{m}\",\"params\":{}}}", p))
        }
        0 => {
            let mut k = 1 + r.below(good.len() - 1);
            while !good.is_char_boundary(k) {
                k -= 1;
            }
            st(&good[..k.max(1)])
        }
        1 => st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"{}\"}}", r.pick(&["parser.nothing", "", "Status", "book ", "parser", "é"]))),
        2 => st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt}}}")),
        3 => st(&format!("{{\"id\":{idt},\"method\":\"{m}\"}}")),
        4 if r.pct(60) => {
            let (m, p) = r.pick(WRONG_VERSION);
            st(&format!("{{\"jsonrpc\":\"{}\",\"id\":{idt},\"method\":\"{m}\",\"params\":{p}}}", r.pick(&["1.0", "2", "", "3.0"])))
        }
        4 | 5 => st(&format!("{{\"jsonrpc\":\"{}\",\"id\":{idt},\"method\":\"{m}\"}}", r.pick(&["1.0", "2", "2.00", "", "3.0", " 2.0", "2.0 "]))),
        6 => st(&format!("{{\"jsonrpc\":{},\"id\":{idt},\"method\":\"{m}\"}}", r.pick(&["2.0", "2", "null", "[]", "true"]))),
        7 => st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":{}}}", r.pick(&["1.5", "-1", "99", "null", "[\"status\"]", "{}"]))),
        8 => {
            let m = *r.pick(&["parser.resolve-spans", "parser.create-synthetic-spans", "parser.format-errors", "parser.format-warnings"]);
            let p = match r.below(6) {
                0 => String::new(),
                k => format!(",\"params\":{}", ["null", "{}", "\"x\"", "[1]", "17"][k - 1]),
            };
            st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"{m}\"{p}}}"))
        }
        9 => st(&format!(
            "{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"parser.create-synthetic-spans\",\"params\":[{{\"name\":\"bad\",\"content\":\"one\"}},{}]}}",
            r.pick(&["{\"name\":\"bad2\"}", "{\"content\":\"x\"}", "7", "{\"name\":1,\"content\":\"x\"}", "null"])
        )),
        10 => st(&format!(
            "{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"book\",\"params\":{}}}",
            r.pick(&["{}", "3", "[3]", "[{}]", "[{\"date\":\"2020-01-01\",\"dct\":\"nothing\"}]", "[{\"date\":\"2020-01-01\",\"dct\":\"close\"}]", "[{\"date\":\"not a date\",\"dct\":\"close\",\"acc\":\"Assets:A\"}]", "[{\"date\":\"2020-02-31\",\"dct\":\"close\",\"acc\":\"Assets:A\"}]"])
        )),
        11 if r.pct(12) => st(&format!("{good}{}", "x".repeat(*r.pick(&[8_000, 65_536, 70_000, 131_072])))),
        11 => st(&format!("{good}{}", r.pick(&["x", "}", " {}", "]", ",", &good.clone(), ";", "\\", "//", " # note", "\u{0}", "\u{feff}", "\u{1a}", "\u{4}"]))),
        12 if r.pct(60) => {
            // something before a request
            let t = *r.pick(&["\u{feff}", "#", "# ", "//", ";", "\u{0}", "\u{1e}", "> ", "data: ", ",", "\u{1b}", "'", "=", ")]}'", "Content-Length: 5 "]);
            st(&format!("{t}{good}"))
        }
        13 if r.pct(40) => st(*r.pick(&["# a comment", "#", "// x", ";; x", "--", "exit", "quit", "help", ":q", "Content-Length: 100", "GET / HTTP/1.1", "\u{0}", "\u{4}", "\u{1b}", "EOF", "..."])),
        12 => st(&format!("[{good}]")),
        13 => st(*r.pick(&["null", "true", "17", "\"status\"", "[]", "{}", "status", "-", "'", "\u{feff}", "é"])),
        14 => st(""),
        15 => st(*r.pick(&["   ", "\t", "\r"])),
        16 => {
            let n = *r.pick(&[130, 200, 1000, 20000]);
            st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"book\",\"params\":{}", "[".repeat(n)))
        }
        17 => st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"{m}\"}}", r.pick(&["true", "[]", "{}", "[1]"]))),
        18 => st(&good.replace('"', "'")),
        _ => st(&format!("{{\"jsonrpc\":\"2.0\",\"id\":{idt},\"method\":\"parser.resolve-spans\",\"params\":{}}}", r.pick(&["[[0,1]]", "[[0,1,2,3]]", "[[0,-1,2]]", "[[\"0\",1,2]]", "[[0,1.5,2]]", "[{}]", "[[0,1,2],[0,1,null]]"]))),
    }
}

/// the answer due to a line which is no valid request: (code, id)
fn due(line: &[u8]) -> (i64, J) {
    let t = String::from_utf8_lossy(line);
    if let Ok(j @ J::Obj(_)) = J::parse(t.trim()) {
        let ok_id = matches!(j.get("id"), J::Str(_) | J::Null | J::Num(_));
        if let (Some(v), Some(m)) = (j.get("jsonrpc").str(), j.get("method").str()) {
            if v != "2.0" && METHODS.contains(&m) && ok_id && !j.has("params") {
                return (-32600, j.get("id").clone());
            }
            let p = j.get("params");
            if v != "2.0" && ok_id && WRONG_VERSION.iter().any(|(n, q)| *n == m && J::parse(q).unwrap() == *p) {
                return (-32600, j.get("id").clone());
            }
        }
    }
    (-32700, J::Null)
}

fn same_id(a: &J, b: &J) -> bool {
    a == b
}

/// framing and envelope of one answer
fn envelope(line: &str) -> Result<J, String> {
    let j = J::parse(line).map_err(|e| format!("answer is not JSON: {e}: {}", clip(line)))?;
    let J::Obj(v) = &j else { return Err(format!("answer is no object: {}", clip(line))) };
    if j.get("jsonrpc").str() != Some("2.0") {
        return Err(format!("answer without version: {}", clip(line)));
    }
    if v.iter().any(|(k, _)| !matches!(k.as_str(), "jsonrpc" | "id" | "result" | "error")) || !j.has("id") {
        return Err(format!("envelope: {}", clip(line)));
    }
    if j.has("result") == j.has("error") {
        return Err(format!("neither a result nor an error: {}", clip(line)));
    }
    if j.has("error") && (j.get("error").get("code").int().is_none() || j.get("error").get("message").str().is_none()) {
        return Err(format!("error without code or message: {}", clip(line)));
    }
    Ok(j)
}

/// the kind of answer due to a valid request
fn kind_of(method: &str, req: &J, j: &J, health: Health) -> Option<String> {
    let code = j.get("error").get("code").int();
    let bad = |w: &str| Some(format!("answer to {method}: expected {w}: {}", clip(&j.to_string())));
    if health == Health::Unreadable {
        return if code == Some(1) { None } else { bad("the error that the ledger cannot be read") };
    }
    let res = j.get("result");
    let n = req.get("params").arr().len();
    match method {
        "status" if j.has("result") && res.is_null() => None,
        "status" => bad("an empty result"),
        "parser.options" | "parser.plugins" | "parser.directives" if health == Health::Syntax => {
            if code == Some(2) { None } else { bad("error reports") }
        }
        "parser.options" => if matches!(res, J::Obj(_)) { None } else { bad("options") },
        "parser.plugins" => if matches!(res, J::Arr(_)) { None } else { bad("plugins") },
        "parser.directives" => if matches!(res.get("directives"), J::Arr(_)) { None } else { bad("directives") },
        "book" if req.get("params").is_null() => {
            if health == Health::Syntax && code != Some(2) {
                return bad("error reports");
            }
            if matches!(res.get("directives"), J::Arr(_)) || code == Some(2) { None } else { bad("a booking or error reports") }
        }
        "book" if health == Health::Syntax => {
            if code == Some(2) { None } else { bad("error reports") }
        }
        "book" => if matches!(res.get("directives"), J::Arr(_)) || code == Some(3) { None } else { bad("a booking or indexed error reports") },
        "parser.resolve-spans" | "parser.create-synthetic-spans" => {
            if matches!(res, J::Arr(v) if v.len() == n) { None } else { bad("as many elements as asked for") }
        }
        _ => if res.str().is_some() { None } else { bad("a text") },
    }
}

fn health_of(sc: &Scenario) -> Health {
    if sc.kind.contains("unreadable") {
        Health::Unreadable
    } else if sc.led.as_ref().is_some_and(|l| parse::parse(l).is_err()) {
        Health::Syntax
    } else {
        Health::Good
    }
}

fn hname(h: Health) -> &'static str {
    match h {
        Health::Good => "good",
        Health::Syntax => "syntax",
        Health::Unreadable => "unreadable",
    }
}

// ---------------------------------------------------------------- C01

fn c01_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = mixed_health(&mut r);
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let n = 3 + r.below(14);
    let mut steps = session(&mut r, n, h);
    lengthen(&mut r, &mut steps, 4);
    many(&mut r, &mut steps, 2);
    if r.pct(30) {
        for _ in 0..1 + r.below(3) {
            let at = r.below(steps.len() + 1);
            let b = bad_line(&mut r);
            insert_step(&mut steps, at, Step::Line(b));
        }
    }
    if r.pct(15) {
        // a request without an id
        let at = r.below(steps.len() + 1);
        insert_step(&mut steps, at, Step::Req { id: r.pick(&["", "null"]).to_string(), method: "status".into(), param: Param::None, style: 0 });
    }
    let mut x = serve(&arg);
    knobs(&mut r, &mut x);
    x.steps = steps;
    coarser(&mut r, &mut x);
    Scenario { prop: "C01".into(), seed, led: Some(l), files, runs: vec![x], kind: hname(h).into() }
}

/// every line answered in order, as due
pub fn one_to_one(sc: &Scenario, h: &Hist, x: &RunSpec, health: Health) -> Option<String> {
    let _ = sc;
    if !h.stdout.is_empty() && h.stdout.last() != Some(&b'\n') {
        return Some("framing: output does not end with a line feed".into());
    }
    let Ok(text) = std::str::from_utf8(&h.stdout) else { return Some("framing: output is not UTF-8".into()) };
    let ans: Vec<&str> = text.lines().collect();
    for (i, st) in x.steps.iter().enumerate() {
        let Some(Some(k)) = h.step_line.get(i) else { continue };
        let Some(a) = ans.get(*k) else { return Some(format!("count: line {k} was not answered")) };
        let j = match envelope(a) {
            Ok(j) => j,
            Err(e) => return Some(format!("form: line {k}: {e}")),
        };
        match st {
            Step::Req { id, method, .. } => {
                let want = if id.is_empty() { J::Null } else { J::parse(id).unwrap() };
                if !same_id(j.get("id"), &want) {
                    return Some(format!("id: line {k} has id {want} but its answer {}", j.get("id")));
                }
                let rq = J::parse(&String::from_utf8_lossy(&h.lines[*k])).unwrap_or(J::Null);
                if let Some(e) = kind_of(method, &rq, &j, health) {
                    return Some(format!("kind: line {k}: {e}"));
                }
            }
            Step::Line(b) | Step::Tail(b) => {
                let (code, id) = due(b);
                if j.get("error").get("code").int() != Some(code) || !same_id(j.get("id"), &id) {
                    return Some(format!("bad request: line {k} {:?}: expected error {code} with id {id}: {}", clip(&String::from_utf8_lossy(b)), clip(a)));
                }
            }
        }
    }
    if ans.len() != h.lines.len() {
        return Some(format!("count: {} lines but {} answers", h.lines.len(), ans.len()));
    }
    None
}

fn c01_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let h = &hs[0];
    if let Some(e) = cmp::check_clean(h) {
        return Some(format!("run: {e}"));
    }
    one_to_one(sc, h, &sc.runs[0], health_of(sc))
}

fn several(_: &Scenario, hs: &[Hist]) -> bool {
    hs[0].lines.len() >= 3
}

// ---------------------------------------------------------------- C02

fn c02_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = if r.pct(12) { Health::Syntax } else { Health::Good };
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let n = 3 + r.below(10);
    let mut steps = session(&mut r, n, h);
    lengthen(&mut r, &mut steps, 4);
    let mut x = serve(&arg);
    x.entropy = r.u64() >> 12;
    x.steps = steps;
    let mut y = x.clone();
    knobs(&mut r, &mut y);
    y.entropy = x.entropy;
    for _ in 0..1 + r.below(6) {
        let at = r.below(y.steps.len() + 1);
        let b = bad_line(&mut r);
        insert_step(&mut y.steps, at, Step::Line(b));
    }
    coarser(&mut r, &mut y);
    Scenario { prop: "C02".into(), seed, led: Some(l), files, runs: vec![x, y], kind: hname(h).into() }
}

fn c02_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let health = health_of(sc);
    for (x, h) in sc.runs.iter().zip(hs) {
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run: {e}"));
        }
        if let Some(e) = one_to_one(sc, h, x, health) {
            return Some(e);
        }
    }
    let pick = |i: usize| -> Vec<String> {
        let a = hs[i].answers();
        sc.runs[i]
            .steps
            .iter()
            .enumerate()
            .filter(|(_, s)| matches!(s, Step::Req { .. }))
            .map(|(k, _)| match hs[i].step_line.get(k) {
                Some(Some(l)) => canon_unordered(&a[*l]),
                _ => "not sent".into(),
            })
            .collect()
    };
    let reqs: Vec<usize> = (0..sc.runs[0].steps.len()).filter(|k| matches!(sc.runs[0].steps[*k], Step::Req { .. })).collect();
    let skip = |i: usize| reqs.get(i).and_then(|k| hs[0].step_line.get(*k).copied().flatten()).is_some_and(|l| open_outcome(sc.led.as_ref(), &hs[0].lines[l]));
    first_diff_but("with bad lines", &pick(0), &pick(1), &skip)
}

// ---------------------------------------------------------------- C03

fn c03_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = mixed_health(&mut r);
    let mut c = Cfg::mixed();
    c.uni = 60;
    let (l, files, arg) = world_of(&mut r, h, c);
    let n = 2 + r.below(10);
    let mut steps = session(&mut r, n, h);
    lengthen(&mut r, &mut steps, 4);
    if r.pct(40) {
        let at = r.below(steps.len() + 1);
        let b = bad_line(&mut r);
        insert_step(&mut steps, at, Step::Line(b));
    }
    let mut x = serve(&arg);
    x.entropy = r.u64() >> 12;
    x.steps = steps;
    let mut runs = vec![x.clone()];
    for _ in 0..2 + r.below(2) {
        let mut y = x.clone();
        knobs(&mut r, &mut y);
        coarser(&mut r, &mut y);
        y.entropy = x.entropy;
        y.pad = 0;
        y.machine = x.machine;
        y.jumps.clear();
        y.clock0 = 0;
        runs.push(y);
    }
    Scenario { prop: "C03".into(), seed, led: Some(l), files, runs, kind: hname(h).into() }
}

fn c03_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let base: Vec<String> = hs[0].answers().iter().map(|l| canon_unordered(l)).collect();
    for h in hs {
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run: {e}"));
        }
        if h.lines != hs[0].lines && h.answers().len() == hs[0].answers().len() {
            // the client asks what it was told: only differs if answers do
            let v: Vec<String> = h.answers().iter().map(|l| canon_unordered(l)).collect();
            if v == base {
                continue;
            }
        }
        let v: Vec<String> = h.answers().iter().map(|l| canon_unordered(l)).collect();
        if let Some(e) = first_diff_but("transit", &base, &v, &|i| h.lines.get(i).is_some_and(|l| open_outcome(sc.led.as_ref(), l))) {
            return Some(e);
        }
    }
    None
}

fn c03_nontrivial(sc: &Scenario, hs: &[Hist]) -> bool {
    hs.iter().skip(1).any(|h| h.fired_kinds.values().sum::<u64>() > 0) && sc.runs[0].steps.len() >= 2
}

// ---------------------------------------------------------------- C04

/// a request for memory which is refused
pub fn refusal(nth: u32, sticky: bool) -> Fault {
    Fault { site: "alloc".into(), path: None, nth, sticky, act: Act::Errno(libc::ENOMEM) }
}

fn c04_make(env: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = mixed_health(&mut r);
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let n = 2 + r.below(7);
    let mut x = serve(&arg);
    knobs(&mut r, &mut x);
    x.jumps.clear();
    x.bare_end = false;
    x.steps = session(&mut r, n, h);
    lengthen(&mut r, &mut x.steps, 3);
    coarser(&mut r, &mut x);
    if r.pct(30) {
        let at = r.below(x.steps.len() + 1);
        let b = bad_line(&mut r);
        insert_step(&mut x.steps, at, Step::Line(b));
    }
    let mut sc = Scenario { prop: "C04".into(), seed, led: Some(l), files, runs: vec![x.clone()], kind: String::new() };
    let base = world::run(env, &sc.vfs(), &x, false);
    let n = |s: &str| *base.counts.get(s).unwrap_or(&1);
    let mut y = x.clone();
    let kind = match r.below(13) {
        12 => {
            // memory runs out
            let n = base.allocs.saturating_sub(base.allocs_at_input).max(1);
            y.faults.push(refusal(base.allocs_at_input + 1 + r.below(n as usize) as u32, r.pct(50)));
            "alloc"
        }
        0 => {
            // the last line lacks its line feed
            let lines: Vec<&Vec<u8>> = base.lines.iter().collect();
            let k = r.below(lines.len().max(1));
            y.steps = lines.iter().take(k).map(|l| Step::Line(l.to_vec())).collect();
            if let Some(t) = lines.get(k).filter(|t| !t.is_empty()) {
                y.steps.push(Step::Tail(t.to_vec()));
            }
            x = y.clone();
            if let Some(Step::Tail(t)) = y.steps.last().cloned() {
                *x.steps.last_mut().unwrap() = Step::Line(t);
            }
            sc.runs[0] = x;
            "tail"
        }
        1 => {
            let lines: Vec<&Vec<u8>> = base.lines.iter().collect();
            let k = r.below(lines.len().max(1));
            y.steps = lines.iter().take(k).map(|l| Step::Line(l.to_vec())).collect();
            x.steps = y.steps.clone();
            if let Some(t) = lines.get(k).filter(|t| t.len() > 2) {
                let cut = 1 + r.below(t.len() - 1);
                let mut t = t[..cut].to_vec();
                while std::str::from_utf8(&t).is_err() {
                    t.pop();
                }
                if !t.is_empty() {
                    y.steps.push(Step::Tail(t));
                }
            }
            sc.runs[0] = x;
            "cut"
        }
        2 | 3 => {
            y.faults.push(Fault { site: "stdin".into(), path: None, nth: 1 + r.below(n("stdin") as usize) as u32, sticky: true, act: Act::Eof });
            "eof"
        }
        4 | 5 => {
            y.faults.push(Fault { site: "stdin".into(), path: None, nth: 1 + r.below(n("stdin") as usize) as u32, sticky: r.pct(60), act: Act::Errno(*r.pick(&[libc::EIO, libc::ENOMEM, libc::ECONNRESET, libc::EISDIR])) });
            "stdin-error"
        }
        6..=8 => {
            let act = if r.pct(15) { Act::Zero } else { Act::Errno(*r.pick(&[libc::EIO, libc::EPIPE, libc::ENOSPC, libc::EFBIG])) };
            y.faults.push(Fault { site: "stdout".into(), path: None, nth: 1 + r.below(n("stdout") as usize) as u32, sticky: r.pct(70), act });
            "stdout-error"
        }
        _ => {
            let all: u32 = base.counts.values().sum();
            y.faults.push(Fault { site: "any".into(), path: None, nth: 1 + r.below(all.max(1) as usize) as u32, sticky: false, act: Act::Kill });
            "kill"
        }
    };
    sc.runs.push(y);
    if kind == "kill" {
        // and starts again
        let again = sc.runs[0].clone();
        sc.runs.push(again);
    }
    sc.kind = format!("{kind} {}", hname(h));
    sc
}

fn c04_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let base = &hs[0];
    if let Some(e) = cmp::check_clean(base) {
        return Some(format!("run: {e}"));
    }
    if base.answers().len() != base.lines.len() {
        return Some(format!("count: {} lines but {} answers", base.lines.len(), base.answers().len()));
    }
    let h = hs.get(1)?;
    if h.hang || h.runaway {
        return Some("stuck: the program does not get anywhere".into());
    }
    let fired: u32 = h.fired.iter().sum();
    let kind = sc.kind.split(' ').next().unwrap_or("");
    let prefix = |what: &str| -> Option<String> {
        if base.stdout.starts_with(&h.stdout) {
            return None;
        }
        let k = base.stdout.iter().zip(&h.stdout).take_while(|(a, b)| a == b).count();
        let t = String::from_utf8_lossy(&h.stdout[k.saturating_sub(60)..h.stdout.len().min(k + 120)]).into_owned();
        Some(format!("{what}: output departs at byte {k} from what it is without the failure: …{t:?}"))
    };
    let code = |ok: bool| -> Option<String> {
        match (&h.exit, ok) {
            (Exit::Code(0), true) => None,
            (Exit::Code(c), false) if *c != 0 => None,
            (Exit::Signal(_), false) => None,
            (e, true) => Some(format!("exit: expected status 0 but got {e:?}: {}", stderr(h))),
            (e, false) => Some(format!("exit: expected a status other than 0 but got {e:?}")),
        }
    };
    match kind {
        "tail" => code(true).or_else(|| prefix("tail")).or_else(|| {
            if h.stdout.len() == base.stdout.len() { None } else { Some("tail: the last request was received but not answered".into()) }
        }),
        "cut" => code(true).or_else(|| {
            let (a, b) = (base.answers(), h.answers());
            if b.len() < a.len() || b[..a.len()] != a[..] || b.len() > a.len() + 1 {
                return Some("cut: answers to complete requests changed".into());
            }
            if let Some(x) = b.get(a.len()) {
                let j = J::parse(x).unwrap_or(J::Null);
                // (cut off in the white space at its end, it is complete)
                let whole = matches!(sc.runs[1].steps.last(), Some(Step::Tail(t)) if J::parse(&String::from_utf8_lossy(t)).is_ok());
                if !whole && j.get("error").get("code").int() != Some(-32700) {
                    return Some(format!("cut: an incomplete request was answered {}", clip(x)));
                }
            }
            None
        }),
        _ if fired == 0 => {
            // the fault found nothing to hit
            code(true).or_else(|| prefix("unharmed"))
        }
        "eof" => (if h.torn_character { prefix("eof") } else { code(true) }).or_else(|| {
            // everything delivered was answered; an unfinished line may have got an error
            let b = h.answers();
            let whole: Vec<String> = base.answers();
            let k = b.iter().zip(&whole).take_while(|(x, y)| x == y).count();
            if k + 1 < b.len() {
                return Some("eof: answers changed".into());
            }
            if k < b.len() {
                let j = J::parse(&b[k]).unwrap_or(J::Null);
                if j.get("error").get("code").int() != Some(-32700) {
                    return Some(format!("eof: an incomplete request was answered {}", clip(&b[k])));
                }
            }
            let got = h.consumed_lines;
            if b.len() < got {
                return Some(format!("eof: {got} requests were received but {} answered", b.len()));
            }
            None
        }),
        "stdin-error" | "stdout-error" => {
            let sticky = sc.runs[1].faults.first().is_some_and(|f| f.sticky);
            if let Some(e) = prefix(kind) {
                return Some(e);
            }
            let full = h.stdout.len() == base.stdout.len() && h.exit == Exit::Code(0);
            if full && !sticky {
                return None; // it got over it
            }
            if let Some(e) = code(false) {
                return Some(e);
            }
            if kind == "stdin-error" {
                // what was received before is still answered
                if h.answers().len() < h.consumed_lines {
                    return Some(format!("lost: {} requests were received but {} answered", h.consumed_lines, h.answers().len()));
                }
            }
            let tries = h.counts.get(if kind == "stdin-error" { "stdin" } else { "stdout" }).copied().unwrap_or(0);
            let nth = sc.runs[1].faults.first().map_or(0, |f| f.nth);
            if sticky && tries > nth + 5 {
                return Some(format!("promptness: tried {} more times after the failure", tries - nth));
            }
            None
        }
        // it may give up, but not with status 0; or go on without loss
        "alloc" => prefix("alloc").or_else(|| if h.stdout.len() == base.stdout.len() && h.exit == Exit::Code(0) { None } else { code(false) }),
        "kill" => prefix("kill").or_else(|| {
            let g = hs.get(2)?;
            cmp::check_clean(g).map(|e| format!("restart: {e}")).or_else(|| {
                if g.stdout == base.stdout { None } else { Some("restart: answers differ after a crash".into()) }
            })
        }),
        _ => None,
    }
}

fn c04_nontrivial(sc: &Scenario, hs: &[Hist]) -> bool {
    sc.kind.starts_with("tail") || sc.kind.starts_with("cut") || hs.get(1).is_some_and(|h| h.fired.iter().sum::<u32>() > 0)
}

// ---------------------------------------------------------------- C05

fn queries(r: &mut Rng) -> Vec<Step> {
    let mut v = vec![
        req("parser.directives", Param::None),
        req("book", Param::None),
        req("parser.options", Param::None),
        req("parser.plugins", Param::None),
        req("status", Param::None),
    ];
    r.shuffle(&mut v);
    v.push(req("status", Param::None));
    v.push(req("parser.directives", Param::None));
    v
}

fn c05_make(env: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut c = Cfg::mixed();
    c.days = 4;
    c.per_day = 2;
    c.files = 5;
    let (root, arg) = whereabouts(&mut r);
    let mut l = ledger_at(&mut r, c, &root);
    for _ in 0..4 {
        if l.files.len() > 1 {
            break;
        }
        let mut c = Cfg::mixed();
        c.files = 5;
        c.days = 3;
        l = ledger_at(&mut r, c, &root);
    }
    let mut x = serve(&arg);
    if r.pct(50) {
        environment(&mut r, &mut x);
    }
    x.steps = queries(&mut r);
    x.entropy = r.u64() >> 12;
    let mut sc = scenario("C05", seed, Some(l), vec![x.clone()], "");
    let base = world::run(env, &sc.vfs(), &x, false);
    let l = sc.led.as_ref().unwrap();
    let v = r.below(l.files.len());
    let path = l.files[v].path.clone();
    let text = l.render().texts[v].clone();
    let mut y = x.clone();
    knobs(&mut r, &mut y);
    y.entropy = x.entropy;
    let cnt = |s: &str| *base.path_counts.get(&(s.to_string(), path.clone())).unwrap_or(&0);
    let wildcard = l.files.iter().any(|f| f.items.iter().any(|i| matches!(i, Item::Include(p) if p.contains('*'))));
    let fault = |y: &mut RunSpec, site: &str, nth: u32, sticky: bool, act: Act| y.faults.push(Fault { site: site.into(), path: Some(path.clone()), nth, sticky, act });
    let kind = match r.below(11) {
        10 => {
            y.faults.push(refusal(1 + r.below(base.allocs_at_input.max(1) as usize) as u32, r.pct(30)));
            "alloc"
        }
        0 if v == 0 || !wildcard => {
            y.files.push((path.clone(), None));
            if r.pct(50) {
                neighbours(&mut r, &mut y, l, &path);
            }
            "missing"
        }
        1 if v == 0 || !wildcard => {
            y.files.push((path.clone(), Some(FNode::Dir)));
            if r.pct(50) {
                neighbours(&mut r, &mut y, l, &path);
            }
            "directory"
        }
        2 | 3 => {
            let mut b = text.clone().into_bytes();
            let at = r.below(b.len() + 1);
            match r.below(3) {
                0 => b.insert(at, 0xff),
                1 => {
                    b.splice(at..at, [0xc3, 0x28]);
                }
                _ => {
                    // torn inside a character
                    b.truncate(at);
                    while std::str::from_utf8(&b).is_err() {
                        b.pop();
                    }
                    b.extend_from_slice(*r.pick(&[&[0xe6, 0x97][..], &[0xc3], &[0xf0, 0x9f, 0x8e]]));
                }
            }
            y.files.push((path.clone(), Some(FNode::Bytes(b))));
            "not text"
        }
        4 | 5 => {
            fault(&mut y, "open", 1, true, Act::Errno(*r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT, libc::EMFILE, libc::ELOOP])));
            "open"
        }
        6 | 7 => {
            let n = cnt("fread").max(1);
            // reading fails for good at some point
            fault(&mut y, "fread", 1 + r.below(n as usize) as u32, true, Act::Errno(*r.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM])));
            y.ffrag = x.ffrag;
            "read"
        }
        8 => {
            let n = cnt("fread").max(1);
            fault(&mut y, "fread", 1 + r.below(n as usize) as u32, false, Act::Errno(libc::EIO));
            y.ffrag = 0;
            "read-once"
        }
        _ => {
            fault(&mut y, "open", 1 + r.below(cnt("open").max(1) as usize) as u32, false, Act::Errno(*r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO])));
            "open-once"
        }
    };
    sc.kind = kind.into();
    sc.files.push(("/sim/victim".into(), FNode::Text(path)));
    sc.runs.push(y);
    sc
}

/// files which could be taken for the one that cannot be read
fn neighbours(r: &mut Rng, y: &mut RunSpec, l: &Ledger, path: &str) {
    let (dir, name) = path.rsplit_once('/').unwrap_or(("", path));
    let (stem, _) = name.rsplit_once('.').unwrap_or((name, ""));
    let mut all: Vec<String> = ["beancount", "bean", "bak", "txt", "orig", "bean.gz", "new"].iter().map(|s| format!("{dir}/{stem}.{s}")).collect();
    all.extend(["~", ".bak", ".bean", ".beancount", ".orig", ".tmp"].iter().map(|s| format!("{path}{s}")));
    all.extend(["main.bean", "main.beancount", "index.bean", "ledger.bean"].iter().flat_map(|s| [format!("{dir}/{s}"), format!("/sim/cwd/{s}"), format!("/sim/{s}")]));
    all.extend([format!("{dir}/{stem}"), format!("{dir}/{}", name.to_uppercase()), format!("{dir}/{}", name.to_lowercase()), format!("{dir}/.{name}"), format!("{dir}/#{name}#"), format!("/sim/{name}"), format!("/{name}"), format!("/sim/cwd/{name}")]);
    if y.files.iter().any(|(p, n)| p == path && matches!(n, Some(FNode::Dir))) {
        all = ["main.bean", "main.beancount", "index.bean", "ledger.bean", name].iter().map(|s| format!("{path}/{s}")).collect();
    }
    let text = FNode::Text("2020-01-01 open Assets:Neighbour\n2020-01-02 note Assets:Neighbour \"not this one\"\n".into());
    let every = r.pct(50);
    for p in all {
        let used = p.ends_with('/') || y.files.iter().any(|f| f.0 == p) || l.files.iter().any(|f| f.path == p || f.path.starts_with(&format!("{p}/")) || p.starts_with(&format!("{}/", f.path)) && f.path != path);
        if !used && (every || r.pct(30)) {
            y.files.push((p, Some(text.clone())));
        }
    }
}

fn c05_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let led = sc.led.as_ref()?;
    let p = parse::parse(led).ok()?;
    for (i, h) in hs.iter().enumerate() {
        if i == 1 && sc.kind == "alloc" && matches!(h.exit, Exit::Signal(_) | Exit::Code(1..)) {
            // it gave up: without an answer
            if let Some(a) = h.answers().first() {
                return Some(format!("gave up when memory was refused, but answered {}", clip(a)));
            }
            continue;
        }
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run {i}: {e}"));
        }
        if h.answers().len() != h.lines.len() {
            return Some(format!("run {i}: {} requests but {} answers", h.lines.len(), h.answers().len()));
        }
    }
    // complete: all of the ledger, once
    for (k, st) in sc.runs[0].steps.iter().enumerate() {
        if method(st) == "parser.directives" {
            if let Some(e) = cmp::check_directives(&p, &hs[0].answer(k)?) {
                return Some(format!("complete: {e}"));
            }
        }
    }
    let h = hs.get(1)?;
    let Some((_, FNode::Text(victim))) = sc.files.iter().find(|f| f.0 == "/sim/victim") else { return None };
    let Some(v) = led.files.iter().position(|f| f.path == *victim) else { return None };
    if sc.kind == "alloc" {
        // all of the ledger, or an error
        for (k, st) in sc.runs[1].steps.iter().enumerate() {
            let (Some(a), Some(b)) = (h.answer(k), hs[0].answer(k)) else { continue };
            if !a.has("error") && canon_unordered(&a.to_string()) != canon_unordered(&b.to_string()) {
                return Some(format!("half-used: {} after a request for memory was refused: {}", method(st), cmp::clip(&a)));
            }
        }
        return None;
    }
    let by_fault = !sc.runs[1].faults.is_empty();
    if !by_fault && !sc.runs[1].files.iter().any(|f| f.0 == *victim) {
        return None;
    }
    if by_fault && h.fired.iter().sum::<u32>() == 0 {
        return None; // it was never met
    }
    if !by_fault && sc.runs[1].files.is_empty() {
        return None;
    }
    let once = by_fault && !sc.runs[1].faults[0].sticky;
    let name = victim.rsplit('/').next().unwrap();
    let texts = led.render();
    for (k, st) in sc.runs[1].steps.iter().enumerate() {
        let m = method(st);
        let a = h.answer(k)?;
        if once && canon_unordered(&a.to_string()) == canon_unordered(&hs[0].answer(k)?.to_string()) {
            continue;
        }
        if m == "status" && v != 0 {
            if !a.has("result") {
                return Some(format!("status: {}", cmp::clip(&a)));
            }
            continue;
        }
        if a.has("result") {
            return Some(format!("half-used: {m} succeeded although {name} ({}) was not readable: {}", sc.kind, cmp::clip(&a)));
        }
        let er = a.get("error");
        let named = er.to_string().contains(name) || {
            // by the location of the include directive
            er.get("data").arr().iter().any(|e| {
                let sp = e.get("span").arr();
                let (Some(a), Some(b)) = (sp.get(1).and_then(J::int), sp.get(2).and_then(J::int)) else { return false };
                texts.texts.iter().any(|t| t.get(a as usize..b as usize).is_some_and(|x| x.contains(name)))
            })
        };
        if !named {
            return Some(format!("unnamed: the error of {m} does not name {name} ({}): {}", sc.kind, cmp::clip(er)));
        }
    }
    None
}

fn c05_nontrivial(sc: &Scenario, hs: &[Hist]) -> bool {
    sc.runs.get(1).is_some_and(|x| !x.files.is_empty()) || hs.get(1).is_some_and(|h| h.fired.iter().sum::<u32>() > 0)
}

// ---------------------------------------------------------------- C06

pub fn logpath(r: &mut Rng) -> (String, String, String) {
    let level = if r.pct(15) {
        // settings which are no level
        r.pick(&["loud", "limabean=loud", "limabean=debug", "info,,debug", "=", "nonsense[", "9", " ", "é", "debug,loud", "off=off=off", "[x{y=\"z\"}]=trace"]).to_string()
    } else {
        r.pick(&["trace", "debug", "info", "warn", "error", "off", ""]).to_string()
    };
    // of any length, also without a newline at its end
    let existing = if r.pct(50) {
        let mut t = "earlier line 1\nearlier é line 2\n".repeat(*r.pick(&[1, 2, 3, 200, 3000]));
        if r.pct(20) {
            t.push_str("not ended");
        }
        t
    } else {
        String::new()
    };
    let path = *r.pick(&["/sim/var/log/pod.log", "/sim/var/log/pod.log", "pod.log", "logs/é x.log", "../up.log", "/sim/new/dir/.hidden", "./a.log.d/./b"]);
    (path.into(), level, existing)
}

fn c06_make(env: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = mixed_health(&mut r);
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let n = 4 + r.below(10);
    let mut x = serve(&arg);
    knobs(&mut r, &mut x);
    x.steps = session(&mut r, n, h);
    if r.pct(40) {
        for _ in 0..1 + r.below(3) {
            let at = r.below(x.steps.len() + 1);
            let b = bad_line(&mut r);
            insert_step(&mut x.steps, at, Step::Line(b));
        }
    }
    if r.pct(60) {
        x.log = Some(logpath(&mut r));
        x.log_link = r.pct(15);
    }
    let mut sc = Scenario { prop: "C06".into(), seed, led: Some(l), files, runs: vec![x.clone()], kind: hname(h).into() };
    let base = world::run(env, &sc.vfs(), &x, false);
    let mut y = x;
    for _ in 0..1 + r.below(2) {
        let sites: Vec<(&String, &u32)> = base.counts.iter().filter(|(k, _)| !matches!(k.as_str(), "rand" | "clock" | "spawn" | "exec")).collect();
        if sites.is_empty() {
            break;
        }
        if r.pct(12) {
            y.faults.push(refusal(1 + r.below(base.allocs.max(1) as usize) as u32, r.pct(50)));
            continue;
        }
        let (s, n) = *r.pick(&sites);
        let act = if r.pct(15) { Act::Kill } else { Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::ENOSPC, libc::EMFILE])) };
        y.faults.push(Fault { site: s.clone(), path: None, nth: 1 + r.below(*n as usize) as u32, sticky: r.pct(30), act });
    }
    sc.runs.push(y);
    sc
}

fn c06_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    for (x, h) in sc.runs.iter().zip(hs) {
        if let Some(m) = h.mutations.first() {
            return Some(format!("effect: {m}"));
        }
        if let Some((_, _, old)) = &x.log {
            if !h.log.starts_with(old.as_bytes()) {
                return Some("log: what was in the log before is gone".into());
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C07

fn c07_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = if r.pct(10) { Health::Syntax } else if r.pct(5) { Health::Unreadable } else { Health::Good };
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let mut x = serve(&arg);
    knobs(&mut r, &mut x);
    // a session, in which requests come again and again
    let n = 3 + r.below(5);
    let mut first = session(&mut r, n, h);
    if r.pct(40) {
        // several bookings, of which many fail
        for _ in 0..2 + r.below(4) {
            first.push(Step::Req { id: id(&mut r), method: "book".into(), param: hand_made(&mut r), style: encode_style(&mut r) });
        }
    }
    let mut steps = first.clone();
    let more = if r.pct(3) { 60 + r.below(100) } else { 3 + r.below(8) };
    for _ in 0..more {
        if r.pct(25) {
            steps.push(Step::Line(bad_line(&mut r)));
        } else if r.pct(15) {
            steps.push(Step::Req { id: id(&mut r), method: "parser.create-synthetic-spans".into(), param: synth(&mut r), style: 0 });
        } else {
            let mut s = r.pick(&first).clone();
            if let Step::Req { id: i, style, .. } = &mut s {
                *i = id(&mut r);
                *style = encode_style(&mut r);
            }
            steps.push(s);
        }
    }
    x.steps = steps;
    // a fresh session with one question (and what it builds upon)
    let mut runs = vec![x.clone()];
    meanwhile(&mut r, &mut runs[0], &l, 40);
    for _ in 0..2 {
        let at = r.below(x.steps.len());
        if let Step::Req { method, param, .. } = &x.steps[at] {
            if method == "parser.create-synthetic-spans" {
                continue;
            }
            let mut y = x.clone();
            y.window = 1;
            y.steps = needed(&x.steps, at);
            let _ = param;
            runs.push(y);
        }
    }
    Scenario { prop: "C07".into(), seed, led: Some(l), files, runs, kind: hname(h).into() }
}

/// step `at` with the steps it builds upon, renumbered
fn needed(steps: &[Step], at: usize) -> Vec<Step> {
    let mut keep = vec![at];
    let mut i = 0;
    while i < keep.len() {
        if let Step::Req { param, .. } = &steps[keep[i]] {
            for k in param.steps() {
                if !keep.contains(&k) {
                    keep.push(k);
                }
            }
        }
        i += 1;
    }
    // synthetic sources must have been created in the same order
    if steps_synth(steps, &keep) {
        for (k, s) in steps.iter().enumerate().take(at) {
            if method(s) == "parser.create-synthetic-spans" && !keep.contains(&k) {
                keep.push(k);
            }
        }
    }
    keep.sort();
    keep.iter()
        .map(|k| {
            let mut s = steps[*k].clone();
            if let Step::Req { param, .. } = &mut s {
                for x in param.steps_mut() {
                    *x = keep.iter().position(|y| y == x).unwrap();
                }
            }
            s
        })
        .collect()
}

fn steps_synth(steps: &[Step], keep: &[usize]) -> bool {
    keep.iter().any(|k| method(&steps[*k]) == "parser.create-synthetic-spans")
}

/// an answer without its id
fn no_id(line: &str) -> String {
    match J::parse(&canon_unordered(line)) {
        Ok(J::Obj(v)) => J::Obj(v.into_iter().filter(|(k, _)| k != "id").collect()).to_string(),
        _ => line.into(),
    }
}

fn c07_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    for h in hs {
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run: {e}"));
        }
    }
    let ask = |line: &[u8]| -> Option<(String, String)> {
        // a question: what is sent apart from the id
        let j = J::parse(&String::from_utf8_lossy(line)).ok()?;
        let m = j.get("method").str()?.to_string();
        let q = format!("{m} {}", j.get("params").canon());
        Some((m, q))
    };
    let mut seen: std::collections::BTreeMap<String, (usize, usize, String)> = Default::default();
    for (ri, h) in hs.iter().enumerate() {
        let ans = h.answers();
        for (k, st) in sc.runs[ri].steps.iter().enumerate() {
            let Step::Req { .. } = st else { continue };
            let Some(Some(l)) = h.step_line.get(k) else { continue };
            let Some((m, mut q)) = ask(&h.lines[*l]) else { continue };
            if matches!(st, Step::Req { param: Param::Reports { synth: Some(_), .. }, .. }) {
                // what is shown around a synthetic source depends on the others
                for s in sc.runs[ri].steps[..k].iter().filter(|s| method(s) == "parser.create-synthetic-spans") {
                    if let Step::Req { param: Param::Json(p), .. } = s {
                        q += p;
                    }
                }
            }
            if m == "parser.create-synthetic-spans" {
                continue;
            }
            let Some(a) = ans.get(*l) else { return Some(format!("count: line {l} was not answered")) };
            let a = no_id(a);
            match seen.get(&q) {
                None => {
                    seen.insert(q, (ri, k, a));
                }
                Some((r0, k0, b)) if *b != a && !open_outcome(sc.led.as_ref(), &h.lines[*l]) => {
                    let d = match (J::parse(b), J::parse(&a)) {
                        (Ok(x), Ok(y)) => cmp::diff(&x, &y, "answer").unwrap_or_default(),
                        _ => String::new(),
                    };
                    return Some(format!("memory: {m} asked at step {k0} of session {r0} and at step {k} of session {ri}: {d}"));
                }
                _ => {}
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C08

fn c08_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = if r.pct(25) { Health::Syntax } else { Health::Good };
    let mut c = Cfg::mixed();
    c.keep_err = 50;
    c.w[crate::r#gen::WILD] = 3;
    let (l, files, arg) = {
        let l = crate::r#gen::G::new(&mut r, c).ledger(ROOT);
        let mut l = l;
        if h == Health::Syntax {
            spoil(&mut r, &mut l);
        }
        (l, vec![], "main.bean".to_string())
    };
    let n = 3 + r.below(6);
    let mut x = serve(&arg);
    x.steps = session(&mut r, n, h);
    x.steps.push(req("book", Param::None));
    let mut runs = vec![];
    for i in 0..3 {
        let mut y = x.clone();
        environment(&mut r, &mut y);
        if i == 2 && r.pct(50) {
            y.log = Some(logpath(&mut r));
            y.log_link = r.pct(15);
        }
        runs.push(y);
    }
    Scenario { prop: "C08".into(), seed, led: Some(l), files, runs, kind: hname(h).into() }
}

fn c08_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let syntax = health_of(sc) == Health::Syntax;
    let all = |h: &Hist| -> Vec<String> {
        h.answers()
            .iter()
            .zip(&h.lines)
            .map(|(a, l)| {
                if !syntax {
                    return canon(a);
                }
                if String::from_utf8_lossy(l).contains("parser.format-errors") { "reports on syntax errors, in any order".into() } else { canon_unordered(a) }
            })
            .collect()
    };
    for h in hs {
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run: {e}"));
        }
    }
    let base = all(&hs[0]);
    for h in &hs[1..] {
        if let Some(e) = first_diff_but("another run", &base, &all(h), &|i| h.lines.get(i).is_some_and(|l| open_outcome(sc.led.as_ref(), l))) {
            return Some(e);
        }
    }
    None
}

// ---------------------------------------------------------------- C20

fn c20_make(env: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = mixed_health(&mut r);
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let n = 3 + r.below(8);
    let mut x = serve(&arg);
    knobs(&mut r, &mut x);
    x.jumps.clear();
    x.steps = session(&mut r, n, h);
    lengthen(&mut r, &mut x.steps, 4);
    many(&mut r, &mut x.steps, 3);
    if r.pct(40) {
        let at = r.below(x.steps.len() + 1);
        let b = bad_line(&mut r);
        insert_step(&mut x.steps, at, Step::Line(b));
    }
    coarser(&mut r, &mut x);
    let mut sc = Scenario { prop: "C20".into(), seed, led: Some(l), files, runs: vec![x.clone()], kind: hname(h).into() };
    let mut y = x.clone();
    let mut log = logpath(&mut r);
    if r.pct(50) {
        log.1 = "trace".into();
    }
    y.log = Some(log);
    y.log_link = r.pct(10);
    environment(&mut r, &mut y);
    y.entropy = x.entropy;
    let base = world::run(env, &sc.vfs(), &y, false);
    sc.runs.push(y.clone());
    let n = *base.counts.get("logwrite").unwrap_or(&0);
    if n > 0 {
        let mut z = y.clone();
        let act = match r.below(6) {
            0 => Act::Short(1 + r.below(20) as u32),
            1 => Act::Zero,
            2 => Act::Errno(libc::EINTR),
            3 => Act::Errno(libc::EIO),
            _ => Act::Errno(libc::ENOSPC),
        };
        let one = matches!(act, Act::Zero | Act::Errno(libc::EINTR)) || r.pct(40);
        z.faults.push(Fault { site: "logwrite".into(), path: None, nth: 1 + r.below(n as usize) as u32, sticky: !one, act });
        sc.runs.push(z);
    }
    sc
}

fn c20_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let base: Vec<String> = hs[0].answers().iter().map(|l| canon_unordered(l)).collect();
    for (i, h) in hs.iter().enumerate() {
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run {i}: {e}"));
        }
        let v: Vec<String> = h.answers().iter().map(|l| canon_unordered(l)).collect();
        if let Some(e) = first_diff_but(&format!("run {i}"), &base, &v, &|i| h.lines.get(i).is_some_and(|l| open_outcome(sc.led.as_ref(), l))) {
            return Some(e);
        }
        if let Some((_, level, old)) = &sc.runs[i].log {
            if !h.log.starts_with(old.as_bytes()) {
                return Some(format!("run {i}: log: earlier contents are gone"));
            }
            let new = String::from_utf8_lossy(&h.log[old.len()..]).into_owned();
            if matches!(level.as_str(), "trace" | "debug" | "") && sc.runs[i].faults.is_empty() {
                // in the order in which it happened
                let mut at = 0;
                for l in &h.lines {
                    let t = String::from_utf8_lossy(l);
                    // the log shows control characters in its own way
                    for key in t.trim().split(|c: char| c.is_control() && c != '\t').filter(|x| !x.is_empty()) {
                        match new[at..].find(key) {
                            Some(k) => at += k + key.len(),
                            None if new.contains(key) => return Some(format!("run {i}: log: {key} is out of order")),
                            None => return Some(format!("run {i}: log: {key} is missing")),
                        }
                    }
                }
            }
        }
    }
    None
}

fn c20_nontrivial(_: &Scenario, hs: &[Hist]) -> bool {
    hs.iter().any(|h| h.counts.get("logwrite").is_some_and(|n| *n > 0))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", make: c01_make, judge: c01_judge, nontrivial: several, rule: "random sessions of valid and invalid requests on healthy, syntactically wrong and unreadable ledgers, under random delivery; non-trivial: at least three lines sent", quick: 6000 },
        Prop { id: "C02", make: c02_make, judge: c02_judge, nontrivial: |sc, hs| several(sc, hs) && hs[1].lines.len() > hs[0].lines.len(), rule: "a session, and the same with invalid lines in between; non-trivial: at least three good and one bad line", quick: 5000 },
        Prop { id: "C03", make: c03_make, judge: c03_judge, nontrivial: c03_nontrivial, rule: "one session under several deliveries; non-trivial: transfers were split or interrupted", quick: 2500 },
        Prop { id: "C04", make: c04_make, judge: c04_judge, nontrivial: c04_nontrivial, rule: "a session, and the same cut off, failing or killed at a random point; non-trivial: the failure was met", quick: 3000 },
        Prop { id: "C05", make: c05_make, judge: c05_judge, nontrivial: c05_nontrivial, rule: "ledgers over several files, one of which is missing, unreadable, torn or fails while read; non-trivial: the damage was met", quick: 4000 },
        Prop { id: "C06", make: c06_make, judge: c06_judge, nontrivial: several, rule: "sessions under arbitrary faults, with and without log; every call that would change a file is seen by the simulator; non-trivial: at least three lines sent", quick: 3000 },
        Prop { id: "C07", make: c07_make, judge: c07_judge, nontrivial: several, rule: "sessions with repeated requests, and the same requests in fresh sessions; non-trivial: at least three lines sent", quick: 4000 },
        Prop { id: "C08", make: c08_make, judge: c08_judge, nontrivial: several, rule: "one session in three environments (hash seeds, memory layout, clock, log); non-trivial: at least three lines sent", quick: 3500 },
        Prop { id: "C20", make: c20_make, judge: c20_judge, nontrivial: c20_nontrivial, rule: "one session without log, with log, and with a failing log; non-trivial: something was logged", quick: 2000 },
    ]
}
