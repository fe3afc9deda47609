//! Locations and the reports about them: C09, C19.
use crate::ast::*;
use crate::book::Outcome;
use crate::cmp;
use crate::r#gen::*;
use crate::json::{J, obj, s};
use crate::kit::*;
use crate::parse;
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use crate::vfs::normalize;
use crate::world::{Env, Hist};
use std::collections::BTreeMap;

/// what a location stands for
#[derive(Clone, Debug)]
struct Place {
    /// path of a file or name of a synthetic source
    source: String,
    file: bool,
    text: String,
    line: usize,
}

fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::mixed();
    c.uni = 50;
    c.rich = 40;
    c.files = 5;
    c.keep_err = 50;
    if r.pct(60) {
        small(&mut c);
        c.files = 4;
    }
    c
}

/// fragments of synthetic sources; several of one name, or beyond ASCII, but not both (known finding)
fn fragments(r: &mut Rng, names: &[String], apart: bool) -> Param {
    const UNI: &[&str] = &["é first\nsecond", "日本 text", "2020-01-01 open Assets:Ä ; x", "🎉 (x)"];
    let n = if r.pct(2) { 40 + r.below(200) } else { 1 + r.below(4) };
    let mut v = vec![];
    for _ in 0..n {
        let shared = r.pct(60);
        let (name, text) = if shared {
            let t = (0..1 + r.below(3)).map(|_| *r.pick(&["2020-01-01 open Assets:X", "{:a 1}", "  plain text", "a \"q\" \\ b", "x"])).collect::<Vec<_>>().join("\n");
            let t = if r.pct(50) { format!("{t}\n") } else { t };
            let t = if r.pct(15) { t.replace('\n', "\r\n") } else { t };
            let t = if r.pct(10) { format!("{}{t}{}", r.pick(&["", "\n", "\t", " "]), r.pick(&["", "\n\n", "\t", "  ", "\u{0}"])) } else { t };
            let odd = ["./same", "../same", "/same", "same/", "same/./x", "file:same", " same", "Same", "", "-", "<stdin>", "main.bean", "./main.bean", "C:\\x", "~/same", "%s"];
            let name = match r.below(10) {
                0..=5 => r.pick(&["same", "plugin b", "limabean.plugins/y", "q\"uote", "ü"]).to_string(),
                6 | 7 => r.pick(&odd).to_string(),
                _ if names.is_empty() => "same".into(),
                _ => r.pick(names).clone(),
            };
            // reports take sources of one name for one (known finding)
            let clash = apart && names.contains(&path_of("/sim/cwd", &name));
            (if clash { "same".into() } else { name }, t)
        } else {
            (format!("own-{}", r.below(1_000_000_000)), if r.pct(50) { r.pick(UNI).to_string() } else { content(r) })
        };
        v.push(obj(vec![("name", s(name)), ("content", s(text))]));
    }
    Param::Json(J::Arr(v).to_string())
}

fn step(r: &mut Rng, method: &str, param: Param) -> Step {
    Step::Req { id: id(r), method: method.into(), param, style: encode_style(r) }
}

/// the locations of all directives and postings, in the order in which they are answered
fn expected(led: &Ledger, p: &parse::Parsed) -> Vec<Place> {
    let rd = led.render();
    let place = |l: &Loc| {
        let t = &rd.texts[l.file];
        Place { source: led.files[l.file].path.clone(), file: true, text: t[l.start..l.end].trim_end().to_string(), line: t[..l.start].matches('\n').count() + 1 }
    };
    let mut v = vec![];
    for d in &p.dcts {
        if let Some((dl, ps)) = &rd.locs[d.file][d.item] {
            v.push(place(dl));
            v.extend(ps.iter().map(place));
        }
    }
    v
}

fn path_of(cwd: &str, name: &str) -> String {
    if name.starts_with('/') { normalize(name) } else { normalize(&format!("{cwd}/{name}")) }
}

/// synthetic sources as they have been created so far
#[derive(Default)]
struct Made {
    text: BTreeMap<String, String>,
    by_step: BTreeMap<usize, Vec<Place>>,
    spans: Vec<(String, Place)>,
}

impl Made {
    fn create(&mut self, step: usize, sent: &J, ans: &J) -> Result<(), String> {
        let (want, got) = (sent.get("params").arr(), ans.get("result").arr());
        if want.len() != got.len() {
            return Err(format!("{} synthetic locations for {}", got.len(), want.len()));
        }
        for (w, g) in want.iter().zip(got) {
            let (name, content) = (w.get("name").str().unwrap_or(""), w.get("content").str().unwrap_or(""));
            let all = self.text.entry(name.to_string()).or_default();
            let line = all.matches('\n').count() + 1;
            all.push_str(content);
            let p = Place { source: name.to_string(), file: false, text: content.trim_end().to_string(), line };
            self.by_step.entry(step).or_default().push(p.clone());
            let k = g.canon().to_string();
            if !content.is_empty() {
                if let Some((_, o)) = self.spans.iter().find(|(x, _)| *x == k) {
                    return Err(format!("location {k} stands for {:?} and for {:?}", o.text, content));
                }
            }
            self.spans.push((k, p));
        }
        Ok(())
    }
}

fn same_place(want: &Place, got: &J, cwd: &str, lines: bool) -> Option<String> {
    let name = got.get("file-name").str().unwrap_or("").to_string();
    let named = if want.file { path_of(cwd, &name) == want.source } else { name == want.source };
    if !named {
        return Some(format!("file-name: expected {} but got {name} for {:?}", want.source, clip(&want.text)));
    }
    let mut text = got.get("content").str().unwrap_or("").to_string();
    if !want.file {
        text.truncate(text.trim_end().len());
    }
    // comments which follow are taken in
    let rest = text.strip_prefix(&want.text);
    let ok = rest.is_some_and(|r| r.is_empty() || want.file && (r.starts_with(['\n', ';']) || r.starts_with("\r\n") || r.starts_with(" ;")) && r.lines().map(str::trim_start).all(|l| l.trim().is_empty() || l.starts_with(';')));
    if !ok {
        return Some(format!("content: expected {:?} but got {}", clip(&want.text), cmp::clip(got.get("content"))));
    }
    let (a, b) = (got.get("start-line").int(), got.get("end-line").int());
    let span = got.get("content").str().unwrap_or("").matches('\n').count() as i64;
    if lines && a != Some(want.line as i64) || b.zip(a).is_none_or(|(b, a)| b - a != span) {
        return Some(format!("lines: expected {}-{} but got {a:?}-{b:?} for {:?}", want.line, want.line as i64 + span, clip(&want.text)));
    }
    None
}

// ---------------------------------------------------------------- C09

fn c09_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let c = cfg(&mut r);
    let (root, arg) = whereabouts(&mut r);
    let led = ledger_at(&mut r, c, &root);
    let mut x = serve(&arg);
    if r.pct(30) {
        knobs(&mut r, &mut x);
    } else {
        environment(&mut r, &mut x);
    }
    let mut names: Vec<String> = led.files.iter().map(|f| f.path.clone()).collect();
    names.push(arg.clone());
    let mut v = vec![step(&mut r, "parser.directives", Param::None)];
    let mut made = vec![];
    for _ in 0..4 + r.below(8) {
        let s = match r.below(10) {
            0..=2 => {
                made.push(v.len());
                let p = fragments(&mut r, &names, false);
                step(&mut r, "parser.create-synthetic-spans", p)
            }
            3 | 4 => step(&mut r, "parser.resolve-spans", Param::SpansOf { step: 0 }),
            5..=7 if !made.is_empty() => {
                let k = *r.pick(&made);
                step(&mut r, "parser.resolve-spans", Param::SynthOf { step: k })
            }
            8 => {
                let y = if made.is_empty() { None } else { Some(*r.pick(&made)) };
                step(&mut r, "parser.format-errors", Param::Reports { dirs: 0, synth: y, seed: seed ^ v.len() as u64, bad: 20 })
            }
            9 => step(&mut r, "book", Param::None),
            _ => step(&mut r, "parser.directives", Param::None),
        };
        v.push(s);
    }
    v.push(step(&mut r, "parser.resolve-spans", Param::SpansOf { step: 0 }));
    for k in made {
        v.push(step(&mut r, "parser.resolve-spans", Param::SynthOf { step: k }));
    }
    x.steps = v;
    meanwhile(&mut r, &mut x, &led, 30);
    scenario("C09", seed, Some(led), vec![x], "")
}

fn basics(h: &Hist) -> Option<String> {
    if let Some(e) = cmp::check_clean(h) {
        return Some(format!("run: {e}"));
    }
    if h.answers().len() != h.lines.len() {
        return Some(format!("count: {} requests but {} answers", h.lines.len(), h.answers().len()));
    }
    None
}

fn sent(h: &Hist, k: usize) -> J {
    match h.step_line.get(k) {
        Some(Some(l)) => J::parse(&String::from_utf8_lossy(&h.lines[*l])).unwrap_or(J::Null),
        _ => J::Null,
    }
}

fn c09_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let led = sc.led.as_ref()?;
    let p = parse::parse(led).ok()?;
    if !locatable(led) {
        return None;
    }
    let want = expected(led, &p);
    for (x, h) in sc.runs.iter().zip(hs) {
        if let Some(e) = basics(h) {
            return Some(e);
        }
        let mut made = Made::default();
        let dirs = h.answer(0)?;
        let own: Vec<String> = crate::client::spans_in(&dirs).iter().map(|j| j.canon().to_string()).collect();
        let mut seen: BTreeMap<&String, &Place> = Default::default();
        for (s, w) in own.iter().zip(&want) {
            if seen.insert(s, w).is_some() {
                return Some(format!("distinct: location {s} was handed out twice, for {:?} too", clip(&w.text)));
            }
        }
        if own.len() != want.len() {
            return Some(format!("count: {} locations for {} directives and postings", own.len(), want.len()));
        }
        for (k, st) in x.steps.iter().enumerate() {
            let Step::Req { method, param, .. } = st else { continue };
            let Some(a) = h.answer(k) else { continue };
            match (method.as_str(), param) {
                ("parser.create-synthetic-spans", _) => {
                    if let Err(e) = made.create(k, &sent(h, k), &a) {
                        return Some(format!("distinct: {e}"));
                    }
                    for g in a.get("result").arr() {
                        if own.contains(&g.canon().to_string()) {
                            return Some(format!("distinct: synthetic location {g} is that of a directive"));
                        }
                    }
                }
                ("parser.resolve-spans", Param::SpansOf { .. }) | ("parser.resolve-spans", Param::SynthOf { .. }) => {
                    let (want, lines) = match param {
                        Param::SynthOf { step } => (made.by_step.get(step).cloned().unwrap_or_default(), false),
                        _ => (want.clone(), true),
                    };
                    let got = a.get("result").arr();
                    if got.len() != want.len() {
                        return Some(format!("count: {} resolved of {}", got.len(), want.len()));
                    }
                    for (w, g) in want.iter().zip(got) {
                        if let Some(e) = same_place(w, g, "/sim/cwd", lines) {
                            return Some(format!("resolve {e} (step {k})"));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C19

fn c19_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut c = cfg(&mut r);
    c.keep_err = 90;
    small(&mut c);
    c.files = 4;
    let (root, arg) = whereabouts(&mut r);
    let mut led = G::new(&mut r, c).ledger(&root);
    let syntax = r.pct(20);
    if syntax {
        spoil(&mut r, &mut led);
    }
    let mut x = serve(&arg);
    if r.pct(30) {
        knobs(&mut r, &mut x);
    } else {
        environment(&mut r, &mut x);
    }
    let bad = if r.pct(25) { 40 } else { 0 };
    let mut names: Vec<String> = led.files.iter().map(|f| f.path.clone()).collect();
    names.push(arg.clone());
    let mut v = vec![step(&mut r, "parser.directives", Param::None), step(&mut r, "book", Param::None)];
    let mut made = vec![];
    let m = |r: &mut Rng| if r.pct(50) { "parser.format-errors" } else { "parser.format-warnings" };
    for i in 0..3 + r.below(5) {
        let s = match r.below(6) {
            0 => {
                made.push(v.len());
                let p = fragments(&mut r, &names, true);
                step(&mut r, "parser.create-synthetic-spans", p)
            }
            1 => {
                let m = m(&mut r);
                step(&mut r, m, Param::ErrorsOf { step: if syntax { 0 } else { 1 } })
            }
            _ => {
                let y = if made.is_empty() { None } else { Some(*r.pick(&made)) };
                let m = m(&mut r);
                let seed = r.u64() >> 12;
                // what the client makes up needs directives to point at
                if syntax { step(&mut r, "status", Param::None) } else { step(&mut r, m, Param::Reports { dirs: 0, synth: y, seed: seed ^ i as u64, bad }) }
            }
        };
        v.push(s);
    }
    v.push(step(&mut r, "status", Param::None));
    x.steps = v;
    meanwhile(&mut r, &mut x, &led, 30);
    scenario("C19", seed, Some(led), vec![x], if syntax { "syntax" } else if bad > 0 { "bad locations" } else { "good" })
}

/// without colours
fn plain(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn bare(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace() && !"╭─▶├│╰┤┬╯┴┼╮┘┐└┌".contains(*c)).collect()
}

/// name, line of `[ name:line:column ]`
fn header(l: &str) -> Option<(String, usize)> {
    let i = l.find("[ ")?;
    let t = l[i + 2..].trim_end().strip_suffix(']')?.trim_end();
    let mut it = t.rsplitn(3, ':');
    let _col = it.next()?;
    let line = it.next()?.parse().ok()?;
    Some((it.next()?.to_string(), line))
}

/// the text of line n is shown, and contains this
fn shows(block: &[&str], n: usize, text: &str) -> bool {
    let t = bare(text);
    block.iter().any(|l| {
        let l = l.trim_start();
        l.strip_prefix(&n.to_string()).is_some_and(|x| x.trim_start().starts_with('│') && bare(x).contains(&t))
    })
}

fn one_report(rp: &J, kind: &str, block: &[&str], places: &BTreeMap<String, Place>) -> Option<String> {
    let text = block.join("\n");
    let head = format!("{kind}: {}", rp.get("message").str().unwrap_or(""));
    let lines = |t: &str| t.trim_end().split('\n').map(|l| l.trim_end().to_string()).collect::<Vec<_>>();
    if !lines(&text).starts_with(&lines(&head)) {
        return Some(format!("head: expected {head:?} but got {:?}", block[0]));
    }
    let mut labels: Vec<(String, J)> = vec![(rp.get("reason").str().unwrap_or("").to_string(), rp.get("span").clone())];
    for (k, pre) in [("contexts", "in this "), ("related", "")] {
        for c in rp.get(k).arr() {
            labels.push((format!("{pre}{}", c.arr()[0].str().unwrap_or("")), c.arr()[1].clone()));
        }
    }
    let heads: Vec<(String, usize)> = block.iter().filter_map(|l| header(l)).collect();
    for (i, (label, span)) in labels.iter().enumerate() {
        if !bare(&text).contains(&bare(label)) {
            return Some(format!("label: {label:?} is missing"));
        }
        let Some(w) = places.get(&span.canon().to_string()) else { continue };
        let named = |n: &str| if w.file { path_of("/sim/cwd", n) == w.source } else { n == w.source };
        if i == 0 {
            match heads.first() {
                Some((n, l)) if named(n) && *l == w.line => {}
                x => return Some(format!("place: expected {}:{} but got {x:?}", w.source, w.line)),
            }
        } else if !heads.iter().any(|(n, _)| named(n)) {
            return Some(format!("place: {} is missing", w.source));
        }
        if w.text.is_empty() {
            continue;
        }
        let rows: Vec<&str> = w.text.split('\n').collect();
        for k in [0, rows.len() - 1] {
            if !shows(block, w.line + k, rows[k]) {
                return Some(format!("text: line {} {:?} of {} is not shown", w.line + k, clip(rows[k]), w.source));
            }
        }
    }
    if let Some(a) = rp.get("annotation").str() {
        if !text.trim_end().ends_with(a.trim_end()) {
            return Some(format!("annotation: {a:?} is missing at the end"));
        }
    }
    None
}

fn c19_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let led = sc.led.as_ref()?;
    let parsed = parse::parse(led).ok();
    if parsed.is_some() && !locatable(led) {
        return None;
    }
    for (x, h) in sc.runs.iter().zip(hs) {
        if let Some(e) = basics(h) {
            return Some(e);
        }
        let mut made = Made::default();
        let mut places: BTreeMap<String, Place> = BTreeMap::new();
        if let (Some(p), Some(a)) = (&parsed, h.answer(0)) {
            let texts = led.render().texts;
            for (g, mut w) in crate::client::spans_in(&a).iter().zip(expected(led, p)) {
                // (with the comments which follow)
                let f = led.files.iter().position(|f| f.path == w.source).unwrap();
                let at = |i: usize| g.arr().get(i).and_then(J::int).unwrap_or(0) as usize;
                if let Some(t) = texts[f].get(at(1)..at(2)) {
                    w.text = t.trim_end().to_string();
                }
                if w.text.chars().last().is_none_or(|c| !c.is_ascii()) {
                    continue; // known finding
                }
                places.insert(g.canon().to_string(), w);
            }
        }
        for (k, st) in x.steps.iter().enumerate() {
            let Step::Req { method, .. } = st else { continue };
            let Some(a) = h.answer(k) else { continue };
            if method == "status" && !a.has("result") {
                return Some(format!("session: status is answered {}", cmp::clip(&a)));
            }
            if method == "parser.create-synthetic-spans" {
                let _ = made.create(k, &sent(h, k), &a);
                for (g, p) in &made.spans {
                    places.insert(g.clone(), p.clone());
                }
            }
            let kind = match method.as_str() {
                "parser.format-errors" => "Error",
                "parser.format-warnings" => "Warning",
                _ => continue,
            };
            let rps = sent(h, k);
            let rps = rps.get("params").arr();
            let Some(t) = a.get("result").str() else { return Some(format!("result: {method} is answered {}", cmp::clip(&a))) };
            let t = plain(t);
            let lines: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
            let mut starts: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].starts_with("Error: ") || lines[i].starts_with("Warning: ")).collect();
            if starts.len() != rps.len() || (rps.is_empty() && !t.is_empty()) {
                return Some(format!("count: {} reports rendered of {} (step {k})", starts.len(), rps.len()));
            }
            if starts.first().is_some_and(|x| *x != 0) {
                return Some(format!("head: the first report starts at line {} (step {k})", starts[0]));
            }
            starts.push(lines.len());
            for (i, rp) in rps.iter().enumerate() {
                if let Some(e) = one_report(rp, kind, &lines[starts[i]..starts[i + 1]], &places) {
                    return Some(format!("report {e} (report {i} of step {k}): {}", clip(&lines[starts[i]..starts[i + 1]].join("\n"))));
                }
            }
        }
    }
    None
}

fn c19_nontrivial(sc: &Scenario, hs: &[Hist]) -> bool {
    sc.runs.iter().zip(hs).any(|(x, h)| {
        x.steps.iter().enumerate().any(|(k, s)| method(s).starts_with("parser.format") && h.answer(k).is_some_and(|a| a.get("result").str().is_some_and(|t| !t.is_empty())))
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            make: c09_make,
            judge: c09_judge,
            nontrivial: |sc, hs| hs[0].lines.len() >= 5 && sc.led.as_ref().is_some_and(|l| parse::parse(l).is_ok_and(|p| !p.dcts.is_empty() && !matches!(cmp::outcome(&p), Outcome::Excluded(_)))),
            rule: "all locations of generated ledgers resolved, and synthetic sources created and resolved in random order; non-trivial: at least five requests on a ledger that is not empty",
            quick: 5000,
        },
        Prop {
            id: "C19",
            make: c19_make,
            judge: c19_judge,
            nontrivial: c19_nontrivial,
            rule: "reports received from the server or made up by the client, about files and synthetic sources, rendered and compared piece by piece; non-trivial: a report was rendered",
            quick: 4000,
        },
    ]
}
