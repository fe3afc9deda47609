//! Mistakes in the ledger: C25.
use crate::ast::*;
use crate::cmp;
use crate::r#gen::*;
use crate::json::J;
use crate::kit::*;
use crate::parse;
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use crate::vfs::normalize;
use crate::world::{Env, Hist};

/// what a mistake looks like, and how it is reported
struct Mistake {
    text: &'static str,
    /// where it is: this piece of it
    at: &'static str,
    /// what the report says, or how that begins
    message: &'static str,
    reason: &'static str,
    /// labels of what it is in, outermost last
    within: &'static [&'static str],
}

const fn m(text: &'static str, at: &'static str, reason: &'static str, within: &'static [&'static str]) -> Mistake {
    Mistake { text, at, message: reason, reason, within }
}

/// one report each
const ALONE: &[Mistake] = &[
    m("2020-01-01 opn Assets:A", "opn", "found 'opn' expected 'price'", &["transaction"]),
    m("2020-01-01 open assets:a", "assets", "found 'assets' expected ", &["directive"]),
    m("2020-01-01 balance Assets:A USD", "USD", "found 'USD' expected ", &["balance", "directive"]),
    m("option \"no_such_option\" \"x\"", "\"no_such_option\"", "unknown option", &["directive"]),
    m("option \"booking_method\" \"FOO\"", "\"FOO\"", "Expected one of STRICT, ", &["directive"]),
    m("option \"inferred_tolerance_default\" \"USD:x\"", "\"USD:x\"", "Invalid decimal: unknown character", &["directive"]),
    m("option \"render_commas\" \"maybe\"", "\"maybe\"", "must be true or false", &["directive"]),
    m("2020-01-01 open Assets:Abc \"NOSUCH\"", "\"NOSUCH\"", "Matching variant not found", &["directive"]),
    m("2020-01-01 open Foo:Abc", "Foo:Abc", "unknown account type Foo, must be one of ", &["directive"]),
    m("2020-01-01 price 1 USD", "1 ", "found '1' expected ", &["price", "directive"]),
    m("2020-01-01 commodity usd", "usd", "found 'usd' expected ", &["directive"]),
    m("plugin 3", "3", "found '3' expected ", &["directive"]),
    m("2020-01-02 * \"x\" #twice #twice", "#twice", "duplicate tag #twice", &["transaction"]),
    Mistake { text: "include \"missing.bean\"", at: "\"missing.bean\"", message: "include failed", reason: "no such file", within: &[] },
    Mistake { text: "poptag #never-pushed", at: "poptag #never-pushed", message: "invalid poptag", reason: "missing corresponding pushtag", within: &[] },
    Mistake { text: "pushtag #never-popped", at: "pushtag #never-popped", message: "invalid pushtag", reason: "missing corresponding poptag", within: &[] },
];

/// the second of these is the mistake
const TWICE: &[(&str, &str, &str, &str)] = &[
    ("option \"title\" \"one\"", "\"title\"", "duplicate", "option"),
    ("option \"conversion_currency\" \"NOTHING\"", "\"conversion_currency\"", "duplicate", "option"),
    ("option \"operating_currency\" \"TWICE\"", "\"TWICE\"", "duplicate value", "option value"),
    ("option \"documents\" \"/twice\"", "\"/twice\"", "duplicate value", "option value"),
];

const AGAIN: &str = "include \"again.inc\"\npushtag #other-context\ninclude \"again.inc\"\npoptag #other-context";

/// files which are there but cannot be read
const UNREADABLE: &[(&str, &str, &str)] = &[
    ("include \"broken.inc\"", "/broken.inc", "stream did not contain valid UTF-8"),
    ("include \"folder.inc\"", "/folder.inc", "Is a directory"),
    ("include \"locked.inc\"", "/locked.inc", "Permission denied"),
    ("include \"failing.inc\"", "/failing.inc", "Input/output error"),
];

/// somewhere in a file
#[derive(Clone, Debug, PartialEq)]
struct At {
    path: String,
    line: usize,
    text: String,
}

#[derive(Clone, Debug)]
struct Want {
    message: String,
    reason: String,
    /// one of these
    at: Vec<At>,
    within: Vec<&'static str>,
    /// (label, one of these)
    related: Option<(String, Vec<At>)>,
    optional: bool,
}

/// what must be reported; None: not known
fn wanted(sc: &Scenario) -> Option<Vec<Want>> {
    let led = sc.led.as_ref()?;
    let mut v: Vec<Want> = vec![];
    let mut twice: Vec<Vec<At>> = vec![vec![]; TWICE.len()];
    // apart from the mistakes the ledger must be right
    let mut rest = led.clone();
    for f in &mut rest.files {
        for i in &mut f.items {
            match i {
                Item::Raw(t) if t.starts_with("pushtag") => *i = Item::PushTag("never-popped".into()),
                Item::Raw(_) => *i = Item::Blank,
                _ => {}
            }
        }
    }
    if parse::parse(&rest).is_err_and(|e| e.iter().any(|e| e != "unpopped tag never-popped")) {
        return None;
    }
    for f in parse::reached(led).into_iter().map(|k| &led.files[k]) {
        let mut line = 1;
        let mut clear = true;
        for (i, it) in f.items.iter().enumerate() {
            let t = it.text(f.crlf);
            if let Item::Raw(raw) = it {
                // after a mistake, reading goes on with the next directive
                if !clear {
                    return None;
                }
                clear = matches!(f.items.get(i + 1), None | Some(Item::D(_)));
                if !clear {
                    return None;
                }
                let at = |piece: &str, from: usize| -> Option<At> {
                    let k = from + raw[from..].find(piece)?;
                    Some(At { path: f.path.clone(), line: line + raw[..k].matches('\n').count(), text: piece.trim().to_string() })
                };
                if let Some(m) = ALONE.iter().find(|m| m.text == raw) {
                    v.push(Want { message: m.message.into(), reason: m.reason.into(), at: vec![at(m.at, 0)?], within: m.within.to_vec(), related: None, optional: false });
                } else if let Some(k) = TWICE.iter().position(|x| x.0 == raw) {
                    twice[k].push(at(TWICE[k].1, 0)?);
                } else if let Some(u) = UNREADABLE.iter().find(|u| u.0 == raw) {
                    let p = format!("{}{}", dir(&f.path), u.1);
                    let there = sc.files.iter().any(|(q, _)| q.trim_end_matches("/.") == p);
                    let fails = u.1 == "/broken.inc" || u.1 == "/folder.inc" || sc.runs[0].faults.iter().any(|x| x.path.as_ref() == Some(&p));
                    if !there || !fails || sc.runs[0].faults.iter().any(|x| x.path.is_none()) {
                        return None;
                    }
                    v.push(Want { message: "can't read file".into(), reason: u.2.into(), at: vec![at(&raw[8..], 0)?], within: vec![], related: None, optional: false });
                } else if raw == AGAIN {
                    let p = "\"again.inc\"";
                    v.push(Want { message: "duplicate include".into(), reason: "context ".into(), at: vec![at(p, 20)?], within: vec![], related: Some(("context".into(), vec![at(p, 0)?])), optional: false });
                } else {
                    return None;
                }
            }
            line += t.matches('\n').count();
        }
    }
    for (k, p) in twice.into_iter().enumerate() {
        match p.len() {
            0 | 1 => {}
            2 => v.push(Want { message: "invalid option".into(), reason: TWICE[k].2.into(), at: p.clone(), within: vec![], related: Some((TWICE[k].3.into(), p)), optional: false }),
            _ => return None,
        }
    }
    // what shows only when all is read together may be left out while the text of a file has mistakes
    let early = |w: &Want| !w.within.is_empty();
    if v.iter().any(early) {
        v.iter_mut().for_each(|w| w.optional = !early(w));
        v.sort_by_key(|w| w.optional);
    }
    Some(v)
}

fn dir(p: &str) -> &str {
    &p[..p.rfind('/').unwrap_or(0)]
}

fn plant(r: &mut Rng, scores: bool, led: &mut Ledger, sc_files: &mut Vec<(String, FNode)>, faults: &mut Vec<Fault>) {
    let put = |r: &mut Rng, led: &mut Ledger, raw: &str| -> Option<usize> {
        for _ in 0..20 {
            let f = r.below(led.files.len());
            let items = &mut led.files[f].items;
            let at = r.below(items.len() + 1);
            let free = |i: Option<&Item>| matches!(i, None | Some(Item::D(_)));
            // (the first of a file may be what a file before it needs: not among options)
            if free(items.get(at)) && (at == 0 || !matches!(items[at - 1], Item::Raw(_))) {
                items.insert(at, Item::Raw(raw.to_string()));
                return Some(f);
            }
        }
        None
    };
    let mut used = vec![];
    let n = if scores { 60 + r.below(150) } else if r.pct(15) { 5 + r.below(40) } else { 1 + r.below(4) };
    for _ in 0..n {
        match r.below(12) {
            0 | 1 => {
                let k = 100 + r.below(TWICE.len());
                if !used.contains(&k) {
                    used.push(k);
                    put(r, led, TWICE[k - 100].0);
                    put(r, led, TWICE[k - 100].0);
                }
            }
            2 if !used.contains(&200) => {
                used.push(200);
                if let Some(f) = put(r, led, AGAIN) {
                    sc_files.push((format!("{}/again.inc", dir(&led.files[f].path)), FNode::Text("; nothing\n".into())));
                }
            }
            3 | 4 => {
                let k = r.below(UNREADABLE.len());
                if used.contains(&(300 + k)) {
                    continue;
                }
                used.push(300 + k);
                if let Some(f) = put(r, led, UNREADABLE[k].0) {
                    let p = format!("{}{}", dir(&led.files[f].path), UNREADABLE[k].1);
                    let node = match k {
                        0 => FNode::Bytes(b"; \xe9\n2020-01-01 open Assets:A\n".to_vec()),
                        1 => FNode::Dir,
                        _ => FNode::Text("2020-01-01 open Assets:A\n; more than nothing\n".into()),
                    };
                    match k {
                        2 => faults.push(Fault { site: "open".into(), path: Some(p.clone()), nth: 1, sticky: true, act: Act::Errno(libc::EACCES) }),
                        3 => faults.push(Fault { site: "fread".into(), path: Some(p.clone()), nth: 1, sticky: true, act: Act::Errno(libc::EIO) }),
                        _ => {}
                    }
                    sc_files.push((if k == 1 { format!("{p}/.") } else { p }, node));
                }
            }
            _ => {
                let k = r.below(ALONE.len());
                // (a tag pushed twice is one mistake)
                if !used.contains(&k) || !ALONE[k].text.starts_with("push") {
                    used.push(k);
                    put(r, led, ALONE[k].text);
                }
            }
        }
    }
}

fn make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut c = Cfg::mixed();
    c.files = 5;
    c.opts = 0;
    c.push = 20;
    c.keep_err = 50;
    if r.pct(70) {
        small(&mut c);
        c.files = 4;
    }
    let scores = r.pct(3);
    if scores {
        c.days = 25;
    }
    let (root, arg) = whereabouts(&mut r);
    let mut led = G::new(&mut r, c).ledger(&root);
    let mut files = vec![];
    let mut faults = vec![];
    plant(&mut r, scores, &mut led, &mut files, &mut faults);
    let mut x = serve(&arg);
    if r.pct(30) {
        knobs(&mut r, &mut x);
    } else {
        environment(&mut r, &mut x);
    }
    x.faults.extend(faults);
    let mut v = vec![Step::Req { id: id(&mut r), method: "parser.directives".into(), param: Param::None, style: encode_style(&mut r) }];
    for _ in 0..2 + r.below(4) {
        let (m, p) = match r.below(8) {
            0 => ("parser.options", Param::None),
            1 => ("parser.plugins", Param::None),
            2 => ("book", Param::None),
            3 => ("parser.directives", Param::None),
            4 => ("parser.create-synthetic-spans", synth(&mut r)),
            5 => ("parser.format-errors", Param::ErrorsOf { step: 0 }),
            6 => ("status", Param::None),
            _ => ("parser.resolve-spans", Param::SpansOf { step: 0 }),
        };
        v.push(Step::Req { id: id(&mut r), method: m.into(), param: p, style: encode_style(&mut r) });
    }
    v.push(Step::Req { id: id(&mut r), method: "parser.resolve-spans".into(), param: Param::SpansOf { step: 0 }, style: 0 });
    x.steps = v;
    let mut sc = scenario("C25", seed, Some(led), vec![x], "");
    sc.files = files;
    sc
}

/// where the locations of the first answer are, in order
fn resolved(sc: &Scenario, h: &Hist) -> Option<Vec<At>> {
    let x = &sc.runs[0];
    let k = x.steps.iter().rposition(|s| matches!(s, Step::Req { param: Param::SpansOf { step: 0 }, .. }))?;
    let a = h.answer(k)?;
    let dir = "/sim/cwd";
    Some(
        a.get("result")
            .arr()
            .iter()
            .map(|g| {
                let n = g.get("file-name").str().unwrap_or("");
                At {
                    path: if n.starts_with('/') { normalize(n) } else { normalize(&format!("{dir}/{n}")) },
                    line: g.get("start-line").int().unwrap_or(0) as usize,
                    text: g.get("content").str().unwrap_or("").to_string(),
                }
            })
            .collect(),
    )
}

fn judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let want = wanted(sc)?;
    if want.is_empty() {
        return None;
    }
    let h = &hs[0];
    if let Some(e) = cmp::check_clean(h) {
        return Some(format!("run: {e}"));
    }
    if h.answers().len() != h.lines.len() {
        return Some(format!("count: {} requests but {} answers", h.lines.len(), h.answers().len()));
    }
    let first = h.answer(0)?;
    let list = first.get("error").get("data").clone();
    for (k, st) in sc.runs[0].steps.iter().enumerate() {
        let Step::Req { method, param, .. } = st else { continue };
        let Some(a) = h.answer(k) else { continue };
        if matches!(method.as_str(), "parser.directives" | "parser.options" | "parser.plugins" | "book") && *param == Param::None {
            if a.has("result") || a.get("error").get("code").int() != Some(2) {
                return Some(format!("answer: {method} of a ledger with mistakes is answered {}", cmp::clip(&a)));
            }
            if let Some(e) = cmp::diff(&list, a.get("error").get("data"), "data") {
                return Some(format!("answer: {method} lists other errors: {e}"));
            }
        }
    }
    let places = resolved(sc, h)?;
    let mut it = places.into_iter();
    let mut got: Vec<(J, At, Vec<At>, Vec<(String, At)>)> = vec![];
    for e in list.arr() {
        let (Some(at), n) = (it.next(), e.get("contexts").arr().len()) else { return Some("resolve: fewer places than locations".into()) };
        let cs: Vec<At> = it.by_ref().take(n).collect();
        let rs: Vec<At> = it.by_ref().take(e.get("related").arr().len()).collect();
        let labels = e.get("related").arr().iter().map(|c| c.arr()[0].str().unwrap_or("").to_string());
        got.push((e.clone(), at, cs, labels.zip(rs).collect()));
    }
    for w in &want {
        let fits = |g: &(J, At, Vec<At>, Vec<(String, At)>)| -> Option<u32> {
            let (e, at, _, rel) = g;
            let mut n = 0;
            for a in &w.at {
                if a == at {
                    n += 8;
                } else if a.path == at.path && a.line == at.line {
                    n += 2;
                }
            }
            n += e.get("reason").str()?.starts_with(&w.reason) as u32 * 4;
            n += e.get("message").str()?.starts_with(&w.message) as u32 * 2;
            n += (w.related.is_some() == !rel.is_empty()) as u32;
            Some(n)
        };
        if w.optional && !got.iter().any(|g| w.at.contains(&g.1)) {
            continue;
        }
        // the best match, which must then be right in everything
        let Some((k, _)) = got.iter().enumerate().max_by_key(|(i, g)| (fits(g).unwrap_or(0), usize::MAX - i)) else {
            return Some(format!("missing: nothing is reported at {}:{} ({})", w.at[0].path, w.at[0].line, w.message));
        };
        let (e, at, _, rel) = got.remove(k);
        let what = format!("for {}:{} {:?}: {}", w.at[0].path, w.at[0].line, w.at[0].text, cmp::clip(&e));
        if !w.at.contains(&at) {
            return Some(format!("place: {at:?} {what}"));
        }
        let reason = e.get("reason").str().unwrap_or("");
        let about = |n: &str| reason.split_once(": ").is_some_and(|(p, e)| e.starts_with(&w.reason) && p.ends_with(n.trim_matches('"')));
        if !reason.starts_with(&w.reason) && !(w.message == "can't read file" && about(&w.at[0].text)) {
            return Some(format!("reason: expected {:?} {what}", w.reason));
        }
        let within: Vec<&str> = e.get("contexts").arr().iter().map(|c| c.arr()[0].str().unwrap_or("")).collect();
        if within != w.within {
            return Some(format!("contexts: expected {:?} {what}", w.within));
        }
        let mut message = if w.message == w.reason { reason.to_string() } else { w.message.clone() };
        for c in e.get("contexts").arr() {
            let s = c.arr()[1].arr();
            message.push_str(&format!(" in {} at {}..{}", c.arr()[0].str().unwrap_or(""), s.get(1).unwrap_or(&J::Null), s.get(2).unwrap_or(&J::Null)));
        }
        if e.get("message").str() != Some(&message) {
            return Some(format!("message: expected {message:?} {what}"));
        }
        match (&w.related, &rel[..]) {
            (None, []) => {}
            (Some((l, places)), [(label, p)]) if label.starts_with(l.as_str()) && places.contains(p) && *p != at => {}
            _ => return Some(format!("related: expected {:?} but got {rel:?} {what}", w.related)),
        }
        if e.has("annotation") {
            return Some(format!("annotation: not expected {what}"));
        }
    }
    if let Some((e, at, ..)) = got.first() {
        return Some(format!("surplus: {at:?} is not a mistake: {}", cmp::clip(e)));
    }
    None
}

fn nontrivial(sc: &Scenario, hs: &[Hist]) -> bool {
    wanted(sc).is_some_and(|w| !w.is_empty()) && hs[0].lines.len() > 2
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", make, judge, nontrivial, rule: "ledgers over several files with one to five mistakes, each of which must be reported once, at its place; non-trivial: a mistake whose report is known, and at least three lines sent", quick: 4000 }]
}
