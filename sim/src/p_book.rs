//! What the ledger says and how it is booked: C10 - C18.
use crate::ast::*;
use crate::book::{self, Outcome};
use crate::r#gen::*;
use crate::json::J;
use crate::kit::*;
use crate::parse::{self, Parsed};
use crate::rng::Rng;
use rust_decimal::Decimal;
use crate::scen::*;
use crate::spec::*;
use crate::world::{Env, Hist};
use crate::cmp;

/// the profile of ledgers which matter to a property
fn profile(id: &str, r: &mut Rng) -> Cfg {
    let mut c = Cfg::mixed();
    //          simple, elided, price, buy, sell, balance, pad, open/close, other, wild
    match id {
        "C10" => {
            c.w = [4, 4, 3, 3, 4, 3, 3, 2, 4, 2];
            c.keep_err = *r.pick(&[0, 15, 60]);
            c.rich = 40;
        }
        "C11" => {
            c.w = [2, 2, 2, 2, 1, 1, 1, 1, 9, 2];
            c.rich = 65;
            c.nums = 50;
            c.uni = 50;
            c.push = 40;
            c.files = 5;
            c.opts = 40;
            c.shuffle = 50;
            c.keep_err = 30;
        }
        "C12" => {
            c.opts = 80;
            c.book_opts = 85;
            c.plugins = 75;
            c.files = 4;
            c.w = [5, 4, 2, 4, 4, 3, 1, 0, 1, 0];
            c.keep_err = 30;
            c.rich = 10;
        }
        "C13" => {
            c.w = [3, 6, 6, 8, 8, 0, 0, 1, 1, 3];
            c.keep_err = *r.pick(&[0, 30, 60]);
            c.rich = 45;
            c.book_opts = 50;
            c.restrict = 10;
            c.opts = 5;
            c.plugins = 0;
        }
        "C14" => {
            c.w = [2, 2, 0, 12, 18, 1, 0, 1, 0, 0];
            c.per_day = 4;
            c.curs = 3;
            c.rich = 10;
            c.opts = 0;
            c.book_opts = 50;
            c.plugins = 0;
            c.push = 0;
            c.restrict = 5;
            c.keep_err = *r.pick(&[0, 30, 60]);
        }
        "C15" => {
            c.w = [6, 2, 0, 1, 1, 9, 1, 1, 1, 0];
            c.methods = r.pct(20);
            c.keep_err = *r.pick(&[20, 50, 80]);
            c.rich = 10;
            c.opts = 0;
            c.book_opts = 40;
            c.plugins = 0;
            c.push = 0;
            c.restrict = 0;
            c.curs = 3;
        }
        "C16" => {
            c.w = [5, 1, 0, 1, 0, 6, 8, 2, 1, 0];
            c.methods = r.pct(20);
            c.keep_err = *r.pick(&[0, 30, 60]);
            c.rich = 10;
            c.opts = 0;
            c.book_opts = 25;
            c.plugins = 0;
            c.push = 0;
            c.restrict = *r.pick(&[0, 0, 40]);
            c.curs = 3;
        }
        "C17" => {
            c.w = [5, 2, 1, 2, 1, 3, 3, 7, 1, 1];
            c.restrict = 60;
            c.keep_err = 80;
            c.rich = 10;
            c.opts = 0;
            c.plugins = 0;
            c.push = 0;
        }
        "C18" if r.pct(50) => {
            // what is rejected has to leave no trace in what the others keep
            let of = *r.pick(&["C13", "C14", "C15", "C15", "C15", "C16", "C16", "C17"]);
            c = profile(of, r);
            c.keep_err = *r.pick(&[50, 70, 90]);
            c.restrict = *r.pick(&[0, 30, 60]);
            c.w[7] = c.w[7].max(1);
            return c;
        }
        _ => {
            c.w = [3, 3, 2, 3, 4, 3, 3, 3, 2, 3];
            c.keep_err = *r.pick(&[30, 60, 90]);
            c.rich = 15;
            c.plugins = 0;
            c.push = 5;
        }
    }
    match r.below(10) {
        0 => {
            c.days = 12;
            c.per_day += 2;
        }
        1..=3 => {
            c.days = 3;
        }
        4 if r.pct(8) => {
            // as long as a year in the life of a user
            c.days = 40;
            c.per_day += 3;
        }
        _ => {}
    }
    c
}

fn book_of(r: &mut Rng, subset: bool) -> Step {
    let keep = if subset {
        let p = *r.pick(&[0, 50, 50, 80, 80, 95, 95]);
        Some((0..120).filter(|_| r.pct(p)).collect())
    } else {
        None
    };
    Step::Req { id: id(r), method: "book".into(), param: Param::BookOf { step: 0, seed: r.u64() >> 12, spans: r.pct(50), keep, edits: if subset && r.pct(50) { 1 + (r.u64() >> 12) } else { 0 } }, style: encode_style(r) }
}

/// costs of every form that can be written (how they are booked is left open)
fn any_cost(r: &mut Rng, led: &mut Ledger) {
    for f in &mut led.files {
        for i in &mut f.items {
            let Item::D(d) = i else { continue };
            let Body::Txn { postings, .. } = &mut d.body else { continue };
            for p in postings {
                if !r.pct(if p.cost.is_some() { 60 } else { 20 }) {
                    continue;
                }
                let num = |r: &mut Rng, k: u32| if r.pct(k) { Some(Num::plain(Decimal::new(r.range(0, 5000), r.below(4) as u32))) } else { None };
                let (per, total) = (num(r, 60), num(r, 60));
                p.cost = Some(Cost {
                    per,
                    total,
                    cur: if r.pct(70) { Some(r.pick(&["USD", "NZD", "X"]).to_string()) } else { None },
                    date: if r.pct(30) { Some(r.pick(&["2019-12-31", "2020-02-29", "2021-01-01"]).to_string()) } else { None },
                    label: if r.pct(30) { Some(r.pick(&["lot-a", "lot b", "", "2020-01-01"]).to_string()) } else { None },
                    merge: r.pct(15),
                });
            }
        }
    }
}

fn make(id: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let c = profile(id, &mut r);
    let (root, arg) = whereabouts(&mut r);
    let mut led = G::new(&mut r, c).ledger(&root);
    let mut kind = "good";
    if id == "C11" && r.pct(12) {
        spoil(&mut r, &mut led);
        kind = "syntax";
    } else if id == "C11" && r.pct(30) {
        any_cost(&mut r, &mut led);
        kind = "any cost";
    }
    let mut x = serve(&arg);
    if r.pct(25) {
        knobs(&mut r, &mut x);
    } else {
        environment(&mut r, &mut x);
    }
    x.steps.push(req("parser.directives", Param::None));
    let mut rest = vec![];
    match id {
        "C11" if kind == "any cost" => {
            rest.push(req("parser.directives", Param::None));
            rest.push(req("parser.options", Param::None));
        }
        "C11" => {
            rest.push(req("book", Param::None));
            rest.push(req("parser.directives", Param::None));
            if r.pct(50) {
                rest.push(book_of(&mut r, false));
            }
        }
        "C12" => {
            rest.push(req("parser.options", Param::None));
            rest.push(req("parser.plugins", Param::None));
            rest.push(req("book", Param::None));
            rest.push(book_of(&mut r, false));
            rest.push(req("parser.options", Param::None));
        }
        _ => {
            rest.push(req("book", Param::None));
            rest.push(book_of(&mut r, false));
            for _ in 0..r.below(3) {
                rest.push(book_of(&mut r, true));
            }
            if r.pct(30) {
                rest.push(req("book", Param::None));
            }
        }
    }
    r.shuffle(&mut rest);
    x.steps.extend(rest);
    scenario(id, seed, Some(led), vec![x], kind)
}

/// the directives of which the client sent some
fn part(p: &Parsed, keep: &Option<Vec<usize>>) -> Parsed {
    match keep {
        None => p.clone(),
        Some(k) => Parsed { dcts: k.iter().filter_map(|&i| p.dcts.get(i).cloned()).collect(), plugins: p.plugins.clone(), opts: p.opts.clone() },
    }
}

/// every answer of a run against the reference model
pub fn against_model(sc: &Scenario, x: &RunSpec, h: &Hist) -> Option<String> {
    if let Some(e) = cmp::check_clean(h) {
        return Some(format!("run: {e}"));
    }
    if h.answers().len() != h.lines.len() {
        return Some(format!("count: {} requests but {} answers", h.lines.len(), h.answers().len()));
    }
    let led = sc.led.as_ref()?;
    let p = match parse::parse(led) {
        Ok(p) => p,
        Err(_) => {
            for (k, st) in x.steps.iter().enumerate() {
                let Some(a) = h.answer(k) else { continue };
                if matches!(method(st), "parser.directives" | "parser.options" | "parser.plugins") || matches!(st, Step::Req { method, param: Param::None, .. } if method == "book") {
                    let er = a.get("error");
                    if er.get("code").int() != Some(2) || er.get("data").arr().is_empty() {
                        return Some(format!("syntax: {} of a ledger with errors is answered {}", method(st), cmp::clip(&a)));
                    }
                }
            }
            return None;
        }
    };
    let whole = cmp::outcome(&p);
    for (k, st) in x.steps.iter().enumerate() {
        let Step::Req { method, param, .. } = st else { continue };
        let Some(a) = h.answer(k) else { continue };
        let e = match (method.as_str(), param) {
            ("parser.options", _) => cmp::check_options(&p, led, &x.args[1], &a).map(|e| format!("options: {e}")),
            ("parser.plugins", _) => cmp::diff(&cmp::want_plugins(&p), a.get("result"), "plugins").map(|e| format!("plugins: {e}")),
            ("parser.directives", _) => cmp::check_directives(&p, &a).map(|e| format!("directives: {e}")),
            ("book", Param::None) => {
                let dirs = h.answer(0).unwrap_or(J::Null);
                if matches!(whole, Outcome::Errors(_)) && !dirs.get("result").has("directives") {
                    None
                } else {
                    cmp::check_book(&p, &whole, &dirs, &a, false).map(|e| format!("booking: {e}"))
                }
            }
            ("book", Param::BookOf { edits, .. }) if *edits != 0 => {
                let sent = J::parse(&String::from_utf8_lossy(&h.lines[h.step_line[k]?])).ok()?;
                let sent = sent.get("params");
                match crate::edit::directives(sent) {
                    None => Some("harness: the directives which were sent are not understood".into()),
                    Some(dcts) => {
                        let q = Parsed { dcts, plugins: p.plugins.clone(), opts: p.opts.clone() };
                        cmp::check_book_sent(&q, &cmp::outcome(&q), sent.arr(), &a).map(|e| format!("booking of what was changed: {e}"))
                    }
                }
            }
            ("book", Param::BookOf { keep: None, .. }) => cmp::check_book(&p, &whole, &J::Null, &a, true).map(|e| format!("booking of what was sent: {e}")),
            ("book", Param::BookOf { keep, .. }) => {
                let q = part(&p, keep);
                cmp::check_book(&q, &cmp::outcome(&q), &J::Null, &a, true).map(|e| format!("booking of a part: {e}"))
            }
            _ => None,
        };
        if e.is_some() {
            return e.map(|e| format!("{e} (step {k})"));
        }
    }
    None
}

fn judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    sc.runs.iter().zip(hs).find_map(|(x, h)| against_model(sc, x, h))
}

// ---------------------------------------------------------------- C10

/// one report by location and one by index, about the same thing?
fn same_report(dirs: &[J], by_loc: &J, by_idx: &J) -> Result<(), String> {
    let at = |i: &J| -> Option<(J, J, usize)> {
        let v = i.arr();
        let d = dirs.get(v.first()?.int()? as usize)?;
        let loc = match v.get(1) {
            None => d.get("span").clone(),
            Some(k) => d.get("postings").arr().get(k.int()? as usize)?.get("span").clone(),
        };
        Some((loc, d.clone(), v.len()))
    };
    let Some((loc, d, n)) = at(by_idx.get("idx")) else { return Err(format!("index {} points nowhere", by_idx.get("idx"))) };
    if loc != *by_loc.get("span") {
        return Err(format!("index {} stands for {loc}, but the location is {}", by_idx.get("idx"), by_loc.get("span")));
    }
    let name = |d: &J| match d.get("dct").str() {
        Some("txn") => "transaction".to_string(),
        Some(x) => x.to_string(),
        None => String::new(),
    };
    let msg = if n > 1 { "invalid posting".to_string() } else { format!("invalid {}", name(&d)) };
    if by_loc.get("message").str() != Some(&msg) {
        return Err(format!("message {} but it is about {msg}", by_loc.get("message")));
    }
    for k in ["reason", "annotation"] {
        // (zero has no sign)
        let rows = |j: &J| j.get(k).str().map(cmp::squash);
        if rows(by_loc) != rows(by_idx) {
            return Err(format!("{k}: {} against {}", by_loc.get(k), by_idx.get(k)));
        }
    }
    let (a, b) = (by_loc.get("related").arr(), by_idx.get("related").arr());
    if a.len() != b.len() {
        return Err(format!("related: {} against {}", by_loc.get("related"), by_idx.get("related")));
    }
    for (x, y) in a.iter().zip(b) {
        match at(y) {
            Some((loc, d, _)) if x.arr().get(1) == Some(&loc) && x.arr()[0].str() == Some(&name(&d)) => {}
            _ => return Err(format!("related: {x} against {y}")),
        }
    }
    if n > 1 && by_loc.get("contexts").arr().first().and_then(|c| c.arr().get(1).cloned()) != Some(d.get("span").clone()) {
        return Err(format!("contexts: {} of a posting of {}", by_loc.get("contexts"), d.get("span")));
    }
    Ok(())
}

fn c10_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    for (x, h) in sc.runs.iter().zip(hs) {
        if let Some(e) = cmp::check_clean(h) {
            return Some(format!("run: {e}"));
        }
        if h.answers().len() != h.lines.len() {
            return Some(format!("count: {} requests but {} answers", h.lines.len(), h.answers().len()));
        }
        let led = sc.led.as_ref()?;
        let p = parse::parse(led).ok()?;
        if matches!(cmp::outcome(&p), Outcome::Excluded(_)) {
            return None;
        }
        let whole = x.steps.iter().position(|s| matches!(s, Step::Req { method, param: Param::None, .. } if method == "book"))?;
        let own = h.answer(whole)?;
        let dirs = h.answer(0)?;
        for (k, st) in x.steps.iter().enumerate() {
            let Step::Req { param: Param::BookOf { keep: None, edits: 0, .. }, .. } = st else { continue };
            let Some(a) = h.answer(k) else { continue };
            if own.has("result") || a.has("result") {
                if let Some(e) = cmp::diff(&cmp::norm(own.get("result")), &cmp::norm(a.get("result")), "result") {
                    return Some(format!("booking: of what was sent (step {k}) against that of the ledger: {e} {}", cmp::clip(own.get("error"))));
                }
                continue;
            }
            let (e1, e2) = (own.get("error"), a.get("error"));
            if e1.get("code").int() != Some(2) || e2.get("code").int() != Some(3) {
                return Some(format!("code: errors {} and {}", e1.get("code"), e2.get("code")));
            }
            let (v1, v2) = (e1.get("data").arr(), e2.get("data").arr());
            if v1.len() != v2.len() {
                return Some(format!("errors: {} reports by location but {} by index", v1.len(), v2.len()));
            }
            for (i, (r1, r2)) in v1.iter().zip(v2).enumerate() {
                if let Err(e) = same_report(dirs.get("result").get("directives").arr(), r1, r2) {
                    return Some(format!("errors: report {i}: {e}"));
                }
            }
        }
        // a part of what was sent is booked as such: compared with the model
        if let Some(e) = against_model(sc, x, h) {
            return Some(e);
        }
    }
    None
}

// ---------------------------------------------------------------- what a scenario was about

fn with_model(sc: &Scenario, f: impl Fn(&Parsed, &Outcome) -> bool) -> bool {
    let Some(l) = &sc.led else { return false };
    let Ok(p) = parse::parse(l) else { return sc.kind == "syntax" };
    let o = cmp::outcome(&p);
    if matches!(o, Outcome::Excluded(_)) {
        return false;
    }
    f(&p, &o)
}

fn bodies(p: &Parsed, f: impl Fn(&Body) -> bool) -> bool {
    p.dcts.iter().any(|d| f(&d.d.body))
}

fn incomplete(q: &Posting) -> bool {
    q.units.is_none() || q.cur.is_none() || q.price.as_ref().is_some_and(|x| x.num.is_none() || x.cur.is_none()) || q.cost.as_ref().is_some_and(|c| (c.per.is_none() && c.total.is_none()) || c.cur.is_none())
}

fn reason(o: &Outcome, f: impl Fn(&book::MErr) -> bool) -> bool {
    matches!(o, Outcome::Errors(v) if v.iter().any(f))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            make: |_, s| make("C10", s),
            judge: c10_judge,
            nontrivial: |sc, _| with_model(sc, |p, _| p.dcts.len() >= 5),
            rule: "the ledger booked by the server, and its directives sent back in several encodings, in whole and in part; non-trivial: at least five directives",
            quick: 6000,
        },
        Prop {
            id: "C11",
            make: |_, s| make("C11", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |p, _| p.dcts.len() >= 5),
            rule: "generated ledgers against the reference reading of their abstract syntax; non-trivial: at least five directives, or syntax errors",
            quick: 6000,
        },
        Prop {
            id: "C12",
            make: |_, s| make("C12", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |p, _| !p.opts.vals.is_empty() || !p.plugins.is_empty()),
            rule: "generated ledgers with options and plugins, reported and in their effect on booking; non-trivial: an option or a plugin was declared",
            quick: 6000,
        },
        Prop {
            id: "C13",
            make: |_, s| make("C13", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |p, _| bodies(p, |b| matches!(b, Body::Txn { postings, .. } if postings.iter().any(incomplete)))),
            rule: "transactions with missing units, currencies, costs and prices against the reference model; non-trivial: something was missing",
            quick: 6000,
        },
        Prop {
            id: "C14",
            make: |_, s| make("C14", s),
            judge,
            nontrivial: |sc, _| {
                with_model(sc, |p, _| bodies(p, |b| matches!(b, Body::Txn { postings, .. } if postings.iter().any(|q| q.cost.is_some() && q.units.as_ref().is_some_and(|u| u.d().is_sign_negative())))))
            },
            rule: "purchases and reductions under all booking methods against the reference model; non-trivial: a lot was to be reduced",
            quick: 6000,
        },
        Prop {
            id: "C15",
            make: |_, s| make("C15", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |p, _| bodies(p, |b| matches!(b, Body::Balance { .. }))),
            rule: "balance assertions met exactly, at the edge of the tolerance, and missed, against the reference model; non-trivial: there was an assertion",
            quick: 6000,
        },
        Prop {
            id: "C16",
            make: |_, s| make("C16", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |p, _| bodies(p, |b| matches!(b, Body::Pad { .. }))),
            rule: "pads served, unneeded, replaced, impossible and never followed, against the reference model; non-trivial: there was a pad",
            quick: 6000,
        },
        Prop {
            id: "C17",
            make: |_, s| make("C17", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |_, o| reason(o, |e| e.reason.contains("account") || e.reason.contains("currency"))),
            rule: "opens, closes and uses of accounts in any order against the reference model; non-trivial: one of them was to be rejected",
            quick: 6000,
        },
        Prop {
            id: "C18",
            make: |_, s| make("C18", s),
            judge,
            nontrivial: |sc, _| with_model(sc, |_, o| reason(o, |_| true)),
            rule: "ledgers with directives at fault among others, in whole and in part, against the reference model; non-trivial: an error was to be reported",
            quick: 6000,
        },
    ]
}

#[allow(unused)]
fn unused(_: &Env) {}
