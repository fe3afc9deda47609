//! What a client (a plugin, say) makes of directives before it sends them to be booked, and what they then are.
use crate::ast::*;
use crate::json::{J, n, s};
use crate::parse::{self, PDct};
use crate::rng::Rng;
use rust_decimal::Decimal;
use std::str::FromStr;

fn set(d: &mut J, k: &str, v: Option<J>) {
    if let J::Obj(o) = d {
        o.retain(|(x, _)| x != k);
        if let Some(v) = v {
            o.push((k.into(), v));
        }
    }
}

fn strings(j: &J, keys: &[&str], out: &mut Vec<String>) {
    match j {
        J::Obj(v) => v.iter().for_each(|(k, x)| match x {
            J::Str(t) if keys.contains(&k.as_str()) => out.push(t.clone()),
            x => strings(x, keys, out),
        }),
        J::Arr(v) => v.iter().for_each(|x| strings(x, keys, out)),
        _ => {}
    }
}

const TEXTS: &[&str] = &["", " ", "over\ntwo lines", "a\ttab", "\"quoted\" \\ back", "🎉 日本", "\u{7f}\u{1}", "; not a comment", "2020-01-01 open Assets:X", "'"];

fn number(d: &mut J, k: &str, r: &mut Rng) {
    let J::Num(t) = d.get(k).clone() else { return };
    let Ok(x) = Decimal::from_str(&t) else { return };
    let y = match r.below(5) {
        0 => -x,
        1 => {
            let mut y = x;
            y.rescale((x.scale() + 1 + r.below(2) as u32).min(9));
            y
        }
        2 => x + Decimal::new(1, x.scale()),
        3 => x + Decimal::ONE,
        _ => Decimal::ZERO,
    };
    set(d, k, Some(n(y)));
}

fn posting(p: &mut J, r: &mut Rng, accs: &[String], curs: &[String]) {
    match r.below(14) {
        0 | 1 => number(p, "units", r),
        2 => set(p, "units", None),
        3 => set(p, "cur", None),
        4 => {
            set(p, "units", None);
            set(p, "cur", None);
        }
        5 | 6 => set(p, "acc", Some(s(r.pick(accs).clone()))),
        7 if p.has("cur") && !p.has("cost-spec") => set(p, "cur", Some(s(r.pick(curs).clone()))),
        8 => set(p, "flag", if p.has("flag") { None } else { Some(s(*r.pick(&["*", "!", "'A", "&"]))) }),
        9 => set(p, "metadata", Some(J::Obj(vec![("made".into(), J::Obj(vec![("string".into(), s(*r.pick(TEXTS)))]))]))),
        10 => set(p, *r.pick(&["tags", "links"]), Some(J::Arr(vec![s("added"), s("twice")]))),
        11 | 12 => {
            if let Some(c) = p.get_mut("cost-spec") {
                match r.below(4) {
                    0 => set(c, "date", None),
                    1 => set(c, "label", if c.has("label") { None } else { Some(s(*r.pick(&["lot", "l2", "ü"]))) }),
                    2 => number(c, "per-unit", r),
                    _ => set(c, "per-unit", None),
                }
            } else {
                number(p, "units", r);
            }
        }
        _ => {
            if p.has("price-spec") {
                set(p, "price-spec", None);
            } else {
                number(p, "units", r);
            }
        }
    }
}

pub fn edit(v: &mut Vec<J>, seed: u64) {
    if v.is_empty() {
        return;
    }
    let mut r = Rng::new(seed);
    let all = J::Arr(v.clone());
    let (mut accs, mut curs, mut dates) = (vec![], vec![], vec![]);
    strings(&all, &["acc"], &mut accs);
    strings(&all, &["cur"], &mut curs);
    strings(&all, &["date"], &mut dates);
    accs.push("Assets:Made:Up".into());
    curs.push("MADE".into());
    let times = if r.pct(15) { 8 } else { 4 };
    // what nothing else depends on
    let mild = r.pct(25);
    for _ in 0..1 + r.below(times) {
        let i = r.below(v.len());
        if mild {
            let i = (0..v.len()).cycle().skip(i).take(v.len()).find(|j| v[*j].get("dct").str() == Some("txn")).unwrap_or(i);
            let d = &mut v[i];
            let t = if r.pct(40) { "" } else { *r.pick(TEXTS) };
            match r.below(6) {
                0 | 1 if d.get("dct").str() == Some("txn") => set(d, *r.pick(&["payee", "narration"]), Some(s(t))),
                2 => set(d, *r.pick(&["tags", "links"]), Some(J::Arr(vec![s("added"), s("made-2")]))),
                3 => set(d, "metadata", Some(J::Obj(vec![("k".into(), J::Obj(vec![("string".into(), s(t))]))]))),
                k => {
                    if let Some(J::Arr(ps)) = d.get_mut("postings") {
                        if !ps.is_empty() {
                            let p = r.below(ps.len());
                            let p = &mut ps[p];
                            match k {
                                4 => set(p, "flag", if p.has("flag") { None } else { Some(s(*r.pick(&["*", "!", "'A", "&"]))) }),
                                5 => set(p, "metadata", Some(J::Obj(vec![("made".into(), J::Obj(vec![("string".into(), s(t))]))]))),
                                _ => set(p, *r.pick(&["tags", "links"]), Some(J::Arr(vec![s("added"), s("twice")]))),
                            }
                        }
                    }
                }
            }
            continue;
        }
        match r.below(16) {
            0 => {
                let d = v[i].clone();
                v.insert(r.range(i as i64, v.len() as i64) as usize, d);
            }
            1 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            2 => {
                if v.len() > 1 {
                    v.remove(i);
                }
            }
            3 => set(&mut v[i], "date", Some(s(r.pick(&dates).clone()))),
            4 => set(&mut v[i], *r.pick(&["tags", "links"]), Some(J::Arr(vec![s("added"), s("made-2")]))),
            5 => {
                let m = match r.below(4) {
                    0 => J::Obj(vec![("string".into(), s(*r.pick(TEXTS)))]),
                    1 => J::Obj(vec![("cur".into(), s(r.pick(&curs).clone())), ("units".into(), n("-1.50"))]),
                    2 => J::Obj(vec![("number".into(), n(*r.pick(&["0", "-0.10", "12345678901234567890.5"])))]),
                    _ => J::Obj(vec![("bool".into(), J::Bool(true))]),
                };
                set(&mut v[i], "metadata", Some(J::Obj(vec![("k".into(), m)])));
            }
            k => {
                // something of this kind of directive, transactions before others
                let i = if k < 12 { (0..v.len()).cycle().skip(i).take(v.len()).find(|j| v[*j].get("dct").str() == Some("txn")).unwrap_or(i) } else { i };
                let d = &mut v[i];
                match d.get("dct").str().unwrap_or("") {
                    "txn" => match r.below(8) {
                        0 => {
                            let t = if r.pct(40) { "" } else { *r.pick(TEXTS) };
                            set(d, *r.pick(&["payee", "narration"]), Some(s(t)))
                        }
                        1 => set(d, "flag", Some(s(*r.pick(&["*", "!", "'P", "'X", "#"])))),
                        x => {
                            if let Some(J::Arr(ps)) = d.get_mut("postings") {
                                if ps.is_empty() {
                                    continue;
                                }
                                let k = r.below(ps.len());
                                match x {
                                    2 => {
                                        ps.remove(k);
                                    }
                                    3 => {
                                        let p = ps[k].clone();
                                        ps.push(p);
                                    }
                                    4 => {
                                        let l = r.below(ps.len());
                                        ps.swap(k, l);
                                    }
                                    _ => posting(&mut ps[k], &mut r, &accs, &curs),
                                }
                            }
                        }
                    },
                    "balance" => match r.below(4) {
                        0 => number(d, "units", &mut r),
                        1 => set(d, "tolerance", if d.has("tolerance") { None } else { Some(n(*r.pick(&["0", "0.5", "0.01", "100"]))) }),
                        2 => set(d, "acc", Some(s(r.pick(&accs).clone()))),
                        _ => set(d, "cur", Some(s(r.pick(&curs).clone()))),
                    },
                    "open" => match r.below(3) {
                        0 => set(d, "currencies", if d.has("currencies") { None } else { Some(J::Arr(vec![s(r.pick(&curs).clone())])) }),
                        1 => set(d, "booking", if d.has("booking") { None } else { Some(s(*r.pick(&["strict", "fifo", "lifo", "hifo", "strict-with-size", "none"]))) }),
                        _ => set(d, "acc", Some(s(r.pick(&accs).clone()))),
                    },
                    "pad" => set(d, *r.pick(&["acc", "source"]), Some(s(r.pick(&accs).clone()))),
                    "event" => set(d, *r.pick(&["type", "description"]), Some(s(*r.pick(TEXTS)))),
                    "query" => set(d, *r.pick(&["name", "content"]), Some(s(*r.pick(TEXTS)))),
                    "note" => set(d, "comment", Some(s(*r.pick(TEXTS)))),
                    "document" => set(d, "path", Some(s(*r.pick(TEXTS)))),
                    _ => {
                        if d.has("acc") {
                            set(d, "acc", Some(s(r.pick(&accs).clone())));
                        }
                    }
                }
            }
        }
    }
    // which of the two describes a transaction whose payee is empty is left open
    for d in v.iter_mut() {
        if d.get("payee").str() == Some("") {
            set(d, "narration", None);
        }
    }
}

// ---------------------------------------------------------------- from JSON

fn text(j: &J, k: &str) -> Option<String> {
    j.get(k).str().map(|x| x.to_string())
}
fn num(j: &J, k: &str) -> Option<Num> {
    match j.get(k) {
        J::Num(x) => Some(Num { t: x.clone(), v: x.clone() }),
        _ => None,
    }
}
fn list(j: &J, k: &str) -> Vec<String> {
    j.get(k).arr().iter().filter_map(|x| x.str().map(|x| x.to_string())).collect()
}
fn value(j: &J) -> Option<Meta> {
    let t = |k| text(j, k);
    Some(match j {
        J::Null => Meta::Null,
        J::Obj(_) if j.has("units") => Meta::Amount(num(j, "units")?, t("cur")?),
        J::Obj(o) => match o.first()?.0.as_str() {
            "string" => Meta::Str(t("string")?),
            "cur" => Meta::Cur(t("cur")?),
            "acc" => Meta::Acc(t("acc")?),
            "tag" => Meta::Tag(t("tag")?),
            "link" => Meta::Link(t("link")?),
            "date" => Meta::Date(t("date")?),
            "bool" => Meta::Bool(*j.get("bool") == J::Bool(true)),
            "number" => Meta::Num(num(j, "number")?),
            _ => return None,
        },
        _ => return None,
    })
}
fn meta(j: &J) -> Option<Vec<(String, Meta)>> {
    match j.get("metadata") {
        J::Obj(o) => o.iter().map(|(k, v)| Some((k.clone(), value(v)?))).collect(),
        _ => Some(vec![]),
    }
}

fn posting_of(j: &J) -> Option<Posting> {
    let c = j.get("cost-spec");
    let p = j.get("price-spec");
    Some(Posting {
        flag: text(j, "flag"),
        acc: text(j, "acc")?,
        units: num(j, "units"),
        cur: text(j, "cur"),
        cost: j.has("cost-spec").then(|| Cost {
            per: num(c, "per-unit"),
            total: num(c, "total"),
            cur: text(c, "cur"),
            date: text(c, "date"),
            label: text(c, "label"),
            merge: *c.get("merge") == J::Bool(true),
        }),
        price: j.has("price-spec").then(|| Price { total: p.has("total"), num: num(p, "total").or(num(p, "per-unit")), cur: text(p, "cur") }),
        tags: list(j, "tags"),
        links: list(j, "links"),
        meta: meta(j)?,
    })
}

/// a directive as a client sent it
pub fn directive(j: &J) -> Option<Dct> {
    let t = |k| text(j, k);
    let body = match j.get("dct").str()? {
        "txn" => Body::Txn { flag: t("flag")?, payee: t("payee"), narration: t("narration"), postings: j.get("postings").arr().iter().map(posting_of).collect::<Option<_>>()? },
        "open" => Body::Open { acc: t("acc")?, curs: list(j, "currencies"), booking: t("booking").map(|x| x.to_uppercase().replace('-', "_")) },
        "close" => Body::Close { acc: t("acc")? },
        "commodity" => Body::Commodity { cur: t("cur")? },
        "pad" => Body::Pad { acc: t("acc")?, source: t("source")? },
        "balance" => Body::Balance { acc: t("acc")?, num: num(j, "units")?, tol: num(j, "tolerance"), cur: t("cur")? },
        "event" => Body::Event { typ: t("type")?, desc: t("description")? },
        "query" => Body::Query { name: t("name")?, content: t("content")? },
        "note" => Body::Note { acc: t("acc")?, comment: t("comment")? },
        "document" => Body::Document { acc: t("acc")?, path: t("path")? },
        "price" => Body::Price { cur: t("cur")?, num: num(j.get("price"), "per-unit")?, in_cur: text(j.get("price"), "cur")? },
        "custom" => Body::Custom { typ: t("type")?, values: j.get("values").arr().iter().map(value).collect::<Option<_>>()? },
        _ => return None,
    };
    Some(Dct { date: t("date")?, body, tags: list(j, "tags"), links: list(j, "links"), mtags: vec![], mlinks: vec![], meta: meta(j)?, style: 0 })
}

/// all of them; None if something is not understood
pub fn directives(params: &J) -> Option<Vec<PDct>> {
    params
        .arr()
        .iter()
        .map(|j| {
            let d = directive(j)?;
            let (mut want, mut back) = (crate::cmp::norm(j), crate::cmp::norm(&parse::raw_json(&d)));
            for x in [&mut want, &mut back] {
                for k in ["payee", "narration"] {
                    if x.get(k).str() == Some("") {
                        set(x, k, None);
                    }
                }
            }
            (want == back).then_some(PDct { file: 0, item: 0, d })
        })
        .collect()
}

/// empty texts are kept where a client sent them
pub fn keep_empty(want: &mut J, sent: &J) {
    if want.get("flag") == &s("'P") && sent.get("dct").str() != Some("txn") {
        return;
    }
    for k in ["payee", "narration"] {
        if sent.get(k).str() == Some("") {
            set(want, k, Some(s("")));
        }
    }
}
