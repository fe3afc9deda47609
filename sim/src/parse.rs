//! Reference model, first part: what a ledger says (directives in order, options, plugins).
use crate::ast::*;
use crate::json::{J, n, s};
use crate::vfs::normalize;
use rust_decimal::Decimal;
use std::collections::BTreeMap;
use std::str::FromStr;

/// a directive with everything that pushed tags and metadata add to it
#[derive(Clone, Debug)]
pub struct PDct {
    pub file: usize,
    pub item: usize,
    pub d: Dct,
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub vals: Vec<(String, String, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub dcts: Vec<PDct>,
    pub plugins: Vec<(String, Option<String>)>,
    pub opts: Opts,
}

fn dir_of(p: &str) -> String {
    match p.rfind('/') {
        Some(i) => p[..i].to_string(),
        None => String::new(),
    }
}

pub fn wild(pat: &str, name: &str) -> bool {
    // '*' matches anything within a component; a leading dot must be literal
    let (p, t): (Vec<char>, Vec<char>) = (pat.chars().collect(), name.chars().collect());
    if t.first() == Some(&'.') && p.first() != Some(&'.') {
        return false;
    }
    fn m(p: &[char], t: &[char]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some('*') => (0..=t.len()).any(|i| m(&p[1..], &t[i..])),
            Some('?') => !t.is_empty() && m(&p[1..], &t[1..]),
            Some(c) => t.first() == Some(c) && m(&p[1..], &t[1..]),
        }
    }
    m(&p, &t)
}

/// files meant by an include, in order of path
pub fn expand(led: &Ledger, from: usize, pat: &str) -> Vec<usize> {
    let abs = if pat.starts_with('/') { pat.to_string() } else { format!("{}/{}", dir_of(&led.files[from].path), pat) };
    let abs = normalize(&abs);
    let pc: Vec<&str> = abs.split('/').collect();
    let mut v: Vec<usize> = (0..led.files.len())
        .filter(|&i| {
            let fc: Vec<&str> = led.files[i].path.split('/').collect();
            fc.len() == pc.len() && pc.iter().zip(&fc).all(|(p, f)| if p.contains(['*', '?']) { wild(p, f) } else { p == f })
        })
        .collect();
    v.sort_by(|a, b| led.files[*a].path.cmp(&led.files[*b].path));
    v
}

/// the files which are read
pub fn reached(led: &Ledger) -> Vec<usize> {
    let mut v = vec![0];
    let mut k = 0;
    while let Some(&f) = v.get(k) {
        for i in &led.files[f].items {
            if let Item::Include(p) = i {
                for g in expand(led, f, p) {
                    if !v.contains(&g) {
                        v.push(g);
                    }
                }
            }
        }
        k += 1;
    }
    v
}

type Pushed = (BTreeMap<String, u32>, BTreeMap<String, Vec<Meta>>);

/// Err: the ledger is not valid, for this reason (with what must be named in the report)
pub fn parse(led: &Ledger) -> Result<Parsed, Vec<String>> {
    let mut out = Parsed::default();
    let mut errs = vec![];
    let mut tags: BTreeMap<String, u32> = BTreeMap::new();
    let mut metas: BTreeMap<String, Vec<Meta>> = BTreeMap::new();
    let mut entered: BTreeMap<usize, Option<Pushed>> = BTreeMap::new();
    entered.insert(0, None);
    // work list of (file, next item)
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    while let Some((f, i)) = stack.pop() {
        let Some(it) = led.files[f].items.get(i) else { continue };
        stack.push((f, i + 1));
        match it {
            Item::D(d) => {
                let mut d = d.clone();
                for t in tags.keys() {
                    d.mtags.push(t.clone());
                }
                for (k, v) in &metas {
                    if !d.meta.iter().any(|(a, _)| a == k) {
                        d.meta.push((k.clone(), v.last().unwrap().clone()));
                    }
                }
                out.dcts.push(PDct { file: f, item: i, d });
            }
            Item::Include(p) => {
                let m = expand(led, f, p);
                if m.is_empty() {
                    errs.push(format!("include failed: {p}"));
                }
                for g in m {
                    match entered.get(&g) {
                        None => {
                            entered.insert(g, Some((tags.clone(), metas.clone())));
                            stack.push((g, 0));
                        }
                        Some(Some((t, mv))) if *t == tags && *mv == metas => {}
                        _ => errs.push(format!("duplicate include: {p}")),
                    }
                }
            }
            Item::Opt(k, v) => {
                let multi = matches!(k.as_str(), "documents" | "operating_currency" | "inferred_tolerance_default");
                if !multi && out.opts.vals.iter().any(|(a, _, _)| a == k) {
                    errs.push(format!("duplicate option {k}"));
                }
                out.opts.vals.push((k.clone(), v.clone(), f));
            }
            Item::Plugin(a, c) => out.plugins.push((a.clone(), c.clone())),
            Item::PushTag(t) => *tags.entry(t.clone()).or_insert(0) += 1,
            Item::PopTag(t) => match tags.get_mut(t) {
                Some(k) if *k > 1 => *k -= 1,
                Some(_) => {
                    tags.remove(t);
                }
                None => errs.push(format!("poptag {t}")),
            },
            Item::PushMeta(k, v) => metas.entry(k.clone()).or_default().push(v.clone()),
            Item::PopMeta(k) => match metas.get_mut(k) {
                Some(v) => {
                    v.pop();
                    if v.is_empty() {
                        metas.remove(k);
                    }
                }
                None => errs.push(format!("popmeta {k}")),
            },
            Item::Comment(_) | Item::Blank => {}
            Item::Raw(t) => errs.push(format!("syntax: {t}")),
        }
    }
    for (k, c) in &tags {
        for _ in 0..*c {
            errs.push(format!("unpopped tag {k}"));
        }
    }
    for k in metas.keys() {
        errs.push(format!("unpopped meta {k}"));
    }
    let rank = |d: &Dct| match d.body {
        Body::Open { .. } => 0,
        Body::Balance { .. } => 1,
        _ => 2,
    };
    out.dcts.sort_by(|a, b| (&a.d.date, rank(&a.d)).cmp(&(&b.d.date, rank(&b.d))));
    if errs.is_empty() { Ok(out) } else { Err(errs) }
}

impl Opts {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.vals.iter().find(|(a, _, _)| a == k).map(|(_, v, _)| v.as_str())
    }
    pub fn booking(&self) -> Option<&str> {
        self.get("booking_method")
    }
    pub fn multiplier(&self) -> Option<Decimal> {
        self.get("inferred_tolerance_multiplier").map(|x| Decimal::from_str(x).unwrap())
    }
    pub fn tol_default(&self, cur: &str) -> Option<Decimal> {
        let f = |c: &str| {
            self.vals
                .iter()
                .filter(|(k, _, _)| k == "inferred_tolerance_default")
                .filter_map(|(_, v, _)| v.split_once(':'))
                .find(|(a, _)| *a == c)
                .map(|(_, v)| Decimal::from_str(v).unwrap())
        };
        f(cur).or_else(|| f("*"))
    }
    pub fn to_json(&self, led: &Ledger, root_arg: &str) -> J {
        let mut o: Vec<(String, J)> = vec![];
        for (k, d) in [("assets", "Assets"), ("liabilities", "Liabilities"), ("equity", "Equity"), ("income", "Income"), ("expenses", "Expenses")] {
            let v = self.get(&format!("name_{k}")).unwrap_or(d);
            o.push((format!("name-{k}"), s(v)));
        }
        let (mut docs, mut ops, mut tols) = (vec![], vec![], vec![]);
        for (k, v, f) in &self.vals {
            let kk = k.replace('_', "-");
            match k.as_str() {
                "long_string_maxlines" => {}
                x if x.starts_with("name_") => {}
                "documents" => {
                    // relative to the directory of the including file, as that file was named
                    let dir = if *f == 0 {
                        match root_arg.rfind('/') {
                            Some(i) => root_arg[..i].to_string(),
                            None => String::new(),
                        }
                    } else {
                        let own = dir_of(&led.files[*f].path);
                        let rootdir = dir_of(&led.files[0].path);
                        if root_arg.starts_with('/') {
                            own
                        } else {
                            let rel = own.strip_prefix(&rootdir).unwrap_or(&own).trim_start_matches('/').to_string();
                            let base = match root_arg.rfind('/') {
                                Some(i) => root_arg[..i].to_string(),
                                None => String::new(),
                            };
                            [base, rel].into_iter().filter(|x| !x.is_empty()).collect::<Vec<_>>().join("/")
                        }
                    };
                    docs.push(if v.starts_with('/') || dir.is_empty() { s(v.clone()) } else { s(format!("{dir}/{v}")) });
                }
                "operating_currency" => ops.push(s(v.clone())),
                "inferred_tolerance_default" => {
                    let (c, t) = v.split_once(':').unwrap();
                    if c == "*" {
                        o.push(("inferred-tolerance-default-fallback".into(), n(t)));
                    } else {
                        tols.push((c.to_string(), n(t)));
                    }
                }
                "inferred_tolerance_multiplier" => o.push((kk, n(v))),
                "infer_tolerance_from_cost" | "render_commas" => {
                    o.push((kk, J::Bool(v.eq_ignore_ascii_case("true") || v == "1")))
                }
                "booking_method" => o.push((kk, s(booking_name(v)))),
                "plugin_processing_mode" => o.push((kk, s(v.to_lowercase()))),
                _ => o.push((kk, s(v.clone()))),
            }
        }
        for (k, v) in [("documents", docs), ("operating-currency", ops)] {
            if !v.is_empty() {
                let mut v = v;
                v.sort();
                v.dedup();
                o.push((k.into(), J::Arr(v)));
            }
        }
        if !tols.is_empty() {
            o.push(("inferred-tolerance-default".into(), J::Obj(tols)));
        }
        J::Obj(o)
    }
}

pub fn booking_name(b: &str) -> String {
    match b {
        "STRICT_WITH_SIZE" => "strict-with-size".into(),
        x => x.to_lowercase(),
    }
}

pub fn meta_json(m: &Meta) -> J {
    let one = |k: &str, v: J| J::Obj(vec![(k.to_string(), v)]);
    match m {
        Meta::Amount(x, c) => J::Obj(vec![("units".into(), n(&x.v)), ("cur".into(), s(c.clone()))]),
        Meta::Str(x) => one("string", s(x.clone())),
        Meta::Cur(x) => one("cur", s(x.clone())),
        Meta::Acc(x) => one("acc", s(x.clone())),
        Meta::Tag(x) => one("tag", s(x.clone())),
        Meta::Link(x) => one("link", s(x.clone())),
        Meta::Date(x) => one("date", s(x.clone())),
        Meta::Bool(x) => one("bool", J::Bool(*x)),
        Meta::Num(x) => one("number", n(&x.v)),
        Meta::Null | Meta::Empty => J::Null,
    }
}

fn set(v: impl IntoIterator<Item = String>) -> Vec<J> {
    let mut v: Vec<String> = v.into_iter().collect();
    v.sort();
    v.dedup();
    v.into_iter().map(J::Str).collect()
}

pub fn tags_links_meta(o: &mut Vec<(String, J)>, tags: Vec<String>, links: Vec<String>, meta: &[(String, Meta)]) {
    if !tags.is_empty() {
        o.push(("tags".into(), J::Arr(set(tags))));
    }
    if !links.is_empty() {
        o.push(("links".into(), J::Arr(set(links))));
    }
    if !meta.is_empty() {
        o.push(("metadata".into(), J::Obj(meta.iter().map(|(k, v)| (k.clone(), meta_json(v))).collect())));
    }
}

pub fn flag_json(f: &str) -> J {
    s(if f == "txn" { "*" } else { f })
}

fn opt(o: &mut Vec<(String, J)>, k: &str, v: Option<J>) {
    if let Some(v) = v {
        o.push((k.into(), v));
    }
}

/// common part of raw and booked directives
pub fn dct_head(d: &Dct) -> Vec<(String, J)> {
    let mut o = vec![("date".to_string(), s(d.date.clone()))];
    let tags = d.tags.iter().chain(&d.mtags).cloned().collect();
    let links = d.links.iter().chain(&d.mlinks).cloned().collect();
    tags_links_meta(&mut o, tags, links, &d.meta);
    o
}

/// fields of every kind of directive but the postings of transactions
pub fn dct_body(d: &Dct) -> Vec<(String, J)> {
    let mut o: Vec<(String, J)> = vec![];
    let mut p = |k: &str, v: J| o.push((k.to_string(), v));
    match &d.body {
        Body::Txn { flag, payee, narration, .. } => {
            p("dct", s("txn"));
            p("flag", flag_json(flag));
            if let Some(x) = payee.as_ref().filter(|x| !x.is_empty()) {
                p("payee", s(x.clone()));
            }
            if let Some(x) = narration.as_ref().filter(|x| !x.is_empty()) {
                p("narration", s(x.clone()));
            }
        }
        Body::Open { acc, curs, booking } => {
            p("dct", s("open"));
            p("acc", s(acc.clone()));
            if !curs.is_empty() {
                p("currencies", J::Arr(set(curs.clone())));
            }
            if let Some(b) = booking {
                p("booking", s(booking_name(b)));
            }
        }
        Body::Close { acc } => {
            p("dct", s("close"));
            p("acc", s(acc.clone()));
        }
        Body::Commodity { cur } => {
            p("dct", s("commodity"));
            p("cur", s(cur.clone()));
        }
        Body::Pad { acc, source } => {
            p("dct", s("pad"));
            p("acc", s(acc.clone()));
            p("source", s(source.clone()));
        }
        Body::Balance { acc, num, tol, cur } => {
            p("dct", s("balance"));
            p("acc", s(acc.clone()));
            p("units", n(&num.v));
            p("cur", s(cur.clone()));
            if let Some(t) = tol {
                p("tolerance", n(&t.v));
            }
        }
        Body::Event { typ, desc } => {
            p("dct", s("event"));
            p("type", s(typ.clone()));
            p("description", s(desc.clone()));
        }
        Body::Query { name, content } => {
            p("dct", s("query"));
            p("name", s(name.clone()));
            p("content", s(content.clone()));
        }
        Body::Note { acc, comment } => {
            p("dct", s("note"));
            p("acc", s(acc.clone()));
            p("comment", s(comment.clone()));
        }
        Body::Document { acc, path } => {
            p("dct", s("document"));
            p("acc", s(acc.clone()));
            p("path", s(path.clone()));
        }
        Body::Price { cur, num, in_cur } => {
            p("dct", s("price"));
            p("cur", s(cur.clone()));
            p("price", J::Obj(vec![("per-unit".into(), n(&num.v)), ("cur".into(), s(in_cur.clone()))]));
        }
        Body::Custom { typ, values } => {
            p("dct", s("custom"));
            p("type", s(typ.clone()));
            p("values", J::Arr(values.iter().map(meta_json).collect()));
        }
    }
    o
}

pub fn posting_raw(p: &Posting) -> J {
    let mut o = vec![];
    opt(&mut o, "flag", p.flag.as_deref().map(flag_json));
    o.push(("acc".to_string(), s(p.acc.clone())));
    opt(&mut o, "units", p.units.as_ref().map(|x| n(&x.v)));
    opt(&mut o, "cur", p.cur.as_ref().map(|x| s(x.clone())));
    if let Some(c) = &p.cost {
        let mut k = vec![];
        opt(&mut k, "per-unit", c.per.as_ref().map(|x| n(&x.v)));
        opt(&mut k, "total", c.total.as_ref().map(|x| n(&x.v)));
        opt(&mut k, "cur", c.cur.as_ref().map(|x| s(x.clone())));
        opt(&mut k, "date", c.date.as_ref().map(|x| s(x.clone())));
        opt(&mut k, "label", c.label.as_ref().map(|x| s(x.clone())));
        if c.merge {
            k.push(("merge".into(), J::Bool(true)));
        }
        o.push(("cost-spec".into(), J::Obj(k)));
    }
    if let Some(c) = &p.price {
        let mut k = vec![];
        opt(&mut k, if c.total { "total" } else { "per-unit" }, c.num.as_ref().map(|x| n(&x.v)));
        opt(&mut k, "cur", c.cur.as_ref().map(|x| s(x.clone())));
        o.push(("price-spec".into(), J::Obj(k)));
    }
    tags_links_meta(&mut o, p.tags.clone(), p.links.clone(), &p.meta);
    J::Obj(o)
}

/// the directive as the server must return it, without locations
pub fn raw_json(d: &Dct) -> J {
    let mut o = dct_head(d);
    o.extend(dct_body(d));
    if let Body::Txn { postings, .. } = &d.body {
        o.push(("postings".into(), J::Arr(postings.iter().map(posting_raw).collect())));
    }
    J::Obj(o)
}
