//! Reference model, second part: what booking a list of directives must yield.
//!
//! A direct, sequential transcription of the documented rules with plain data structures.  Situations in which the
//! rules leave the outcome open (or where a known finding lies) yield `Excluded`; generators avoid them.
use crate::ast::*;
use crate::json::{J, n, s};
use crate::parse::{Opts, dct_body, dct_head, flag_json, tags_links_meta};
use rust_decimal::Decimal;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Lot {
    pub date: String,
    pub cur: String,
    pub per: Decimal,
    pub total: Decimal,
    pub label: Option<String>,
    pub merge: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub cur: String,
    pub units: Decimal,
    pub cost: Option<Lot>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct BPost {
    pub idx: Option<usize>,
    pub flag: Option<String>,
    pub acc: String,
    pub units: Decimal,
    pub cur: String,
    pub cost: Option<Lot>,
    pub price: Option<(Decimal, Option<Decimal>, String)>,
    pub from: Option<Posting>,
}

#[derive(Clone, Debug)]
pub struct BDct {
    pub idx: usize,
    /// None: the directive as it is
    pub postings: Option<Vec<BPost>>,
    /// a transaction inserted by a pad
    pub pad_txn: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MErr {
    pub dct: usize,
    pub posting: Option<usize>,
    pub reason: String,
    pub related: Vec<usize>,
    /// rows of words
    pub annotation: Option<Vec<String>>,
}

pub enum Outcome {
    Booked(Vec<BDct>),
    Errors(Vec<MErr>),
    Excluded(String),
}

/// why a transaction cannot be booked
#[derive(Clone, Debug, PartialEq)]
enum TErr {
    Reason(String),
    Excluded(String),
}

fn exc<T>(x: &str) -> Result<T, TErr> {
    Err(TErr::Excluded(x.into()))
}
fn at<T>(i: usize, x: &str) -> Result<T, TErr> {
    Err(TErr::Reason(format!("{x} on posting {i}")))
}
fn txn<T>(x: &str) -> Result<T, TErr> {
    Err(TErr::Reason(x.into()))
}

type Inv = BTreeMap<String, Vec<Pos>>;

fn order(a: &Pos, b: &Pos) -> std::cmp::Ordering {
    a.cur.cmp(&b.cur).then_with(|| match (&a.cost, &b.cost) {
        (None, None) => std::cmp::Ordering::Equal,
        (None, _) => std::cmp::Ordering::Less,
        (_, None) => std::cmp::Ordering::Greater,
        (Some(x), Some(y)) => (&x.date, &x.cur, x.per, &x.label, x.merge).cmp(&(&y.date, &y.cur, y.per, &y.label, y.merge)),
    })
}

pub fn accumulate(v: &mut Vec<Pos>, p: Pos, method: &str) {
    if method == "NONE" && p.cost.is_some() {
        // appended behind everything of that currency
        let i = v.iter().position(|q| q.cur > p.cur).unwrap_or(v.len());
        v.insert(i, p);
        return;
    }
    for (i, q) in v.iter_mut().enumerate() {
        match order(q, &p) {
            std::cmp::Ordering::Equal => {
                q.units += p.units;
                return;
            }
            std::cmp::Ordering::Greater => {
                v.insert(i, p);
                return;
            }
            _ => {}
        }
    }
    v.push(p);
}

fn rescale(mut d: Decimal, s: u32) -> Decimal {
    d.rescale(s);
    d
}
fn sane(units: Decimal, other: Decimal) -> u32 {
    if units.scale() == 0 { other.scale() } else { units.scale() }
}
pub fn weight(units: Decimal, per: Decimal) -> Decimal {
    rescale(units * per, sane(units, per))
}

/// None: balanced
pub fn residual(vals: &[Decimal], cur: &str, o: &Opts) -> Option<Decimal> {
    let sum: Decimal = vals.iter().fold(Decimal::ZERO, |a, b| a + *b);
    match vals.iter().map(|v| v.scale()).filter(|s| *s > 0).min() {
        Some(sc) => (sum.abs() >= Decimal::new(1, sc) * o.multiplier().unwrap_or(Decimal::new(5, 1))).then_some(sum),
        None => match o.tol_default(cur) {
            Some(t) => (sum.abs() > t).then_some(sum),
            None => (!sum.is_zero()).then_some(sum),
        },
    }
}

#[derive(Clone)]
struct Ann<'a> {
    p: &'a Posting,
    idx: usize,
    cur: Option<String>,
    cost_cur: Option<String>,
    price_cur: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
struct Interp {
    idx: usize,
    cur: String,
    units: Decimal,
    costs: Option<Vec<(Decimal, Lot)>>,
    price: Option<(Decimal, Option<Decimal>, String)>,
}

struct TxnBook<'a> {
    date: &'a str,
    o: &'a Opts,
    inv: &'a dyn Fn(&str) -> Option<Vec<Pos>>,
    method: &'a dyn Fn(&str) -> String,
}

fn sign(d: Decimal) -> i32 {
    if d.is_zero() {
        0
    } else if d.is_sign_negative() {
        -1
    } else {
        1
    }
}

impl TxnBook<'_> {
    fn groups<'p>(&self, posts: &'p [Posting]) -> Result<BTreeMap<String, Vec<Ann<'p>>>, TErr> {
        let mut g: BTreeMap<String, Vec<Ann>> = BTreeMap::new();
        let mut autos: BTreeMap<Option<String>, Ann> = BTreeMap::new();
        let mut unknown = vec![];
        for (idx, p) in posts.iter().enumerate() {
            let cc = p.cost.as_ref().and_then(|c| c.cur.clone());
            let pc = p.price.as_ref().and_then(|c| c.cur.clone());
            let a = Ann { p, idx, cur: p.cur.clone(), cost_cur: cc.clone().or(pc.clone()), price_cur: pc.or(cc) };
            let bucket = a.cost_cur.clone().or_else(|| if p.cost.is_none() && p.price.is_none() { p.cur.clone() } else { None });
            if p.units.is_none() && p.cur.is_none() {
                if autos.contains_key(&bucket) {
                    return at(idx, "ambiguous auto-post");
                }
                autos.insert(bucket, a);
            } else if let Some(b) = bucket {
                g.entry(b).or_default().push(a);
            } else {
                unknown.push(a);
            }
        }
        if unknown.len() == 1 && g.len() == 1 {
            let mut u = unknown.pop().unwrap();
            let b = g.keys().next().unwrap().clone();
            if u.cur.is_none() && u.p.cost.is_none() && u.p.price.is_none() {
                u.cur = Some(b.clone());
            }
            u.cost_cur = u.cost_cur.or(Some(b.clone()));
            u.price_cur = u.price_cur.or(Some(b.clone()));
            g.entry(b).or_default().push(u);
        }
        for u in unknown {
            let pos = (self.inv)(&u.p.acc).unwrap_or_default();
            let uniq = |mut v: Vec<String>| {
                v.sort();
                v.dedup();
                if v.len() == 1 { v.pop() } else { None }
            };
            let held = uniq(pos.iter().map(|p| p.cur.clone()).collect());
            let b = if u.p.cost.is_some() && u.cost_cur.is_none() {
                uniq(pos.iter().filter_map(|p| p.cost.as_ref().map(|c| c.cur.clone())).collect()).or(held)
            } else {
                held
            };
            match b {
                Some(b) => g.entry(b).or_default().push(u),
                None => return at(u.idx, "cannot infer anything"),
            }
        }
        if let Some(a) = autos.remove(&None) {
            if !autos.is_empty() {
                return at(a.idx, "ambiguous auto-post");
            }
            match g.len() {
                0 => return txn("can't determine currency for balancing transaction"),
                1 => g.values_mut().next().unwrap().push(a),
                _ => {
                    let names: Vec<&str> = g.keys().map(|x| x.as_str()).collect();
                    return txn(&format!("can't have auto-post with multiple currencies {}", names.join(",")));
                }
            }
        } else {
            for (b, a) in autos {
                g.entry(b.unwrap()).or_default().push(a);
            }
        }
        Ok(g)
    }

    fn reduce(&self, a: &Ann, pos: &[Pos], method: &str) -> Result<Option<(Interp, Vec<Pos>)>, TErr> {
        let (Some(cur), Some(units), Some(cost)) = (&a.cur, a.p.units.as_ref().map(|u| u.d()), &a.p.cost) else { return Ok(None) };
        if method == "NONE" {
            return Ok(None);
        }
        let opposite = sign(units) != 0 && pos.iter().any(|p| p.cur == *cur && sign(p.units) == -sign(units));
        if !opposite {
            if sign(units) < 0 && !pos.iter().any(|p| p.cur == *cur) {
                return at(a.idx, "no position matches");
            }
            return Ok(None);
        }
        if cost.total.is_some() {
            return exc("reduction with total cost");
        }
        let m: Vec<usize> = (0..pos.len())
            .filter(|&i| {
                pos[i].cur == *cur
                    && pos[i].cost.as_ref().is_some_and(|l| {
                        cost.date.as_ref().is_none_or(|d| *d == l.date)
                            && cost.cur.as_ref().is_none_or(|c| *c == l.cur)
                            && cost.per.as_ref().is_none_or(|p| p.d() == l.per)
                            && (cost.label.is_none() || cost.label == l.label)
                    })
            })
            .collect();
        if m.is_empty() {
            return at(a.idx, "no position matches");
        }
        if m.iter().any(|&i| sign(pos[i].units) == sign(units)) {
            return exc("reduction among lots of both signs");
        }
        let one = |i: usize| -> Result<Option<(Interp, Vec<Pos>)>, TErr> {
            if units.abs() > pos[i].units.abs() {
                return at(a.idx, "not enough lots to reduce");
            }
            let mut v = pos.to_vec();
            v[i].units += units;
            let lot = v[i].cost.clone().unwrap();
            if v[i].units.is_zero() {
                v.remove(i);
            }
            Ok(Some((Interp { idx: a.idx, cur: cur.clone(), units, costs: Some(vec![(units, lot)]), price: None }, v)))
        };
        if m.len() == 1 {
            return one(m[0]);
        }
        let uniq_cur = || {
            let c = &pos[m[0]].cost.as_ref().unwrap().cur;
            m.iter().all(|&i| pos[i].cost.as_ref().unwrap().cur == *c)
        };
        let mut vals: Vec<Decimal> = m.iter().map(|&i| pos[i].units).collect();
        vals.push(units);
        if residual(&vals, cur, self.o).is_none() {
            if !vals.iter().sum::<Decimal>().is_zero() {
                return exc("sell all but for a remainder within tolerance");
            }
            if !uniq_cur() {
                return at(a.idx, "multiple currencies in cost spec matches against inventory");
            }
            let v = (0..pos.len()).filter(|i| !m.contains(i)).map(|i| pos[i].clone()).collect();
            let c = m.iter().map(|&i| (-pos[i].units, pos[i].cost.clone().unwrap())).collect();
            return Ok(Some((Interp { idx: a.idx, cur: cur.clone(), units, costs: Some(c), price: None }, v)));
        }
        match method {
            "FIFO" | "LIFO" | "HIFO" => {
                if units > Decimal::ZERO {
                    return exc("covering several short lots");
                }
                if pos.iter().any(|p| p.cur != *cur) {
                    return exc("ordered reduction in an account with other currencies");
                }
                if !uniq_cur() {
                    return at(a.idx, "multiple currencies in cost spec matches against inventory");
                }
                let mut ord = m.clone();
                if method == "LIFO" {
                    ord.reverse();
                }
                if method == "HIFO" {
                    ord.sort_by(|i, j| pos[*j].cost.as_ref().unwrap().per.cmp(&pos[*i].cost.as_ref().unwrap().per));
                }
                let mut rem = units;
                let mut v = pos.to_vec();
                let mut c = vec![];
                for i in ord {
                    let take = if rem.abs() <= v[i].units.abs() { rem } else { -v[i].units };
                    v[i].units += take;
                    rem -= take;
                    c.push((take, v[i].cost.clone().unwrap()));
                    if rem.is_zero() {
                        break;
                    }
                }
                if !rem.is_zero() {
                    return at(a.idx, "not enough lots to reduce");
                }
                v.retain(|p| !p.units.is_zero());
                Ok(Some((Interp { idx: a.idx, cur: cur.clone(), units, costs: Some(c), price: None }, v)))
            }
            "STRICT_WITH_SIZE" => {
                let mut w: Vec<usize> = m.into_iter().filter(|&i| pos[i].units == -units).collect();
                w.sort_by(|i, j| pos[*i].cost.as_ref().unwrap().date.cmp(&pos[*j].cost.as_ref().unwrap().date));
                match w.first() {
                    Some(&i) => one(i),
                    None => at(a.idx, "ambiguous matches"),
                }
            }
            _ => at(a.idx, "ambiguous matches"),
        }
    }

    fn interpolate(&self, a: &Ann, group: &str, w: Decimal) -> Result<Interp, TErr> {
        let (cost, price) = (&a.p.cost, &a.p.price);
        if cost.is_none() && price.is_none() {
            return Ok(Interp { idx: a.idx, cur: group.into(), units: w, costs: None, price: None });
        }
        let (per, total) = match (cost, price) {
            (Some(c), _) => (c.per.as_ref().map(|x| x.d()), c.total.as_ref().map(|x| x.d())),
            (_, Some(p)) if p.total => (None, p.num.as_ref().map(|x| x.d())),
            (_, Some(p)) => (p.num.as_ref().map(|x| x.d()), None),
            _ => unreachable!(),
        };
        let units = a.p.units.as_ref().map(|u| u.d());
        if per.is_some() && total.is_some() {
            return exc("compound cost");
        }
        if total.is_some() && units.is_some_and(|u| sign(u) < 0) {
            return exc("total cost or price of negative units");
        }
        // units and (per unit, total)
        let r: Option<(Decimal, Option<(Decimal, Decimal)>)> = match (units, per, total) {
            (Some(u), Some(p), t) => Some((u, Some((p, t.unwrap_or(u * p))))),
            (None, Some(p), t) => w.checked_div(p).map(|u| {
                let u = rescale(u, w.scale());
                (u, Some((p, t.unwrap_or(u * p))))
            }),
            (Some(u), None, t) => {
                let t = t.unwrap_or(w);
                Some((u, t.checked_div(u).map(|p| (p.abs(), t))))
            }
            (None, None, _) => None,
        };
        match (r, &a.cur) {
            (Some((u, conv)), Some(cur)) => {
                if let Some(c) = cost {
                    match (&a.cost_cur, conv) {
                        (Some(cc), Some((p, t))) => Ok(Interp {
                            idx: a.idx,
                            cur: cur.clone(),
                            units: u,
                            costs: Some(vec![(
                                u,
                                Lot {
                                    date: c.date.clone().unwrap_or(self.date.into()),
                                    cur: cc.clone(),
                                    per: p,
                                    total: t,
                                    label: c.label.clone(),
                                    merge: c.merge,
                                },
                            )]),
                            price: None,
                        }),
                        (None, Some(_)) => at(a.idx, "cannot infer currency"),
                        (Some(_), None) => at(a.idx, "cannot infer units"),
                        (None, None) => at(a.idx, "cannot infer anything"),
                    }
                } else {
                    match (conv, &a.price_cur) {
                        (Some((p, t)), Some(pc)) => {
                            Ok(Interp { idx: a.idx, cur: cur.clone(), units: u, costs: None, price: Some((p, Some(t), pc.clone())) })
                        }
                        (None, Some(_)) => at(a.idx, "cannot infer price per-unit"),
                        (Some(_), None) => at(a.idx, "cannot infer price currency"),
                        (None, None) => at(a.idx, "cannot infer price"),
                    }
                }
            }
            (None, Some(_)) => at(a.idx, "cannot infer units"),
            (Some(_), None) => at(a.idx, "cannot infer currency"),
            (None, None) => at(a.idx, "cannot infer anything"),
        }
    }

    #[allow(clippy::type_complexity)]
    fn in_order(&self, groups: &[(&String, &Vec<Ann>)]) -> Result<(Vec<Interp>, Inv), TErr> {
        let mut upd: Inv = BTreeMap::new();
        let mut out: Vec<Interp> = vec![];
        let mut res: Vec<(String, Decimal)> = vec![];
        for (cur, anns) in groups {
            let look = |upd: &Inv, acc: &str| upd.get(acc).cloned().or_else(|| (self.inv)(acc));
            let mut booked: Vec<Option<Interp>> = vec![];
            for a in anns.iter() {
                let pos = look(&upd, &a.p.acc);
                let r = match pos {
                    Some(p) => self.reduce(a, &p, &(self.method)(&a.p.acc))?,
                    None => None,
                };
                if let Some((i, v)) = r {
                    upd.insert(a.p.acc.clone(), v);
                    booked.push(Some(i));
                } else {
                    booked.push(None);
                }
            }
            let weights: Vec<Option<Decimal>> = anns
                .iter()
                .zip(&booked)
                .map(|(a, b)| match b {
                    Some(i) => Some(i.costs.as_ref().unwrap().iter().map(|(u, l)| weight(*u, l.per)).sum()),
                    None => {
                        let u = a.p.units.as_ref().map(|x| x.d());
                        if let Some(c) = &a.p.cost {
                            match (&c.total, &c.per, u) {
                                (Some(t), _, _) => Some(t.d()),
                                (None, Some(p), Some(u)) => Some(weight(u, p.d())),
                                _ => None,
                            }
                        } else if let Some(p) = &a.p.price {
                            match (p.total, &p.num, u) {
                                (true, Some(t), _) => Some(t.d()),
                                (false, Some(p), Some(u)) => Some(weight(u, p.d())),
                                _ => None,
                            }
                        } else {
                            u
                        }
                    }
                })
                .collect();
            let known: Vec<Decimal> = weights.iter().flatten().copied().collect();
            let mut r = residual(&known, cur, self.o);
            let missing = weights.iter().filter(|w| w.is_none()).count();
            if missing > 1 {
                return txn("too many missing numbers for interpolation");
            }
            let fill = -r.unwrap_or_default();
            if missing == 1 {
                r = None;
            }
            if let Some(r) = r {
                res.push((cur.to_string(), r));
            }
            let mut fresh = vec![];
            for ((a, b), w) in anns.iter().zip(booked).zip(weights) {
                match b {
                    Some(i) => out.push(i),
                    None => {
                        let i = self.interpolate(a, cur, w.unwrap_or(fill))?;
                        fresh.push((a.p.acc.clone(), i.clone()));
                        out.push(i);
                    }
                }
            }
            for (acc, i) in fresh {
                let m = (self.method)(&acc);
                let mut v = look(&upd, &acc).unwrap_or_default();
                match &i.costs {
                    Some(cs) => {
                        for (_, l) in cs {
                            accumulate(&mut v, Pos { cur: i.cur.clone(), units: i.units, cost: Some(l.clone()) }, &m);
                        }
                    }
                    None => accumulate(&mut v, Pos { cur: i.cur.clone(), units: i.units, cost: None }, &m),
                }
                upd.insert(acc, v);
            }
        }
        if !res.is_empty() {
            res.sort();
            let t: Vec<String> = res.iter().map(|(c, r)| format!("{} {}", -*r, c)).collect();
            return txn(&format!("unbalanced transaction with residual {}", t.join(", ")));
        }
        out.sort_by_key(|i| i.idx);
        Ok((out, upd))
    }

    fn book(&self, posts: &[Posting]) -> Result<(Vec<Interp>, Inv), TErr> {
        let g = self.groups(posts)?;
        let v: Vec<(&String, &Vec<Ann>)> = g.iter().collect();
        if v.len() > 4 {
            return exc("many currencies");
        }
        let mut first: Option<Result<(Vec<Interp>, Inv), TErr>> = None;
        for perm in permutations(v.len()) {
            let w: Vec<_> = perm.iter().map(|&i| v[i]).collect();
            let r = self.in_order(&w);
            if let Err(TErr::Excluded(x)) = r {
                return Err(TErr::Excluded(x));
            }
            match &first {
                None => first = Some(r),
                Some(f) if *f == r => {}
                _ => return exc("depends on the order of currencies"),
            }
        }
        first.unwrap_or(Ok((vec![], BTreeMap::new())))
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

#[derive(Clone, Debug, Default)]
struct Acct {
    allowed: Vec<String>,
    pos: Vec<Pos>,
    opened: usize,
    method: String,
    /// index among booked directives, index of directive, source
    pad: Option<(usize, usize, String)>,
    /// booked directives before the last assertion, and its amount and currency
    last: Option<(usize, Decimal, String)>,
}

fn within(base: &str, acc: &str) -> bool {
    acc == base || (acc.starts_with(base) && acc.as_bytes()[base.len()] == b':')
}

#[derive(Clone)]
pub struct Model<'a> {
    o: &'a Opts,
    acc: BTreeMap<String, Acct>,
    open: BTreeMap<String, usize>,
    closed: BTreeMap<String, usize>,
    default: String,
    pub errs: Vec<MErr>,
    pub out: Vec<BDct>,
}

fn err(dct: usize, posting: Option<usize>, reason: impl Into<String>, related: Vec<usize>) -> MErr {
    MErr { dct, posting, reason: reason.into(), related, annotation: None }
}

fn supported(m: &str) -> String {
    if m == "AVERAGE" { "STRICT".into() } else { m.into() }
}

impl<'a> Model<'a> {
    pub fn new(o: &'a Opts) -> Model<'a> {
        let default = supported(o.booking().unwrap_or("STRICT"));
        Model { o, acc: BTreeMap::new(), open: BTreeMap::new(), closed: BTreeMap::new(), default, errs: vec![], out: vec![] }
    }
    pub fn open_accounts(&self, cur: Option<&str>) -> Vec<String> {
        self.open.keys().filter(|a| cur.is_none_or(|c| self.acc[*a].allowed.is_empty() || self.acc[*a].allowed.iter().any(|x| x == c))).cloned().collect()
    }
    pub fn knows(&self, a: &str) -> bool {
        self.open.contains_key(a) || self.closed.contains_key(a)
    }
    pub fn lots(&self) -> Vec<(String, Pos)> {
        self.acc.iter().flat_map(|(a, x)| x.pos.iter().filter(|p| p.cost.is_some()).map(|p| (a.clone(), p.clone()))).collect()
    }
    pub fn padded(&self) -> Vec<String> {
        self.acc.iter().filter(|(_, x)| x.pad.is_some()).map(|(a, _)| a.clone()).collect()
    }
    pub fn rollup(&self, acc: &str, cur: &str) -> Decimal {
        self.acc.iter().filter(|(a, _)| within(acc, a)).flat_map(|(_, x)| &x.pos).filter(|p| p.cur == cur).map(|p| p.units).sum()
    }
    pub fn some_currency(&self, acc: &str, r: &mut crate::rng::Rng) -> Option<String> {
        let v: Vec<String> = self.acc.iter().filter(|(a, _)| within(acc, a)).flat_map(|(_, x)| &x.pos).map(|p| p.cur.clone()).collect();
        if v.is_empty() { None } else { Some(r.pick(&v).clone()) }
    }
    fn usable(&self, acc: &str, cur: Option<&str>, dct: usize, posting: Option<usize>) -> Result<(), MErr> {
        if !self.open.contains_key(acc) {
            return Err(match self.closed.get(acc) {
                Some(c) => err(dct, posting, "account was closed", vec![*c]),
                None => err(dct, posting, "account not open", vec![]),
            });
        }
        let a = &self.acc[acc];
        if let Some(c) = cur {
            if !a.allowed.is_empty() && !a.allowed.iter().any(|x| x == c) {
                return Err(err(dct, posting, "currency incompatible with account", vec![a.opened]));
            }
        }
        Ok(())
    }

    fn adjust(&mut self, acc: &str, cur: &str, by: Decimal) {
        accumulate(&mut self.acc.get_mut(acc).unwrap().pos, Pos { cur: cur.into(), units: by, cost: None }, "STRICT");
    }

    fn transaction(&mut self, i: usize, d: &Dct, posts: &[Posting]) -> Result<Result<(), MErr>, String> {
        let r = {
            let inv = |a: &str| self.acc.get(a).map(|x| x.pos.clone());
            let method = |a: &str| self.acc.get(a).map(|x| x.method.clone()).unwrap_or(self.default.clone());
            TxnBook { date: &d.date, o: self.o, inv: &inv, method: &method }.book(posts)
        };
        let (ints, upd) = match r {
            Ok(x) => x,
            Err(TErr::Reason(x)) => return Ok(Err(err(i, None, x, vec![]))),
            Err(TErr::Excluded(x)) => return Err(x),
        };
        for (k, x) in ints.iter().enumerate() {
            if let Err(e) = self.usable(&posts[k].acc, Some(&x.cur), i, Some(k)) {
                return Ok(Err(e));
            }
        }
        let mut bp = vec![];
        for (k, x) in ints.into_iter().enumerate() {
            let p = &posts[k];
            let mut one = |units, cost, price| {
                bp.push(BPost {
                    idx: Some(k),
                    flag: p.flag.clone(),
                    acc: p.acc.clone(),
                    units,
                    cur: x.cur.clone(),
                    cost,
                    price,
                    from: Some(p.clone()),
                })
            };
            match x.costs {
                Some(cs) => cs.into_iter().for_each(|(u, l)| one(u, Some(l), None)),
                None => one(x.units, None, x.price),
            }
        }
        for (a, v) in upd {
            self.acc.get_mut(&a).unwrap().pos = v;
        }
        self.out.push(BDct { idx: i, postings: Some(bp), pad_txn: false });
        Ok(Ok(()))
    }

    fn balance(&mut self, i: usize, all: &[&Dct], acc: &str, num: &Num, tol: &Option<Num>, cur: &str) -> Result<Result<(), MErr>, String> {
        let want = num.d();
        let tol = match tol {
            Some(t) => t.d(),
            None if want.scale() > 0 => Decimal::new(1, want.scale()) * self.o.multiplier().unwrap_or(Decimal::new(5, 1)) * Decimal::TWO,
            None => Decimal::ZERO,
        };
        // an active pad whose eventual transaction this assertion ought to see, but cannot
        for (p, x) in &self.acc {
            if let Some((_, _, src)) = &x.pad {
                if (p != acc && within(acc, p)) || within(acc, src) {
                    return Err("assertion on the source or a parent of a padded account before the pad is used".into());
                }
            }
        }
        let have = self.rollup(acc, cur);
        let margin = want - have;
        let margin = (margin.abs() > tol).then_some(margin);
        if let Err(e) = self.usable(acc, Some(cur), i, None) {
            return Ok(Err(e));
        }
        let here = self.out.len();
        let a = self.acc.get_mut(acc).unwrap();
        let pad = a.pad.take();
        let last = a.last.replace((here, want, cur.to_string()));
        match (margin, pad) {
            (None, None) => {}
            (None, Some((_, p, _))) => self.errs.push(err(p, None, "unused, no balance adjustment required", vec![])),
            (Some(m), pad) => {
                let mut pad = pad;
                if let Some((_, p, src)) = &pad {
                    if *src == acc {
                        return Err("account padded from itself".into());
                    }
                    let s = &self.acc[src];
                    if !s.allowed.is_empty() && !s.allowed.iter().any(|c| c == cur) {
                        let e = err(*p, None, "currency incompatible with account", vec![s.opened]);
                        self.errs.push(e);
                        pad = None;
                    }
                }
                self.adjust(acc, cur, m);
                match pad {
                    Some((at, _, src)) => {
                        let post = |acc: &str, units| BPost {
                            idx: None,
                            flag: Some("'P".into()),
                            acc: acc.into(),
                            units,
                            cur: cur.into(),
                            cost: None,
                            price: None,
                            from: None,
                        };
                        self.out[at + 1].postings = Some(vec![post(acc, m), post(&src, -m)]);
                        self.adjust(&src, cur, -m);
                    }
                    None => {
                        let (start, mut total) = match &last {
                            Some((at, u, c)) => (*at, if c == cur { *u } else { Decimal::ZERO }),
                            None => (0, Decimal::ZERO),
                        };
                        let mut rows = vec![];
                        let mut accs: Vec<&str> = vec![];
                        for b in &self.out[start..here] {
                            let d = all[b.idx];
                            for p in b.postings.iter().flatten() {
                                if within(acc, &p.acc) && p.cur == cur {
                                    total += p.units;
                                    let desc = match &d.body {
                                        Body::Txn { payee, narration, .. } if !b.pad_txn => {
                                            let f = |x: &Option<String>| x.clone().filter(|x| !x.is_empty());
                                            f(payee).or(f(narration)).unwrap_or_default()
                                        }
                                        _ => String::new(),
                                    };
                                    accs.push(&p.acc);
                                    rows.push((d.date.clone(), p.acc[acc.len()..].to_string(), p.units, total, desc));
                                }
                            }
                        }
                        accs.sort();
                        accs.dedup();
                        let ann = rows
                            .iter()
                            .flat_map(|(d, a, u, t, x)| {
                                let l = format!("{d} {} {u} {t} {x}", if accs.len() > 1 { a } else { "" });
                                l.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| !l.is_empty()).collect::<Vec<_>>()
                            })
                            .collect();
                        let mut e = err(i, None, format!("accumulated {total}, error {m} {cur}"), vec![]);
                        e.annotation = Some(ann);
                        self.errs.push(e);
                    }
                }
            }
        }
        self.out.push(BDct { idx: i, postings: None, pad_txn: false });
        Ok(Ok(()))
    }

    pub fn one(&mut self, i: usize, all: &[&Dct]) -> Result<Result<(), MErr>, String> {
        let d = all[i];
        match &d.body {
            Body::Txn { postings, .. } => return self.transaction(i, d, postings),
            Body::Balance { acc, num, tol, cur } => return self.balance(i, all, acc, num, tol, cur),
            Body::Open { acc, curs, booking } => {
                if let Some(o) = self.open.get(acc) {
                    return Ok(Err(err(i, None, "account already opened", vec![*o])));
                }
                if let Some(c) = self.closed.get(acc) {
                    return Ok(Err(err(i, None, "account was closed", vec![*c])));
                }
                self.open.insert(acc.clone(), i);
                let method = supported(booking.as_deref().unwrap_or(&self.default));
                self.acc.insert(acc.clone(), Acct { allowed: curs.clone(), opened: i, method, ..Default::default() });
            }
            Body::Close { acc } => {
                if self.open.remove(acc).is_none() {
                    return Ok(Err(match self.closed.get(acc) {
                        Some(c) => err(i, None, "account was already closed", vec![*c]),
                        None => err(i, None, "account not open", vec![]),
                    }));
                }
                self.closed.insert(acc.clone(), i);
            }
            Body::Pad { acc, source } => {
                for a in [acc, source] {
                    if let Err(e) = self.usable(a, None, i, None) {
                        return Ok(Err(e));
                    }
                }
                let at = self.out.len();
                if let Some((_, p, _)) = self.acc.get_mut(acc).unwrap().pad.replace((at, i, source.clone())) {
                    self.errs.push(err(p, None, "unused, second pad encountered", vec![i]));
                }
                self.out.push(BDct { idx: i, postings: None, pad_txn: false });
                self.out.push(BDct { idx: i, postings: Some(vec![]), pad_txn: true });
                return Ok(Ok(()));
            }
            _ => {}
        }
        self.out.push(BDct { idx: i, postings: None, pad_txn: false });
        Ok(Ok(()))
    }
}

pub fn book(all: &[&Dct], o: &Opts) -> Outcome {
    let mut m = Model::new(o);
    for i in 0..all.len() {
        match m.one(i, all) {
            Err(x) => return Outcome::Excluded(x),
            Ok(Err(e)) => m.errs.push(e),
            Ok(Ok(())) => {}
        }
    }
    let mut left: Vec<usize> = m.acc.values().filter_map(|a| a.pad.as_ref().map(|p| p.1)).collect();
    left.sort();
    for p in left {
        m.errs.push(err(p, None, "unused, no balance directive", vec![]));
    }
    if m.errs.is_empty() { Outcome::Booked(m.out) } else { Outcome::Errors(m.errs) }
}

fn lot_json(l: &Lot) -> J {
    let mut o = vec![
        ("date".to_string(), s(l.date.clone())),
        ("per-unit".into(), n(l.per)),
        ("total".into(), n(l.total)),
        ("cur".into(), s(l.cur.clone())),
    ];
    if let Some(x) = &l.label {
        o.push(("label".into(), s(x.clone())));
    }
    if l.merge {
        o.push(("merge".into(), J::Bool(true)));
    }
    J::Obj(o)
}

pub fn posting_json(p: &BPost) -> J {
    let mut o: Vec<(String, J)> = vec![];
    if let Some(i) = p.idx {
        o.push(("idx".into(), n(i)));
    }
    if let Some(f) = &p.flag {
        o.push(("flag".into(), flag_json(f)));
    }
    o.push(("acc".into(), s(p.acc.clone())));
    o.push(("units".into(), n(p.units)));
    o.push(("cur".into(), s(p.cur.clone())));
    if let Some(l) = &p.cost {
        o.push(("cost".into(), lot_json(l)));
    }
    if let Some((per, t, c)) = &p.price {
        let mut k = vec![("per-unit".to_string(), n(per))];
        if let Some(t) = t {
            k.push(("total".into(), n(t)));
        }
        k.push(("cur".into(), s(c.clone())));
        o.push(("price".into(), J::Obj(k)));
    }
    if let Some(f) = &p.from {
        tags_links_meta(&mut o, f.tags.clone(), f.links.clone(), &f.meta);
    }
    J::Obj(o)
}

/// the booked directive as the server must return it
pub fn booked_json(b: &BDct, d: &Dct) -> J {
    let mut o = vec![("idx".to_string(), n(b.idx))];
    o.extend(dct_head(d));
    if b.pad_txn {
        o.push(("dct".into(), s("txn")));
        o.push(("flag".into(), s("'P")));
    } else {
        o.extend(dct_body(d));
    }
    if let Some(p) = &b.postings {
        o.push(("postings".into(), J::Arr(p.iter().map(posting_json).collect())));
    }
    J::Obj(o)
}
