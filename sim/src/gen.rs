//! Generation of ledgers.  The model is carried along, so that what is generated is meaningful in the state it meets
//! (held lots, amounts really in an account, tolerances met exactly or just missed ...).
use crate::ast::*;
use crate::book::{Model, Outcome};
use crate::parse::{self, Opts};
use crate::rng::Rng;
use rust_decimal::Decimal;
use std::str::FromStr;

/// what to generate, as weights and percentages
#[derive(Clone, Debug)]
pub struct Cfg {
    pub days: usize,
    pub per_day: usize,
    /// simple, elided, price, buy, sell, balance, pad, open/close, other directives, wild transactions
    pub w: [u32; 10],
    /// chance to keep a directive at fault
    pub keep_err: u32,
    /// metadata, tags, links, flags, strings
    pub rich: u32,
    pub files: usize,
    pub opts: u32,
    pub book_opts: u32,
    pub plugins: u32,
    pub push: u32,
    /// several currencies
    pub curs: usize,
    pub methods: bool,
    /// percentage of opens restricted to some currencies
    pub restrict: u32,
    pub nums: u32,
    pub shuffle: u32,
    /// out of range tags, strings beyond ASCII
    pub uni: u32,
    /// chance of something far beyond the usual sizes
    pub big: u32,
}

/// what is beyond the usual sizes
#[derive(Clone, Copy, PartialEq, Debug)]
enum Big {
    No,
    /// long ago, or in the far future
    Dates,
    /// accounts of many components
    Deep,
    /// transactions of many postings
    Postings,
    /// strings and remarks of thousands of characters
    Texts,
    /// thousands of lines
    Lines,
    Plugins,
    Currencies,
    Metas,
    /// many directives
    Long,
    /// amounts of many digits
    Digits,
}

pub const SIMPLE: usize = 0;
pub const ELIDED: usize = 1;
pub const PRICE: usize = 2;
pub const BUY: usize = 3;
pub const SELL: usize = 4;
pub const BALANCE: usize = 5;
pub const PAD: usize = 6;
pub const LIFE: usize = 7;
pub const OTHER: usize = 8;
pub const WILD: usize = 9;

impl Cfg {
    pub fn mixed() -> Cfg {
        Cfg {
            days: 6,
            per_day: 3,
            w: [4, 4, 2, 3, 3, 3, 2, 1, 3, 1],
            keep_err: 30,
            rich: 30,
            files: 3,
            opts: 30,
            book_opts: 30,
            plugins: 30,
            push: 20,
            curs: 4,
            methods: true,
            restrict: 30,
            nums: 25,
            shuffle: 30,
            uni: 25,
            big: 8,
        }
    }
}

const CURS: &[&str] = &["NZD", "USD", "EUR", "GBP", "STK", "AAPL", "X", "CAD-2", "HOOL"];
const ACCS: &[&str] = &[
    "Assets:Bank",
    "Assets:Bank:Cheque",
    "Assets:Bank:Cheque:Joint",
    "Assets:Bank2",
    "Assets:Bank:Saving-1",
    "Assets:Broker",
    "Assets:Broker:Stk",
    "Assets:Cash",
    "Liabilities:Card",
    "Liabilities:Card:Visa",
    "Equity:Opening",
    "Equity:Opening-Balances",
    "Income:Gains",
    "Income:Salary",
    "Expenses:Food",
    "Expenses:Food:Out",
    "Expenses:Food2",
];
const UACCS: &[&str] = &["Assets:Äpfel", "Expenses:Café:Noël", "Assets:Bank:Größe"];

pub struct G<'r> {
    pub r: &'r mut Rng,
    pub c: Cfg,
    pub accs: Vec<String>,
    pub curs: Vec<String>,
    /// root names of accounts as configured
    pub roots: Vec<(String, String)>,
    day: i64,
    big: Big,
}

fn civil(days: i64) -> (i64, u32, u32) {
    // days since 1970-01-01
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

pub fn date(days: i64) -> String {
    let (y, m, d) = civil(days);
    format!("{y:04}-{m:02}-{d:02}")
}

fn group(int: &str) -> String {
    let (neg, d) = match int.strip_prefix('-') {
        Some(x) => ("-", x),
        None => ("", int),
    };
    let mut o = String::new();
    for (i, c) in d.chars().enumerate() {
        if i > 0 && (d.len() - i) % 3 == 0 {
            o.push(',');
        }
        o.push(c);
    }
    format!("{neg}{o}")
}

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, mut c: Cfg) -> G<'r> {
        let mut big = Big::No;
        if r.pct(c.big) {
            use Big::*;
            big = *r.pick(&[Dates, Dates, Deep, Postings, Texts, Lines, Plugins, Currencies, Metas, Long, Digits]);
        }
        match big {
            Big::Long => c.days *= 5,
            Big::Postings => c.w[SIMPLE] += 5,
            Big::Metas => c.rich = 90,
            Big::Plugins => c.plugins = 100,
            Big::Currencies => c.restrict = 70,
            Big::Digits => {
                for k in [PRICE, BUY, SELL, WILD] {
                    c.w[k] = 0;
                }
                c.w[SIMPLE] += 2;
            }
            _ => {}
        }
        let mut accs: Vec<String> = ACCS.iter().map(|x| x.to_string()).collect();
        if r.pct(c.uni) {
            accs.extend(UACCS.iter().map(|x| x.to_string()));
        }
        let mut roots = vec![];
        if r.pct(c.opts / 2) {
            for (k, d, v) in [("assets", "Assets", "Vermögen"), ("expenses", "Expenses", "Aus-Gaben"), ("income", "Income", "In")] {
                if r.pct(50) {
                    roots.push((k.to_string(), v.to_string()));
                    for a in accs.iter_mut() {
                        if let Some(rest) = a.strip_prefix(&format!("{d}:")) {
                            *a = format!("{v}:{rest}");
                        }
                    }
                }
            }
        }
        let mut curs: Vec<String> = CURS.iter().map(|x| x.to_string()).collect();
        r.shuffle(&mut curs);
        curs.truncate(c.curs.max(2));
        // a family of related accounts and a few others
        r.shuffle(&mut accs);
        // few accounts have more to do with each other
        let most = if r.pct(25) { 2 + r.below(3) } else { 6 + r.below(5) };
        accs.truncate(most);
        let mut day = 18000 + r.below(800) as i64;
        match big {
            Big::Dates => {
                day = match r.below(6) {
                    0 | 1 => -719_162 + 500 + r.below(360_000) as i64,
                    2 => -10_000 - r.below(300_000) as i64,
                    3 => -(r.below(60) as i64),
                    4 => r.below(12_000) as i64,
                    _ => 30_000 + r.below(2_800_000) as i64,
                }
            }
            Big::Deep => {
                let a = accs[0].clone();
                let mut deep = a.clone();
                for i in 0..3 + r.below(9) {
                    deep = format!("{deep}:{}", r.pick(&["Sub", "Q", "Year-20", "X1"]));
                    if r.pct(60) {
                        accs.insert(0, deep.clone());
                    }
                    if r.pct(20) {
                        accs.insert(0, format!("{deep}{i}"));
                    }
                }
                accs.insert(0, deep);
                accs.truncate(9);
                accs.push(a);
                accs.dedup();
            }
            // most of them in one account
            Big::Postings if r.pct(60) => accs.truncate(2 + r.below(2)),
            _ => {}
        }
        G { r, c, accs, curs, roots, day, big }
    }

    pub fn word(&mut self) -> String {
        const W: &[&str] = &["shop", "Rent", "x", "foo-bar", "a_b", "lunch/dinner", "2020", "T.1"];
        self.r.pick(W).to_string()
    }
    pub fn text(&mut self) -> String {
        const T: &[&str] = &[
            "lunch", "Rent & power", "a \"quoted\" word", "back\\slash", "", " padded ", "semi;colon", "#not-a-tag", "2020-01-01 open",
            "{}", "null", "tab\there", "x", "two\nlines", "and\r\na third\nline", "b\u{8}ll", "ÿ end", "C:\\new\\table",
            " ", "  ", "two  spaces", "ends in a stop.", "UPPER", "Inc.", "\ttab", "x\n", "\n\n", "2.0", "1e5", "TRUE", "NULL", "%41", "$HOME", "~/x",
        ];
        const U: &[&str] = &["café", "日本語 text", "Ünïcode", "emoji 🎉 end", "naïve\u{301}"];
        let t = if self.r.pct(self.c.uni) { self.r.pick(U) } else { self.r.pick(T) };
        if self.big == Big::Texts && self.r.pct(25) {
            // thousands of escapes or non-ASCII characters in one string are too much for the parser (known finding)
            let w = *self.r.pick(&["x", "é", "日本", "word"]);
            let plain = t.is_ascii() && w.is_ascii() && !t.contains(['\\', '"', '\n', '\r', '\u{8}']);
            let n = if plain { *self.r.pick(&[300, 1500, 4000, 4090, 8200, 20_000]) } else { *self.r.pick(&[300, 1500, 2000]) };
            return format!("{}{t}", format!("{t} {w} ").repeat(1 + n / (t.len() + 5)));
        }
        t.to_string()
    }
    fn tag(&mut self) -> String {
        self.r.pick(&["trip", "t1", "a-b", "x_y", "work.2020", "q/r"]).to_string()
    }
    fn key(&mut self) -> String {
        self.r.pick(&["key", "k-1", "note_2", "zz", "camelCase", "aa"]).to_string()
    }
    pub fn cur(&mut self) -> String {
        self.r.pick(&self.curs.clone()).clone()
    }
    pub fn acc(&mut self) -> String {
        self.r.pick(&self.accs.clone()).clone()
    }
    /// a number as the user may write it
    pub fn write(&mut self, v: Decimal) -> Num {
        if !self.r.pct(self.c.nums) {
            return Num::plain(v);
        }
        let p = v.to_string();
        match self.r.below(6) {
            0 | 1 => {
                let (i, f) = p.split_once('.').map(|(a, b)| (a.to_string(), format!(".{b}"))).unwrap_or((p.clone(), String::new()));
                Num { t: format!("{}{f}", group(&i)), v: p }
            }
            2 => {
                let a = Decimal::new(self.r.range(1, 500), (v.scale()).min(20));
                let b = v - a;
                if b.is_zero() || v.is_zero() {
                    return Num::plain(v);
                }
                if b.is_sign_negative() { Num { t: format!("{a} - {}", -b), v: (a - (-b)).to_string() } } else { Num { t: format!("{a} + {b}"), v: (a + b).to_string() } }
            }
            3 => {
                let a = Decimal::new(self.r.range(1, 9), 0);
                let x = v * a;
                Num { t: format!("({v}) * {a}"), v: x.to_string() }.only_if(x == v, v)
            }
            4 => Num { t: format!("({p})"), v: p },
            _ if (v + Decimal::ONE).is_zero() => Num::plain(v),
            _ => Num { t: format!("{} - {}", v + Decimal::ONE, 1), v: (v + Decimal::ONE - Decimal::ONE).to_string() },
        }
    }
    pub fn amount(&mut self) -> Decimal {
        if self.big == Big::Digits && self.r.pct(50) {
            let n = 16 + self.r.below(7);
            let t: String = (0..n).map(|_| (b'1' + self.r.below(9) as u8) as char).collect();
            return Decimal::from_i128_with_scale(t.parse().unwrap(), self.r.below(5) as u32);
        }
        let scale = *self.r.pick(&[0u32, 2, 2, 2, 1, 3, 4]);
        let m = match self.r.below(5) {
            0 => self.r.range(1, 9),
            1 => self.r.range(1, 1000),
            _ => self.r.range(1, 200_000),
        };
        Decimal::new(m, (scale).min(20))
    }
    pub fn any_num(&mut self) -> Decimal {
        match self.r.below(9) {
            8 => {
                // many digits
                let n = 1 + self.r.below(25);
                let t: String = (0..n).map(|_| (b'0' + self.r.below(10) as u8) as char).collect();
                let at = self.r.below(n + 1);
                let t = format!("0{}.{}1", &t[..at], &t[at..]);
                let d = Decimal::from_str(&t).unwrap();
                if self.r.pct(30) { -d } else { d }
            }
            0 => Decimal::new(0, self.r.below(4) as u32),
            1 => Decimal::from_str("123456789012345.678901234").unwrap(),
            2 => Decimal::new(self.r.range(1, 99999), 8),
            3 => -self.amount(),
            _ => self.amount(),
        }
    }
    fn meta_value(&mut self) -> Meta {
        match self.r.below(11) {
            0 => {
                let x = self.any_num();
                Meta::Amount(self.write(x), self.cur())
            }
            1 | 2 => Meta::Str(self.text()),
            3 => Meta::Cur(self.cur()),
            4 => Meta::Acc(self.acc()),
            5 => Meta::Tag(self.tag()),
            6 => Meta::Link(self.word().replace(['_'], "-")),
            7 => Meta::Date(date(self.day + self.r.range(-400, 400))),
            8 => Meta::Bool(self.r.pct(50)),
            9 => {
                let x = self.any_num();
                Meta::Num(self.write(x))
            }
            _ => {
                if self.r.pct(50) {
                    Meta::Null
                } else {
                    Meta::Empty
                }
            }
        }
    }
    fn metas(&mut self) -> Vec<(String, Meta)> {
        let mut v: Vec<(String, Meta)> = vec![];
        let most = if self.big == Big::Metas { 24 } else { 4 };
        while self.r.pct(self.c.rich) && v.len() < most {
            let k = if self.big == Big::Metas { format!("k{}", self.r.below(90)) } else { self.key() };
            if !v.iter().any(|(a, _)| *a == k) {
                let m = self.meta_value();
                v.push((k, m));
            }
        }
        v
    }
    fn tags(&mut self, p: u32) -> Vec<String> {
        let mut v = vec![];
        let most = if self.big == Big::Metas { 24 } else { 3 };
        while self.r.pct(if most > 3 { 90 } else { self.c.rich * p / 100 }) && v.len() < most {
            let t = if most > 3 { format!("t{}", self.r.below(90)) } else { self.tag() };
            if !v.contains(&t) {
                v.push(t);
            }
        }
        v
    }
    fn dress(&mut self, d: &mut Dct) {
        d.meta = self.metas();
        d.mtags = self.tags(40);
        d.mlinks = self.tags(40);
        if matches!(d.body, Body::Txn { .. } | Body::Document { .. }) {
            d.tags = self.tags(100);
            d.links = self.tags(80);
            d.mtags.retain(|t| !d.tags.contains(t));
            d.mlinks.retain(|t| !d.links.contains(t));
        }
        if let Body::Txn { postings, .. } = &mut d.body {
            for p in postings {
                if self.r.pct(self.c.rich) {
                    p.meta = self.metas();
                    p.tags = self.tags(60);
                    p.links = self.tags(60);
                    if self.r.pct(40) {
                        p.flag = Some(self.flag(false));
                    }
                }
            }
        }
        if self.r.pct(30) {
            d.style = *self.r.pick(&[1, 2, 4, 6, 8, 3]);
        }
        if self.r.pct(8) {
            d.style |= 16;
        }
        if self.r.pct(6) {
            d.style |= 32;
        }
    }
    fn flag(&mut self, txn: bool) -> String {
        let v: &[&str] = if txn { &["*", "*", "txn", "!", "'P", "#", "&", "?", "%", "'A", "'"] } else { &["*", "!", "&", "#", "?", "%", "'S", "'"] };
        let f = self.r.pick(v).to_string();
        if f == "'" { format!("'{}", (b'A' + self.r.below(26) as u8) as char) } else { f }
    }
    pub fn dct(&mut self, body: Body) -> Dct {
        let mut d =
            Dct { date: date(self.day), body, tags: vec![], links: vec![], mtags: vec![], mlinks: vec![], meta: vec![], style: 0 };
        self.dress(&mut d);
        d
    }
    pub fn txn(&mut self, mut postings: Vec<Posting>) -> Dct {
        if self.r.pct(30) {
            // an elided or inferred amount need not come last
            self.r.shuffle(&mut postings);
        }
        let flag = if self.r.pct(self.c.rich) { self.flag(true) } else { "*".into() };
        let (payee, narration) = match self.r.below(5) {
            0 => (None, None),
            1 => (Some(self.text()), None),
            2 => (Some(self.text()), Some(self.text())),
            _ => (None, Some(self.text())),
        };
        self.dct(Body::Txn { flag, payee, narration, postings })
    }

    /// an account which is open and permits the currency, if there is one
    fn usable(&mut self, m: &Model, cur: Option<&str>) -> String {
        let v = m.open_accounts(cur);
        if v.is_empty() || self.r.pct(self.c.keep_err / 8) { self.acc() } else { self.r.pick(&v).clone() }
    }

    fn off(&mut self, scale: u32) -> Decimal {
        // deviations around the tolerance of half a unit in the last place
        match self.r.below(6) {
            0 => Decimal::new(5, (scale + 1).min(20)),
            1 => Decimal::new(49, (scale + 2).min(20)),
            2 => Decimal::new(51, (scale + 2).min(20)),
            3 => Decimal::new(1, (scale).min(20)),
            4 => Decimal::new(2, (scale).min(20)),
            _ => self.amount(),
        }
    }

    fn simple(&mut self, m: &Model) -> Dct {
        let mut ps = vec![];
        for _ in 0..if self.r.pct(15) { 2 } else { 1 } {
            let cur = self.cur();
            let mut n = 1 + self.r.below(3);
            if self.big == Big::Postings && self.r.pct(40) {
                n = 8 + self.r.below(40);
            }
            let mut sum = Decimal::ZERO;
            for _ in 0..n {
                let a = self.amount();
                let a = if self.r.pct(30) { -a } else { a };
                sum += a;
                let acc = self.usable(m, Some(&cur));
                ps.push(Posting { acc, units: Some(self.write(a)), cur: Some(cur.clone()), ..Default::default() });
            }
            let mut last = -sum;
            if self.r.pct(self.c.keep_err / 2) {
                let o = self.off(sum.scale().max(1));
                last += if self.r.pct(50) { o } else { -o };
            }
            let acc = self.usable(m, Some(&cur));
            ps.push(Posting { acc, units: Some(self.write(last)), cur: Some(cur), ..Default::default() });
        }
        self.txn(ps)
    }

    fn elided(&mut self, m: &Model) -> Dct {
        let mut d = self.simple(m);
        if let Body::Txn { postings, .. } = &mut d.body {
            let i = self.r.below(postings.len());
            let p = &mut postings[i];
            match self.r.below(4) {
                0 => p.cur = None,
                1 => p.units = None,
                _ => {
                    p.units = None;
                    p.cur = None;
                }
            }
        }
        d
    }

    fn price(&mut self, m: &Model) -> Dct {
        let (a, b) = (self.cur(), self.cur());
        let n = self.amount();
        let per = self.amount();
        let total = self.r.pct(30);
        let n = if !total && self.r.pct(30) { -n } else { n };
        let w = if total { per } else { crate::book::weight(n, per) };
        let (x, y) = (self.usable(m, Some(&a)), self.usable(m, Some(&b)));
        let mut p1 = Posting {
            acc: x,
            units: Some(self.write(n)),
            cur: Some(a),
            price: Some(Price { total, num: Some(self.write(per)), cur: Some(b.clone()) }),
            ..Default::default()
        };
        let mut p2 = Posting { acc: y, units: Some(self.write(-w)), cur: Some(b), ..Default::default() };
        match self.r.below(9) {
            0 | 1 => {
                p2.units = None;
                p2.cur = None;
            }
            2 => p1.price.as_mut().unwrap().num = None,
            3 => p1.price.as_mut().unwrap().cur = None,
            4 => {
                p1.price.as_mut().unwrap().num = None;
                p1.price.as_mut().unwrap().cur = None;
            }
            5 if !total => p1.units = None,
            6 => p2.cur = None,
            _ => {}
        }
        self.txn(vec![p1, p2])
    }

    fn buy(&mut self, m: &Model) -> Dct {
        let a = self.cur();
        let b = {
            let mut b = self.cur();
            while b == a {
                b = self.cur();
            }
            b
        };
        // few sizes, prices and dates, so that lots coincide and specifications are ambiguous
        let n = Decimal::new(*self.r.pick(&[5, 10, 10, 20, 7, 150]), *self.r.pick(&[0, 0, 1]));
        let per = Decimal::new(*self.r.pick(&[100, 110, 110, 120, 250]), *self.r.pick(&[2, 1, 1]));
        let acc = self.usable(m, Some(&a));
        let cash = self.usable(m, Some(&b));
        let held = m.lots();
        let (a, b, acc, cash) = if self.r.pct(35) && !held.is_empty() {
            // one more lot of what is held
            let (acc, pos) = self.r.pick(&held).clone();
            let b = pos.cost.unwrap().cur;
            let cash = self.usable(m, Some(&b));
            (pos.cur, b, acc, cash)
        } else {
            (a, b, acc, cash)
        };
        let mut c = Cost { per: Some(self.write(per)), cur: Some(b.clone()), ..Default::default() };
        if self.r.pct(30) {
            c.date = Some(date(self.day - self.r.range(0, 3)));
        }
        if self.r.pct(25) {
            c.label = Some(self.r.pick(&["lot-a", "lot b", "é", ""]).to_string());
        }
        if self.r.pct(5) {
            c.merge = true;
        }
        let mut w = crate::book::weight(n, per);
        if self.r.pct(15) {
            c.total = c.per.take();
            w = per;
        }
        let mut p1 = Posting { acc, units: Some(self.write(n)), cur: Some(a), cost: Some(c), ..Default::default() };
        let mut p2 = Posting { acc: cash, units: Some(self.write(-w)), cur: Some(b.clone()), ..Default::default() };
        match self.r.below(10) {
            0..=2 => {
                p2.units = None;
                p2.cur = None;
            }
            3 => {
                let c = p1.cost.as_mut().unwrap();
                c.per = None;
                c.total = None;
            }
            4 => p1.cost.as_mut().unwrap().cur = None,
            5 if p1.cost.as_ref().unwrap().per.is_some() => p1.units = None,
            6 => p1.price = Some(Price { total: false, num: Some(Num::plain(per)), cur: Some(b) }),
            _ => {}
        }
        self.txn(vec![p1, p2])
    }

    fn sell(&mut self, m: &Model) -> Dct {
        let held = m.lots();
        if held.is_empty() {
            return self.buy(m);
        }
        let (mut acc, mut pos) = self.r.pick(&held).clone();
        for _ in 0..4 {
            // rather where there is a choice
            if held.iter().filter(|(a, p)| *a == acc && p.cur == pos.cur).count() > 1 {
                break;
            }
            (acc, pos) = self.r.pick(&held).clone();
        }
        let lot = pos.cost.clone().unwrap();
        let all: Decimal = held.iter().filter(|(a, p)| *a == acc && p.cur == pos.cur).map(|(_, p)| p.units).sum();
        let n = match self.r.below(8) {
            0 | 1 => pos.units,
            2 => all,
            3 => pos.units + Decimal::ONE,
            4 => all + Decimal::ONE,
            5 => Decimal::new(self.r.range(1, 4), 0),
            6 => all - Decimal::ONE,
            _ => pos.units - Decimal::new(1, (pos.units.scale()).min(20)),
        };
        let mut c = Cost::default();
        let k = if self.r.pct(30) { 0 } else { self.r.below(16) };
        if k & 1 != 0 {
            c.per = Some(Num::plain(lot.per));
            if self.r.pct(70) {
                c.cur = Some(lot.cur.clone());
            }
        }
        if k & 2 != 0 {
            c.date = Some(lot.date.clone());
        }
        if k & 4 != 0 && lot.label.is_some() {
            c.label = lot.label.clone();
        }
        if self.r.pct(5) {
            c.per = Some(Num::plain(lot.per + Decimal::ONE));
        }
        if k == 8 {
            c.cur = Some(lot.cur.clone());
        }
        let mut ps = vec![Posting { acc: acc.clone(), units: Some(self.write(-n)), cur: Some(pos.cur.clone()), cost: Some(c), ..Default::default() }];
        if self.r.pct(30) {
            ps[0].price = Some(Price { total: false, num: Some(Num::plain(Decimal::new(130, 1))), cur: Some(lot.cur.clone()) });
        }
        if self.r.pct(25) {
            // a second reduction in the same transaction
            let (acc2, pos2) = self.r.pick(&held).clone();
            let l2 = pos2.cost.clone().unwrap();
            if l2.cur == lot.cur {
                ps.push(Posting {
                    acc: acc2,
                    units: Some(Num::plain(-Decimal::new(self.r.range(1, 5), 0))),
                    cur: Some(pos2.cur),
                    cost: Some(Cost { date: Some(l2.date), per: Some(Num::plain(l2.per)), cur: Some(l2.cur), ..Default::default() }),
                    ..Default::default()
                });
            }
        }
        let x = self.amount();
        let cash = self.usable(m, Some(&lot.cur));
        ps.push(Posting { acc: cash, units: Some(self.write(x)), cur: Some(lot.cur.clone()), ..Default::default() });
        if self.r.pct(20) {
            // buy again in the same transaction
            ps.push(Posting {
                acc: acc.clone(),
                units: Some(Num::plain(Decimal::new(5, 0))),
                cur: Some(pos.cur.clone()),
                cost: Some(Cost { per: Some(Num::plain(Decimal::new(100, 1))), cur: Some(lot.cur.clone()), ..Default::default() }),
                ..Default::default()
            });
        }
        let gains = self.usable(m, Some(&lot.cur));
        ps.push(Posting { acc: gains, ..Default::default() });
        self.txn(ps)
    }

    fn balance(&mut self, m: &Model) -> Dct {
        let cur = self.cur();
        let acc = self.usable(m, Some(&cur));
        let cur = if self.r.pct(70) { m.some_currency(&acc, self.r).unwrap_or(cur) } else { cur };
        let have = m.rollup(&acc, &cur);
        let mut want = have;
        let mut tol = None;
        // write it at some precision
        if self.r.pct(40) {
            want.rescale(*self.r.pick(&[0u32, 1, 2, 3]));
        }
        if self.r.pct(25) {
            let t = match self.r.below(4) {
                0 => Decimal::ZERO,
                1 => Decimal::new(self.r.range(1, 20), 2),
                2 => Decimal::new(5, (want.scale() + 1).min(20)),
                _ => Decimal::new(self.r.range(1, 3), 0),
            };
            tol = Some(t);
            if self.r.pct(60) {
                // at the very edge, or just beyond it
                let e = match self.r.below(3) {
                    0 => t,
                    1 => t + Decimal::new(1, (t.scale() + 1).min(20)),
                    _ => t - Decimal::new(1, (t.scale() + 1).min(20)),
                };
                want = have + if self.r.pct(50) { e } else { -e };
            }
        } else if self.r.pct(self.c.keep_err) {
            let s = want.scale();
            let e = match self.r.below(6) {
                0 => Decimal::new(1, (s).min(20)),
                1 => Decimal::new(2, (s).min(20)),
                2 => Decimal::new(11, (s + 1).min(20)),
                3 => Decimal::new(9, (s + 1).min(20)),
                _ => self.amount(),
            };
            want += if self.r.pct(50) { e } else { -e };
        }
        let tol = tol.map(|t: Decimal| if t.is_sign_negative() { Num::plain(-t) } else { Num::plain(t) });
        let num = self.write(want);
        self.dct(Body::Balance { acc, num, tol, cur })
    }

    fn pad(&mut self, m: &Model) -> Dct {
        let acc = self.usable(m, None);
        let source = self.usable(m, None);
        self.dct(Body::Pad { acc, source })
    }

    fn open(&mut self, acc: String) -> Dct {
        let mut curs = vec![];
        if self.r.pct(self.c.restrict) {
            curs = self.curs.clone();
            if self.big == Big::Currencies {
                for i in 0..20 {
                    curs.push(format!("CUR{i}"));
                }
            }
            self.r.shuffle(&mut curs);
            let k = 1 + self.r.below(curs.len());
            curs.truncate(k);
        }
        let booking = if self.c.methods && self.r.pct(60) {
            Some(self.r.pick(&["STRICT", "FIFO", "LIFO", "HIFO", "STRICT_WITH_SIZE", "NONE", "FIFO", "LIFO", "AVERAGE"]).to_string())
        } else {
            None
        };
        self.dct(Body::Open { acc, curs, booking })
    }

    fn life(&mut self, m: &Model) -> Dct {
        match self.r.below(5) {
            0 | 1 => {
                let a = self.acc();
                self.open(a)
            }
            2 => {
                let acc = self.acc();
                self.dct(Body::Close { acc })
            }
            3 if !m.padded().is_empty() => {
                let acc = self.r.pick(&m.padded()).clone();
                self.dct(Body::Close { acc })
            }
            _ => {
                let acc = self.usable(m, None);
                self.dct(Body::Close { acc })
            }
        }
    }

    pub fn other(&mut self) -> Dct {
        let b = match self.r.below(8) {
            0 => Body::Commodity { cur: self.cur() },
            1 => {
                let x = self.any_num();
                Body::Price { cur: self.cur(), num: self.write(x), in_cur: self.cur() }
            }
            2 => Body::Event { typ: self.text(), desc: self.text() },
            3 => Body::Query { name: self.text(), content: self.text() },
            4 => Body::Note { acc: self.acc(), comment: self.text() },
            5 => Body::Document { acc: self.acc(), path: self.r.pick(&["/doc/a.pdf", "docs/é.pdf", "x"]).to_string() },
            _ => {
                let n = self.r.below(4);
                let mut values = vec![];
                for _ in 0..n {
                    values.push(match self.meta_value() {
                        Meta::Empty => Meta::Bool(true),
                        // numbers in a row must not read as one expression
                        Meta::Num(x) => Meta::Num(Num::plain(x.d().abs())),
                        Meta::Amount(x, c) => Meta::Amount(Num::plain(x.d().abs()), c),
                        Meta::Null | Meta::Tag(_) | Meta::Link(_) | Meta::Cur(_) => Meta::Str(self.text()),
                        v => v,
                    });
                }
                Body::Custom { typ: self.text(), values }
            }
        };
        self.dct(b)
    }

    /// anything a posting may look like, sensible or not
    fn wildtxn(&mut self, m: &Model) -> Dct {
        let n = self.r.below(5);
        let mut ps = vec![];
        for _ in 0..n {
            let cur = self.cur();
            let mut p = Posting { acc: self.usable(m, Some(&cur)), ..Default::default() };
            if self.r.pct(75) {
                let a = self.amount();
                let a = if self.r.pct(50) { -a } else { a };
                p.units = Some(self.write(a));
            }
            if self.r.pct(80) {
                p.cur = Some(cur);
            }
            if self.r.pct(20) {
                let a = self.amount();
                let per = if self.r.pct(60) { Some(self.write(a)) } else { None };
                let cur = if self.r.pct(60) { Some(self.cur()) } else { None };
                p.cost = Some(Cost { per, cur, ..Default::default() });
            }
            if self.r.pct(20) {
                let a = self.amount();
                let num = if self.r.pct(60) { Some(self.write(a)) } else { None };
                let cur = if self.r.pct(60) { Some(self.cur()) } else { None };
                p.price = Some(Price { total: self.r.pct(20), num, cur });
            }
            ps.push(p);
        }
        self.txn(ps)
    }

    pub fn one(&mut self, kind: usize, m: &Model) -> Dct {
        match kind {
            SIMPLE => self.simple(m),
            ELIDED => self.elided(m),
            PRICE => self.price(m),
            BUY => self.buy(m),
            SELL => self.sell(m),
            BALANCE => self.balance(m),
            PAD => self.pad(m),
            LIFE => self.life(m),
            OTHER => self.other(),
            _ => self.wildtxn(m),
        }
    }

    /// directives in the order in which they are booked
    pub fn directives(&mut self, o: &Opts) -> Vec<Dct> {
        let mut all: Vec<Dct> = vec![];
        let mut m = Model::new(o);
        let keep = self.c.keep_err;
        // true: keep
        fn attempt(m: &mut Model, all: &mut Vec<Dct>, d: Dct, keep: bool) -> bool {
            let mut n = m.clone();
            let before = n.errs.len();
            all.push(d);
            let refs: Vec<&Dct> = all.iter().collect();
            let ok = match n.one(refs.len() - 1, &refs) {
                Err(_) => false,
                Ok(Ok(())) => keep || n.errs.len() == before,
                Ok(Err(e)) => {
                    n.errs.push(e);
                    keep
                }
            };
            if ok {
                *m = n;
            } else {
                all.pop();
            }
            ok
        }
        let w = self.c.w;
        for i in 0..self.c.days {
            if i > 0 {
                self.day += self.r.range(1, 20);
            }
            // opens
            let accs = self.accs.clone();
            for a in accs {
                let p = if i == 0 { 85 } else { 25 };
                if !m.knows(&a) && self.r.pct(p) {
                    let d = self.open(a);
                    attempt(&mut m, &mut all, d, true);
                }
            }
            let mut rest: Vec<usize> = vec![];
            for _ in 0..1 + self.r.below(self.c.per_day * 2) {
                rest.push(self.r.weighted(&w));
            }
            rest.sort_by_key(|k| if *k == BALANCE { 0 } else { 1 });
            let mut others = false;
            for k in rest {
                for _ in 0..4 {
                    let d = self.one(k, &m);
                    match d.body {
                        Body::Open { .. } if i > 0 || others => continue,
                        Body::Open { .. } => {}
                        Body::Balance { .. } if others => continue,
                        Body::Balance { .. } => {}
                        _ => others = true,
                    }
                    let kp = self.r.pct(keep);
                    if attempt(&mut m, &mut all, d, kp) {
                        break;
                    }
                }
            }
        }
        if keep == 0 || self.r.pct(50) {
            // serve the pads which are left
            self.day += 1;
            for acc in m.padded() {
                for _ in 0..4 {
                    let cur = self.cur();
                    let a = self.amount();
                    let num = self.write(a);
                    let d = self.dct(Body::Balance { acc: acc.clone(), num, tol: None, cur });
                    if attempt(&mut m, &mut all, d, keep > 0) {
                        break;
                    }
                }
            }
        }
        all
    }

    pub fn opts(&mut self) -> Vec<Item> {
        let mut v: Vec<Item> = vec![];
        let add = |v: &mut Vec<Item>, k: &str, x: &str| v.push(Item::Opt(k.into(), x.into()));
        if self.r.pct(self.c.book_opts) {
            if self.c.methods && self.r.pct(60) {
                let b = *self.r.pick(&["FIFO", "LIFO", "HIFO", "NONE", "STRICT", "STRICT_WITH_SIZE", "AVERAGE"]);
                add(&mut v, "booking_method", b);
            }
            if self.r.pct(50) {
                let b = *self.r.pick(&["0.5", "1", "0.6", "1.2", "0.05", "2"]);
                add(&mut v, "inferred_tolerance_multiplier", b);
            }
            if self.r.pct(50) {
                let c = self.cur();
                let b = format!("{c}:{}", self.r.pick(&["0.005", "0.5", "1", "2", "0"]));
                add(&mut v, "inferred_tolerance_default", &b);
                if self.r.pct(30) {
                    let d = self.cur();
                    if d != c {
                        let b = format!("{d}:{}", self.r.pick(&["0.01", "3"]));
                        add(&mut v, "inferred_tolerance_default", &b);
                    }
                }
                if self.r.pct(50) {
                    let b = format!("*:{}", self.r.pick(&["0.25", "1", "0.001"]));
                    add(&mut v, "inferred_tolerance_default", &b);
                }
            }
        }
        if self.r.pct(self.c.opts) {
            let t = self.text();
            let mut pool: Vec<(&str, String)> = vec![
                ("title", t.clone()),
                ("account_previous_balances", "Opening".into()),
                ("account_previous_earnings", "Earnings:Previous".into()),
                ("account_previous_conversions", "Conv-Prev".into()),
                ("account_current_earnings", "Earnings:Current".into()),
                ("account_current_conversions", "Conv:Current".into()),
                ("account_unrealized_gains", "Unrealized".into()),
                ("account_rounding", "Rounding".into()),
                ("conversion_currency", "NOTHING".into()),
                ("infer_tolerance_from_cost", self.r.pick(&["TRUE", "FALSE", "true"]).to_string()),
                ("render_commas", self.r.pick(&["TRUE", "FALSE"]).to_string()),
                ("plugin_processing_mode", self.r.pick(&["DEFAULT", "RAW"]).to_string()),
                ("documents", self.r.pick(&["docs", "/abs/docs", "a/b", "docs/x/", "./here", "a//c", "../up/"]).to_string()),
                ("documents", self.r.pick(&["docs/old", "/abs/docs/2020", "a", "a/b/é", "/abs/more/", "old/."]).to_string()),
                ("operating_currency", self.cur()),
                ("operating_currency", "ZZZ".into()),
            ];
            if self.r.pct(30) {
                for i in 0..self.r.below(8) {
                    pool.push(("operating_currency", format!("OP{i}")));
                    pool.push(("documents", format!("more/docs-{i}")));
                }
            }
            for (k, x) in pool {
                if self.r.pct(40) {
                    add(&mut v, k, &x);
                }
            }
        }
        self.r.shuffle(&mut v);
        v
    }

    /// lay directives out in files
    pub fn layout(&mut self, mut ds: Vec<Dct>, root: &str, opts: Vec<Item>) -> Ledger {
        if self.r.pct(self.c.shuffle) {
            // order in the file matters within a day only
            let mut days: Vec<String> = ds.iter().map(|d| d.date.clone()).collect();
            days.dedup();
            self.r.shuffle(&mut days);
            ds = days.iter().flat_map(|x| ds.iter().filter(|d| d.date == *x).cloned().collect::<Vec<_>>()).collect();
        }
        let dir = match root.rfind('/') {
            Some(i) => &root[..i],
            None => "",
        };
        let mut files = vec![LFile { path: root.into(), crlf: self.r.pct(12), ..Default::default() }];
        for (k, v) in self.roots.clone() {
            files[0].items.push(Item::Opt(format!("name_{k}"), v));
        }
        let nf = if self.c.files > 1 && self.r.pct(60) { 1 + self.r.below(self.c.files) } else { 1 };
        const NAMES: &[&str] = &["inc/a.bean", "inc/b.bean", "sub/deep/c.bean", "d.bean", "inc/é.bean", "inc/.e.bean"];
        for i in 1..nf {
            files.push(LFile { path: format!("{dir}/{}", NAMES[(i - 1) % NAMES.len()]), crlf: self.r.pct(10), ..Default::default() });
        }
        let mut cut: Vec<usize> = (1..nf).map(|_| self.r.below(ds.len() + 1)).collect();
        cut.sort();
        let mut which = 0;
        for (i, d) in ds.into_iter().enumerate() {
            while which < cut.len() && cut[which] <= i {
                which += 1;
            }
            files[which].items.push(Item::D(d));
        }
        // every other file is included by an earlier one
        let mut globbed = false;
        for k in 1..nf {
            let by = self.r.below(k);
            let from = files[by].path.clone();
            let (fd, target) = (from[..from.rfind('/').unwrap_or(0)].to_string(), files[k].path.clone());
            let rel = |t: &str| {
                if let Some(x) = t.strip_prefix(&format!("{fd}/")) {
                    x.to_string()
                } else {
                    let up = fd.strip_prefix(dir).unwrap_or("").matches('/').count();
                    format!("{}{}", "../".repeat(up), t.strip_prefix(&format!("{dir}/")).unwrap_or(t))
                }
            };
            let mut p = if self.r.pct(15) { target.clone() } else { rel(&target) };
            if self.r.pct(20) && !globbed && target.contains("/inc/") && !target.contains("/.") && fd == dir {
                // a pattern, meant for one file or for several
                p = "inc/*.bean".into();
                globbed = true;
            } else if globbed && target.contains("/inc/") && !target.contains("/.") {
                continue;
            }
            let lo = if by == 0 { self.roots.len() } else { 0 };
            let at = lo + self.r.below(files[by].items.len() + 1 - lo);
            files[by].items.insert(at, Item::Include(p.clone()));
            if self.r.pct(8) {
                files[by].items.insert(at, Item::Include(p));
            }
        }
        for o in opts {
            let mut f = if self.r.pct(70) { 0 } else { self.r.below(nf) };
            if matches!(&o, Item::Opt(k, _) if k == "documents") && files.iter().any(|x| x.items.iter().any(|i| matches!(i, Item::Include(p) if p.starts_with('/')))) {
                // relative to a file named in full: covered by the root
                f = 0;
            }
            let at = if self.r.pct(70) { 0 } else { self.r.below(files[f].items.len() + 1) };
            // the names of account types must come first
            let at = if f == 0 { at.max(self.roots.len()) } else { at };
            files[f].items.insert(at, o);
        }
        if self.r.pct(self.c.plugins) {
            let most = if self.big == Big::Plugins { 40 } else { 3 };
            for _ in 0..1 + self.r.below(most) {
                let n = self.r.pick(&["beancount.plugins.auto", "my.plugin", "limabean.plugins/x", "p q"]).to_string();
                let c = if self.r.pct(50) { Some(self.text()) } else { None };
                let f = self.r.below(nf);
                let at = self.r.below(files[f].items.len() + 1);
                files[f].items.insert(at, Item::Plugin(n, c));
            }
        }
        if self.r.pct(self.c.push) {
            let f = self.r.below(nf);
            for _ in 0..1 + self.r.below(2) {
                let n = files[f].items.len();
                let lo = if f == 0 { self.roots.len() } else { 0 };
                let a = lo + self.r.below(n + 1 - lo);
                let b = a + self.r.below(n + 1 - a);
                if self.r.pct(50) {
                    let t = self.tag();
                    files[f].items.insert(b, Item::PopTag(t.clone()));
                    files[f].items.insert(a, Item::PushTag(t));
                } else {
                    let (k, v) = (self.key(), self.meta_value());
                    files[f].items.insert(b, Item::PopMeta(k.clone()));
                    files[f].items.insert(a, Item::PushMeta(k, v));
                }
            }
        }
        for f in &mut files {
            for _ in 0..self.r.below(4) {
                let at = self.r.below(f.items.len() + 1);
                let c = if self.r.pct(50) { Item::Blank } else { Item::Comment(self.r.pick(&["comment", "2020-01-01 open X", "é ü."]).to_string()) };
                f.items.insert(at, c);
            }
        }
        match self.big {
            Big::Lines => {
                let n = *self.r.pick(&[260, 1005, 1500, 5000]);
                let f = self.r.below(nf);
                let lo = if f == 0 { self.roots.len() } else { 0 };
                let at = lo + self.r.below(files[f].items.len() + 1 - lo).min(3);
                files[f].items.insert(at, Item::Comment(vec!["line"; n].join("\n; ")));
            }
            Big::Texts => {
                let f = self.r.below(nf);
                let at = self.r.below(files[f].items.len() + 1);
                files[f].items.insert(at, Item::Comment(format!("{}.", "a remark, é ".repeat(*self.r.pick(&[30, 400, 800])))));
            }
            _ => {}
        }
        Ledger { files }
    }

    fn once(&mut self, root: &str) -> Ledger {
        let opts = self.opts();
        let o = Opts { vals: opts.iter().filter_map(|x| if let Item::Opt(k, v) = x { Some((k.clone(), v.clone(), 0)) } else { None }).collect() };
        let ds = self.directives(&o);
        self.layout(ds, root, opts)
    }

    /// a ledger that parses, and whose booking is determined
    pub fn ledger(&mut self, root: &str) -> Ledger {
        if self.r.pct(self.c.big) && self.r.pct(20) {
            // nothing at all, or nothing which counts
            let items = self.r.pick(&[vec![], vec![], vec![Item::Blank], vec![Item::Comment("nothing.".into())], vec![Item::Blank, Item::Blank]]).clone();
            return Ledger { files: vec![LFile { path: root.into(), items, ..Default::default() }] };
        }
        for _ in 0..200 {
            let l = self.once(root);
            if let Ok(p) = parse::parse(&l) {
                let refs: Vec<&Dct> = p.dcts.iter().map(|x| &x.d).collect();
                if !matches!(crate::book::book(&refs, &p.opts), Outcome::Excluded(_)) && locatable(&l) {
                    return l;
                }
            }
        }
        Ledger { files: vec![LFile { path: root.into(), items: vec![Item::Comment("nothing".into())], ..Default::default() }] }
    }
}

/// no element ends in a character of several bytes (known finding)
pub fn locatable(l: &Ledger) -> bool {
    let r = l.render();
    let comment = |i: &Item| matches!(i, Item::Comment(t) if t.chars().last().is_some_and(|c| !c.is_ascii()));
    if l.files.iter().flat_map(|f| &f.items).any(comment) {
        return false; // (a comment which follows is taken in)
    }
    r.locs.iter().flatten().flatten().all(|(d, ps)| {
        std::iter::once(d).chain(ps).all(|x| {
            let t = &r.texts[x.file];
            t.is_char_boundary(x.end) && t[..x.end].chars().last().is_some_and(|c| c.is_ascii())
        })
    })
}

impl Num {
    fn only_if(self, ok: bool, v: Decimal) -> Num {
        if ok && self.v == v.to_string() { self } else { Num::plain(v) }
    }
}
