//! Ledgers as data, and their text.
use rust_decimal::Decimal;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

/// a number as written, and its value
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Num {
    pub t: String,
    pub v: String,
}

impl Num {
    pub fn plain(d: Decimal) -> Num {
        Num { t: d.to_string(), v: d.to_string() }
    }
    pub fn d(&self) -> Decimal {
        Decimal::from_str(&self.v).expect("number")
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Meta {
    Amount(Num, String),
    Str(String),
    Cur(String),
    Acc(String),
    Tag(String),
    Link(String),
    Date(String),
    Bool(bool),
    Num(Num),
    Null,
    /// no value at all
    Empty,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Cost {
    pub per: Option<Num>,
    pub total: Option<Num>,
    pub cur: Option<String>,
    pub date: Option<String>,
    pub label: Option<String>,
    pub merge: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Price {
    /// @@
    pub total: bool,
    pub num: Option<Num>,
    pub cur: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Posting {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub flag: Option<String>,
    pub acc: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub units: Option<Num>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cur: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cost: Option<Cost>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub price: Option<Price>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub links: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub meta: Vec<(String, Meta)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Body {
    Txn { flag: String, payee: Option<String>, narration: Option<String>, postings: Vec<Posting> },
    Open { acc: String, curs: Vec<String>, booking: Option<String> },
    Close { acc: String },
    Commodity { cur: String },
    Pad { acc: String, source: String },
    Balance { acc: String, num: Num, tol: Option<Num>, cur: String },
    Event { typ: String, desc: String },
    Query { name: String, content: String },
    Note { acc: String, comment: String },
    Document { acc: String, path: String },
    Price { cur: String, num: Num, in_cur: String },
    Custom { typ: String, values: Vec<Meta> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Dct {
    /// YYYY-MM-DD
    pub date: String,
    pub body: Body,
    /// written on the first line
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub links: Vec<String>,
    /// written on lines of their own
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub mtags: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub mlinks: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub meta: Vec<(String, Meta)>,
    /// layout variations: 1 date with slashes, 2 four blanks of indentation, 4 aligned amounts, 8 tab,
    /// 16 remarks at the ends of lines, 32 a line to be ignored after the first one
    #[serde(default)]
    pub style: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    D(Dct),
    Include(String),
    Opt(String, String),
    Plugin(String, Option<String>),
    PushTag(String),
    PopTag(String),
    PushMeta(String, Meta),
    PopMeta(String),
    Comment(String),
    Blank,
    /// verbatim line(s): syntax errors
    Raw(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct LFile {
    pub path: String,
    pub items: Vec<Item>,
    /// lines end in CR LF
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub crlf: bool,
}

/// stands for a line feed within a string while text is put together
const NL: char = '\u{e00a}';

/// text and offsets in it, as they are in the file
fn finish(t: &str, offs: &[(usize, usize)], crlf: bool) -> (String, Vec<(usize, usize)>) {
    let mut s = String::new();
    let mut at = vec![0; t.len() + 1];
    for (i, c) in t.char_indices() {
        at[i] = s.len();
        match c {
            NL => s.push('\n'),
            '\n' if crlf => s.push_str("\r\n"),
            c => s.push(c),
        }
    }
    at[t.len()] = s.len();
    (s, offs.iter().map(|(a, b)| (at[*a], at[*b])).collect())
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Ledger {
    /// the first is the root
    pub files: Vec<LFile>,
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    let mut plain = true;
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            // now as it is, now escaped
            '\n' if plain => o.push(NL),
            '\n' => o.push_str("\\n"),
            '\r' if !plain => o.push_str("\\r"),
            '\u{8}' => o.push_str("\\b"),
            'ÿ' => o.push_str("\\u{ff}"),
            c => o.push(c),
        }
        if c == '\n' || c == ' ' {
            plain = !plain;
        }
    }
    o.push('"');
    o
}

impl Meta {
    pub fn text(&self) -> String {
        match self {
            Meta::Amount(n, c) => format!("{} {}", n.t, c),
            Meta::Str(s) => q(s),
            Meta::Cur(s) | Meta::Acc(s) | Meta::Date(s) => s.clone(),
            Meta::Tag(s) => format!("#{s}"),
            Meta::Link(s) => format!("^{s}"),
            Meta::Bool(b) => if *b { "TRUE" } else { "FALSE" }.into(),
            Meta::Num(n) => n.t.clone(),
            Meta::Null => "NULL".into(),
            Meta::Empty => "".into(),
        }
    }
}

/// where an element was rendered
#[derive(Clone, Debug, PartialEq)]
pub struct Loc {
    pub file: usize,
    pub start: usize,
    /// end without trailing white space
    pub end: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub texts: Vec<String>,
    /// (file, item) -> location, and locations of postings
    pub locs: Vec<Vec<Option<(Loc, Vec<Loc>)>>>,
}

fn meta_lines(out: &mut String, ind: &str, tags: &[String], links: &[String], meta: &[(String, Meta)]) {
    for t in tags {
        out.push_str(&format!("{ind}#{t}\n"));
    }
    for (k, v) in meta {
        out.push_str(format!("{ind}{k}: {}", v.text()).trim_end_matches(' '));
        out.push('\n');
    }
    for l in links {
        out.push_str(&format!("{ind}^{l}\n"));
    }
}

impl Posting {
    pub fn text(&self, aligned: bool) -> String {
        let mut s = String::new();
        if let Some(f) = &self.flag {
            s.push_str(f);
            s.push(' ');
        }
        s.push_str(&self.acc);
        if aligned && (self.units.is_some() || self.cur.is_some()) {
            while s.chars().count() < 40 {
                s.push(' ');
            }
        }
        if let Some(u) = &self.units {
            s.push_str(&format!(" {}", u.t));
        }
        if let Some(c) = &self.cur {
            s.push_str(&format!(" {c}"));
        }
        if let Some(c) = &self.cost {
            let mut parts = vec![];
            let mut amt = vec![];
            if let Some(p) = &c.per {
                amt.push(p.t.clone());
            }
            if let Some(t) = &c.total {
                amt.push(format!("# {}", t.t));
            }
            if let Some(cur) = &c.cur {
                amt.push(cur.clone());
            }
            if !amt.is_empty() {
                parts.push(amt.join(" "));
            }
            if let Some(d) = &c.date {
                parts.push(d.clone());
            }
            if let Some(l) = &c.label {
                parts.push(q(l));
            }
            if c.merge {
                parts.push("*".into());
            }
            s.push_str(&format!(" {{{}}}", parts.join(", ")));
        }
        if let Some(p) = &self.price {
            s.push_str(if p.total { " @@" } else { " @" });
            if let Some(n) = &p.num {
                s.push_str(&format!(" {}", n.t));
            }
            if let Some(c) = &p.cur {
                s.push_str(&format!(" {c}"));
            }
        }
        s
    }
}

impl Dct {
    /// text with its final newline; postings' offsets (start, end)
    pub fn text(&self, crlf: bool) -> (String, Vec<(usize, usize)>) {
        let (s, offs) = self.draft();
        finish(&s, &offs, crlf)
    }
    fn draft(&self) -> (String, Vec<(usize, usize)>) {
        let mut s = if self.style & 1 != 0 { self.date.replace('-', "/") } else { self.date.clone() };
        let ind = if self.style & 8 != 0 {
            "\t"
        } else if self.style & 2 != 0 {
            "    "
        } else {
            "  "
        };
        s.push(' ');
        let mut posts: &[Posting] = &[];
        s.push_str(&match &self.body {
            Body::Txn { flag, payee, narration, postings } => {
                posts = postings;
                let mut t = flag.clone();
                match (payee, narration) {
                    (Some(p), n) => t.push_str(&format!(" {} {}", q(p), q(n.as_deref().unwrap_or("")))),
                    (None, Some(n)) => t.push_str(&format!(" {}", q(n))),
                    _ => {}
                }
                t
            }
            Body::Open { acc, curs, booking } => {
                let mut t = format!("open {acc}");
                if !curs.is_empty() {
                    t.push_str(&format!(" {}", curs.join(",")));
                }
                if let Some(b) = booking {
                    t.push_str(&format!(" {}", q(b)));
                }
                t
            }
            Body::Close { acc } => format!("close {acc}"),
            Body::Commodity { cur } => format!("commodity {cur}"),
            Body::Pad { acc, source } => format!("pad {acc} {source}"),
            Body::Balance { acc, num, tol, cur } => match tol {
                Some(t) => format!("balance {acc} {} ~ {} {cur}", num.t, t.t),
                None => format!("balance {acc} {} {cur}", num.t),
            },
            Body::Event { typ, desc } => format!("event {} {}", q(typ), q(desc)),
            Body::Query { name, content } => format!("query {} {}", q(name), q(content)),
            Body::Note { acc, comment } => format!("note {acc} {}", q(comment)),
            Body::Document { acc, path } => format!("document {acc} {}", q(path)),
            Body::Price { cur, num, in_cur } => format!("price {cur} {} {in_cur}", num.t),
            Body::Custom { typ, values } => {
                let mut t = format!("custom {}", q(typ));
                for v in values {
                    t.push_str(&format!(" {}", v.text()));
                }
                t
            }
        });
        for t in &self.tags {
            s.push_str(&format!(" #{t}"));
        }
        for l in &self.links {
            s.push_str(&format!(" ^{l}"));
        }
        let remark = |s: &mut String, k: usize| {
            if self.style & 16 != 0 && (self.style + k as u32) % 3 != 1 {
                s.push_str([" ; \"a remark\" é.", " ; * x", ";"][k % 3]);
            }
        };
        remark(&mut s, self.date.len() + posts.len());
        s.push('\n');
        if self.style & 32 != 0 && (!posts.is_empty() || !self.meta.is_empty()) {
            s.push_str(["* a heading; \"x\"\n", ": 2020-01-01 open Assets:Not\n", "#+TITLE: {\n! x\n"][self.meta.len() % 3]);
        }
        meta_lines(&mut s, ind, &self.mtags, &self.mlinks, &self.meta);
        let mut offs = vec![];
        for (k, p) in posts.iter().enumerate() {
            s.push_str(ind);
            let a = s.len();
            s.push_str(&p.text(self.style & 4 != 0));
            offs.push((a, s.len()));
            remark(&mut s, k);
            s.push('\n');
            meta_lines(&mut s, &format!("{ind}{ind}"), &p.tags, &p.links, &p.meta);
        }
        (s, offs)
    }
}

impl Item {
    pub fn text(&self, crlf: bool) -> String {
        finish(&self.draft(), &[], crlf).0
    }
    fn draft(&self) -> String {
        match self {
            Item::D(d) => d.draft().0,
            Item::Include(p) => format!("include {}\n", q(p)),
            Item::Opt(k, v) => format!("option {} {}\n", q(k), q(v)),
            Item::Plugin(n, None) => format!("plugin {}\n", q(n)),
            Item::Plugin(n, Some(c)) => format!("plugin {} {}\n", q(n), q(c)),
            Item::PushTag(t) => format!("pushtag #{t}\n"),
            Item::PopTag(t) => format!("poptag #{t}\n"),
            Item::PushMeta(k, v) => format!("{}\n", format!("pushmeta {k}: {}", v.text()).trim_end_matches(' ')),
            Item::PopMeta(k) => format!("popmeta {k}:\n"),
            Item::Comment(c) => format!("; {c}\n"),
            Item::Blank => "\n".into(),
            Item::Raw(t) => format!("{t}\n"),
        }
    }
}

impl Ledger {
    pub fn render(&self) -> Rendered {
        let mut r = Rendered::default();
        for (fi, f) in self.files.iter().enumerate() {
            let mut t = String::new();
            let mut locs = vec![];
            for it in &f.items {
                let start = t.len();
                if let Item::D(d) = it {
                    let (s, offs) = d.text(f.crlf);
                    let end = start + s.trim_end().len();
                    t.push_str(&s);
                    let ps = offs.iter().map(|(a, b)| Loc { file: fi, start: start + a, end: start + b }).collect();
                    locs.push(Some((Loc { file: fi, start, end }, ps)));
                } else {
                    t.push_str(&it.text(f.crlf));
                    locs.push(None);
                }
            }
            r.texts.push(t);
            r.locs.push(locs);
        }
        r
    }
    pub fn files_into(&self, v: &mut crate::vfs::Vfs) {
        let r = self.render();
        for (f, t) in self.files.iter().zip(r.texts) {
            v.put(&f.path, crate::spec::FNode::Text(t));
        }
    }
}
