//! Comparing what was answered with what had to be.
use crate::ast::*;
use crate::book::{self, MErr, Outcome};
use crate::json::{J, n, s};
use crate::parse::{self, Parsed};
use crate::world::Hist;

/// without locations; sets sorted; no negative zero
pub fn norm(j: &J) -> J {
    strip(j).canon()
}

fn strip(j: &J) -> J {
    match j {
        J::Obj(v) => J::Obj(
            v.iter()
                .filter(|(k, x)| !(k == "span" && matches!(x, J::Arr(_))))
                .map(|(k, x)| (k.clone(), strip(x)))
                .collect(),
        ),
        J::Arr(v) => J::Arr(v.iter().map(strip).collect()),
        J::Num(x) => J::Num(zero(x)),
        x => x.clone(),
    }
}

/// numbers keep their decimal places; zero has no sign
pub fn zero(x: &str) -> String {
    match x.strip_prefix('-') {
        Some(y) if y.chars().all(|c| c == '0' || c == '.') => y.to_string(),
        _ => x.to_string(),
    }
}

/// the first difference
pub fn diff(want: &J, got: &J, at: &str) -> Option<String> {
    let clip = |j: &J| {
        let t = j.to_string();
        if t.chars().count() > 400 { format!("{}…", t.chars().take(400).collect::<String>()) } else { t }
    };
    match (want, got) {
        (J::Obj(a), J::Obj(b)) => {
            for (k, x) in a {
                match b.iter().find(|(l, _)| l == k) {
                    None => return Some(format!("{at}.{k}: missing, expected {}", clip(x))),
                    Some((_, y)) => {
                        if let Some(d) = diff(x, y, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            b.iter().find(|(k, _)| !a.iter().any(|(l, _)| l == k)).map(|(k, y)| format!("{at}.{k}: unexpected {}", clip(y)))
        }
        (J::Arr(a), J::Arr(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = diff(x, y, &format!("{at}[{i}]")) {
                    return Some(d);
                }
            }
            if a.len() < b.len() {
                return Some(format!("{at}[{}]: unexpected {}", a.len(), clip(&b[a.len()])));
            }
            if a.len() > b.len() {
                return Some(format!("{at}[{}]: missing, expected {}", b.len(), clip(&a[b.len()])));
            }
            None
        }
        (a, b) if a == b => None,
        (a, b) => Some(format!("{at}: expected {} but got {}", clip(a), clip(b))),
    }
}

pub fn want_directives(p: &Parsed) -> J {
    J::Arr(p.dcts.iter().map(|x| parse::raw_json(&x.d)).collect())
}

pub fn want_plugins(p: &Parsed) -> J {
    J::Arr(
        p.plugins
            .iter()
            .map(|(k, c)| J::Obj(vec![("name".into(), s(k.clone())), ("config".into(), c.clone().map(J::Str).unwrap_or(J::Null))]))
            .collect(),
    )
}

/// what is wrong with an answer to parser.directives
pub fn check_directives(p: &Parsed, ans: &J) -> Option<String> {
    if !ans.has("result") {
        return Some(format!("parser.directives: error for a valid ledger: {}", clip(ans)));
    }
    diff(&norm(&want_directives(p)), &norm(ans.get("result").get("directives")), "directives")
}

pub fn clip(j: &J) -> String {
    let t = j.to_string();
    if t.chars().count() > 600 { format!("{}…", t.chars().take(600).collect::<String>()) } else { t }
}

pub fn outcome(p: &Parsed) -> Outcome {
    let refs: Vec<&Dct> = p.dcts.iter().map(|x| &x.d).collect();
    book::book(&refs, &p.opts)
}

/// names of directives in error reports
pub fn dct_name(d: &Dct) -> &'static str {
    match d.body {
        Body::Txn { .. } => "transaction",
        Body::Open { .. } => "open",
        Body::Close { .. } => "close",
        Body::Commodity { .. } => "commodity",
        Body::Pad { .. } => "pad",
        Body::Balance { .. } => "balance",
        Body::Event { .. } => "event",
        Body::Query { .. } => "query",
        Body::Note { .. } => "note",
        Body::Document { .. } => "document",
        Body::Price { .. } => "price",
        Body::Custom { .. } => "custom",
    }
}

/// rows of words, with numbers by value: only the layout of a table is left out
pub fn squash(t: &str) -> Vec<String> {
    t.lines().map(words).filter(|l| !l.is_empty()).collect()
}

pub fn words(l: &str) -> String {
    use std::str::FromStr;
    let w = |x: &str| {
        let (core, tail) = match x.strip_suffix(',') {
            Some(y) => (y, ","),
            None => (x, ""),
        };
        match rust_decimal::Decimal::from_str(core) {
            Ok(d) if core.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-') => format!("{}{tail}", zero(&d.normalize().to_string())),
            _ => x.to_string(),
        }
    };
    l.split_whitespace().map(w).collect::<Vec<_>>().join(" ")
}

fn pair(name: &str, span: &J) -> J {
    J::Arr(vec![s(name), span.clone()])
}

/// error reports by location, as they follow from the model and from the locations which the server gave
pub fn want_errors(p: &Parsed, errs: &[MErr], dirs: &[J]) -> Vec<J> {
    errs.iter()
        .map(|e| {
            let d = &dirs[e.dct];
            let name = dct_name(&p.dcts[e.dct].d);
            let mut o: Vec<(String, J)> = vec![];
            match e.posting {
                None => {
                    o.push(("message".into(), s(format!("invalid {name}"))));
                    o.push(("reason".into(), s(words(&e.reason))));
                    o.push(("span".into(), d.get("span").clone()));
                }
                Some(k) => {
                    o.push(("message".into(), s("invalid posting")));
                    o.push(("reason".into(), s(words(&e.reason))));
                    o.push(("span".into(), d.get("postings").arr()[k].get("span").clone()));
                    o.push(("contexts".into(), J::Arr(vec![pair("transaction", d.get("span"))])));
                }
            }
            if !e.related.is_empty() {
                o.push((
                    "related".into(),
                    J::Arr(e.related.iter().map(|&r| pair(dct_name(&p.dcts[r].d), dirs[r].get("span"))).collect()),
                ));
            }
            if let Some(a) = &e.annotation {
                o.push(("annotation".into(), J::Arr(a.iter().map(|x| s(words(x))).collect())));
            }
            J::Obj(o)
        })
        .collect()
}

/// the same by index
pub fn want_indexed(errs: &[MErr]) -> Vec<J> {
    errs.iter()
        .map(|e| {
            let mut i = vec![n(e.dct)];
            if let Some(k) = e.posting {
                i.push(n(k));
            }
            let mut o: Vec<(String, J)> = vec![("idx".into(), J::Arr(i)), ("reason".into(), s(words(&e.reason)))];
            if !e.related.is_empty() {
                o.push(("related".into(), J::Arr(e.related.iter().map(|&r| J::Arr(vec![n(r)])).collect())));
            }
            if let Some(a) = &e.annotation {
                o.push(("annotation".into(), J::Arr(a.iter().map(|x| s(words(x))).collect())));
            }
            J::Obj(o)
        })
        .collect()
}

/// a report as received, with its annotation as rows of words and without what the model does not speak about
pub fn got_error(e: &J) -> J {
    match e {
        J::Obj(v) => J::Obj(
            v.iter()
                .map(|(k, x)| match (k.as_str(), x) {
                    ("annotation", J::Str(t)) => (k.clone(), J::Arr(squash(t).into_iter().map(J::Str).collect())),
                    ("reason", J::Str(t)) => (k.clone(), s(words(t))),
                    _ => (k.clone(), x.clone()),
                })
                .collect(),
        ),
        x => x.clone(),
    }
}

pub fn want_booked(p: &Parsed, b: &[book::BDct]) -> J {
    J::Arr(b.iter().map(|x| book::booked_json(x, &p.dcts[x.idx].d)).collect())
}

/// what is wrong with the booking of directives a client made
pub fn check_book_sent(p: &Parsed, o: &Outcome, sent: &[J], ans: &J) -> Option<String> {
    let Outcome::Booked(b) = o else { return check_book(p, o, &J::Null, ans, true) };
    if !ans.has("result") {
        return Some(format!("book: error for directives that can be booked: {}", clip(ans.get("error"))));
    }
    let mut want = want_booked(p, b);
    if let J::Arr(v) = &mut want {
        for (w, x) in v.iter_mut().zip(b) {
            crate::edit::keep_empty(w, &sent[x.idx]);
        }
    }
    diff(&norm(&want), &norm(ans.get("result").get("directives")), "booked")
}

/// what is wrong with an answer to book; indexed: the directives were sent along
pub fn check_book(p: &Parsed, o: &Outcome, dirs: &J, ans: &J, indexed: bool) -> Option<String> {
    match o {
        Outcome::Excluded(_) => None,
        Outcome::Booked(b) => {
            if !ans.has("result") {
                return Some(format!("book: error for a ledger that can be booked: {}", clip(ans.get("error"))));
            }
            diff(&norm(&want_booked(p, b)), &norm(ans.get("result").get("directives")), "booked")
        }
        Outcome::Errors(e) => {
            let er = ans.get("error");
            if er.is_null() {
                return Some(format!("book: succeeded although {} must be reported", e[0].reason));
            }
            let code = if indexed { 3 } else { 2 };
            if er.get("code").int() != Some(code) {
                return Some(format!("book: expected error code {code}: {}", clip(er)));
            }
            let want = if indexed { want_indexed(e) } else { want_errors(p, e, dirs.get("result").get("directives").arr()) };
            let got: Vec<J> = er.get("data").arr().iter().map(got_error).collect();
            diff(&J::Arr(want).canon(), &J::Arr(got).canon(), "errors")
        }
    }
}

/// exit status, framing and anything odd about a run which met no fault
pub fn check_clean(h: &Hist) -> Option<String> {
    use crate::world::Exit;
    if h.hang || h.runaway {
        return Some("the program does not get anywhere".into());
    }
    if h.deadlock {
        return Some("the server waits for input with an answer due".into());
    }
    if h.exit != Exit::Code(0) {
        let e = String::from_utf8_lossy(&h.stderr);
        return Some(format!("ended with {:?}: {}", h.exit, e.chars().take(300).collect::<String>()));
    }
    None
}

/// options as answered, against the declared ones; paths by what they stand for
pub fn check_options(p: &Parsed, led: &Ledger, root_arg: &str, ans: &J) -> Option<String> {
    let f = |j: &J| -> J {
        let mut j = j.clone();
        if let Some(J::Arr(v)) = j.get_mut("documents") {
            for x in v.iter_mut() {
                if let J::Str(t) = x {
                    let abs = if t.starts_with('/') { "" } else { "relative:/" };
                    *t = format!("{abs}{}", crate::vfs::normalize(t));
                }
            }
        }
        norm(&j)
    };
    if !ans.has("result") {
        return Some(format!("error for a valid ledger: {}", clip(ans)));
    }
    diff(&f(&p.opts.to_json(led, root_arg)), &f(ans.get("result")), "options")
}
