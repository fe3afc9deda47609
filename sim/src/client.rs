//! The simulated client: turns steps into request lines, from the answers it has really received.
use crate::json::{J, obj};
use crate::rng::Rng;
use crate::spec::*;

/// shuffle keys and members of sets, optionally without locations
pub fn reencode(d: &J, r: &mut Rng, spans: bool) -> J {
    match d {
        J::Obj(v) => {
            let mut w: Vec<(String, J)> = v
                .iter()
                .filter(|(k, _)| spans || k != "span")
                .map(|(k, x)| {
                    let mut y = if k == "metadata" { reencode(x, r, true) } else { reencode(x, r, spans) };
                    if matches!(k.as_str(), "tags" | "links" | "currencies") {
                        if let J::Arr(a) = &mut y {
                            r.shuffle(a);
                        }
                    }
                    (k.clone(), y)
                })
                .collect();
            r.shuffle(&mut w);
            J::Obj(w)
        }
        J::Arr(v) => J::Arr(v.iter().map(|x| reencode(x, r, spans)).collect()),
        x => x.clone(),
    }
}

pub fn spans_in(ans: &J) -> Vec<J> {
    let mut out = vec![];
    for d in ans.get("result").get("directives").arr() {
        out.push(d.get("span").clone());
        for p in d.get("postings").arr() {
            out.push(p.get("span").clone());
        }
    }
    for e in ans.get("error").get("data").arr() {
        out.push(e.get("span").clone());
        for k in ["contexts", "related"] {
            for c in e.get(k).arr() {
                out.push(c.arr().get(1).cloned().unwrap_or(J::Null));
            }
        }
    }
    out.retain(|x| !x.is_null());
    out
}

/// the parameters of a request; None: the source step did not yield what is needed
pub fn params(p: &Param, answer: &dyn Fn(usize) -> Option<J>) -> Option<Option<J>> {
    Some(match p {
        Param::None => None,
        Param::Json(t) => Some(J::parse(t).expect("scenario json")),
        Param::BookOf { step, seed, spans, keep, edits } => {
            let a = answer(*step)?;
            let all = match a.get("result").get("directives") {
                J::Arr(v) => v.clone(),
                _ => return None,
            };
            let mut r = Rng::new(*seed);
            let sel: Vec<&J> = match keep {
                None => all.iter().collect(),
                Some(k) => k.iter().filter_map(|&i| all.get(i)).collect(),
            };
            let mut sel: Vec<J> = sel.into_iter().cloned().collect();
            if *edits != 0 {
                crate::edit::edit(&mut sel, *edits);
            }
            if *seed == 0 && *spans {
                Some(J::Arr(sel))
            } else {
                Some(J::Arr(sel.iter().map(|d| reencode(d, &mut r, *spans)).collect()))
            }
        }
        Param::SpansOf { step } => Some(J::Arr(spans_in(&answer(*step)?))),
        Param::SynthOf { step } => match answer(*step)?.get("result") {
            x @ J::Arr(_) => Some(x.clone()),
            _ => return None,
        },
        Param::Reports { dirs, synth, seed, bad } => {
            let d = answer(*dirs)?;
            if !d.get("result").has("directives") {
                return None;
            }
            let y = match synth {
                Some(k) => answer(*k)?,
                None => J::Null,
            };
            Some(reports(&d, &y, *seed, *bad))
        }
        Param::ErrorsOf { step } => match answer(*step)?.get("error").get("data") {
            J::Arr(v) if v.iter().all(|e| e.has("span")) => Some(J::Arr(v.clone())),
            _ => return None,
        },
    })
}

/// many lines, or one long line
fn many(r: &mut Rng) -> String {
    if r.pct(50) { (0..5 + r.below(60)).map(|i| format!("2020-01-01  row {i}  {}", r.below(1000))).collect::<Vec<_>>().join("\n") } else { "a word ".repeat(1 + r.below(100)) + "end" }
}

/// made up reports about these locations
pub fn reports(dirs: &J, synth: &J, seed: u64, bad: u32) -> J {
    let mut r = Rng::new(seed);
    let mut spans = spans_in(dirs);
    let made: Vec<J> = synth.get("result").arr().to_vec();
    spans.extend(made.iter().cloned());
    spans.extend(made.iter().cloned());
    const TEXT: &[&str] = &["invalid transaction", "looks odd", "unknown account", "größer als erlaubt", "a \"quoted\" text", "x", "too much, too late"];
    let mut out = vec![];
    if spans.is_empty() && bad == 0 {
        return J::Arr(out);
    }
    let span = |r: &mut Rng| -> J {
        if spans.is_empty() || r.pct(bad) {
            let n = |x: i64| J::Num(x.to_string());
            match r.below(4) {
                0 => J::Arr(vec![n(r.range(0, 2)), n(r.range(900_000, 999_999)), n(r.range(1_000_000, 1_999_999))]),
                1 => J::Arr(vec![n(r.range(900, 999)), n(0), n(5)]),
                2 => J::Arr(vec![n(2_000_000_000), n(1), n(2)]),
                _ => J::Arr(vec![n(900), n(4_000_000_000), n(4_000_000_001)]),
            }
        } else {
            r.pick(&spans).clone()
        }
    };
    const MESSAGE: &[&str] = &["first line\nsecond line", "one\n\nthree: 4", "tab\there", "日本語 🎉", "ends with a colon:", "[ brackets:1:2 ] in the text", "it's 100% {odd}"];
    let most = if r.pct(2) { 120 } else if r.pct(4) { 20 } else { 4 };
    for _ in 0..r.below(most) {
        let t = |r: &mut Rng| J::Str(r.pick(TEXT).to_string());
        let message = if r.pct(30) { J::Str(r.pick(MESSAGE).to_string()) } else { t(&mut r) };
        let mut o = vec![("message", message), ("reason", t(&mut r)), ("span", span(&mut r))];
        for k in ["contexts", "related"] {
            if r.pct(40) {
                let n = if r.pct(1) { 40 } else if r.pct(8) { 6 } else { 1 + r.below(2) };
                o.push((k, J::Arr((0..n).map(|_| J::Arr(vec![t(&mut r), span(&mut r)])).collect())));
            }
        }
        if r.pct(40) {
            o.push(("annotation", J::Str(r.pick(&["row one\nrow two", "1.00  2.00", "é", "  indented  note", "\u{1}"]).replace('\u{1}', &many(&mut r)))));
        }
        out.push(obj(o));
    }
    J::Arr(out)
}

/// style bit 0-1: order of members, 2: spaces, 3: CRLF, 4: leading blanks, 5: params null if none
pub fn encode(id: &str, method: &str, params: Option<&J>, style: u32) -> Vec<u8> {
    let mut parts: Vec<(&str, String)> = vec![("jsonrpc", "\"2.0\"".into())];
    if !id.is_empty() {
        parts.push(("id", id.to_string()));
    }
    parts.push(("method", obj(vec![("m", J::Str(method.into()))]).get("m").to_string()));
    match params {
        Some(p) => parts.push(("params", p.to_string())),
        None if style & 32 != 0 => parts.push(("params", "null".into())),
        None => {}
    }
    let k = parts.len();
    match style & 3 {
        1 => parts.reverse(),
        2 => parts.rotate_left(1 % k),
        3 => parts.rotate_left(2 % k),
        _ => {}
    }
    let (c, col) = match style & 20 {
        4 => (" , ", " : "),
        20 => ("\t,\t", ":\t"),
        _ => (",", ":"),
    };
    let body: Vec<String> = parts.iter().map(|(k, v)| format!("\"{k}\"{col}{v}")).collect();
    let mut s = format!("{{{}}}", body.join(c));
    if style & 16 != 0 {
        s = format!("  \t{s} ");
    }
    if style & 8 != 0 {
        s.push('\r');
    }
    s.into_bytes()
}
