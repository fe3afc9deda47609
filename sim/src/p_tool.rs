//! The launcher (C21) and the tabulate command (C22).
use crate::kit::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use crate::world::{Env, Exit, Hist};
use std::fmt::Write as _;

const VERSION: &str = "0.6.0";
const NATIVE: &str = "--enable-native-access=ALL-UNNAMED";

// ---------- C21 ----------

fn text(r: &mut Rng) -> String {
    match r.below(13) {
        // not valid UTF-8
        11 => crate::spec::raw_text(*r.pick(&[&b"\xff"[..], b"caf\xe9", b"\xf0\x9f\x8e", b"a\xc3\x28b/\xfe"])),
        0 => "".into(),
        1 => "a b  c".into(),
        2 => "é日本🎉".into(),
        3 => "$HOME;`id`|&*?".into(),
        4 => "it's \"quoted\"".into(),
        5 => "line\nbreak\ttab".into(),
        6 => "-Sdeps".into(),
        7 => "--".into(),
        8 => "x".repeat(1 + r.below(3000)),
        9 => "--beanfile=/tmp/x y.bean".into(),
        10 => "-".into(),
        _ => format!("arg{}", r.below(100)),
    }
}

fn c21_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut x = RunSpec { prog: if r.pct(30) { "launcher-jar" } else { "launcher" }.into(), window: 1, ..Default::default() };
    environment(&mut r, &mut x);
    x.seed = r.u64() >> 12;
    if r.pct(30) {
        x.wfrag = *r.pick(&[1, 3, 17]);
    }
    if r.pct(20) {
        x.eintr = 30;
    }
    let health = r.pct(40);
    let mut kind = "run";
    if health {
        kind = "health";
        x.args.push("health".into());
    }
    for _ in 0..if r.pct(3) { 20 + r.below(250) } else { r.below(6) } {
        let a = match r.below(9) {
            0 => "-v".into(),
            1 => "--verbose".into(),
            2 => "--version".into(),
            3 if !x.args.is_empty() => "health".into(),
            4 => r.pick(&["--help", "-h", "check", "--Health", "healthy", "-m", "-jar", "-vv", "-V", "-vault", "--verbose=1", "--verbos", "--versions", "--version=1", "v", "verbose", "version", "-V=1", "--", "x-v"]).to_string(),
            _ => text(&mut r),
        };
        x.args.push(a);
    }
    // names of options also on their own
    let jar = *r.pick(&["/sim/lib/limabean.jar", "lib/my bean.jar", "/sim/lib/é.jar", "./x.jar", "/sim/lib/two  spaces.jar", "~/x.jar", "-x.jar"]);
    let raw = raw_text(b"/sim/lib/caf\xe9.jar");
    let jar = if r.pct(6) { raw.as_str() } else { jar };
    if r.pct(35) {
        let odd = raw_text(r.pick(&[&b"\xff"[..], b"/sim/caf\xe9/clj", b"/a\xc3\x28b"]));
        x.env.push(("LIMABEAN_CLJ_LOCAL_ROOT".into(), if r.pct(10) { odd } else { r.pick(&["/sim/src/clj", "../clj", "/sim/a b/é", ".", "", " ", "/sim/src/clj/", "~/clj", "$HOME/clj", "/sim/a  b"]).to_string() }));
    }
    if r.pct(50) {
        x.env.push(("LIMABEAN_UBERJAR".into(), jar.into()));
    }
    if r.pct(45) {
        x.env.push((
            "LIMABEAN_CLJ_DEPS".into(),
            if r.pct(8) { raw_text(b"a/b {:local/root \"/caf\xe9\"}") } else { r.pick(&["org.clojure/data.csv {:mvn/version \"1.1.0\"}", "a/b {:local/root \"/x y\"} c/d {:git/tag \"v1\" :git/sha \"abc\"}", "é/日 {:mvn/version \"2\"}", "a/b {:local/root \"/x  y\"}", " a/b {}\n", "", " ", "a/b\t{}", "; c", "a/b {:x \\y}", "'q' \"$HOME\" `x`"]).to_string() },
        ));
    }
    for (k, v) in [("PATH", "/usr/bin:/bin"), ("HOME", "/home/é user"), ("RUST_LOG", "debug"), ("RUST_LOG", "==bad,,"), ("LIMABEAN_BEANFILE", "/x y.bean"), ("LIMABEAN_POD_LOG", "/sim/log/x.log"), ("EMPTY", ""), ("JAVA_HOME", "/opt/j"), ("COLUMNS", "80")] {
        if r.pct(25) && !x.env.iter().any(|(a, _)| a == k) {
            x.env.push((k.into(), v.into()));
        }
    }
    let mut files = vec![];
    for (p, here) in [(jar, r.pct(70)), ("other.jar", true), (BUILT_IN, r.pct(60))] {
        if here {
            let p = if p.starts_with('/') { p.to_string() } else { format!("/sim/cwd/{p}") };
            match r.below(8) {
                0 => {
                    files.push((p, FNode::Link("/sim/real.jar".into())));
                    if r.pct(50) {
                        files.push(("/sim/real.jar".into(), FNode::Text("PK".into())));
                    }
                }
                _ => files.push((p, FNode::Text("PK".into()))),
            }
        }
    }
    for prog in ["java", "clojure"] {
        let code = match r.below(10) {
            0 => -libc::ENOENT,
            1 => -libc::EACCES,
            2 => -*r.pick(&[libc::ENOEXEC, libc::ENOMEM, libc::E2BIG, libc::EAGAIN, libc::ELOOP, libc::EMFILE, libc::ETXTBSY, libc::EIO]),
            3 => 1,
            4 => *r.pick(&[2, 126, 127, 255]),
            5 if health => 256 + *r.pick(&[libc::SIGKILL, libc::SIGSEGV, libc::SIGTERM]),
            _ => 0,
        };
        let out = if r.pct(70) { format!("{prog} 21.0.2 2024-01-16\nsecond é line\n") } else { "".into() };
        let err = if r.pct(30) { "something went wrong\nbadly\n".into() } else { "".into() };
        x.exec.push(ExecOut { prog: prog.into(), code, out, err });
    }
    if health && r.pct(15) {
        x.faults.push(Fault { site: "stat".into(), path: None, nth: 1, sticky: true, act: Act::Errno(*r.pick(&[libc::EACCES, libc::EIO, libc::ELOOP])) });
        kind = "health+stat";
    }
    let mut sc = scenario("C21", seed, None, vec![x], kind);
    sc.files = files;
    sc
}

/// the uberjar chosen as the launcher was built: bin/build.sh
const BUILT_IN: &str = "/sim/opt/built-in.jar";

/// what the launcher should run
fn plan(x: &RunSpec) -> (String, Vec<String>, Option<String>) {
    let e = |k: &str| x.env.iter().find(|(a, _)| a == k).map(|(_, v)| v.clone());
    let uberjar = || e("LIMABEAN_UBERJAR").or((x.prog == "launcher-jar").then(|| BUILT_IN.to_string()));
    let deps = e("LIMABEAN_CLJ_DEPS").map(|d| format!(" {d}")).unwrap_or_default();
    let (prog, mut args, jar) = match (e("LIMABEAN_CLJ_LOCAL_ROOT"), uberjar()) {
        (None, Some(j)) => ("java", vec![NATIVE.to_string(), "-jar".into(), j.clone()], Some(j)),
        (root, _) => {
            let coord = match root {
                Some(p) => format!("{{:local/root \"{p}\"}}"),
                None => format!("{{:mvn/version \"{VERSION}\"}}"),
            };
            let d = format!("{{:deps {{io.github.tesujimath/limabean {coord}{deps}}}}}");
            ("clojure", [format!("-J{NATIVE}"), "-Sdeps".into(), d, "-M".into(), "-m".into(), "limabean.main".into()].to_vec(), None)
        }
    };
    args.extend(x.args.iter().cloned());
    (prog.into(), args, jar)
}

/// what the runtime said and the launcher does not show
fn unsaid<'a>(shown: &str, said: &'a str) -> Option<&'a str> {
    said.lines().find(|l| !shown.contains(l.trim()))
}

fn c21_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let (x, h) = (&sc.runs[0], &hs[0]);
    let (prog, args, jar) = plan(x);
    let err = String::from_utf8_lossy(&h.stderr).into_owned();
    if h.hang || h.runaway {
        return Some("stuck: the launcher does not finish".into());
    }
    let out = x.exec.iter().find(|e| e.prog == prog).cloned().unwrap_or(ExecOut { prog: prog.clone(), code: -libc::ENOENT, out: "".into(), err: "".into() });
    let code = match h.exit {
        Exit::Code(c) => c,
        _ => return Some(format!("exit: {:?}; stderr: {}", h.exit, clip(&err))),
    };
    if !h.mutations.is_empty() {
        return Some(format!("files: {}", h.mutations[0]));
    }
    if x.args.first().map(String::as_str) == Some("health") {
        if let Some(e) = h.execs.iter().find(|e| !e.spawn) {
            return Some(format!("health: replaced itself with {}", e.prog));
        }
        if h.execs.iter().any(|e| e.prog != prog) {
            return Some(format!("health probes: {} instead of {prog}", h.execs[0].prog));
        }
        if h.execs.is_empty() {
            return Some(format!("health probes: {prog} was not tried; exit status {code}; stderr: {}", clip(&err)));
        }
        if h.execs.iter().any(|e| e.args != [prog.as_str(), "--version"]) {
            return Some(format!("health probes: {:?}", h.execs[0].args));
        }
        if out.code != 0 {
            if let Some(w) = unsaid(&err, if out.code > 0 { &out.err } else { "" }) {
                return Some(format!("health message: {prog} said {}: {}", clip(w), clip(&err)));
            }
            return match code {
                1 if err.contains(&prog) => None,
                1 => Some(format!("health message: does not name {prog}: {}", clip(&err))),
                c => Some(format!("health status: {c} although {prog} {}; stderr: {}", if out.code < 0 { "cannot be run" } else { "fails" }, clip(&err))),
            };
        }
        if let Some(w) = unsaid(&err, &out.out) {
            return Some(format!("health message: {prog} said {}: {}", clip(w), clip(&err)));
        }
        if let Some(j) = jar {
            let shown = String::from_utf8_lossy(&raw_bytes(&j)).into_owned();
            let p = if j.starts_with('/') { j.clone() } else { format!("/sim/cwd/{j}") };
            let fault = x.faults.iter().any(|f| f.site == "stat");
            if fault || sc.vfs().resolve(&p, true).is_err() {
                return match code {
                    1 if err.contains(&shown) => None,
                    1 => Some(format!("health message: does not name the uberjar {j}: {}", clip(&err))),
                    c => Some(format!("health status: {c} although the uberjar {j} is missing; stderr: {}", clip(&err))),
                };
            }
        }
        return if code != 0 { Some(format!("health status: {code} although all is well; stderr: {}", clip(&err))) } else { None };
    }
    if let Some(e) = h.execs.iter().find(|e| e.spawn) {
        return Some(format!("run: started {} as a child", e.prog));
    }
    let [e] = &h.execs[..] else {
        return Some(format!("run: {} programs tried; stderr: {}", h.execs.len(), clip(&err)));
    };
    if e.prog != prog {
        return Some(format!("program: {} instead of {prog}", e.prog));
    }
    let mut want = vec![prog.clone()];
    want.extend(args);
    if e.args != want {
        let k = (0..want.len().max(e.args.len())).find(|&i| want.get(i) != e.args.get(i)).unwrap();
        return Some(format!("arguments: number {k} is {:?} instead of {:?}", e.args.get(k).map(|a| clip(a)), want.get(k).map(|a| clip(a))));
    }
    for (k, v) in &x.env {
        if !e.env.contains(&format!("{k}={v}")) {
            return Some(format!("environment: {k}={v} was not passed on"));
        }
    }
    if let Some(v) = e.env.iter().find(|v| {
        let k = v.split('=').next().unwrap_or("");
        !k.starts_with("SIM_") && !k.starts_with("LD_PRELOAD") && !x.env.iter().any(|(a, _)| a == k)
    }) {
        return Some(format!("environment: {} was added", clip(v)));
    }
    let version = x.args.iter().any(|a| a == "--version");
    let shown = String::from_utf8_lossy(&h.stdout);
    if version && !(shown.contains("limabean") && shown.contains(VERSION)) {
        return Some(format!("version: not shown: {}", clip(&shown)));
    }
    if !version && !shown.is_empty() {
        return Some(format!("output: {}", clip(&shown)));
    }
    let asked = x.args.iter().any(|a| a == "-v" || a == "--verbose");
    let ignored = jar.is_some() && x.env.iter().any(|(k, _)| k == "LIMABEAN_CLJ_DEPS");
    if asked && !err.contains(&prog) {
        return Some(format!("verbose: nothing said about {prog}: {}", clip(&err)));
    }
    if ignored && !err.contains("LIMABEAN_CLJ_DEPS") {
        return Some(format!("message: nothing said about LIMABEAN_CLJ_DEPS: {}", clip(&err)));
    }
    if !asked && !ignored && out.code >= 0 && !x.env.iter().any(|(k, _)| k == "RUST_LOG") && !err.is_empty() {
        return Some(format!("message: {}", clip(&err)));
    }
    if out.code < 0 {
        if code != 1 {
            return Some(format!("exit: {code} instead of 1 when {prog} cannot be run"));
        }
        if !err.contains(&prog) {
            return Some(format!("message: nothing said about {prog}: {}", clip(&err)));
        }
    } else if code != out.code & 255 {
        return Some(format!("exit: {code} instead of {}", out.code));
    }
    None
}

// ---------- C22 ----------

#[derive(Clone, Debug)]
enum Cell {
    Empty,
    Aligned(String, u8),
    Anchored(String, usize),
    Row(Vec<Cell>, String),
    Stack(Vec<Cell>),
}

const WORDS: &[&str] = &["a", "Assets:Bank", "é", "日本", "12.50", "USD", "", "x y", "q\"q", "b\\s", "-1,000", "Total", "some longer text than the others", "c\rr", "\ttab", " pad ", "two\nlines", "a  b", "\u{1}x", "e\u{301}", "🎉"];

#[derive(Clone)]
enum Shape {
    Leaf,
    Row(Vec<Shape>),
}

fn shape(r: &mut Rng, depth: u32) -> Shape {
    if depth == 0 || r.pct(40) {
        return Shape::Leaf;
    }
    Shape::Row((0..r.below(5)).map(|_| shape(r, depth - 1)).collect())
}

fn cell(r: &mut Rng, sh: &Shape, depth: u32) -> Cell {
    if depth > 0 && r.pct(45) {
        let n = if r.pct(10) { 20 } else { 5 };
        return Cell::Stack((0..r.below(n)).map(|_| cell(r, sh, depth - 1)).collect());
    }
    if r.pct(7) {
        return Cell::Empty;
    }
    match sh {
        Shape::Leaf => {
            let w = r.pick(WORDS).to_string();
            if r.pct(65) {
                Cell::Aligned(w, r.below(3) as u8)
            } else {
                let w = if w.is_ascii() { w } else { "7.25".into() };
                let i = r.below(w.len() + 1);
                Cell::Anchored(w, i)
            }
        }
        Shape::Row(v) => {
            let n = if r.pct(80) { v.len() } else { r.below(v.len() + 1) };
            let g = r.pick(&["", " ", "  ", " | ", "é"]).to_string();
            Cell::Row(v[..n].iter().map(|s| cell(r, s, depth.saturating_sub(1))).collect(), g)
        }
    }
}

fn encode(c: &Cell, r: &mut Rng, o: &mut String) {
    let ws = |r: &mut Rng| if r.pct(10) { "\n  " } else { "" };
    let q = |s: &str| serde_json::to_string(s).unwrap();
    match c {
        Cell::Empty => o.push_str("\"empty\""),
        Cell::Aligned(s, a) => {
            let _ = write!(o, "{{\"aligned\":{}[{},\"{}\"]}}", ws(r), q(s), ["left", "right", "centre"][*a as usize]);
        }
        Cell::Anchored(s, i) => {
            let _ = write!(o, "{{{}\"anchored\":[{},{i}]}}", ws(r), q(s));
        }
        Cell::Row(v, g) => {
            o.push_str("{\"row\":[[");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    o.push_str(ws(r));
                }
                encode(x, r, o);
            }
            let _ = write!(o, "],\"{g}\"]}}");
        }
        Cell::Stack(v) => {
            o.push_str("{\"stack\":[");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    o.push_str(ws(r));
                }
                encode(x, r, o);
            }
            o.push_str("]}");
        }
    }
}

fn decode(v: &serde_json::Value) -> Option<Cell> {
    use serde_json::Value as V;
    match v {
        V::String(s) if s == "empty" => Some(Cell::Empty),
        V::Object(m) if m.len() == 1 => {
            let (k, v) = m.iter().next()?;
            let v = v.as_array()?;
            match k.as_str() {
                "stack" => Some(Cell::Stack(v.iter().map(decode).collect::<Option<_>>()?)),
                "row" if v.len() == 2 => Some(Cell::Row(v[0].as_array()?.iter().map(decode).collect::<Option<_>>()?, v[1].as_str()?.into())),
                "aligned" if v.len() == 2 => {
                    let a = ["left", "right", "centre"].iter().position(|a| Some(*a) == v[1].as_str())?;
                    Some(Cell::Aligned(v[0].as_str()?.into(), a as u8))
                }
                "anchored" if v.len() == 2 => Some(Cell::Anchored(v[0].as_str()?.into(), v[1].as_u64()? as usize)),
                _ => None,
            }
        }
        _ => None,
    }
}

/// an anchor outside of its text is not part of the format
fn odd_anchor(c: &Cell) -> bool {
    match c {
        Cell::Anchored(s, i) => *i > width(s),
        Cell::Row(v, _) | Cell::Stack(v) => v.iter().any(odd_anchor),
        _ => false,
    }
}

fn width(s: &str) -> usize {
    s.chars()
        .map(|c| match c {
            '\u{300}'..='\u{36f}' => 0,
            '\u{3000}'..='\u{9fff}' | '\u{1f300}'..='\u{1faff}' => 2,
            _ => 1,
        })
        .sum()
}

/// the measures of a column: width, what is before and after the anchor, columns within
#[derive(Clone, Default)]
struct Grid {
    width: usize,
    anchor: Option<(usize, usize)>,
    cols: Option<(Vec<Grid>, String)>,
}

fn total(cols: &[Grid], g: &str) -> usize {
    cols.iter().map(|c| c.width).sum::<usize>() + cols.len().saturating_sub(1) * width(g)
}

fn grid(c: &Cell) -> Grid {
    match c {
        Cell::Empty => Grid::default(),
        Cell::Aligned(s, _) => Grid { width: width(s), ..Default::default() },
        Cell::Anchored(s, i) => Grid { width: width(s), anchor: Some((*i, width(s) - i)), cols: None },
        Cell::Row(v, g) => {
            let cols: Vec<Grid> = v.iter().map(grid).collect();
            Grid { width: total(&cols, g), anchor: None, cols: Some((cols, g.clone())) }
        }
        Cell::Stack(v) => v.iter().map(grid).fold(Grid::default(), join),
    }
}

fn join(a: Grid, b: Grid) -> Grid {
    let cols = match (a.cols, b.cols) {
        (Some((x, g)), Some((y, h))) => {
            let n = x.len().max(y.len());
            let cols = (0..n)
                .map(|i| match (x.get(i), y.get(i)) {
                    (Some(p), Some(q)) => join(p.clone(), q.clone()),
                    (p, q) => p.or(q).unwrap().clone(),
                })
                .collect();
            Some((cols, if width(&g) >= width(&h) { g } else { h }))
        }
        (x, y) => x.or(y),
    };
    Grid {
        width: match &cols {
            Some((c, g)) => total(c, g),
            None => a.width.max(b.width),
        },
        anchor: match (a.anchor, b.anchor) {
            (Some(x), Some(y)) => Some((x.0.max(y.0), x.1.max(y.1))),
            (x, y) => x.or(y),
        },
        cols,
    }
}

/// one line of a cell; what is left of it
fn line(c: Cell, g: &Grid, o: &mut String) -> Cell {
    let sp = |n: usize| " ".repeat(n);
    match c {
        Cell::Empty => {
            o.push_str(&sp(g.width));
            Cell::Empty
        }
        Cell::Aligned(s, a) => {
            let p = g.width.saturating_sub(width(&s));
            let l = [0, p, p / 2][a as usize];
            let _ = write!(o, "{}{s}{}", sp(l), sp(p - l));
            Cell::Empty
        }
        Cell::Anchored(s, i) => {
            let (b, t) = g.anchor.unwrap_or_default();
            let _ = write!(o, "{}{s}{}", sp(b - i), sp(t - (width(&s) - i)));
            Cell::Empty
        }
        Cell::Row(v, gut) => {
            if v.is_empty() {
                o.push_str(&sp(g.width));
                return Cell::Empty;
            }
            let (cols, sep) = g.cols.as_ref().unwrap();
            let mut it = v.into_iter();
            let mut rest = vec![];
            for (i, col) in cols.iter().enumerate() {
                if i > 0 {
                    o.push_str(sep);
                }
                rest.push(line(it.next().unwrap_or(Cell::Empty), col, o));
            }
            if rest.iter().all(|c| matches!(c, Cell::Empty)) { Cell::Empty } else { Cell::Row(rest, gut) }
        }
        Cell::Stack(mut v) => {
            if v.is_empty() {
                o.push_str(&sp(g.width));
                return Cell::Empty;
            }
            let rest = line(v.remove(0), g, o);
            if !matches!(rest, Cell::Empty) {
                v.insert(0, rest);
            }
            if v.iter().all(|c| matches!(c, Cell::Empty)) { Cell::Empty } else { Cell::Stack(v) }
        }
    }
}

fn table(c: &Cell) -> String {
    let g = grid(c);
    let mut c = c.clone();
    let mut o = String::new();
    let mut first = true;
    while !matches!(c, Cell::Empty) {
        if !first {
            o.push('\n');
        }
        first = false;
        c = line(c, &g, &mut o);
    }
    o.push('\n');
    o
}

fn spoil_json(r: &mut Rng, t: &mut Vec<u8>) {
    match r.below(10) {
        9 => {
            // two, whole ones or not, one after the other
            let mut u = t.clone();
            if r.pct(40) {
                u = r.pick(&["\"empty\"", "{}", "7", "{\"aligned\":[\"a\",\"left\"]}", "{\"stack\":[]}", "// end", "null"]).as_bytes().to_vec();
            }
            if r.pct(30) {
                std::mem::swap(&mut u, t);
            }
            t.extend_from_slice(r.pick(&["", "\n", " ", "\n\n", ",", ";", "\r\n", "\u{1e}", "\n---\n", "\0"]).as_bytes());
            t.extend(u);
        }
        0 | 1 => {
            let n = r.below(t.len());
            t.truncate(n);
        }
        2 => t.extend_from_slice(r.pick(&["x", "\"empty\"", "}", ",", "{}", "]", "\0", "\0\0\n", "\u{feff}", "\u{a0}", "#", "//", "\u{c}"]).as_bytes()),
        3 => {
            let at = r.below(t.len() + 1);
            t.splice(at..at, [0xffu8, 0xfe]);
        }
        4 => {
            // a byte lost
            let at = r.below(t.len());
            t.remove(at);
        }
        5 => *t = r.pick(&["", " ", "null", "7", "[]", "{}", "\"nothing\"", "{\"row\":[]}", "{\"stack\":\"empty\"}", "{\"aligned\":[\"a\",\"middle\"]}", "{\"aligned\":[\"a\"]}", "{\"anchored\":[\"a\",-1]}", "{\"anchored\":[\"a\",\"0\"]}", "{\"row\":[[\"empty\"]]}", "{\"cell\":1}", "{\"row\":[[],\" \"],\"stack\":[]}", "\u{feff}\"empty\""]).as_bytes().to_vec(),
        6 => {
            let s = String::from_utf8_lossy(t).replacen("\"left\"", "\"Left\"", 1).replacen("\"right\"", "\"rigth\"", 1).replacen("\"stack\"", "\"stacked\"", 1);
            *t = s.into_bytes();
        }
        7 => {
            // cut within a multi-byte character, or anywhere
            let at = t.iter().position(|b| *b >= 0xc0).map(|i| i + 1).unwrap_or(t.len() / 2);
            t.truncate(at);
        }
        _ => {
            let at = r.below(t.len());
            t[at] = *r.pick(b"{}[]\",:x\\\x00");
        }
    }
}

fn c22_make(env: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let depth = 1 + r.below(4) as u32;
    let sh = shape(&mut r, depth);
    let mut c = cell(&mut r, &sh, depth);
    if r.pct(10) {
        // a large one
        let col: Vec<Shape> = (0..1 + r.below(5)).map(|_| Shape::Leaf).collect();
        let row = Shape::Row(col);
        c = Cell::Stack((0..200 + r.below(1500)).map(|_| cell(&mut r, &row, 0)).collect());
    }
    let mut o = String::new();
    encode(&c, &mut r, &mut o);
    if r.pct(30) {
        o.push_str(r.pick(&["\n", "  \n", "\r\n\t "]));
    }
    let mut t = o.into_bytes();
    let mut kind = "whole";
    let mut x = RunSpec { prog: "pod".into(), args: vec!["tabulate".into()], window: 1, ..Default::default() };
    let pick = r.below(10);
    if pick < 3 {
        kind = "malformed";
        spoil_json(&mut r, &mut t);
    }
    let big = t.len() > 4000;
    x.input = Some(t);
    let mut y = x.clone();
    for k in [&mut x, &mut y] {
        knobs(&mut r, k);
        if big && k.frag > 0 {
            k.frag = k.frag.max(64);
        }
        if big && k.wfrag > 0 {
            k.wfrag = k.wfrag.max(100);
        }
        k.window = 1;
    }
    if pick == 6 {
        kind = "alloc";
        let v = crate::vfs::Vfs::default();
        let n = crate::world::run(env, &v, &y, false).allocs;
        y.faults.push(crate::p_rpc::refusal(1 + r.below(n.max(1) as usize) as u32, r.pct(50)));
    }
    if pick >= 7 {
        let (site, act) = match r.below(5) {
            0 | 1 => ("stdin", Act::Errno(*r.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ECONNRESET]))),
            2 => ("stdout", Act::Zero),
            3 => ("stdin", Act::Kill),
            _ => ("stdout", Act::Errno(*r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EFBIG]))),
        };
        kind = site;
        if site == "stdin" {
            y.frag = *r.pick(&[1, 7, 64, 4096, 0]);
            if big && y.frag > 0 {
                y.frag = y.frag.max(64);
            }
        }
        let calls = if r.pct(50) { 3 } else { 40 };
        y.faults.push(Fault { site: site.into(), path: None, nth: 1 + r.below(calls) as u32, sticky: r.pct(60), act });
    }
    scenario("C22", seed, None, vec![x, y], kind)
}

fn c22_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    for (i, (x, h)) in sc.runs.iter().zip(hs).enumerate() {
        if h.hang || h.runaway {
            return Some(format!("stuck: run {i} does not finish"));
        }
        if !h.mutations.is_empty() {
            return Some(format!("files: {}", h.mutations[0]));
        }
        if !h.execs.is_empty() {
            return Some(format!("programs: {}", h.execs[0].prog));
        }
        let input = x.input.clone().unwrap_or_default();
        let cell = std::str::from_utf8(&input).ok().and_then(|t| serde_json::from_str(t).ok()).and_then(|v| decode(&v));
        if cell.as_ref().is_some_and(odd_anchor) {
            continue;
        }
        let want = cell.as_ref().map(table);
        let fired: u32 = h.fired.iter().sum();
        let site = x.faults.first().map(|f| f.site.as_str()).unwrap_or("");
        let got = String::from_utf8_lossy(&h.stdout).into_owned();
        if fired > 0 {
            if h.exit == Exit::Code(0) {
                // an interrupted or failed call which was tried again with success loses nothing
                if want.as_deref() == Some(got.as_str()) && matches!(site, "stdout" | "alloc") && !x.faults[0].sticky {
                    continue;
                }
                return Some(format!("status: 0 although {site} failed; output {}", clip(&got)));
            }
            let part = want.unwrap_or_default();
            if site == "stdin" && !got.is_empty() {
                return Some(format!("partial table: printed although input failed: {}", clip(&got)));
            }
            if !part.as_bytes().starts_with(&h.stdout) {
                return Some(format!("partial table: not the beginning of the table: {}", clip(&got)));
            }
            continue;
        }
        match want {
            Some(w) => {
                if h.exit != Exit::Code(0) {
                    return Some(format!("status: {:?} for input in order; stderr: {}", h.exit, stderr(h)));
                }
                if w != got {
                    let (a, b): (Vec<&str>, Vec<&str>) = (w.lines().collect(), got.lines().collect());
                    let k = (0..a.len().max(b.len())).find(|&k| a.get(k) != b.get(k)).unwrap_or(0);
                    return Some(format!("table: line {k} is {:?} instead of {:?}", b.get(k).map(|s| clip(s)), a.get(k).map(|s| clip(s))));
                }
            }
            None => {
                if h.exit == Exit::Code(0) {
                    return Some(format!("status: 0 for malformed input; output: {}", clip(&got)));
                }
                if !got.is_empty() {
                    return Some(format!("partial table: printed for malformed input: {}", clip(&got)));
                }
                if !matches!(h.exit, Exit::Code(_)) {
                    return Some(format!("exit: {:?}", h.exit));
                }
            }
        }
    }
    None
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            make: c21_make,
            judge: c21_judge,
            nontrivial: |_, hs| !hs[0].execs.is_empty(),
            rule: "random environments, arguments, outcomes of exec and of the version command, and states of the uberjar; non-trivial: a program was run or tried",
            quick: 8000,
        },
        Prop {
            id: "C22",
            make: c22_make,
            judge: c22_judge,
            nontrivial: |_, hs| hs.iter().any(|h| h.stdout.len() > 1 || !h.fired_kinds.is_empty()),
            rule: "random tables, whole or malformed, delivered in pieces of any size, with failing reads and writes; non-trivial: a table was printed or a fault was injected",
            quick: 8000,
        },
    ]
}
