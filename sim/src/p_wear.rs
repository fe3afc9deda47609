//! What a session costs as it goes on: C26.
use crate::r#gen::Cfg;
use crate::kit::*;
use crate::p_rpc::{bad_line, mixed_health, world_of};
use crate::rng::Rng;
use crate::scen::*;
use crate::spec::*;
use crate::world::{Env, Hist, Mark};
use crate::cmp;

/// steps of one round
fn round_len(sc: &Scenario) -> usize {
    sc.kind.rsplit(' ').next().and_then(|t| t.parse().ok()).unwrap_or(1)
}

fn c26_make(_: &Env, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let h = mixed_health(&mut r);
    let (l, files, arg) = world_of(&mut r, h, Cfg::mixed());
    let mut x = serve(&arg);
    environment(&mut r, &mut x);
    let n = 2 + r.below(6);
    let mut round = session(&mut r, n, h);
    if r.pct(40) {
        for _ in 0..1 + r.below(3) {
            round.push(Step::Req { id: id(&mut r), method: "book".into(), param: hand_made(&mut r), style: encode_style(&mut r) });
        }
    }
    if r.pct(50) {
        for _ in 0..1 + r.below(3) {
            let at = r.below(round.len() + 1);
            let b = bad_line(&mut r);
            crate::p_rpc::insert_step(&mut round, at, Step::Line(b));
        }
    }
    let k = round.len();
    let rounds = *r.pick(&[9, 12, 30, 60, 120, 120, 600 / k]).max(&9);
    // ids as before, or new ones
    let fresh = r.pct(50);
    for i in 0..rounds {
        for (n, s) in round.iter().enumerate() {
            let mut s = s.clone();
            if let Step::Req { id, param, .. } = &mut s {
                if fresh {
                    *id = (1_000_000 + i * k + n).to_string();
                }
                for x in param.steps_mut() {
                    *x += i * k;
                }
            }
            x.steps.push(s);
        }
    }
    Scenario { prop: "C26".into(), seed, led: Some(l), files, runs: vec![x], kind: format!("{h:?} {k}") }
}

/// is this a session of rounds?
pub fn periodic(sc: &Scenario) -> bool {
    let k = round_len(sc);
    let Some(x) = sc.runs.first() else { return false };
    sc.prop == "C26" && k > 0 && x.steps.len().is_multiple_of(k) && x.steps.iter().enumerate().all(|(i, s)| method(s) == method(&x.steps[i % k]))
}

/// fewer rounds, or a step less in each
pub fn smaller(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    if !periodic(sc) {
        return v;
    }
    let k = round_len(sc);
    let rounds = sc.runs[0].steps.len() / k;
    for n in [9, rounds / 2, rounds - 1] {
        if n >= 9 && n < rounds {
            let mut s = sc.clone();
            s.runs[0].steps.truncate(n * k);
            v.push(s);
        }
    }
    for j in (0..k).rev() {
        if k < 2 {
            break;
        }
        let mut x = sc.runs[0].clone();
        if (0..rounds).rev().all(|i| match crate::shrink::drop_step(&x, i * k + j) {
            Some(y) => {
                x = y;
                true
            }
            None => false,
        }) {
            let mut s = sc.clone();
            s.runs[0] = x;
            s.kind = format!("{} {}", sc.kind.split(' ').next().unwrap_or(""), k - 1);
            v.push(s);
        }
    }
    v
}

/// what was created in the course of the session: sources, and bytes of text
fn created(x: &RunSpec, h: &Hist) -> (i64, i64) {
    let mut n = (0, 0);
    for (k, s) in x.steps.iter().enumerate() {
        if let (Step::Line(b) | Step::Tail(b), _) = (s, k) {
            if String::from_utf8_lossy(b).contains("create-synthetic") {
                n = (n.0 + 4, n.1 + b.len() as i64);
            }
        }
        if method(s) == "parser.create-synthetic-spans" {
            if let Some(Some(l)) = h.step_line.get(k) {
                n = (n.0 + 4, n.1 + h.lines[*l].len() as i64);
            }
        }
    }
    n
}

fn c26_judge(sc: &Scenario, hs: &[Hist]) -> Option<String> {
    let (x, h) = (&sc.runs[0], &hs[0]);
    if let Some(e) = cmp::check_clean(h) {
        return Some(format!("run: {e}"));
    }
    if !periodic(sc) {
        return None;
    }
    let k = round_len(sc);
    let rounds = x.steps.len() / k;
    // marks at the ends of rounds; not every step of a round leads to a request
    let mut m: Vec<&Mark> = vec![];
    let mut sent = 0;
    for i in 0..rounds {
        sent += h.step_line.iter().skip(i * k).take(k).flatten().count();
        m.extend(h.marks.iter().find(|m| m.answers == sent));
    }
    if h.answers().len() != h.lines.len() {
        return Some(format!("count: {} answers to {} lines", h.answers().len(), h.lines.len()));
    }
    if sent < 9 {
        return None;
    }
    if m.len() < rounds.saturating_sub(1) {
        return Some(format!("count: of {rounds} rounds, {} ended with the client waiting", m.len()));
    }
    // the first round sets up what is kept; the middle is compared with the end
    let t = (m.len() - 1) / 4;
    let (mid, end) = (&m[1..=t.max(2)], &m[m.len() - t.max(2)..]);
    let (sources, bytes) = created(x, h);
    let ledger: usize = sc.led.as_ref().map(|l| l.files.len() * 200).unwrap_or(0) + sc.vfs().nodes.keys().filter_map(|p| sc.vfs().content(p)).map(|c| c.len()).sum::<usize>();
    let allowed = 96 + if sources > 0 { 4 * (bytes + 200 * sources) + 4 * ledger as i64 + 8192 } else { 0 };
    let was = mid.iter().map(|m| m.live).max()?;
    let is = end.iter().map(|m| m.live).min()?;
    if is > was + allowed {
        return Some(format!("memory: after up to {} rounds of {k} requests at most {was} bytes were in use, after {} and more at least {is}", t.max(2), rounds - t.max(2)));
    }
    let most = |v: &[&Mark], f: fn(&Mark) -> i64| v.windows(2).map(|p| f(p[1]) - f(p[0])).max().unwrap_or(0);
    let least = |v: &[&Mark], f: fn(&Mark) -> i64| v.windows(2).map(|p| f(p[1]) - f(p[0])).min().unwrap_or(0);
    for (what, f) in [("requests for memory", (|m: &Mark| m.allocs as i64) as fn(&Mark) -> i64), ("calls of the operating system", |m| m.calls as i64)] {
        let (a, b) = (most(mid, f), least(end, f));
        if b > a + a / 4 + 20 {
            return Some(format!("work: a round took at most {a} {what} before, and at least {b} towards the end"));
        }
    }
    for (what, f) in [("open files", (|m: &Mark| m.open as i64) as fn(&Mark) -> i64), ("threads", |m| m.threads as i64)] {
        let (a, b) = (mid.iter().map(|m| f(m)).max()?, end.iter().map(|m| f(m)).min()?);
        if b > a {
            return Some(format!("held: at most {a} {what} before, and at least {b} towards the end"));
        }
    }
    None
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        make: c26_make,
        judge: c26_judge,
        nontrivial: |sc, hs| sc.runs[0].steps.len() / round_len(sc) >= 9 && hs[0].answers().len() >= 9,
        rule: "the same requests round after round; non-trivial: at least four rounds were answered",
        quick: 2000,
    }]
}
