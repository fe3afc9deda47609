//! Minimisation of a failing scenario: fewer runs, steps, faults and knobs, less ledger.
use crate::ast::*;
use crate::scen::*;
use crate::spec::*;
use crate::world::Env;
use crate::{cmp, parse};
use std::time::Instant;

fn class(m: &str) -> &str {
    m.split([':', '[', '(']).next().unwrap_or(m)
}

/// a smaller ledger must stay in the domain of the property
/// a step without the numbers of the steps it builds on
fn key(s: &Step) -> Step {
    let mut s = s.clone();
    if let Step::Req { param, .. } = &mut s {
        for k in param.steps_mut() {
            *k = 0;
        }
    }
    s
}

/// for each step of a where it is in b, as far as they are in the same order
fn align(a: &RunSpec, b: &RunSpec) -> Vec<Option<usize>> {
    let (x, y): (Vec<Step>, Vec<Step>) = (a.steps.iter().map(key).collect(), b.steps.iter().map(key).collect());
    // longest common subsequence
    let mut n = vec![vec![0u32; y.len() + 1]; x.len() + 1];
    for i in (0..x.len()).rev() {
        for j in (0..y.len()).rev() {
            n[i][j] = if x[i] == y[j] { n[i + 1][j + 1] + 1 } else { n[i + 1][j].max(n[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut v = vec![None; x.len()];
    while i < x.len() && j < y.len() {
        if x[i] == y[j] {
            v[i] = Some(j);
            i += 1;
            j += 1;
        } else if n[i + 1][j] >= n[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    v
}

/// how the steps of the runs relate: equal, or all of one among those of the other
fn relations(sc: &Scenario) -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    for a in 0..sc.runs.len() {
        for b in 0..sc.runs.len() {
            if a != b && align(&sc.runs[a], &sc.runs[b]).iter().all(|x| x.is_some()) {
                v.push((a, b, sc.runs[a].steps.len() == sc.runs[b].steps.len()));
            }
        }
    }
    v
}

fn in_domain(orig: &Scenario, sc: &Scenario) -> bool {
    if orig.runs.len() == sc.runs.len() {
        let now = relations(sc);
        // one to one as before; where one had more than the other it may have as many now
        if !relations(orig).iter().all(|(a, b, same)| now.iter().any(|(x, y, s)| x == a && y == b && (*s || !*same))) {
            return false;
        }
    }
    match (&orig.led, &sc.led) {
        (Some(a), Some(b)) => {
            let was = parse::parse(a).is_ok();
            match parse::parse(b) {
                Ok(p) => was && !matches!(cmp::outcome(&p), crate::book::Outcome::Excluded(_)) && (crate::r#gen::locatable(b) || !crate::r#gen::locatable(a)),
                Err(_) => !was,
            }
        }
        _ => true,
    }
}

pub fn drop_step(r: &RunSpec, i: usize) -> Option<RunSpec> {
    let mut r = r.clone();
    if i >= r.steps.len() {
        return None;
    }
    r.steps.remove(i);
    for s in &mut r.steps {
        if let Step::Req { param, .. } = s {
            for k in param.steps_mut() {
                if *k == i {
                    return None;
                }
                if *k > i {
                    *k -= 1;
                }
            }
        }
    }
    Some(r)
}

fn candidates(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    for i in (2..sc.runs.len()).rev() {
        let mut s = sc.clone();
        s.runs.remove(i);
        v.push(s);
    }
    if sc.runs.len() > 2 {
        let mut s = sc.clone();
        s.runs.remove(1);
        v.push(s);
    }
    // ledger: chunks of items, then single items
    if let Some(l) = &sc.led {
        for (fi, f) in l.files.iter().enumerate() {
            let n = f.items.len();
            let mut size = n / 2;
            while size >= 1 {
                let mut at = 0;
                while at < n {
                    let mut s = sc.clone();
                    s.led.as_mut().unwrap().files[fi].items.drain(at..(at + size).min(n));
                    v.push(s);
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        for fi in 1..l.files.len() {
            let mut s = sc.clone();
            s.led.as_mut().unwrap().files.remove(fi);
            v.push(s);
        }
    }
    // steps, in all runs which share them
    let longest = (0..sc.runs.len()).max_by_key(|k| sc.runs[*k].steps.len()).unwrap_or(0);
    let places: Vec<Vec<Option<usize>>> = sc.runs.iter().map(|r| align(&sc.runs[longest], r)).collect();
    v.extend(crate::p_wear::smaller(sc));
    let n = if crate::p_wear::periodic(sc) { 0 } else { sc.runs.get(longest).map_or(0, |r| r.steps.len()) };
    for i in (0..n).rev() {
        let mut s = sc.clone();
        let mut ok = true;
        for (r, at) in s.runs.iter_mut().zip(&places) {
            if let Some(k) = at[i] {
                match drop_step(r, k) {
                    Some(x) => *r = x,
                    None => ok = false,
                }
            }
        }
        if ok {
            v.push(s);
        }
        for k in 0..sc.runs.len() {
            let mut s = sc.clone();
            if let Some(x) = drop_step(&s.runs[k], i) {
                s.runs[k] = x;
                v.push(s);
            }
        }
    }
    for k in 0..sc.runs.len() {
        for i in 0..sc.runs[k].meanwhile.len() {
            let mut s = sc.clone();
            s.runs[k].meanwhile.remove(i);
            v.push(s);
        }
        for i in 0..sc.runs[k].faults.len() {
            let mut s = sc.clone();
            s.runs[k].faults.remove(i);
            v.push(s);
        }
        let knobs: &[fn(&mut RunSpec)] = &[
            |r| r.frag = 0,
            |r| r.wfrag = 0,
            |r| r.ffrag = 0,
            |r| r.eintr = 0,
            |r| r.entropy = 0,
            |r| r.pad = 0,
            |r| r.machine = 0,
            |r| r.clock0 = 0,
            |r| r.jumps.clear(),
            |r| r.window = 1,
            |r| r.bare_end = false,
            |r| r.ahead = 0,
            |r| r.log = None,
            |r| r.log_link = false,
        ];
        for f in knobs {
            let mut s = sc.clone();
            f(&mut s.runs[k]);
            v.push(s);
        }
        if let Some(x) = &sc.runs[k].input {
            let n = x.len();
            for (a, b) in [(0, n / 2), (n / 2, n)] {
                let mut s = sc.clone();
                s.runs[k].input.as_mut().unwrap().drain(a..b);
                v.push(s);
            }
        }
    }
    let mut s = sc.clone();
    for r in &mut s.runs {
        r.steps.iter_mut().for_each(|s| if let Step::Req { style, .. } = s { *style = 0 });
    }
    v.push(s);
    // details of directives
    if let Some(l) = &sc.led {
        for (fi, f) in l.files.iter().enumerate() {
            for (ii, it) in f.items.iter().enumerate() {
                if let Item::D(d) = it {
                    let mut put = |e: Dct| {
                        let mut s = sc.clone();
                        s.led.as_mut().unwrap().files[fi].items[ii] = Item::D(e);
                        v.push(s);
                    };
                    let mut e = d.clone();
                    e.tags.clear();
                    e.links.clear();
                    e.mtags.clear();
                    e.mlinks.clear();
                    e.meta.clear();
                    e.style = 0;
                    put(e);
                    if let Body::Txn { postings, .. } = &d.body {
                        for k in 0..postings.len() {
                            let mut e = d.clone();
                            if let Body::Txn { postings, .. } = &mut e.body {
                                postings.remove(k);
                            }
                            put(e);
                            let mut e = d.clone();
                            if let Body::Txn { postings, .. } = &mut e.body {
                                let p = &mut postings[k];
                                p.tags.clear();
                                p.links.clear();
                                p.meta.clear();
                                p.flag = None;
                            }
                            put(e);
                        }
                        let mut e = d.clone();
                        if let Body::Txn { payee, narration, flag, .. } = &mut e.body {
                            *payee = None;
                            *narration = None;
                            *flag = "*".into();
                        }
                        put(e);
                    }
                }
            }
        }
    }
    v
}

pub fn minimise(env: &Env, p: &Prop, sc: &Scenario, msg: &str, seconds: f64) -> Scenario {
    let t = Instant::now();
    let mut best = sc.clone();
    let mut size = serde_json::to_string(&best).unwrap().len();
    let threads = 8;
    loop {
        let mut cands: Vec<(usize, Scenario)> = candidates(&best)
            .into_iter()
            .filter(|c| *c != best)
            .map(|c| (serde_json::to_string(&c).unwrap().len(), c))
            .collect();
        // knobs reset to zero may not make it shorter: allow equal length
        cands.retain(|(n, _)| *n <= size);
        let mut progress = false;
        for chunk in cands.chunks(threads) {
            if t.elapsed().as_secs_f64() > seconds {
                return best;
            }
            let res: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .map(|(_, c)| {
                        s.spawn(|| {
                            if !in_domain(&best, c) {
                                return false;
                            }
                            let hs = c.execute(env, false);
                            matches!(verdict(p, c, &hs), Ok(Some(m)) if class(&m) == class(msg))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            if let Some(i) = res.iter().position(|x| *x) {
                best = chunk[i].1.clone();
                size = chunk[i].0;
                progress = true;
                break;
            }
        }
        if !progress {
            return best;
        }
    }
}
