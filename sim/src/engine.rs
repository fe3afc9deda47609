//! Seeded search: many scenarios, a verdict on each, evidence, minimisation, replay files.
use crate::scen::*;
use crate::shrink;
use crate::world::{Env, Hist};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

pub fn mix(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= i.wrapping_mul(0xD6E8FEB86659FD93);
    h ^= h >> 32;
    h.wrapping_mul(0xD6E8FEB86659FD93) >> 12
}

#[derive(Default)]
struct Stats {
    scenarios: u64,
    runs: u64,
    nontrivial: HashSet<u64>,
    hashes: HashSet<u64>,
    shapes: HashSet<u64>,
    sim_us: u64,
    syscalls: u64,
    sites: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    requests: u64,
    selfcheck: u64,
    threaded: u64,
    reasons: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

impl Stats {
    fn add(&mut self, p: &Prop, sc: &Scenario, hs: &[Hist]) {
        self.scenarios += 1;
        self.runs += hs.len() as u64;
        let mut h = 0u64;
        for x in hs {
            self.hashes.insert(x.hash);
            self.shapes.insert(x.shape);
            self.sim_us += x.sim_us;
            self.syscalls += x.steps;
            self.requests += x.lines.len() as u64;
            h = h.wrapping_mul(31).wrapping_add(x.hash);
            for m in ["\"reason\":\"", "\"message\":\""] {
                for t in String::from_utf8_lossy(&x.stdout).split(m).skip(1) {
                    self.met(t.split('"').next().unwrap_or(""));
                }
            }
            for (k, n) in &x.counts {
                *self.sites.entry(k.clone()).or_default() += *n as u64;
            }
            for (k, n) in &x.fired_kinds {
                *self.faults.entry(k.clone()).or_default() += n;
            }
        }
        *self.kinds.entry(sc.kind.clone()).or_default() += 1;
        if (p.nontrivial)(sc, hs) {
            self.nontrivial.insert(h);
            if self.samples.len() < 3 {
                self.samples.push(sample(sc, hs));
            }
        }
    }
    /// the plain words of a message of the program
    fn met(&mut self, t: &str) {
        let words: Vec<&str> = t.split(' ').filter(|w| !w.is_empty() && w.chars().all(|c| c.is_ascii_lowercase())).take(7).collect();
        let k = words.join(" ");
        if self.reasons.len() < 300 || self.reasons.contains_key(&k) {
            *self.reasons.entry(k).or_default() += 1;
        }
    }
    fn merge(&mut self, o: Stats) {
        self.scenarios += o.scenarios;
        self.runs += o.runs;
        self.nontrivial.extend(o.nontrivial);
        self.hashes.extend(o.hashes);
        self.shapes.extend(o.shapes);
        self.sim_us += o.sim_us;
        self.syscalls += o.syscalls;
        self.requests += o.requests;
        self.selfcheck += o.selfcheck;
        self.threaded += o.threaded;
        for (k, n) in o.sites {
            *self.sites.entry(k).or_default() += n;
        }
        for (k, n) in o.reasons {
            *self.reasons.entry(k).or_default() += n;
        }
        for (k, n) in o.faults {
            *self.faults.entry(k).or_default() += n;
        }
        for (k, n) in o.kinds {
            *self.kinds.entry(k).or_default() += n;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn sample(sc: &Scenario, hs: &[Hist]) -> serde_json::Value {
    let led: Vec<String> = match &sc.led {
        Some(l) => l.files.iter().zip(l.render().texts).map(|(f, t)| clip(&format!("{}:\n{t}", f.path), 600)).collect(),
        None => vec![],
    };
    let runs: Vec<serde_json::Value> = sc
        .runs
        .iter()
        .zip(hs)
        .map(|(r, h)| {
            serde_json::json!({
                "args": r.args, "window": r.window, "frag": r.frag, "wfrag": r.wfrag, "ffrag": r.ffrag, "eintr_pct": r.eintr,
                "entropy": r.entropy, "faults": r.faults, "exit": format!("{:?}", h.exit), "history_hash": format!("{:016x}", h.hash),
                "requests": h.lines.iter().take(4).map(|l| clip(&String::from_utf8_lossy(l), 160)).collect::<Vec<_>>(),
                "answers": h.answers().iter().take(4).map(|l| clip(l, 160)).collect::<Vec<_>>(),
            })
        })
        .collect();
    serde_json::json!({"seed": sc.seed, "kind": sc.kind, "ledger": led, "runs": runs})
}

pub struct Found {
    pub sc: Scenario,
    pub msg: String,
}

pub enum Outcome {
    Held,
    Violated(String),
    Broken(String),
}

pub struct Budget {
    pub scenarios: u64,
    pub seconds: f64,
    pub threads: usize,
}

pub fn hashes(hs: &[Hist]) -> Vec<u64> {
    hs.iter().map(|h| h.hash).collect()
}

pub fn check(env: &Env, p: &Prop, seed: u64, tier: &str, b: &Budget, verif: &str) -> Outcome {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Option<(u64, Found)>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..b.threads {
            s.spawn(|| {
                let mut st = Stats::default();
                while !stop.load(Ordering::SeqCst) {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= b.scenarios || t0.elapsed().as_secs_f64() > b.seconds {
                        break;
                    }
                    let sc = (p.make)(env, mix(seed, p.id, i));
                    let hs = sc.execute(env, false);
                    match verdict(p, &sc, &hs) {
                        Err(e) => {
                            *broken.lock().unwrap() = Some(format!("seed {}: {e}", sc.seed));
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        Ok(Some(msg)) => {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|(j, _)| i < *j) {
                                *f = Some((i, Found { sc, msg }));
                            }
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        Ok(None) => {}
                    }
                    // one seed is one execution
                    if i % 64 == 0 {
                        let again = sc.execute(env, false);
                        // threads of the program under test, of which it has none as it is, are not scheduled
                        let own = |h: &[crate::world::Hist]| h.iter().any(|h| h.threads > 1);
                        if own(&again) || own(&hs) {
                            st.threaded += 1;
                        } else if hashes(&again) != hashes(&hs) {
                            *broken.lock().unwrap() = Some(format!("seed {}: not repeatable", sc.seed));
                            stop.store(true, Ordering::SeqCst);
                            break;
                        } else {
                            st.selfcheck += 1;
                        }
                    }
                    st.add(p, &sc, &hs);
                }
                total.lock().unwrap().merge(st);
            });
        }
    });
    let st = total.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let found = found.into_inner().unwrap().map(|x| x.1);
    let out = match (found, broken.into_inner().unwrap()) {
        (Some(f), _) => {
            let small = shrink::minimise(env, p, &f.sc, &f.msg, std::env::var("SIM_SHRINK").ok().and_then(|x| x.parse().ok()).unwrap_or(40.0));
            let hs = small.execute(env, true);
            let msg = verdict(p, &small, &hs).ok().flatten().unwrap_or(f.msg.clone());
            let path = format!("{verif}/replays/{}-{}.json", p.id, f.sc.seed);
            let _ = std::fs::create_dir_all(format!("{verif}/replays"));
            let doc = serde_json::json!({
                "property": p.id, "seed": f.sc.seed, "violation": msg,
                "history_hashes": hs.iter().map(|h| format!("{:016x}", h.hash)).collect::<Vec<_>>(),
                "scenario": small, "original": f.sc,
                "ledger_text": small.led.as_ref().map(|l| l.files.iter().zip(l.render().texts).map(|(f, t)| format!("{}:\n{t}", f.path)).collect::<Vec<_>>()),
                "schedule_and_faults": hs.iter().map(|h| h.trace.clone()).collect::<Vec<_>>(),
            });
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
                eprintln!("simctl: {path}: {e}");
            }
            println!("{}: {msg}", p.id);
            Outcome::Violated(path)
        }
        (None, Some(b)) => Outcome::Broken(b),
        (None, None) => Outcome::Held,
    };
    evidence(p, seed, tier, &st, wall, &out, b, verif);
    out
}

fn evidence(p: &Prop, seed: u64, tier: &str, st: &Stats, wall: f64, out: &Outcome, b: &Budget, verif: &str) {
    let per_h = |n: u64| (n as f64 / wall.max(1e-9) * 3600.0).round();
    let (real, stub): (&[&str], &[&str]) = match p.id {
        "C21" => (&["limabean (launcher binary)"], &["exec/spawn of java and clojure (simulated outcomes)", "file system", "clock", "entropy"]),
        "C22" => (&["limabean-pod tabulate (binary)"], &["standard streams", "file system", "clock", "entropy"]),
        _ => (
            &["limabean-pod serve (binary: JSON-RPC server, parser, booking, report rendering, logging)"],
            &["client", "standard streams", "file system", "log device", "clock", "entropy"],
        ),
    };
    let v = serde_json::json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall,
        "coverage": {
            "evaluations": st.scenarios,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": st.samples,
            "simulated_runs": st.runs,
            "runs_per_hour": per_h(st.runs),
            "seeds_per_hour": per_h(st.scenarios),
            "simulated_time_s": st.sim_us as f64 / 1e6,
            "requests_sent": st.requests,
            "simulated_system_calls": st.syscalls,
            "calls_by_site": st.sites,
            "faults_injected": st.faults,
            "scenario_kinds": st.kinds,
            "messages_met": st.reasons,
            "messages_met_measure": "answers and reports whose message or reason has these plain words",
            "distinct_histories": st.hashes.len(),
            "distinct_histories_measure": "hash over every simulated call with its arguments, payload and outcome",
            "distinct_interleavings": st.shapes.len(),
            "distinct_interleavings_measure": "hash over the sequence of calls, their result class and errno, without payloads",
            "executions_repeated_and_equal": st.selfcheck,
            "executions_with_threads_of_their_own": st.threaded,
            "ran_real": real,
            "ran_stub": stub,
            "budget": {"scenarios": b.scenarios, "seconds": b.seconds, "threads": b.threads},
            "outcome": match out { Outcome::Held => "held".to_string(), Outcome::Violated(r) => format!("violated: {r}"), Outcome::Broken(x) => format!("no answer: {x}") },
        },
        "assumptions": [
            "the executable reference model is right where it is consulted",
            "the program meets the world only through the libc calls the preload library covers",
            "what was not generated was not explored",
        ],
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let path = format!("{verif}/evidence/{}.json", p.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()) {
        eprintln!("simctl: {path}: {e}");
    }
}

/// 1: reproduced; 0: held; 2: could not tell
pub fn replay(env: &Env, props: &[Prop], file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let j: serde_json::Value = serde_json::from_str(&t).expect("replay file");
    let sc: Scenario = serde_json::from_value(j["scenario"].clone()).expect("scenario");
    let p = props.iter().find(|p| p.id == sc.prop).expect("property");
    let hs = sc.execute(env, true);
    let got: Vec<String> = hs.iter().map(|h| format!("{:016x}", h.hash)).collect();
    let want: Vec<String> = j["history_hashes"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    for (i, h) in hs.iter().enumerate() {
        println!("--- run {i}: exit {:?}, history {:016x}", h.exit, h.hash);
        for t in &h.trace {
            println!("{t}");
        }
    }
    println!("--- histories {}", if got == want { "as recorded" } else { "differ from the recording (other build?)" });
    match verdict(p, &sc, &hs) {
        Err(e) => {
            println!("no answer: {e}");
            2
        }
        Ok(Some(m)) => {
            println!("VIOLATION property={} replay={file}\n{m}", p.id);
            1
        }
        Ok(None) => {
            println!("held");
            0
        }
    }
}
