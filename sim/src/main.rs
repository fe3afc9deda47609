#![allow(dead_code)]
mod ast;
mod book;
mod client;
mod cmp;
mod edit;
mod engine;
mod r#gen;
mod json;
mod kit;
mod known;
mod p_book;
mod p_err;
mod p_loc;
mod p_rpc;
mod p_tool;
mod p_wear;
mod parse;
mod rng;
mod scen;
mod shrink;
mod soak;
mod spec;
mod vfs;
mod world;

fn var(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|x| !x.is_empty()).unwrap_or(d.to_string())
}

fn props() -> Vec<scen::Prop> {
    let mut v = p_rpc::props();
    v.extend(p_book::props());
    v.extend(p_loc::props());
    v.extend(p_err::props());
    v.extend(p_tool::props());
    v.extend(p_wear::props());
    v.sort_by_key(|p| p.id);
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    if arg(1) == "__child" {
        child(arg(2));
    }
    let verif = var("SIM_VERIF", "/verif");
    let bin = var("SIM_BIN", &format!("{verif}/target/pod/debug"));
    let env = world::Env {
        pod: format!("{bin}/limabean-pod"),
        launcher: format!("{bin}/limabean"),
        preload: format!("{verif}/target/libsimos.so"),
        helper: std::env::current_exe().unwrap().to_string_lossy().into(),
    };
    let ps = props();
    match arg(1) {
        "check" => {
            let Some(p) = ps.iter().find(|p| p.id == arg(2)) else {
                eprintln!("simctl: no property {}", arg(2));
                std::process::exit(2);
            };
            let seed: u64 = var("VERIF_SEED", "1").parse().unwrap_or(1);
            let tier = var("VERIF_TIER", "quick");
            let n: u64 = var("SIM_N", "0").parse().unwrap_or(0);
            let b = engine::Budget {
                scenarios: if n > 0 { n } else if tier == "thorough" { u64::MAX } else { p.quick },
                seconds: var("SIM_SECONDS", if tier == "thorough" { "600" } else { "150" }).parse().unwrap_or(150.0),
                threads: var("SIM_THREADS", "8").parse().unwrap_or(8),
            };
            match engine::check(&env, p, seed, &tier, &b, &verif) {
                engine::Outcome::Held => {
                    for f in known::shown(&env, p.id, &verif) {
                        println!("KNOWN-FINDING: property={} {f}", p.id);
                    }
                    println!("{}: held", p.id)
                }
                engine::Outcome::Violated(path) => {
                    println!("VIOLATION property={} replay={path}", p.id);
                    std::process::exit(1);
                }
                engine::Outcome::Broken(e) => {
                    eprintln!("simctl: {}: no answer: {e}", p.id);
                    std::process::exit(2);
                }
            }
        }
        // development aid: one seed, twice
        "twice" => {
            let p = ps.iter().find(|p| p.id == arg(2)).unwrap();
            let sc = (p.make)(&env, arg(3).parse().unwrap());
            let (a, b) = (sc.execute(&env, true), sc.execute(&env, true));
            println!("{} {:?}", sc.kind, scen::verdict(p, &sc, &a));
            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                println!("run {i}: {:?} {:?} {:x} {:x} {:?}", x.exit, y.exit, x.hash, y.hash, sc.runs[i].faults);
                if let Some(k) = (0..x.trace.len().max(y.trace.len())).find(|k| x.trace.get(*k) != y.trace.get(*k)) {
                    for t in &x.trace[k.saturating_sub(8)..k] { println!("  {}", kit::clip(t)); }
                    println!("< {}", kit::clip(x.trace.get(k).map(String::as_str).unwrap_or("-")));
                    println!("> {}", kit::clip(y.trace.get(k).map(String::as_str).unwrap_or("-")));
                }
            }
        }
        "replay" => std::process::exit(engine::replay(&env, &ps, arg(2))),
        "soak" => soak::soak(&env, arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        _ => {
            eprintln!("simctl check ID | replay FILE");
            std::process::exit(2);
        }
    }
}

fn child(spec: &str) -> ! {
    use std::io::Write;
    let f: Vec<&str> = spec.split(' ').collect();
    let un = |h: &str| if h == "-" { vec![] } else { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let _ = std::io::stdout().write_all(&un(f[1]));
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().write_all(&un(f[2]));
    let code: i32 = f[0].parse().unwrap();
    if code >= 256 {
        unsafe { libc::raise(code - 256) };
    }
    std::process::exit(code)
}
