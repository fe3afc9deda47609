//! development aid: model against server
use crate::r#gen::{Cfg, G};
use crate::rng::Rng;
use crate::spec::*;
use crate::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub fn one(env: &world::Env, seed: u64, show: bool) -> (Option<String>, &'static str) {
    let mut r = Rng::new(seed);
    let mut c = Cfg::mixed();
    if r.pct(50) {
        c.keep_err = 0;
    }
    let led = G::new(&mut r, c).ledger("/sim/cwd/main.bean");
    let p = parse::parse(&led).unwrap();
    let o = cmp::outcome(&p);
    let mut v = vfs::Vfs::default();
    led.files_into(&mut v);
    let rq = |m: &str, p| Step::Req { id: "1".into(), method: m.into(), param: p, style: 0 };
    let sp = RunSpec {
        prog: "pod".into(),
        args: vec!["serve".into(), "main.bean".into()],
        window: 1,
        entropy: r.u64(),
        steps: vec![rq("parser.options", Param::None), rq("parser.plugins", Param::None), rq("parser.directives", Param::None), rq("book", Param::None), rq("book", Param::BookOf { step: 2, seed: 7, spans: true, keep: None, edits: 0 })],
        ..Default::default()
    };
    let h = world::run(env, &v, &sp, false);
    if show {
        for (f, t) in led.files.iter().zip(led.render().texts) {
            println!("=== {}\n{t}", f.path);
        }
        for a in h.answers() {
            println!("{a}");
        }
        println!("{}", String::from_utf8_lossy(&h.stderr));
    }
    let kind = match &o {
        book::Outcome::Booked(_) => "booked",
        book::Outcome::Errors(_) => "errors",
        _ => "excluded",
    };
    let judge = || {
        if let Some(x) = &h.harness {
            return Some(format!("harness {x}"));
        }
        if let Some(x) = cmp::check_clean(&h) {
            return Some(x);
        }
        let a: Vec<json::J> = (0..5).map(|i| h.answer(i).unwrap_or(json::J::Null)).collect();
        cmp::check_options(&p, &led, "main.bean", &a[0])
            .or_else(|| cmp::diff(&cmp::want_plugins(&p), a[1].get("result"), "plugins").map(|x| format!("{x} {}", cmp::clip(&a[1]))))
            .or_else(|| cmp::check_directives(&p, &a[2]))
            .or_else(|| cmp::check_book(&p, &o, &a[2], &a[3], false))
            .or_else(|| cmp::check_book(&p, &o, &a[2], &a[4], true))
    };
    (judge(), kind)
}

pub fn soak(env: &world::Env, from: u64, n: u64, mode: &str) {
    if mode == "show" {
        println!("{:?}", one(env, from, true));
        return;
    }
    let next = AtomicU64::new(from);
    let (bad, good, errs) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let t = std::time::Instant::now();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= from + n {
                        break;
                    }
                    let (v, k) = one(env, i, false);
                    if k == "booked" { &good } else { &errs }.fetch_add(1, Ordering::SeqCst);
                    if let Some(v) = v {
                        bad.fetch_add(1, Ordering::SeqCst);
                        println!("{i}: {v}");
                    }
                }
            });
        }
    });
    println!("bad {} booked {} errors {} in {:?}", bad.into_inner(), good.into_inner(), errs.into_inner(), t.elapsed());
}
