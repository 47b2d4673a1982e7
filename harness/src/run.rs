//! Command line and report of one harness binary (one binary per property, so that a check only builds what it runs).
use crate::fw::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn harness(run: fn(&Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let last = Arc::new(Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = l2.lock() { *g = s; }
    }));
    let ctx = Ctx {
        only: get("--only"),
        thorough: get("--tier").as_deref() == Some("thorough"),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        trace: a.iter().any(|x| x == "--trace"),
        deadline: Instant::now() + Duration::from_secs(get("--time").and_then(|s| s.parse().ok()).unwrap_or(300)),
        last_panic: last,
    };
    *STATE.lock().unwrap() = Some(State {
        evals: 0, nontrivial: Default::default(), samples: vec![], viol: vec![], nviol: 0, groups: Default::default(),
        cur: None, out, prop: prop.clone(), done: false, perf: Default::default(),
    });
    start_watchdog(Duration::from_secs(60));
    run(&ctx);
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.as_mut().unwrap();
    s.done = true;
    write_report(s, true);
}
