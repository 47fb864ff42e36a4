//! Notices calls into the code under test that do not come back.
use crate::report::Report;
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Slot {
    since: Instant,
    prop: &'static str,
    trace: String,
    step: usize,
    what: String,
}
static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());

thread_local! {
    static MINE: usize = {
        let mut s = SLOTS.lock().unwrap();
        s.push(None);
        s.len() - 1
    };
}

pub fn enter(prop: &'static str, trace: &str, step: usize, what: &str) {
    let k = MINE.with(|m| *m);
    SLOTS.lock().unwrap()[k] =
        Some(Slot { since: Instant::now(), prop, trace: trace.to_string(), step, what: what.to_string() });
}
pub fn leave() {
    let k = MINE.with(|m| *m);
    SLOTS.lock().unwrap()[k] = None;
}

/// Write a report and exit when some call has been running for `limit`.
pub fn start(out: String, limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = SLOTS.lock().unwrap();
        let mut rep = Report::default();
        for x in s.iter().flatten() {
            if x.since.elapsed() > limit {
                rep.bad(x.prop, &x.trace, x.step, format!("{} did not return within {limit:?}", x.what));
            }
        }
        if !rep.mismatches.is_empty() {
            let mut j = rep.to_json();
            j["ok"] = serde_json::Value::Bool(true);
            j["hang"] = serde_json::Value::Bool(true);
            std::fs::write(&out, j.to_string()).unwrap();
            std::process::exit(0);
        }
    });
}
