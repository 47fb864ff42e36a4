//! Runs of reverse_sequence recorded event by event, for ReverseTrace.tla.
use crate::report::guarded;
use crate::watch;
use advantage::drivers::reverse_sequence;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

type Log = Rc<RefCell<Vec<(&'static str, i64, i64)>>>;

fn mix(x: u64) -> u64 {
    let x = (x ^ 0x9e3779b97f4a7c15).wrapping_mul(0xbf58476d1ce4e5b9);
    x ^ (x >> 29)
}
/// The k-th iterate; `h` is the k-fold hash of the initial value.
struct State {
    pos: i64,
    h: u64,
    log: Log,
    gone: bool,
}
impl std::fmt::Debug for State {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x{}", self.pos)
    }
}
impl Clone for State {
    fn clone(&self) -> State {
        self.log.borrow_mut().push(("clone", self.pos, 0));
        State { pos: self.pos, h: self.h, log: self.log.clone(), gone: false }
    }
}
impl Drop for State {
    fn drop(&mut self) {
        if !self.gone {
            self.log.borrow_mut().push(("drop", self.pos, 0));
        }
    }
}
#[derive(Debug)]
struct Res {
    pos: i64,
}

/// events of one run; a panic ends it with the event "panic"
fn one(n: usize, c: usize) -> Vec<(&'static str, i64, i64)> {
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let mut hs = vec![7u64];
    for k in 0..n {
        hs.push(mix(hs[k]));
    }
    // index of the iterate a state really is
    let pos = |s: &State| if s.pos >= 0 && (s.pos as usize) < hs.len() && hs[s.pos as usize] == s.h { s.pos } else { -1 };
    let cap = 1000 + 40 * (n + 1) * (n + 1);
    let say = |k: &'static str, p: i64, a: i64| {
        let mut l = log.borrow_mut();
        l.push((k, p, a));
        assert!(l.len() < cap, "runaway");
    };
    let x = State { pos: 0, h: hs[0], log: log.clone(), gone: false };
    let r = guarded(|| {
        reverse_sequence(
            x,
            n,
            c,
            |mut s: State| {
                say("forward", pos(&s), 0);
                s.gone = true;
                State { pos: s.pos + 1, h: mix(s.h), log: s.log.clone(), gone: false }
            },
            |mut s: State, r: Res| {
                say("reverse", pos(&s), r.pos);
                s.gone = true;
                Res { pos: s.pos }
            },
            |mut s: State| {
                say("identity", pos(&s), 0);
                s.gone = true;
                Res { pos: s.pos }
            },
        )
    });
    match r {
        Ok(r) => say("return", 0, r.pos),
        Err(_) => log.borrow_mut().push(("panic", 0, 0)),
    }
    let v = log.borrow().clone();
    v
}

/// pairs (n, c) to run; fewer than two checkpoints have to be refused
pub fn run(out: &str, pairs: &[(usize, usize)]) -> Value {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let (mut events, mut refused, mut bad) = (0usize, 0, vec![]);
    for (n, c) in pairs {
        watch::enter("C11", "reverse_sequence", 0, &format!("reverse_sequence with {n} steps, {c} checkpoints"));
        let ev = one(*n, *c);
        watch::leave();
        if *c < 2 {
            refused += 1;
            if ev.last().map(|e| e.0) != Some("panic") {
                bad.push(json!({"property": "C11", "trace": "reverse_sequence", "step": 0,
                    "what": format!("{n} steps with {c} checkpoints were not refused: {:?}", ev.iter().take(6).collect::<Vec<_>>())}));
            }
            continue;
        }
        events += ev.len();
        let evs: Vec<Value> = ev.iter().map(|(k, p, a)| json!([k, p, a])).collect();
        writeln!(f, "{}", json!({"n": n, "c": (*c).min(1_000_000_000), "real": c.to_string(), "ev": evs})).unwrap();
    }
    f.flush().unwrap();
    json!({"mismatches": bad, "events": events, "refused": refused, "ok": true})
}
