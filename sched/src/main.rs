//! Runs small concurrent programs on the real library under every schedule (or with real parallelism) and writes the
//! histories, for RecordingTrace.tla to explain.
use advantage::prelude::*;
use advantage::*;
use num::Float;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;
use std::sync::{Arc, Mutex};

#[cfg(adv_sched)]
use adv_std::sched;
#[cfg(not(adv_sched))]
mod sched {
    pub fn point() {}
}

/// Operations of a program; contexts are named by slots of handles private to a thread, variables are shared.
#[derive(Clone, Debug)]
enum Op {
    New(usize),
    /// look up the context number k (of those known at the start), or one never created (k >= 100)
    Get(usize, usize),
    Drop(usize),
    Indep(usize, usize, i64),
    Dep(usize, usize),
    /// v := x + y; x or y may be 0: the literal
    Bin(usize, usize, usize, i64),
    Un(usize, usize),
    Tape(usize),
    Vals(usize),
    Ops(usize),
    Indeps(usize),
    Deps(usize),
    Cid(usize),
}
use Op::*;

#[derive(Clone, Debug)]
struct Scenario {
    name: String,
    /// number of contexts at the start; each has one independent, in variable k
    contexts: usize,
    /// does the main thread keep a handle of each?
    keep: bool,
    /// does every thread start with a handle of each context?
    held: Vec<bool>,
    threads: Vec<Vec<Op>>,
    /// are there many other contexts?
    crowd: bool,
}
static CROWD: Mutex<Vec<AContext>> = Mutex::new(Vec::new());

fn rec_json(v: &[f64], i: &[usize], d: &[usize], o: &[Operation]) -> Value {
    let arg = |x: Option<usize>| x.map(|x| x as i64).unwrap_or(-1);
    json!({
        "vals": v.iter().map(|x| *x as i64).collect::<Vec<_>>(),
        "indeps": i, "deps": d,
        "ops": o.iter().map(|p| json!({"op": format!("{:?}", p.opcode), "vid": p.vid, "a": arg(p.arg1), "b": arg(p.arg2)})).collect::<Vec<_>>(),
    })
}
fn res(ok: bool, n: i64, rec: Option<Value>) -> Value {
    json!({"ok": ok, "n": n, "rec": rec.unwrap_or_else(|| rec_json(&[], &[], &[], &[]))})
}

struct Shared {
    /// tapes taken, to be read again at the end
    tapes: Vec<(usize, Box<dyn Fn() -> Value + Send>)>,
    var: Vec<ADouble>,
    ops: Vec<Value>,
    evs: Vec<(u8, usize)>,
}
type Slots = Vec<Option<(i64, AContext)>>;

/// runs one operation, logging its beginning and its end
fn perform(sh: &Mutex<Shared>, base: usize, th: usize, slots: &mut Slots, known: &[i64], op: &Op) {
    sched::point();
    let at = |slots: &Slots, h: usize| slots[h].as_ref().map(|x| x.0);
    // operations on a slot without a handle are left out
    let c = match op {
        Drop(h) | Indep(h, ..) | Dep(h, _) | Tape(h) | Vals(h) | Ops(h) | Indeps(h) | Deps(h) | Cid(h) => match at(slots, *h) {
            Some(c) => c,
            None => return,
        },
        Get(_, k) => {
            if *k < known.len() {
                known[*k]
            } else {
                known.len() as i64 + *k as i64
            }
        }
        _ => 0,
    };
    let (desc, a, b);
    let idx;
    {
        let mut s = sh.lock().unwrap();
        let get = |s: &Shared, x: usize, val: i64| if x == 0 { ADouble::new(val as f64, 0.0) } else { s.var[x - 1] };
        desc = match op {
            New(_) => json!({"k": "new"}),
            Get(..) => json!({"k": "get", "c": c}),
            Drop(_) => json!({"k": "drop", "c": c}),
            Indep(_, v, val) => json!({"k": "indep", "c": c, "v": v, "val": val}),
            Dep(_, x) => json!({"k": "dep", "c": c, "x": x, "val": 0}),
            Bin(v, x, y, val) => json!({"k": "bin", "v": v, "x": x, "y": y, "val": val}),
            Un(v, x) => json!({"k": "un", "v": v, "x": x, "val": 0}),
            Tape(_) => json!({"k": "tape", "c": c}),
            Vals(_) => json!({"k": "vals", "c": c}),
            Ops(_) => json!({"k": "ops", "c": c}),
            Indeps(_) => json!({"k": "indeps", "c": c}),
            Deps(_) => json!({"k": "deps", "c": c}),
            Cid(_) => json!({"k": "cid", "c": c}),
        };
        (a, b) = match op {
            Bin(_, x, y, val) => (get(&s, *x, *val), get(&s, *y, *val)),
            Un(_, x) | Dep(_, x) => (get(&s, *x, 0), ADouble::new(0.0, 0.0)),
            _ => (ADouble::new(0.0, 0.0), ADouble::new(0.0, 0.0)),
        };
        idx = s.ops.len();
        let mut d = desc.clone();
        d["t"] = json!(th + 1);
        s.ops.push(d);
        s.evs.push((0, idx));
    }
    let mut new_var: Option<(usize, ADouble)> = None;
    let mut new_handle: Option<(usize, AContext)> = None;
    let mut drop_handle: Option<AContext> = None;
    let mut tape: Option<Box<dyn Fn() -> Value + Send>> = None;
    if let Drop(h) = op {
        drop_handle = slots[*h].take().map(|x| x.1);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut ctx = |h: &usize| &mut unsafe { &mut *(slots as *mut Slots) }[*h].as_mut().unwrap().1;
        match op {
            New(h) => {
                let c = AContext::new();
                let id = c.cid() as i64 - base as i64;
                new_handle = Some((*h, c));
                res(true, id, None)
            }
            Get(h, _) => {
                let r = AContext::from_cid((c + base as i64) as usize);
                let ok = r.is_some();
                if let Some(r) = r {
                    new_handle = Some((*h, r));
                }
                res(ok, 0, None)
            }
            Drop(_) => {
                drop_handle = None;
                res(true, 0, None)
            }
            Indep(h, v, val) => {
                let mut x = ADouble::new(*val as f64, 0.0);
                ctx(h).set_indep(&mut x);
                new_var = Some((*v, x));
                res(true, 0, None)
            }
            Dep(h, _) => {
                ctx(h).set_dep(&a);
                res(true, 0, None)
            }
            Bin(v, x, y, val) => {
                let z = if *x == 0 {
                    *val as f64 + b
                } else if *y == 0 {
                    a + *val as f64
                } else {
                    a + b
                };
                new_var = Some((*v, z));
                res(true, z.value() as i64, None)
            }
            Un(v, _) => {
                let z = a.abs();
                new_var = Some((*v, z));
                res(true, z.value() as i64, None)
            }
            Tape(h) => {
                let t = ctx(h).tape();
                let read = move || {
                    let o: Vec<Operation> = t.ops_iter().collect();
                    rec_json(t.values(), t.indeps(), t.deps(), &o)
                };
                let first = read();
                tape = Some(Box::new(read));
                res(true, 0, Some(first))
            }
            Vals(h) => res(true, 0, Some(rec_json(&ctx(h).values(), &[], &[], &[]))),
            Ops(h) => res(true, 0, Some(rec_json(&[], &[], &[], &ctx(h).operations()))),
            Indeps(h) => res(true, 0, Some(rec_json(&[], &ctx(h).indeps(), &[], &[]))),
            Deps(h) => res(true, 0, Some(rec_json(&[], &[], &ctx(h).deps(), &[]))),
            Cid(h) => res(true, ctx(h).cid() as i64 - base as i64, None),
        }
    }));
    let panicked = r.is_err();
    let r = r.unwrap_or_else(|_| res(false, 0, None));
    {
        let mut s = sh.lock().unwrap();
        if let Some((v, x)) = new_var.filter(|_| !panicked) {
            s.var[v - 1] = x;
        }
        if let New(_) = op {
            s.ops[idx]["c"] = r["n"].clone();
        }
        s.ops[idx]["res"] = r.clone();
        if let Some(t) = tape {
            s.tapes.push((idx, t));
        }
        s.evs.push((1, idx));
    }
    drop(drop_handle);
    if let Some((h, x)) = new_handle {
        let id = if let New(_) = op { r["n"].as_i64().unwrap() } else { c };
        // a handle that was in the slot goes away: an operation of its own
        if slots[h].is_some() {
            perform(sh, base, th, slots, known, &Drop(h));
        }
        slots[h] = Some((id, x));
    }
}

const NVARS: usize = 6;

enum Mode {
    #[cfg(adv_sched)]
    Scheduled(sched::Policy),
    Parallel,
}

#[cfg(adv_sched)]
type Choices = Vec<sched::Choice>;
#[cfg(not(adv_sched))]
type Choices = Vec<()>;

/// the history of one execution
fn execute(sc: &Scenario, mode: Mode) -> (Value, Choices, Option<String>) {
    let n = sc.threads.len();
    if sc.crowd && CROWD.lock().unwrap().is_empty() {
        for _ in 0..1100 {
            let c = AContext::new();
            // three handles of each, so that none is ever the last
            let cid = c.cid();
            let more: Vec<AContext> = (0..2).filter_map(|_| AContext::from_cid(cid)).collect();
            let mut crowd = CROWD.lock().unwrap();
            crowd.push(c);
            crowd.extend(more);
        }
    }
    let mut main: Vec<AContext> = (0..sc.contexts).map(|_| AContext::new()).collect();
    let mut base = main.first().map(|c| c.cid()).unwrap_or_else(|| AContext::new().cid() + 1);
    base = base.wrapping_sub(1);
    let known: Vec<i64> = main.iter().map(|c| c.cid() as i64 - base as i64).collect();
    let mut var: Vec<ADouble> = (0..NVARS).map(|k| ADouble::new(10.0 * (k + 1) as f64, 0.0)).collect();
    let mut vj: Vec<Value> = (0..NVARS).map(|k| json!({"c": 0, "id": 0, "val": 10 * (k + 1)})).collect();
    for k in 0..sc.contexts {
        main[k].set_indep(&mut var[k]);
        vj[k] = json!({"c": known[k], "id": 0, "val": 10 * (k + 1)});
    }
    let sh = Arc::new(Mutex::new(Shared { tapes: Vec::new(), var, ops: Vec::new(), evs: Vec::new() }));
    let holders = sc.held.iter().filter(|h| **h).count() + sc.keep as usize;
    let ctxs: Vec<Value> = (0..sc.contexts)
        .map(|k| json!([known[k], rec_json(&[10.0 * (k + 1) as f64], &[0], &[], &[]), holders]))
        .collect();
    let left: Arc<Mutex<Vec<Slots>>> = Arc::new(Mutex::new(Vec::new()));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (th, prog) in sc.threads.iter().enumerate() {
        let mut slots: Slots = (0..8).map(|_| None).collect();
        if sc.held[th] {
            for k in 0..sc.contexts {
                slots[k] = AContext::from_cid(main[k].cid()).map(|c| (known[k], c));
            }
        }
        let (sh, prog, known, left) = (sh.clone(), prog.clone(), known.clone(), left.clone());
        bodies.push(Box::new(move || {
            for op in &prog {
                perform(&sh, base, th, &mut slots, &known, op);
            }
            left.lock().unwrap().push(slots);
        }));
    }
    if !sc.keep {
        main.clear();
    }
    let (choices, stuck) = match mode {
        #[cfg(adv_sched)]
        Mode::Scheduled(p) => sched::run(p, bodies),
        Mode::Parallel => {
            let bar = Arc::new(std::sync::Barrier::new(n));
            let js: Vec<_> = bodies
                .into_iter()
                .map(|b| {
                    let bar = bar.clone();
                    std::thread::spawn(move || {
                        bar.wait();
                        b()
                    })
                })
                .collect();
            js.into_iter().for_each(|j| drop(j.join()));
            (Vec::new(), None)
        }
    };
    if stuck.is_none() {
        // at the end: every context, known or new
        let mut slots: Slots = (0..8).map(|_| None).collect();
        let mut main: Vec<Option<AContext>> = main.into_iter().map(Some).collect();
        for k in 0..sc.contexts {
            slots[k] = main.get_mut(k).and_then(|m| m.take()).map(|c| (known[k], c));
            if slots[k].is_some() {
                perform(&sh, base, n, &mut slots, &known, &Tape(k));
            } else {
                perform(&sh, base, n, &mut slots, &known, &Get(k, k));
                perform(&sh, base, n, &mut slots, &known, &Tape(k));
            }
        }
        let mut rest = std::mem::take(&mut *left.lock().unwrap());
        for s in rest.iter_mut() {
            for h in 0..s.len() {
                // (by the main thread)
                perform(&sh, base, n, s, &known, &Tape(h));
                perform(&sh, base, n, s, &known, &Cid(h));
                perform(&sh, base, n, s, &known, &Drop(h));
            }
        }
        for h in 0..slots.len() {
            perform(&sh, base, n, &mut slots, &known, &Drop(h));
        }
        for k in 0..sc.contexts {
            perform(&sh, base, n, &mut slots, &known, &Get(k, k));
        }
    }
    let mut s = sh.lock().unwrap();
    for (idx, read) in std::mem::take(&mut s.tapes) {
        // a tape does not change behind its owner's back
        if stuck.is_none() && read() != s.ops[idx]["res"]["rec"] {
            s.ops[idx]["res"]["ok"] = json!(false);
        }
    }
    let evs: Vec<Value> = s.evs.iter().map(|(a, b)| json!([a, b + 1])).collect();
    // what every context was last found to hold
    let mut last: std::collections::BTreeMap<i64, Value> = Default::default();
    for o in s.ops.iter().filter(|o| o["k"] == "tape" && o["res"]["ok"] == true) {
        last.insert(o["c"].as_i64().unwrap(), o["res"]["rec"].clone());
    }
    // (only from the main thread at the end: nothing happens afterwards)
    let end: HashSet<i64> = s.ops.iter().filter(|o| o["k"] == "tape" && o["t"] == n + 1).map(|o| o["c"].as_i64().unwrap()).collect();
    let fin: Vec<Value> = last.into_iter().filter(|(c, _)| end.contains(c)).map(|(c, r)| json!([c, r])).collect();
    (json!({"name": sc.name, "final": fin, "threads": n + 1, "ctxs": ctxs, "var": vj, "ops": s.ops, "evs": evs}), choices, stuck)
}

fn fixed() -> Vec<Scenario> {
    let sc = |name: &str, contexts, keep, held: &[bool], threads: Vec<Vec<Op>>| Scenario {
        name: name.to_string(),
        contexts,
        keep,
        held: held.to_vec(),
        threads,
        crowd: false,
    };
    let t2 = &[true, true];
    let f2 = &[false, false];
    vec![
        sc("two recorders", 1, true, t2, vec![vec![Bin(3, 1, 0, 1), Bin(3, 3, 1, 0)], vec![Bin(4, 0, 1, 2), Bin(4, 4, 4, 0)]]),
        sc("three recorders", 1, true, &[false; 3], vec![vec![Bin(3, 1, 0, 1)], vec![Bin(4, 0, 1, 2)], vec![Un(5, 1), Bin(5, 5, 1, 0)]]),
        sc("recorder and snapshots", 1, true, t2, vec![vec![Bin(3, 1, 0, 1), Bin(4, 3, 0, 2), Dep(0, 4)], vec![Tape(0), Tape(0)]]),
        sc("marking and snapshots", 1, true, t2, vec![vec![Indep(0, 3, 5), Dep(0, 3), Dep(0, 6)], vec![Tape(0), Tape(0)]]),
        sc("marking by two", 1, true, t2, vec![vec![Indep(0, 3, 5), Dep(0, 3)], vec![Indep(0, 4, 6), Dep(0, 4), Dep(0, 5)]]),
        sc("constants marked by two", 1, true, t2, vec![vec![Dep(0, 5), Dep(0, 6)], vec![Dep(0, 4), Bin(3, 1, 4, 0)]]),
        sc("parts read while recording", 1, true, t2, vec![vec![Bin(3, 1, 0, 1), Dep(0, 3), Indep(0, 4, 3)], vec![Vals(0), Ops(0), Deps(0), Indeps(0)]]),
        sc("dependent of another thread's value", 1, true, t2, vec![vec![Bin(3, 1, 0, 1), Bin(3, 3, 0, 2)], vec![Dep(0, 3), Tape(0), Dep(0, 3)]]),
        sc("two contexts", 2, true, t2, vec![vec![Bin(3, 1, 0, 1), Bin(4, 2, 0, 3)], vec![Bin(5, 2, 0, 2), Bin(6, 1, 0, 4)]]),
        sc("mixing contexts", 2, true, t2, vec![vec![Bin(3, 1, 2, 0), Bin(3, 1, 0, 1), Dep(1, 3)], vec![Dep(0, 2), Bin(4, 2, 0, 2), Tape(1)]]),
        sc("creating", 0, false, f2, vec![vec![New(0), Indep(0, 3, 1), Cid(0), Bin(3, 3, 0, 1)], vec![New(0), Indep(0, 4, 2), Cid(0), Bin(4, 4, 0, 1)]]),
        sc("creating and dropping", 0, false, &[false; 3], vec![vec![New(0), Drop(0)], vec![New(0), Cid(0), Drop(0)], vec![New(0), New(1), Drop(0)]]),
        sc("looking up and dropping", 1, false, &[true, false], vec![vec![Drop(0), Get(1, 0)], vec![Get(0, 0), Tape(0), Drop(0), Get(0, 0)]]),
        sc("two last handles", 1, false, t2, vec![vec![Drop(0), Get(0, 0)], vec![Drop(0), Get(0, 0)]]),
        sc("recording while dropping", 1, false, &[true, false], vec![vec![Drop(0), Get(0, 0)], vec![Bin(3, 1, 0, 1), Bin(3, 3, 1, 0), Get(0, 0)]]),
        sc("recording, dropping and looking up", 1, false, &[true, false, false], vec![vec![Drop(0)], vec![Bin(3, 1, 0, 1), Bin(3, 3, 0, 2)], vec![Get(0, 0), Tape(0)]]),
        sc("dropping one of two", 2, false, &[true, true], vec![vec![Drop(0), Drop(1)], vec![Bin(3, 1, 0, 1), Drop(1), Bin(4, 2, 0, 2), Drop(0)]]),
        sc("creating while looking up", 1, true, f2, vec![vec![New(0), New(1)], vec![Get(0, 1), Get(1, 2), Get(2, 0), Get(3, 1), Get(3, 200)]]),
        sc("dropping while creating", 1, false, &[true, false], vec![vec![Drop(0), New(0), Get(1, 0)], vec![New(0), Get(1, 0), Drop(0)]]),
        sc("dropping in opposite orders", 2, false, t2, vec![vec![Drop(0), Drop(1), New(2)], vec![Drop(1), Drop(0), New(2)]]),
        sc("identifiers while others are in use", 2, true, t2, vec![vec![Cid(0), Dep(0, 1), Cid(1)], vec![Dep(1, 2), Get(2, 0), Cid(0)]]),
    ]
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s >> 11
}

fn random(seed: u64, threads: usize, len: usize) -> Scenario {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for _ in 0..5 {
        rnd(&mut s);
    }
    let contexts = 1 + (rnd(&mut s) % 2) as usize;
    let keep = rnd(&mut s) % 3 != 0;
    let held: Vec<bool> = (0..threads).map(|t| (!keep && t == 0) || rnd(&mut s) % 2 == 0).collect();
    let mut lit = 1;
    let mut progs = Vec::new();
    for th in 0..threads {
        let mut p = Vec::new();
        for _ in 0..len {
            let c = (rnd(&mut s) as usize) % contexts;
            let v = 1 + (rnd(&mut s) as usize) % NVARS;
            let x = 1 + (rnd(&mut s) as usize) % NVARS;
            let own = 3 + th % 4;
            lit += 1;
            p.push(match rnd(&mut s) % 20 {
                0 => New(4 + (rnd(&mut s) % 2) as usize),
                1 => Get(2 + (rnd(&mut s) % 2) as usize, c),
                2 => Drop((rnd(&mut s) % 4) as usize),
                3 => Indep(c, own, lit),
                4 | 5 => Dep(c, x),
                6 | 7 => Tape(c),
                8 => match rnd(&mut s) % 5 {
                    0 => Vals(c),
                    1 => Ops(c),
                    2 => Indeps(c),
                    3 => Deps(c),
                    _ => Cid(c),
                },
                9 => Un(own, v),
                10 | 11 => Bin(own, v, x, 0),
                12..=15 => Bin(own, 0, v, lit),
                _ => Bin(own, v, 0, lit),
            });
        }
        progs.push(p);
    }
    Scenario { name: format!("random {seed}"), contexts, keep, held, threads: progs, crowd: seed % 4 == 0 }
}

struct Out {
    file: std::fs::File,
    seen: HashSet<u64>,
    executions: u64,
    written: u64,
    stuck: Vec<Value>,
    per: Vec<Value>,
}
impl Out {
    fn put(&mut self, v: Value) {
        use std::hash::{Hash, Hasher};
        let s = v.to_string();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        self.executions += 1;
        if self.seen.insert(h.finish()) {
            self.written += 1;
            writeln!(self.file, "{s}").unwrap();
        }
    }
}

#[cfg(adv_sched)]
fn explore(sc: &Scenario, bound: usize, cap: u64, pct: u64, seed: u64, out: &mut Out) -> bool {
    // depth first, at most `bound` preemptions
    let before = (out.executions, out.written);
    let mut prefix: Vec<usize> = Vec::new();
    let mut n = 0;
    let mut complete = false;
    let mut longest = 0;
    let stuck_at = |sc: &Scenario, what: String, choices: &[sched::Choice], v: Value, out: &mut Out| {
        out.stuck.push(json!({"name": sc.name, "what": what, "schedule": choices.iter().map(|c| c.chosen).collect::<Vec<_>>(),
                              "threads": format!("{:?}", sc.threads), "history": v}));
    };
    loop {
        let (v, choices, stuck) = execute(sc, Mode::Scheduled(sched::Policy::Prefix(prefix.clone())));
        n += 1;
        longest = longest.max(choices.len());
        if let Some(what) = stuck {
            stuck_at(sc, what, &choices, v, out);
            return false;
        }
        out.put(v);
        // the deepest decision that can be taken otherwise
        let cost = |upto: usize, c: usize| {
            let pre = |x: &sched::Choice, chosen: usize| x.before.map(|b| b != chosen && x.enabled.contains(&b)).unwrap_or(false) as usize;
            choices[..upto].iter().map(|x| pre(x, x.chosen)).sum::<usize>() + pre(&choices[upto], c)
        };
        let mut next = None;
        for k in (0..choices.len()).rev() {
            // alternatives are tried in the order: the running thread first, then by number
            let ch = &choices[k];
            let mut order: Vec<usize> = ch.enabled.clone();
            if let Some(b) = ch.before {
                if let Some(p) = order.iter().position(|x| *x == b) {
                    order.remove(p);
                    order.insert(0, b);
                }
            }
            let at = order.iter().position(|x| *x == ch.chosen).unwrap();
            if let Some(c) = order[at + 1..].iter().find(|c| cost(k, **c) <= bound) {
                let mut p: Vec<usize> = choices[..k].iter().map(|x| x.chosen).collect();
                p.push(*c);
                next = Some(p);
                break;
            }
        }
        match next {
            None => {
                complete = true;
                break;
            }
            Some(p) => prefix = p,
        }
        if n >= cap {
            break;
        }
    }
    for k in 0..if complete && bound >= 100 { 0 } else { pct } {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(k + 1);
        let policy = if k % 2 == 0 { sched::Policy::Pct(s, 4, longest) } else { sched::Policy::Random(s) };
        let (v, choices, stuck) = execute(sc, Mode::Scheduled(policy));
        if let Some(what) = stuck {
            stuck_at(sc, what, &choices, v, out);
            return false;
        }
        out.put(v);
    }
    out.per.push(json!({"scenario": sc.name, "executions": out.executions - before.0, "histories": out.written - before.1,
                        "all_schedules_up_to_preemptions": if complete { Some(bound) } else { None }, "longest": longest}));
    true
}

fn main() {
    // adv-sched OUT TRACES SEED SHARD SHARDS BOUND CAP PCT RANDOM PARALLEL
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, shard, shards, bound, cap, pct, nrandom, parallel) = (num(3), num(4), num(5), num(6), num(7), num(8), num(9), num(10));
    let mut out = Out {
        file: std::fs::File::create(&a[2]).unwrap(),
        seen: HashSet::new(),
        executions: 0,
        written: 0,
        stuck: Vec::new(),
        per: Vec::new(),
    };
    let mut scs: Vec<Scenario> = fixed();
    scs.extend((0..nrandom).map(|k| random(seed * 100_000 + k, 2 + (k % 3) as usize / 2, 3 + (k % 3) as usize)));
    // some of them also with many other contexts around
    let crowded: Vec<Scenario> = fixed()
        .into_iter()
        .filter(|s| ["creating and dropping", "looking up and dropping", "two last handles", "recording, dropping and looking up", "dropping while creating",
                     "dropping one of two", "creating while looking up", "recorder and snapshots"].contains(&s.name.as_str()))
        .map(|s| Scenario { name: format!("{} among many", s.name), crowd: true, ..s })
        .collect();
    scs.extend(crowded);
    let _ = (bound, cap, pct);
    let done = |out: &Out| {
        std::fs::write(
            &a[1],
            json!({"executions": out.executions, "histories": out.written, "stuck": out.stuck, "scenarios": out.per, "scheduled": cfg!(adv_sched)}).to_string(),
        )
        .unwrap();
    };
    let mut mine: Vec<&Scenario> = scs.iter().enumerate().filter(|(k, _)| *k as u64 % shards == shard).map(|(_, s)| s).collect();
    mine.sort_by_key(|s| s.crowd);
    for (k, sc) in mine.into_iter().enumerate() {
        #[cfg(adv_sched)]
        if !explore(sc, bound as usize, cap, pct, seed + k as u64, &mut out) {
            // the threads of this execution are still blocked: stop here
            done(&out);
            std::process::exit(0);
        }
        for _ in 0..parallel {
            let v = execute(sc, Mode::Parallel).0;
            out.put(v);
        }
    }
    // longer programs with real parallelism
    for k in 0..parallel {
        let sc = random(seed * 100_000 + 50_000 + k * shards + shard, 4, 6);
        let v = execute(&sc, Mode::Parallel).0;
        out.put(v);
    }
    done(&out);
}
