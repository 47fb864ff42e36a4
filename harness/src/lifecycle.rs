//! Histories of contexts, handles and variables enumerated by TLC from Lifecycle.tla.
use crate::report::*;
use crate::watch;
use advantage::prelude::*;
use advantage::*;
use num::Float;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Mutex;

static IDS: Mutex<Option<HashSet<usize>>> = Mutex::new(None);

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn ids(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(us).collect()
}
type Op = (String, usize, Option<usize>, Option<usize>);
/// (independents, dependents, operations, values)
type Rec = (Vec<usize>, Vec<usize>, Vec<Op>, Vec<f64>);

fn spec_rec(c: &Value) -> Rec {
    let arg = |v: &Value| v.as_i64().filter(|x| *x >= 0).map(|x| x as usize);
    (
        ids(&c["indeps"]),
        ids(&c["deps"]),
        c["ops"].as_array().unwrap().iter().map(|o| (o["op"].as_str().unwrap().to_string(), us(&o["vid"]), arg(&o["a"]), arg(&o["b"]))).collect(),
        c["vals"].as_array().unwrap().iter().map(|v| v.as_f64().unwrap()).collect(),
    )
}
fn ops_of(v: &[Operation]) -> Vec<Op> {
    v.iter().map(|o| (format!("{:?}", o.opcode), o.vid, o.arg1, o.arg2)).collect()
}
fn real_rec(c: &AContext) -> Rec {
    (c.indeps(), c.deps(), ops_of(&c.operations()), c.values())
}
fn tape_rec(c: &AContext) -> Rec {
    let t = c.tape();
    let ops: Vec<Operation> = t.ops_iter().collect();
    (t.indeps().to_vec(), t.deps().to_vec(), ops_of(&ops), t.values().to_vec())
}

pub fn run(line: &Value, name: &str) -> Report {
    let mut rep = Report::default();
    rep.traces = 1;
    let hist = line["hist"].as_array().unwrap();
    let obs = &line["obs"];
    let nv = obs["vals"].as_array().unwrap().len();
    let nh = obs["handle"].as_array().unwrap().len();
    let plain = |v: usize| ADouble::new(v as f64, 1.0);
    let mut var: Vec<ADouble> = (1..=nv).map(plain).collect();
    let mut handle: Vec<Option<AContext>> = (0..nh).map(|_| None).collect();
    let mut cids: Vec<usize> = Vec::new();
    let mut fail = |rep: &mut Report, step: usize, what: String| {
        rep.bad("C13", name, step, format!("{what}; history {}", brief(hist)));
    };
    for (step, e) in hist.iter().enumerate() {
        let what = e["a"].as_str().unwrap();
        rep.states += 1;
        rep.event(what);
        rep.cmp("C13");
        watch::enter("C13", name, step, what);
        let (h, x, y, z) = (us(&e["h"]).wrapping_sub(1), us(&e["x"]).wrapping_sub(1), us(&e["y"]).wrapping_sub(1), us(&e["z"]).wrapping_sub(1));
        let want = e["ok"].as_bool().unwrap();
        let r: Result<bool, String> = guarded(|| match what {
            "new" => {
                let c = if step % 2 == 0 { AContext::new() } else { AContext::default() };
                let id = c.cid();
                cids.push(id);
                handle[h] = Some(c);
                IDS.lock().unwrap().get_or_insert_with(HashSet::new).insert(id)
            }
            "lookup" => match AContext::from_cid(cids[x]) {
                Some(c) => {
                    assert_eq!(c.cid(), cids[x], "identifier of the context found");
                    handle[h] = Some(c);
                    true
                }
                None => false,
            },
            "drop" => {
                let c = handle[h].take();
                if step % 5 == 4 {
                    // the last handle may well go away on another thread
                    std::thread::spawn(move || drop(c)).join().unwrap();
                }
                true
            }
            "indep" => {
                handle[h].as_mut().unwrap().set_indep(&mut var[x]);
                true
            }
            "dep" => {
                handle[h].as_mut().unwrap().set_dep(&var[x]);
                true
            }
            "sum" => {
                if x == z && step % 2 == 0 {
                    let b = var[y];
                    var[z] += b;
                } else {
                    var[z] = var[x] + var[y];
                }
                true
            }
            "abs" => {
                var[x] = var[x].abs();
                true
            }
            "reset" => {
                var[x] = plain(x + 1);
                true
            }
            other => panic!("spec: {other}"),
        });
        let got = *r.as_ref().unwrap_or(&false);
        if got != want || (r.is_err() && !matches!(what, "dep" | "sum")) {
            fail(&mut rep, step, format!("step {step} ({what}) answered {r:?}, expected {want}"));
            return rep;
        }
    }
    // what is there at the end
    let check = || -> Result<u64, String> {
        let mut n = 0;
        for (c, want) in obs["ctxs"].as_array().unwrap().iter().enumerate() {
            let alive = obs["alive"][c].as_bool().unwrap();
            let found = AContext::from_cid(cids[c]);
            n += 1;
            if found.is_some() != alive {
                return Err(format!("context {} is found: {}, expected {alive}", c + 1, found.is_some()));
            }
            if let Some(f) = found {
                let w = spec_rec(want);
                for (how, g) in [("looked up", real_rec(&f)), ("tape", tape_rec(&f))] {
                    n += 1;
                    if g != w {
                        return Err(format!("context {} ({how}) holds {g:?}, expected {w:?}", c + 1));
                    }
                }
            }
        }
        for (h, c) in obs["handle"].as_array().unwrap().iter().enumerate() {
            let c = us(c);
            n += 1;
            match &handle[h] {
                None if c == 0 => (),
                Some(a) if c > 0 && a.cid() == cids[c - 1] && real_rec(a) == spec_rec(&obs["ctxs"][c - 1]) => (),
                a => return Err(format!("handle {} is {:?}, expected context {c}", h + 1, a.as_ref().map(|a| (a.cid(), real_rec(a))))),
            }
        }
        for (v, w) in obs["vals"].as_array().unwrap().iter().enumerate() {
            n += 1;
            if var[v].value() != w.as_f64().unwrap() {
                return Err(format!("variable {} has value {}, expected {w}", v + 1, var[v].value()));
            }
        }
        for odd in [0, usize::MAX, cids.first().copied().unwrap_or(1) + (1 << 40)] {
            n += 1;
            if AContext::from_cid(odd).is_some() {
                return Err(format!("the identifier {odd} was never given out, but is found"));
            }
        }
        Ok(n)
    };
    watch::enter("C13", name, hist.len(), "observation");
    match guarded(check) {
        Ok(Ok(n)) => (0..n).for_each(|_| rep.cmp("C13")),
        Ok(Err(e)) | Err(e) => {
            fail(&mut rep, hist.len(), e);
            return rep;
        }
    }
    // after the last handle is gone nothing is found, and the variables keep computing, unrecorded
    watch::enter("C13", name, hist.len(), "dropping everything");
    let last: Vec<f64> = var.iter().map(|v| v.value()).collect();
    let fine = guarded(|| {
        handle.clear();
        cids.iter().all(|c| AContext::from_cid(*c).is_none())
            && var.iter().zip(&last).all(|(v, w)| (*v * *v + *v).value() == w * w + w && (3.0 - v.sqrt()).value() == 3.0 - w.sqrt())
            && {
                let mut fresh = AContext::new();
                let f = fresh.new_indep(1.0);
                // combining with a variable of a context that is gone is refused, unless that variable was never recorded
                let mut n = 0;
                for v in &var {
                    if guarded(|| *v + f).is_ok() {
                        n += 2;
                    }
                }
                let plain = line["plain"].as_array().map(|p| p.iter().filter(|b| b.as_bool().unwrap()).count());
                fresh.operations().len() == n && plain.map(|p| n == 2 * p).unwrap_or(true)
            }
    });
    rep.cmp("C13");
    if !matches!(fine, Ok(true)) {
        fail(&mut rep, hist.len(), format!("after dropping every handle: {fine:?}"));
    }
    watch::leave();
    if rep.samples.is_empty() && hist.len() > 3 {
        rep.samples.push(json!({"history": brief(hist)}));
    }
    rep
}

fn brief(hist: &[Value]) -> String {
    hist.iter()
        .map(|e| format!("{}({},{},{},{}){}", e["a"].as_str().unwrap(), e["h"], e["x"], e["y"], e["z"], if e["ok"] == true { "" } else { "!" }))
        .collect::<Vec<_>>()
        .join(" ")
}

/// no identifier given out so far is found once everything is gone
pub fn all_gone(rep: &mut Report) {
    let ids = IDS.lock().unwrap();
    for id in ids.iter().flatten() {
        rep.cmp("C13");
        if AContext::from_cid(*id).is_some() {
            rep.bad("C13", "end", 0, format!("context {id} is still found after all its handles are gone"));
            return;
        }
    }
}

/// Many contexts, each with a recording of its own; nothing that happens to others may change them.
pub struct Crowd(Vec<(AContext, usize, ADouble)>);
impl Crowd {
    pub fn new(n: usize, rep: &mut Report) -> Self {
        let mut v = Vec::new();
        for k in 0..n {
            let mut c = AContext::new();
            let id = c.cid();
            rep.cmp("C13");
            if !IDS.lock().unwrap().get_or_insert_with(HashSet::new).insert(id) {
                rep.bad("C13", "crowd", k, format!("identifier {id} was given out before"));
            }
            let mut x = ADouble::new(k as f64, 1.0);
            c.set_indep(&mut x);
            let y = x + 1.0;
            v.push((c, id, y));
        }
        Crowd(v)
    }
    pub fn check(&self, rep: &mut Report) {
        for (k, (c, id, y)) in self.0.iter().enumerate() {
            rep.cmp("C13");
            let found = guarded(|| AContext::from_cid(*id).map(|f| (f.cid(), f.values())));
            let own = guarded(|| (c.cid(), c.values(), c.indeps(), c.operations().len(), y.value()));
            let want = vec![k as f64, 1.0, k as f64 + 1.0];
            if own != Ok((*id, want.clone(), vec![0], 2, k as f64 + 1.0)) || found != Ok(Some((*id, want))) {
                rep.bad("C13", "crowd", k, format!("context {id} of many: it holds {own:?}, found by its identifier: {found:?}"));
                return;
            }
        }
    }
}
