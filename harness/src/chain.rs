//! Replays chains generated from chain.qnt: structure, evaluation, derivatives for every checkpoint count.
use crate::itf::*;
use crate::prog::ProgFn;
use crate::report::*;
use crate::session::{match_rec, of_tape};
use crate::watch;
use advantage::drivers::*;
use advantage::*;
use serde_json::{json, Value};

/// A function object whose identity can be told from outside.
#[derive(Clone)]
struct Link(ProgFn);
impl Function for Link {
    fn n(&self) -> usize {
        self.0.n()
    }
    fn m(&self) -> usize {
        self.0.m()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        assert_eq!(x.nrows(), self.0.n());
        self.0.eval(x)
    }
}

enum Node {
    F(usize),
    G(Vec<Node>),
}
fn parse(toks: &[String], at: &mut usize, next: &mut usize) -> Vec<Node> {
    let mut out = vec![];
    while *at < toks.len() {
        let t = toks[*at].as_str();
        *at += 1;
        match t {
            "f" => {
                out.push(Node::F(*next));
                *next += 1;
            }
            "(" => out.push(Node::G(parse(toks, at, next))),
            _ => return out,
        }
    }
    out
}
/// how: which of the constructors to use
fn boxed(n: &Node, links: &[Recd], how: usize) -> Box<dyn Function> {
    match n {
        Node::F(k) => Box::new(Link(ProgFn::new(&links[*k]))),
        Node::G(v) => Box::new(build(v, links, how + 1)),
    }
}
fn build(v: &[Node], links: &[Recd], how: usize) -> FunctionChain {
    let mut c = match &v[0] {
        Node::F(k) if how % 2 == 0 => FunctionChain::new(Link(ProgFn::new(&links[*k]))),
        Node::G(g) if how % 2 == 0 => FunctionChain::new(build(g, links, how)),
        n => FunctionChain::from_boxed(boxed(n, links, how)),
    };
    for (i, n) in v.iter().enumerate().skip(1) {
        match n {
            Node::F(k) if (how + i) % 2 == 0 => c.append(Link(ProgFn::new(&links[*k]))),
            Node::G(g) if (how + i) % 2 == 0 => c.append(build(g, links, how)),
            n => c.append_boxed(boxed(n, links, how)),
        }
    }
    c
}

struct Cx<'a> {
    rep: &'a mut Report,
    trace: &'a str,
    step: usize,
    tol: f64,
}
impl Cx<'_> {
    fn bad(&mut self, prop: &'static str, what: String) -> bool {
        self.rep.bad(prop, self.trace, self.step, what);
        false
    }
    fn vec(&mut self, prop: &'static str, got: &[f64], want: &[f64], what: &str) -> bool {
        self.rep.cmp(prop);
        let scale = want.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        if got.len() != want.len() || !got.iter().zip(want).all(|(a, b)| close(*a, *b, self.tol * scale * 64.0)) {
            return self.bad(prop, format!("{what}: got {got:?}, expected {want:?}"));
        }
        true
    }
    fn gj(&mut self, got: &GeneralizedJacobian, want_h: &[Vec<f64>], n: usize, want_g: &[f64], mult: usize, what: &str) -> bool {
        self.rep.cmp("C10");
        if got.homogenous.nrows() != want_h.len() || got.homogenous.ncols() != n {
            return self.bad("C10", format!("{what}: H is {}x{}, expected {}x{n}", got.homogenous.nrows(), got.homogenous.ncols(), want_h.len()));
        }
        let h: Vec<f64> = (0..want_h.len()).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| got.homogenous[(i, j)]).collect();
        let wh: Vec<f64> = want_h.iter().flatten().copied().collect();
        if got.multiplicity != mult {
            return self.bad("C10", format!("{what}: multiplicity {}, expected {mult}", got.multiplicity));
        }
        self.vec("C10", &h, &wh, &format!("{what}: H")) && self.vec("C10", got.inhomogenous.as_slice(), want_g, &format!("{what}: g"))
    }
    fn call<T>(&mut self, prop: &'static str, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        watch::enter(prop, self.trace, self.step, what);
        let r = guarded(f);
        watch::leave();
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                self.bad(prop, format!("{what} {e}"));
                None
            }
        }
    }
}

pub fn run_trace(doc: &Value, name: &str, profile: &str) -> Report {
    let mut rep = Report::default();
    let sts = states(doc, "C");
    rep.traces += 1;
    rep.states += sts.len() as u64;
    let tol = if profile == "mixed" { 1e-11 } else { 1e-13 };
    let mut cx = Cx { rep: &mut rep, trace: name, step: 0, tol };
    for (step, st) in sts.iter().enumerate() {
        cx.step = step;
        cx.rep.event(string(&st["act"]));
        if string(&st["act"]) == "gj" && !observe(&mut cx, st) {
            break;
        }
    }
    watch::leave();
    if rep.samples.is_empty() {
        if let Some(st) = sts.iter().rev().find(|s| string(&s["act"]) == "gj") {
            rep.samples.push(json!({"trace": name, "chain": st["toks"], "multiplicity": int(&st["res"]["mult"]),
                "dimensions": list(&st["links"]).iter().map(|l| list(&l["indeps"]).len()).collect::<Vec<_>>()}));
        }
    }
    rep
}

fn observe(cx: &mut Cx, st: &Value) -> bool {
    let x = fxs(&st["x"]);
    let dx = fxs(&st["dx"]);
    let links: Vec<Recd> = list(&st["links"]).iter().map(recd).collect();
    let comp = recd(&st["comp"]);
    let toks: Vec<String> = list(&st["toks"]).iter().map(|t| string(t).to_string()).collect();
    let (mut at, mut next) = (0, 0);
    let tree = parse(&toks, &mut at, &mut next);
    assert_eq!(next, links.len());
    let res = &st["res"];
    let (y, dy) = (fxs(&res["y"]), fxs(&res["dy"]));
    let (n, m) = (x.len(), y.len());
    let how = cx.step;
    let Some(mut chain) = cx.call("C15", "building the chain", || build(&tree, &links, how)) else { return false };

    // structure
    cx.rep.cmp("C15");
    if chain.len() != links.len() || Function::n(&chain) != n || Function::m(&chain) != m {
        return cx.bad("C15", format!("chain {toks:?}: len {} n {} m {}, expected {} {n} {m}", chain.len(), chain.n(), chain.m(), links.len()));
    }
    let members: Vec<&dyn Function> = chain.iter().collect();
    if members.len() != links.len() {
        return cx.bad("C15", format!("chain {toks:?}: iteration yields {} members", members.len()));
    }
    let mut xs = x.clone();
    for (k, l) in links.iter().enumerate() {
        for (what, f) in [("iter", members[k]), ("nth", chain.nth(k))] {
            cx.rep.cmp("C15");
            if f.n() != l.indeps.len() || f.m() != l.deps.len() || f.chain().is_some() {
                return cx.bad("C15", format!("{what} {k} of {toks:?} has n={} m={}, expected {} {}", f.n(), f.m(), l.indeps.len(), l.deps.len()));
            }
            let v = xs.clone();
            let Some(o) = cx.call("C15", "eval_float of a member", || f.eval_float(DVector::from_vec(v))) else { return false };
            let want: Vec<f64> = l.deps.iter().map(|d| l.vals[*d]).collect();
            if !cx.vec("C15", o.as_slice(), &want, &format!("{what} {k} of {toks:?} is another function: value")) {
                return false;
            }
        }
        xs = l.deps.iter().map(|d| l.vals[*d]).collect();
    }
    if guarded(|| chain.nth(links.len()).n()).is_ok() {
        return cx.bad("C15", format!("nth({}) of a chain of that length exists", links.len()));
    }
    drop(members);

    // evaluation: plain, typed, recorded
    let Some(v) = cx.call("C15", "eval_float", || chain.eval_float(DVector::from_vec(x.clone()))) else { return false };
    if !cx.vec("C15", v.as_slice(), &y, &format!("eval_float of {toks:?}")) {
        return false;
    }
    let input = DVector::from_iterator(n, x.iter().zip(&dx).map(|(v, d)| ADouble::new(*v, *d)));
    let Some(o) = cx.call("C15", "eval", || chain.eval(input.clone())) else { return false };
    let (v, d): (Vec<f64>, Vec<f64>) = o.iter().map(|z| (z.value(), z.dvalue())).unzip();
    if !cx.vec("C15", &v, &y, &format!("eval of {toks:?}: value")) || !cx.vec("C15", &d, &dy, &format!("eval of {toks:?}: derivative")) {
        return false;
    }
    let Some(rec) = cx.call("C15", "tape", || of_tape(&*chain.tape(&DVector::from_vec(x.clone())))) else { return false };
    cx.rep.cmp("C15");
    if let Err(e) = match_rec(&comp, &rec) {
        return cx.bad("C15", format!("recording of {toks:?} is not that of the composed function: {e}"));
    }
    let got: Vec<f64> = rec.deps.iter().map(|d| rec.vals[*d]).collect();
    if !cx.vec("C15", &got, &y, &format!("recorded result of {toks:?}")) {
        return false;
    }

    // a member that does not fit is refused and leaves the chain alone
    for wrong in [m + 1, m.wrapping_sub(1), m + 7] {
        if wrong == usize::MAX {
            continue;
        }
        let f = Link(ProgFn { r: Recd { indeps: (0..wrong).collect(), deps: vec![0; m.min(wrong)], ops: vec![], vals: vec![0.0; wrong] }, n: wrong });
        cx.rep.cmp("C15");
        let r = if wrong % 2 == 0 { guarded(|| chain.append(f)) } else { guarded(|| chain.append_boxed(Box::new(f))) };
        if r.is_ok() {
            return cx.bad("C15", format!("a member with {wrong} inputs was accepted after {m} outputs"));
        }
        if chain.len() != links.len() || chain.m() != m {
            return cx.bad("C15", "a refused member stayed in the chain".into());
        }
        let ch = build(&tree, &links, how);
        if guarded(move || {
            let mut c = FunctionChain::new(ch);
            c.append_boxed(Box::new(Link(ProgFn { r: Recd { indeps: (0..wrong).collect(), deps: vec![], ops: vec![], vals: vec![0.0; wrong] }, n: wrong })))
        })
        .is_ok()
        {
            return cx.bad("C15", format!("a member with {wrong} inputs was accepted after a nested chain with {m} outputs"));
        }
    }

    // derivatives
    let (h, g, mult) = (mat(&res["h"]), fxs(&res["g"]), int(&res["mult"]) as usize);
    let (vx, vdx) = (DVector::from_vec(x.clone()), DVector::from_vec(dx.clone()));
    let bits: &[u8] = if how % 2 == 0 { &[0] } else { &[] };
    let Some(r) = cx.call("C10", "generalized_jacobian of the whole", || generalized_jacobian(&chain, &vx, &vdx, bits, None)) else { return false };
    if !cx.gj(&r, &h, n, &g, mult, &format!("{toks:?} taken as a whole")) {
        return false;
    }
    let len = links.len();
    let mut cps: Vec<Option<usize>> = vec![None];
    cps.extend((2..=len + 3).map(Some));
    cps.push(Some(50));
    for c in cps {
        let Some(r) = cx.call("C10", &format!("generalized_jacobian_chain of {toks:?} with {c:?} checkpoints"), || {
            generalized_jacobian_chain(&chain, vx.clone(), vdx.clone(), c)
        }) else { return false };
        if !cx.gj(&r, &h, n, &g, mult, &format!("{toks:?} with checkpoints {c:?}")) {
            return false;
        }
    }
    true
}
