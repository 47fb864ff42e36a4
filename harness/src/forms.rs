//! Function objects: every declared form and every history of chain construction
//! enumerated by TLC from Forms.tla and Chains.tla.
use crate::report::*;
use crate::session::of_tape;
use crate::watch;
use advantage::prelude::*;
use advantage::*;
use serde_json::{json, Value};
use std::fmt::Debug;

fn body<S>(x: &DVector<S>, k: f64, len: usize) -> DVector<S>
where
    S: Debug + advantage::Scalar<f64> + 'static,
    f64: Arithmetic<S, S>,
{
    let mut s = <S as From<f64>>::from(0.0);
    for (j, v) in x.iter().enumerate() {
        s += 3.0 * ((j + 1) as f64 * *v);
    }
    DVector::from_vec((1..=len).map(|i| s + (10.0 * k + i as f64)).collect())
}
fn kk(p: usize, q: usize) -> f64 {
    (p + 4 * q) as f64
}

adv_fn! {
    fn leaf(x: [[n]], n: usize, m: usize, k: f64) -> [[m]] {
        body(&x, k, m)
    }
}
adv_fn! {
    fn literal(x: [[3]], p: usize, q: usize) -> [[2]] {
        body(&x, kk(p, q), 2)
    }
}
adv_fn! {
    fn destructured([[a, b]], p: usize, q: usize) -> [[2]] {
        body(&adv_dvec![a, b], kk(p, q), 2)
    }
}
adv_fn! {
    fn expr(x: [[p * q + 1]], p: usize, q: usize) -> [[p + 2 * q]] {
        body(&x, kk(p, q), p + 2 * q)
    }
}
adv_fn! {
    /// documented
    #[allow(dead_code)]
    pub fn attrs(x: [[2]], p: usize, q: usize,) -> [[3]] {
        body(&x, kk(p, q), 3)
    }
}
adv_fn! {
    fn liar(x: [[2]], p: usize, q: usize) -> [[p]] {
        body(&x, kk(p, q), q)
    }
}
adv_fn! {
    fn destructured_expr([[a, b, c]], p: usize, q: usize,) -> [[p + q]] {
        body(&adv_dvec![a, b, c], kk(p, q), p + q)
    }
}
adv_fn! {
    fn empty_args(x: [[0]], p: usize, q: usize) -> [[p]] {
        body(&x, kk(p, q), p)
    }
}
adv_fn! {
    fn vec_arg(x: [[v[0]]], v: Vec<usize>) -> [[v[1]]] {
        let mut v = v.clone();
        let r = body(&x, kk(v[0], v[1]), v[1]);
        v.clear();
        r
    }
}
mod inner {
    use super::{body, kk};
    use advantage::prelude::*;
    adv_fn! {
        pub(super) fn by_path(x: [[p + 1]], p: usize, q: usize) -> [[q]] {
            body(&x, kk(p, q), q)
        }
    }
}
use inner::__adv_by_path;

type Typed = Box<dyn Fn(DVector<f64>) -> DVector<f64>>;
fn form(name: &str, p: usize, q: usize) -> (Box<dyn Function>, Typed) {
    macro_rules! std_form {
        ($f:ident) => {
            (Box::new(adv_fn_obj!($f, p, q)), Box::new(move |x| $f(x, p, q)))
        };
    }
    match name {
        "literal" => std_form!(literal),
        "destructured" => std_form!(destructured),
        "expr" => std_form!(expr),
        "attrs" => std_form!(attrs),
        "liar" => std_form!(liar),
        "destructured_expr" => std_form!(destructured_expr),
        "empty_args" => std_form!(empty_args),
        "vec_arg" => (Box::new(adv_fn_obj!(vec_arg, vec![p, q])), Box::new(move |x| vec_arg(x, vec![p, q]))),
        "by_path" => (Box::new(adv_fn_obj!(by_path, p, q)), Box::new(move |x| inner::by_path(x, p, q))),
        _ => panic!("spec: form {name}"),
    }
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn floats(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()
}

/// every way of evaluating has to answer `want`, or to refuse when there is none
fn evaluations(f: &dyn Function, typed: Option<&Typed>, x: &[f64], want: Option<&[f64]>) -> Result<u64, String> {
    let mut n = 0;
    let vx = || DVector::from_vec(x.to_vec());
    let mut one = |what: &str, r: Result<Vec<f64>, String>| -> Result<(), String> {
        n += 1;
        match (r, want) {
            (Ok(v), Some(w)) if v == w => Ok(()),
            (Err(_), None) => Ok(()),
            (r, w) => Err(format!("{what} at {x:?}: {r:?}, expected {w:?}")),
        }
    };
    one("eval_float", guarded(|| f.eval_float(vx()).as_slice().to_vec()))?;
    one("eval", guarded(|| f.eval(vx().map(|v| ADouble::new(v, 1.0))).iter().map(|v| v.value()).collect()))?;
    one("tape", guarded(|| {
        let t = f.tape(&vx());
        let r = of_tape(&*t);
        assert_eq!((r.indeps.len(), r.deps.len()), (f.n(), f.m()), "dimensions of the tape");
        t.y().as_slice().to_vec()
    }))?;
    one("recorded evaluation", guarded(|| {
        let mut ctx = AContext::new();
        let mut xi = vx().map(|v| ADouble::new(v, 0.0));
        for v in xi.iter_mut() {
            ctx.set_indep(v);
        }
        let y = f.eval(xi);
        ctx.set_dep_slice(y.as_slice());
        let mut t = ctx.tape();
        let mut x2 = vx();
        x2.iter_mut().for_each(|v| *v += 1.0);
        t.zero_order(&x2);
        t.zero_order(&vx());
        assert_eq!(t.y().as_slice(), y.iter().map(|v| v.value()).collect::<Vec<_>>(), "replayed");
        t.y().as_slice().to_vec()
    }))?;
    if let Some(t) = typed {
        one("typed evaluation", guarded(|| t(vx()).as_slice().to_vec()))?;
    }
    Ok(n)
}

pub fn run_form(line: &Value, name: &str) -> Report {
    let mut rep = Report::default();
    rep.traces = 1;
    let (fname, p, q) = (line["form"].as_str().unwrap(), us(&line["p"]), us(&line["q"]));
    let (f, typed) = form(fname, p, q);
    rep.event(fname);
    rep.cmp("C15");
    if (f.n(), f.m()) != (us(&line["n"]), us(&line["m"])) {
        rep.bad("C15", name, 0, format!("{fname}({p}, {q}) has dimensions {} {}, expected {} {}", f.n(), f.m(), line["n"], line["m"]));
        return rep;
    }
    for (k, c) in line["calls"].as_array().unwrap().iter().enumerate() {
        rep.states += 1;
        watch::enter("C15", name, k, fname);
        let want = if c["ok"].as_bool().unwrap() { Some(floats(&c["y"])) } else { None };
        match evaluations(&*f, Some(&typed), &floats(&c["x"]), want.as_deref()) {
            Ok(n) => (0..n).for_each(|_| rep.cmp("C15")),
            Err(e) => {
                rep.bad("C15", name, k, format!("{fname}({p}, {q}): {e}"));
                break;
            }
        }
        watch::leave();
    }
    rep.samples.push(json!({"form": fname, "p": p, "q": q, "calls": line["calls"]}));
    rep
}

enum Obj {
    Gone,
    Fn(Box<dyn Function>),
    Chain(FunctionChain),
}
impl Obj {
    fn get(&self) -> Option<&dyn Function> {
        match self {
            Obj::Gone => None,
            Obj::Fn(f) => Some(&**f),
            Obj::Chain(c) => Some(c),
        }
    }
    fn boxed(self) -> Box<dyn Function> {
        match self {
            Obj::Gone => panic!("spec: use of a moved object"),
            Obj::Fn(f) => f,
            Obj::Chain(c) => Box::new(c),
        }
    }
}

pub fn run_chain(line: &Value, name: &str) -> Report {
    let mut rep = Report::default();
    rep.traces = 1;
    // the leaf dimensions are those of the first appearance; recover them from the leaves anywhere in the pool
    let pool = line["pool"].as_array().unwrap();
    let hist = line["hist"].as_array().unwrap();
    let dims = line["dims"].as_array().unwrap();
    let mut objs: Vec<Obj> = dims
        .iter()
        .enumerate()
        .map(|(i, d)| Obj::Fn(Box::new(adv_fn_obj!(leaf, us(&d[0]), us(&d[1]), (i + 1) as f64))))
        .collect();
    for (step, h) in hist.iter().enumerate() {
        rep.states += 1;
        watch::enter("C15", name, step, "chain operation");
        let i = us(&h[1]) - 1;
        let what = h[0].as_str().unwrap();
        rep.event(what);
        if what == "chain" {
            let o = std::mem::replace(&mut objs[i], Obj::Gone);
            objs[i] = Obj::Chain(match (o, step % 2) {
                (Obj::Chain(c), 0) => FunctionChain::new(c),
                (o, _) => FunctionChain::from_boxed(o.boxed()),
            });
        } else {
            let j = us(&h[2]) - 1;
            let o = std::mem::replace(&mut objs[j], Obj::Gone);
            let Obj::Chain(c) = &mut objs[i] else { panic!("spec: append to a function") };
            let r = match (o, step % 2) {
                (Obj::Chain(d), 0) => guarded(|| c.append(d)),
                (o, _) => guarded(|| c.append_boxed(o.boxed())),
            };
            rep.cmp("C15");
            if r.is_ok() != h[3].as_bool().unwrap() {
                rep.bad("C15", name, step, format!("step {step} of {hist:?}: append answered {r:?}"));
                return rep;
            }
        }
    }
    for (k, p) in pool.iter().enumerate() {
        let Some(f) = objs[k].get() else { continue };
        let leaves = p["leaves"].as_array().unwrap();
        let at = format!("object {} after {}", k + 1, Value::Array(hist.clone()));
        rep.cmp("C15");
        if (f.n(), f.m()) != (us(&p["n"]), us(&p["m"])) {
            rep.bad("C15", name, hist.len(), format!("{at}: dimensions {} {}, expected {} {}", f.n(), f.m(), p["n"], p["m"]));
            return rep;
        }
        let x: Vec<f64> = (0..f.n()).map(|j| (j + 2) as f64).collect();
        if let Err(e) = evaluations(f, None, &x, Some(&floats(&p["y"]))) {
            rep.bad("C15", name, hist.len(), format!("{at}: {e}"));
            return rep;
        }
        let long: Vec<f64> = (0..f.n() + 1).map(|j| (j + 2) as f64).collect();
        if let Err(e) = evaluations(f, None, &long, None) {
            rep.bad("C15", name, hist.len(), format!("{at}: wrong length: {e}"));
            return rep;
        }
        if (p["kind"] == "chain") != f.chain().is_some() {
            rep.bad("C15", name, hist.len(), format!("{at}: chain() of a {}", p["kind"]));
            return rep;
        }
        if let Obj::Chain(c) = &objs[k] {
            let got: Vec<(usize, usize, Vec<f64>)> = c
                .iter()
                .map(|g| (g.n(), g.m(), g.eval_float(DVector::from_element(g.n(), 1.0)).as_slice().to_vec()))
                .collect();
            let want: Vec<(usize, usize, Vec<f64>)> = leaves
                .iter()
                .map(|l| {
                    let (n, m, q) = (us(&l["n"]), us(&l["m"]), us(&l["k"]));
                    (n, m, (1..=m).map(|i| 3.0 * (n * (n + 1) / 2) as f64 + (10 * q + i) as f64).collect())
                })
                .collect();
            let nth: Vec<_> = guarded(|| {
                (0..c.len()).map(|q| c.nth(q)).map(|g| (g.n(), g.m(), g.eval_float(DVector::from_element(g.n(), 1.0)).as_slice().to_vec())).collect()
            })
            .unwrap_or_default();
            rep.cmp("C15");
            if got != want || nth != want || c.len() != leaves.len() || guarded(|| c.nth(leaves.len()).n()).is_ok() {
                rep.bad("C15", name, hist.len(), format!("{at}: members {got:?}, by index {nth:?}, expected {want:?}"));
                return rep;
            }
        }
    }
    watch::leave();
    if rep.samples.is_empty() {
        rep.samples.push(json!({"construction": hist}));
    }
    rep
}
