//! Replays sessions generated from session.qnt on the real library.
use crate::itf::*;
use crate::prog::ProgFn;
use crate::report::*;
use crate::copies::Copies;
use crate::units::*;
use advantage::drivers::*;
use advantage::*;
use num::traits::{NumCast, One, Zero};
use num::ToPrimitive;
use serde_json::{json, Value};
use std::fmt::Debug;

pub trait Base: Float + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// tapes recorded from this scalar behave as the session says
    const TAPES: bool;
    /// value, the derivatives along two directions, mixed second derivative
    fn mk(v: f64, d: f64, g: f64, e: f64) -> AFloat<Self>;
    /// value, derivative, and for nested scalars the inner derivative and the mixed second derivative
    fn get(x: &AFloat<Self>) -> (f64, f64, Option<(f64, f64)>);
}
impl Base for f64 {
    const NAME: &'static str = "f64";
    const TAPES: bool = true;
    fn mk(v: f64, d: f64, _: f64, _: f64) -> AFloat<f64> {
        AFloat::new(v, d)
    }
    fn get(x: &AFloat<f64>) -> (f64, f64, Option<(f64, f64)>) {
        (x.value(), x.dvalue(), None)
    }
}
impl Base for f32 {
    const NAME: &'static str = "f32";
    const TAPES: bool = false;
    fn mk(v: f64, d: f64, _: f64, _: f64) -> AFloat<f32> {
        AFloat::new(v as f32, d as f32)
    }
    fn get(x: &AFloat<f32>) -> (f64, f64, Option<(f64, f64)>) {
        (x.value() as f64, x.dvalue() as f64, None)
    }
}
impl Base for AFloat<f64> {
    const NAME: &'static str = "nested";
    const TAPES: bool = true;
    fn mk(v: f64, d: f64, g: f64, e: f64) -> AFloat<AFloat<f64>> {
        AFloat::new(AFloat::new(v, g), AFloat::new(d, e))
    }
    fn get(x: &AFloat<AFloat<f64>>) -> (f64, f64, Option<(f64, f64)>) {
        (x.value().value(), x.dvalue().value(), Some((x.value().dvalue(), x.dvalue().dvalue())))
    }
}

type Nested3 = AFloat<AFloat<AFloat<f64>>>;
impl Base for AFloat<AFloat<f64>> {
    const NAME: &'static str = "nested twice";
    const TAPES: bool = true;
    fn mk(v: f64, d: f64, g: f64, e: f64) -> Nested3 {
        // the two directions on the two outer levels; the innermost level carries nothing
        let n = |x: f64| AFloat::new(x, 0.0);
        AFloat::new(AFloat::new(n(v), n(g)), AFloat::new(n(d), n(e)))
    }
    fn get(x: &Nested3) -> (f64, f64, Option<(f64, f64)>) {
        (x.value().value().value(), x.dvalue().value().value(), Some((x.value().dvalue().value(), x.dvalue().dvalue().value())))
    }
}

/// Recording observed on a real context or tape.
#[derive(Clone, Debug, PartialEq)]
pub struct RealRec {
    pub indeps: Vec<usize>,
    pub deps: Vec<usize>,
    pub ops: Vec<Operation>,
    pub vals: Vec<f64>,
}
pub fn of_context(c: &AContext) -> RealRec {
    RealRec { indeps: c.indeps(), deps: c.deps(), ops: c.operations(), vals: c.values() }
}
pub fn of_tape(t: &dyn Tape) -> RealRec {
    RealRec { indeps: t.indeps().to_vec(), deps: t.deps().to_vec(), ops: t.ops_iter().collect(), vals: t.values().to_vec() }
}
fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
pub fn same_rec(a: &RealRec, b: &RealRec) -> bool {
    a.indeps == b.indeps && a.deps == b.deps && a.ops == b.ops && same_bits(&a.vals, &b.vals)
}

fn code_of(c: OpCode) -> String {
    format!("{c:?}")
}

/// Ids defined once, operands earlier than results, everything in range.
pub fn well_formed(r: &RealRec) -> Result<(), String> {
    let n = r.vals.len();
    let mut def = vec![0usize; n];
    let mut at = vec![usize::MAX; n]; // position of definition
    for i in &r.indeps {
        if *i >= n {
            return Err(format!("independent {i} out of range"));
        }
        def[*i] += 1;
        at[*i] = 0;
    }
    for (k, o) in r.ops.iter().enumerate() {
        if o.vid >= n {
            return Err(format!("result id {} out of range", o.vid));
        }
        for a in [o.arg1, o.arg2].iter().flatten() {
            if *a >= n || at[*a] == usize::MAX || at[*a] > k {
                return Err(format!("operation {k} ({o:?}) uses {a} before it is defined"));
            }
        }
        def[o.vid] += 1;
        at[o.vid] = k + 1;
    }
    if let Some(i) = def.iter().position(|d| *d != 1) {
        return Err(format!("id {i} defined {} times", def[i]));
    }
    if let Some(d) = r.deps.iter().find(|d| **d >= n) {
        return Err(format!("dependent {d} out of range"));
    }
    Ok(())
}

/// Map from specification ids to real ids; constants are matched by value at their uses.
pub fn match_rec(spec: &Recd, real: &RealRec) -> Result<Vec<usize>, String> {
    let mut map: Vec<Option<usize>> = vec![None; spec.vals.len()];
    if spec.indeps.len() != real.indeps.len() {
        return Err(format!("{} independents recorded, expected {}", real.indeps.len(), spec.indeps.len()));
    }
    for (s, r) in spec.indeps.iter().zip(&real.indeps) {
        map[*s] = Some(*r);
    }
    let is_const = |id: usize| spec.ops.iter().any(|o| o.vid == id && o.code == "Const");
    let real_const = |id: usize| real.ops.iter().any(|o| o.vid == id && o.opcode == OpCode::Const);
    let bind = |map: &mut Vec<Option<usize>>, s: usize, r: usize, what: &str| -> Result<(), String> {
        match map[s] {
            Some(m) if m == r => Ok(()),
            Some(m) => {
                // the same constant may have been captured again
                if is_const(s) && real_const(r) && real.vals[r].to_bits() == real.vals[m].to_bits() {
                    Ok(())
                } else {
                    Err(format!("{what}: recorded id {r}, expected {m}"))
                }
            }
            None if is_const(s) => {
                if !real_const(r) {
                    return Err(format!("{what}: id {r} is not a captured constant"));
                }
                let (got, want) = (real.vals[r], spec.vals[s]);
                if !close(got, want, 1e-6 * (1.0 + want.abs())) {
                    return Err(format!("{what}: captured constant {got}, expected {want}"));
                }
                map[s] = Some(r);
                Ok(())
            }
            None => Err(format!("{what}: not recorded")),
        }
    };
    let sops: Vec<_> = spec.ops.iter().filter(|o| o.code != "Const").collect();
    let rops: Vec<_> = real.ops.iter().filter(|o| o.opcode != OpCode::Const && o.opcode != OpCode::Nop).collect();
    if sops.len() != rops.len() {
        return Err(format!("{} operations recorded, expected {}: {:?}", rops.len(), sops.len(), real.ops));
    }
    for (k, (s, r)) in sops.iter().zip(&rops).enumerate() {
        let what = format!("operation {k} {} {:?}", s.code, r);
        if s.code != code_of(r.opcode) {
            return Err(format!("{what}: expected {}", s.code));
        }
        if (s.b >= 0) != r.arg2.is_some() || r.arg1.is_none() {
            return Err(format!("{what}: wrong number of operands"));
        }
        bind(&mut map, s.a as usize, r.arg1.unwrap(), &what)?;
        if s.b >= 0 {
            bind(&mut map, s.b as usize, r.arg2.unwrap(), &what)?;
        }
        if map[s.vid].is_some() {
            return Err(format!("{what}: result matched twice"));
        }
        map[s.vid] = Some(r.vid);
    }
    if spec.deps.len() != real.deps.len() {
        return Err(format!("{} dependents recorded, expected {}", real.deps.len(), spec.deps.len()));
    }
    for (k, (s, r)) in spec.deps.iter().zip(&real.deps).enumerate() {
        bind(&mut map, *s, *r, &format!("dependent {k}"))?;
    }
    let nconst_s = spec.ops.iter().filter(|o| o.code == "Const").count();
    let nconst_r = real.ops.iter().filter(|o| o.opcode == OpCode::Const).count();
    if nconst_r > nconst_s {
        return Err(format!("{nconst_r} constants captured, expected {nconst_s}"));
    }
    // constants that are captured but not referred to: any unused recorded constant will do
    let mut out = Vec::new();
    for (s, m) in map.iter().enumerate() {
        match m {
            Some(r) => out.push(*r),
            None if is_const(s) => {
                let c = real.ops.iter().find(|o| o.opcode == OpCode::Const && close(real.vals[o.vid], spec.vals[s], 1e-6));
                match c {
                    Some(o) => out.push(o.vid),
                    None => return Err(format!("constant {} not captured", spec.vals[s])),
                }
            }
            None => return Err(format!("id {s} not recorded")),
        }
    }
    Ok(out)
}

struct Ctx<'a> {
    rep: &'a mut Report,
    trace: &'a str,
    step: usize,
    mode: String,
    tol: f64,
    scale: f64,
}
impl<'a> Ctx<'a> {
    fn bad(&mut self, prop: &'static str, what: String) {
        let w = format!("[{}] {}", self.mode, what);
        self.rep.bad(prop, self.trace, self.step, w);
    }
    /// compare a number; the tolerance is relative to the magnitudes seen in the session
    fn num(&mut self, prop: &'static str, got: f64, want: f64, what: &dyn Fn() -> String) -> bool {
        self.rep.cmp(prop);
        let tol = self.tol * self.scale.max(want.abs()).max(1.0);
        if want.abs() > 1e-300 || got != want {
            let ratio = (got - want).abs() / tol;
            let e = self.rep.worst.entry(prop).or_insert((0.0, String::new()));
            if ratio > e.0 && ratio <= 1.0 {
                *e = (ratio, format!("{} step {} [{}]", self.trace, self.step, self.mode));
            }
        }
        if close(got, want, tol) {
            true
        } else {
            self.bad(prop, format!("{}: got {got:e}, expected {want:e}", what()));
            false
        }
    }
    fn vec(&mut self, prop: &'static str, got: &[f64], want: &[f64], what: &dyn Fn() -> String) -> bool {
        if got.len() != want.len() {
            self.bad(prop, format!("{}: length {} instead of {}", what(), got.len(), want.len()));
            return false;
        }
        for i in 0..got.len() {
            if !self.num(prop, got[i], want[i], &|| format!("{}[{i}] of {got:?} vs {want:?}", what())) {
                return false;
            }
        }
        self.rep.cmp(prop);
        true
    }
    fn matrix(&mut self, prop: &'static str, got: &DMatrix<f64>, want: &[Vec<f64>], cols: usize, what: &dyn Fn() -> String) -> bool {
        if got.nrows() != want.len() || got.ncols() != cols {
            self.bad(prop, format!("{}: {}x{} instead of {}x{}", what(), got.nrows(), got.ncols(), want.len(), cols));
            return false;
        }
        for i in 0..got.nrows() {
            for j in 0..cols {
                if !self.num(prop, got[(i, j)], want[i][j], &|| format!("{}({i},{j})", what())) {
                    return false;
                }
            }
        }
        self.rep.cmp(prop);
        true
    }
    /// the call must not panic
    fn call<T>(&mut self, prop: &'static str, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(x) => Some(x),
            Err(e) => {
                self.bad(prop, format!("{what} {e}"));
                None
            }
        }
    }
}

pub struct Opts {
    pub profile: String,
}

/// State of a tape in the specification.
struct STape {
    r: Recd,
    vals: Vec<f64>,
}

fn dmat(rows: &[Vec<f64>], cols: usize) -> DMatrix<f64> {
    DMatrix::from_fn(rows.len(), cols, |i, j| rows[i][j])
}

pub fn run_trace(doc: &Value, name: &str, o: &Opts) -> Report {
    let mut rep = Report::default();
    let sts = states(doc, "S");
    rep.traces += 1;
    rep.states += sts.len() as u64;
    let exact = o.profile.starts_with("exact") || o.profile == "kinks";
    let tol = if exact { 1e-12 } else { 1e-10 };
    run::<f64>(&sts, name, true, tol, exact, &mut rep);
    run::<f64>(&sts, name, false, tol, exact, &mut rep);
    run::<AFloat<f64>>(&sts, name, true, tol, exact, &mut rep);
    run::<AFloat<f64>>(&sts, name, false, tol, exact, &mut rep);
    run::<AFloat<AFloat<f64>>>(&sts, name, true, tol, exact, &mut rep);
    run::<f32>(&sts, name, true, 2e-3, exact, &mut rep);
    run::<f32>(&sts, name, false, 2e-3, exact, &mut rep);
    crate::watch::leave();
    if rep.samples.is_empty() {
        rep.samples.push(json!({
            "trace": name,
            "calls": sts.iter().skip(1).map(|s| describe(&s["last"])).collect::<Vec<_>>() }));
    }
    rep
}

fn describe(e: &Value) -> String {
    let act = string(&e["act"]);
    let op = string(&e["op"]);
    let form = string(&e["form"]);
    match act {
        "un" => format!("v = {}(v{})", op, int(&e["i"])),
        "bin" => format!("{} [{}] v{} v{} c={}", op, form, int(&e["i"]), int(&e["j"]), fx(&e["c"])),
        "der" => format!("{} v{} v{} c={}", op, int(&e["i"]), int(&e["j"]), fx(&e["c"])),
        "indep" | "cst" => format!("{} {} (seed {})", act, fx(&e["c"]), fx(&e["d"])),
        "replay" | "badreplay" => format!("{} tape {} at {:?}", act, int(&e["k"]), fxs(&e["xs"])),
        "fwd" | "rev" => format!("{} tape {} along {:?}", act, int(&e["k"]), fxs(&e["xs"])),
        "gj" => format!("gj tape {} dx {:?} bits {} mult {}", int(&e["k"]), fxs(&e["xs"]), list(&e["bits"]).len(), int(&e["d"])),
        _ => format!("{} {}", act, int(&e["i"])),
    }
}

#[allow(clippy::cognitive_complexity)]
fn run<S: Base>(sts: &[Value], name: &str, recorded: bool, tol: f64, exact: bool, rep: &mut Report) {
    let mode = format!("{}{}", S::NAME, if recorded { "" } else { " unrecorded" });
    let mut cx = Ctx { rep, trace: name, step: 0, mode, tol, scale: 1.0 };
    let primary = recorded && S::NAME == "f64";
    let mut ctx = AContext::new();
    let mut vars: Vec<AFloat<S>> = Vec::new();
    let mut tapes = Vec::new();
    let mut maps: Vec<Option<Vec<usize>>> = Vec::new();
    // the value the computation produced for every specification id
    let mut produced: Vec<Option<f64>> = Vec::new();
    // literal constants of nested/unrecorded runs
    let n0 = sts[0]["vars"].as_array().unwrap().len();

    // the first state already contains the initial independents
    let s0 = &sts[0];
    for k in 0..n0 {
        let v = &s0["vars"][k];
        let mut x = S::mk(fx(&v["v"]), fx(&v["d"]), fx(&v["g"]), fx(&v["e"]));
        if recorded {
            if cx.call("C01", "set_indep", || ctx.set_indep(&mut x)).is_none() {
                return;
            }
        }
        vars.push(x);
    }

    for (step, st) in sts.iter().enumerate().skip(1) {
        cx.step = step;
        let e = &st["last"];
        let act = string(&e["act"]);
        if primary {
            cx.rep.event(act);
        }
        let (i, j) = (int(&e["i"]), int(&e["j"]));
        let owner = match act {
            "un" | "bin" | "der" | "query" | "acc" | "map" => "C02",
            "clone" | "replay" | "badreplay" | "wild" => "C04",
            "fwd" => "C05",
            "rev" => "C06",
            "jac" => "C07",
            "anf" => "C08",
            "gj" => "C09",
            _ => "C01",
        };
        crate::watch::enter(owner, name, step, act);
        let before = if recorded { Some(of_context(&ctx)) } else { None };
        let elem = boolean(&st["elem"]);
        match act {
            "skip" | "start" => {}
            "indep" | "cst" | "mark" | "un" | "bin" | "der" => {
                let (c, d) = (fx(&e["c"]), fx(&e["d"]));
                let (op, form) = (string(&e["op"]), string(&e["form"]));
                let seed = fxs(&e["xs"]);
                let prop = if act == "un" || act == "bin" || act == "der" { "C02" } else { "C01" };
                let what = format!("{act} {op} {form}");
                let assign = form == "av" || form == "ac" || act == "mark";
                let out: Option<AFloat<S>> = match act {
                    "indep" => cx.call(prop, &what, || {
                        let mut x = S::mk(c, d, seed[0], seed[1]);
                        if recorded {
                            if step % 2 == 0 {
                                ctx.set_indep(&mut x);
                            } else {
                                let mut y = ctx.new_indep_vec(1, x.value());
                                *y[0].dvalue_mut() = x.dvalue();
                                x = y[0];
                            }
                        }
                        x
                    }),
                    "cst" => Some(S::mk(c, d, seed[0], seed[1])),
                    "mark" => {
                        let mut x = vars[i as usize];
                        cx.call(prop, &what, || {
                            if recorded {
                                ctx.set_indep(&mut x);
                            }
                            x
                        })
                    }
                    "un" => {
                        let x = vars[i as usize];
                        cx.call(prop, &what, || crate::prog::unary(op, x))
                    }
                    "bin" => {
                        let x = vars[i as usize];
                        let y = vars[j as usize];
                        cx.call(prop, &what, || bin(op, form, x, y, c))
                    }
                    _ => {
                        let x = vars[i as usize];
                        let y = vars[j as usize];
                        cx.call(prop, &what, || derived(op, x, y, c))
                    }
                };
                let Some(x) = out else { return };
                let want = fxs(&e["out"]);
                let (v, d, inner) = S::get(&x);
                let desc = || format!("{act} {op} {form} (v{i}, v{j}, c={})", fx(&e["c"]));
                for w in [want[0], want[1], want[3]] {
                    cx.scale = cx.scale.max(w.abs());
                }
                let sm = boolean(&e["flag"]);
                if sm && want[2].abs() > cx.scale {
                    cx.scale = want[2].abs();
                }
                if S::NAME == "f32" && cx.scale > 4096.0 {
                    return;
                }
                if !cx.num("C02", v, want[0], &|| format!("value of {}", desc())) {
                    return;
                }
                if !cx.num("C03", d, want[1], &|| format!("derivative of {}", desc())) {
                    return;
                }
                if let Some((g, e2)) = inner {
                    if !cx.num("C03", g, want[3], &|| format!("derivative inside the value of {}", desc())) {
                        return;
                    }
                    if sm && !cx.num("C03", e2, want[2], &|| format!("second derivative of {}", desc())) {
                        return;
                    }
                }
                if assign {
                    vars[i as usize] = x;
                } else {
                    vars.push(x);
                }
                let id = int(&e["k"]);
                if recorded && id >= 0 && elem {
                    let id = id as usize;
                    if produced.len() <= id {
                        produced.resize(id + 1, None);
                    }
                    produced[id] = Some(v);
                }
                // an unrecorded result leaves the recording alone
                if recorded && id < 0 {
                    cx.rep.cmp("C01");
                    if !same_rec(before.as_ref().unwrap(), &of_context(&ctx)) {
                        cx.bad("C01", format!("{} on unrecorded operands changed the recording", desc()));
                        return;
                    }
                }
            }
            "acc" => {
                let l: Vec<usize> = ints(&e["g2"]).iter().map(|x| *x as usize).collect();
                let (first, rest) = (vars[l[0]], l[1..].iter().map(|i| vars[*i]).collect::<Vec<_>>());
                let Some(x) = cx.call("C02", "sum", || {
                    let mut z = first;
                    for (q, y) in rest.iter().enumerate() {
                        z = if q % 2 == 0 { z + *y } else { z - *y };
                    }
                    z
                }) else { return };
                let want = fxs(&e["out"]);
                let (v, d, inner) = S::get(&x);
                for i in &l {
                    cx.scale = cx.scale.max(S::get(&vars[*i]).0.abs());
                }
                if !cx.num("C02", v, want[0], &|| format!("value of the sum of {l:?}"))
                    || !cx.num("C03", d, want[1], &|| format!("derivative of the sum of {l:?}"))
                {
                    return;
                }
                if let Some((g, e2)) = inner {
                    if !cx.num("C03", g, want[3], &|| format!("derivative inside the value of the sum of {l:?}")) {
                        return;
                    }
                    if boolean(&e["flag"]) && want[2].abs() <= cx.scale && !cx.num("C03", e2, want[2], &|| format!("second derivative of the sum of {l:?}")) {
                        return;
                    }
                }
                vars.push(x);
            }
            "map" => {
                let want = fxs(&e["out"]);
                let op = string(&e["op"]);
                for (q, i) in ints(&e["g2"]).iter().enumerate() {
                    let y = vars[*i as usize];
                    let Some(x) = cx.call("C02", op, || crate::prog::unary(op, y)) else { return };
                    if !cx.num("C02", S::get(&x).0, want[q], &|| format!("value of {op} v{i}")) {
                        return;
                    }
                    vars.push(x);
                }
            }
            "deps" => {
                if recorded {
                    let xs: Vec<AFloat<S>> = ints(&e["g2"]).iter().map(|i| vars[*i as usize]).collect();
                    if cx.call("C01", "set_dep_slice", || ctx.set_dep_slice(&xs)).is_none() {
                        return;
                    }
                }
            }
            "dep" => {
                if recorded {
                    let x = vars[i as usize];
                    let r = if step % 2 == 0 {
                        cx.call("C01", "set_dep", || ctx.set_dep(&x))
                    } else {
                        cx.call("C01", "set_dep_slice", || ctx.set_dep_slice(&[x]))
                    };
                    if r.is_none() {
                        return;
                    }
                }
            }
            "query" => {
                let (a, b) = (vars[i as usize], vars[j as usize]);
                let want: Vec<bool> = ints(&e["out"]).iter().map(|x| *x != 0).collect();
                let mut decided = boolean(&e["flag"]);
                if S::NAME == "f32" {
                    let (x, y) = (S::get(&a).0, S::get(&b).0);
                    decided &= i == j || (x - y).abs() > 4e-3 * cx.scale;
                    decided &= x.abs() > 4e-3 * cx.scale && (x - 1.0).abs() > 4e-3 * cx.scale;
                }
                if decided && (exact || i == j || S::get(&a).0 != S::get(&b).0) {
                    let got = cx.call("C02", "query", || {
                        (vec![a < b, a == b, a > b, a.is_zero(), a.is_one()], a.is_sign_positive(), a.partial_cmp(&b), a <= b, a >= b, a != b)
                    });
                    let Some((got, pos, ord, le, ge, ne)) = got else { return };
                    cx.rep.cmp("C02");
                    let o = if want[0] { std::cmp::Ordering::Less } else if want[2] { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal };
                    if got != want[0..5] || ord != Some(o) || le == want[2] || ge == want[0] || ne == want[1] {
                        cx.bad("C02", format!("comparisons of v{i} and v{j}: got {got:?} {ord:?}, expected {want:?}"));
                    }
                    if !want[3] && pos != want[5] {
                        cx.bad("C02", format!("is_sign_positive of v{i}: got {pos}"));
                    }
                }
                let _ = cx.call("C01", "reading", || {
                    let c = a;
                    let _ = (c.value(), c.dvalue(), c.is_nan(), c.classify(), a.to_f64(), a.to_i64());
                    let _ = format!("{a:?}");
                    let _: AFloat<f64> = AFloat::cast(a);
                    let _ = <f64 as NumCast>::from(a);
                });
                if let Some(b) = &before {
                    cx.rep.cmp("C01");
                    if !same_rec(b, &of_context(&ctx)) {
                        cx.bad("C01", format!("reading v{i} and v{j} changed the recording"));
                        return;
                    }
                }
            }
            "tape" => {
                if recorded {
                    let Some(t) = cx.call("C01", "tape", || ctx.tape()) else { return };
                    let real = of_tape(&t);
                    cx.rep.cmp("C01");
                    if !same_rec(&real, &of_context(&ctx)) || !same_rec(&real, before.as_ref().unwrap()) {
                        cx.bad("C01", "taking a tape changed the recording or differs from it".into());
                        return;
                    }
                    if let Err(m) = well_formed(&real) {
                        cx.bad("C01", m);
                        return;
                    }
                    let spec = recd(&st["r"]);
                    let mut map = None;
                    if elem {
                        cx.rep.cmp("C01");
                        match match_rec(&spec, &real) {
                            Ok(m) => map = Some(m),
                            Err(m) => {
                                cx.bad("C01", m);
                                return;
                            }
                        }
                    }
                    if let Some(m) = &map {
                        // stored values are those the computation produced
                        for (id, p) in produced.iter().enumerate() {
                            if let (Some(p), true) = (p, id < m.len()) {
                                cx.rep.cmp("C01");
                                if real.vals[m[id]].to_bits() != p.to_bits() {
                                    cx.bad("C01", format!("value stored for id {id} is {} but the computation produced {p}", real.vals[m[id]]));
                                    return;
                                }
                            }
                        }
                    }
                    if S::TAPES {
                        let want: Vec<f64> = spec.deps.iter().map(|d| spec.vals[*d]).collect();
                        if !cx.vec("C04", t.y().as_slice(), &want, &|| "stored result of a new tape".into()) {
                            return;
                        }
                        let want: Vec<f64> = spec.indeps.iter().map(|d| spec.vals[*d]).collect();
                        if !cx.vec("C04", t.x().as_slice(), &want, &|| "stored argument of a new tape".into()) {
                            return;
                        }
                        cx.rep.cmp("C08");
                        if elem && t.num_abs() != spec.ops.iter().filter(|o| o.code == "Abs").count() {
                            cx.bad("C08", format!("num_abs is {}", t.num_abs()));
                        }
                    }
                    tapes.push(t);
                    maps.push(map);
                }
            }
            _ if !recorded || !S::TAPES => {}
            "clone" => {
                let k = int(&e["k"]) as usize;
                let t = tapes[k].clone();
                cx.rep.cmp("C04");
                if !same_rec(&of_tape(&t), &of_tape(&tapes[k])) {
                    cx.bad("C04", "a clone differs from its tape".into());
                    return;
                }
                tapes.push(t);
                let m = maps[k].clone();
                maps.push(m);
            }
            "wild" => {
                let k = int(&e["k"]) as usize;
                let pts: Vec<DVector<f64>> = list(&e["mats"]).iter().map(|p| DVector::from_vec(ints(p).iter().map(|c| WILD[*c as usize]).collect())).collect();
                let others: Vec<RealRec> = tapes.iter().map(|t| of_tape(t)).collect();
                let f = if primary && elem { Some(ProgFn::new(&recd(&st["tapes"][k]["r"]))) } else { None };
                let r = cx.call("C04", "zero_order", || wild(&tapes[k], &pts, f.as_ref()));
                cx.rep.cmp("C04");
                match r {
                    Some(Ok(())) => {}
                    Some(Err(m)) => {
                        cx.bad("C04", m);
                        return;
                    }
                    None => return,
                }
                let Some(r) = cx.call("C08", "AbsNormalTape", || wild_anf(&tapes[k], &pts[0])) else { return };
                cx.rep.cmp("C08");
                if let Err(m) = r {
                    cx.bad("C08", m);
                    return;
                }
                if tapes.iter().zip(&others).any(|(t, o)| !same_rec(o, &of_tape(t))) {
                    cx.bad("C04", "replaying a clone changed another tape".into());
                    return;
                }
            }
            "replay" | "badreplay" | "fwd" | "rev" | "jac" | "anf" | "gj" => {
                let k = int(&e["k"]) as usize;
                let spec = STape { r: recd(&st["tapes"][k]["r"]), vals: fxs(&st["tapes"][k]["vals"]) };
                let xs = fxs(&e["xs"]);
                let m = xs.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                let saved = cx.scale;
                cx.scale = spec.vals.iter().fold(cx.scale.max(m), |m, x| m.max(x.abs()));
                let others: Vec<RealRec> = tapes.iter().map(|t| of_tape(t)).collect();
                let ok = match act {
                    "replay" => replay(&mut cx, &mut tapes[k], maps[k].as_ref(), &spec, e, primary),
                    "badreplay" => {
                        let t = &mut tapes[k];
                        let r = guarded(|| t.zero_order(&DVector::from_vec(xs.clone())));
                        cx.rep.cmp("C04");
                        if r.is_ok() {
                            cx.bad("C04", format!("an argument of length {} for {} independents was accepted", xs.len(), spec.r.indeps.len()));
                        }
                        let same = same_rec(&of_tape(t), &others[k]);
                        if !same {
                            cx.bad("C04", "a refused replay changed the tape".into());
                        }
                        r.is_err() && same
                    }
                    "fwd" => forward(&mut cx, &tapes[k], &spec, e, primary),
                    "rev" => reverse(&mut cx, &tapes[k], &spec, e, primary),
                    "jac" => jacobian(&mut cx, &tapes[k], &spec, e, primary),
                    "anf" => {
                        let t = if elem { Some(Box::new(tapes[k].clone()) as Box<dyn Tape>) } else { None };
                        anf(&mut cx, t, &spec, e)
                    }
                    _ => {
                        let t = if elem { Some(Box::new(tapes[k].clone()) as Box<dyn Tape>) } else { None };
                        genjac(&mut cx, t, &spec, e)
                    }
                };
                let ok = ok && (!primary || other_units(&mut cx, act, &spec, e, step) && many_copies(&mut cx, act, &spec, e, step));
                cx.scale = saved.max(1.0);
                if !ok {
                    return;
                }
                // nothing else moved
                let prop = owner;
                for (q, o) in others.iter().enumerate() {
                    if q == k && act == "replay" {
                        continue;
                    }
                    cx.rep.cmp(prop);
                    if !same_rec(o, &of_tape(&tapes[q])) {
                        cx.bad(prop, format!("{act} on tape {k} changed tape {q}"));
                        return;
                    }
                }
                if !same_rec(before.as_ref().unwrap(), &of_context(&ctx)) {
                    cx.bad(prop, format!("{act} on a tape changed the recording"));
                    return;
                }
            }
            _ => panic!("unknown event {act}"),
        }
        // the recording after every event
        if recorded && !matches!(act, "skip") {
            let real = of_context(&ctx);
            cx.rep.cmp("C01");
            if let Err(m) = well_formed(&real) {
                cx.bad("C01", format!("after {act}: {m}"));
                return;
            }
            if elem && matches!(act, "indep" | "mark" | "un" | "bin" | "dep" | "cst" | "acc" | "map" | "deps") {
                if let Err(m) = match_rec(&recd(&st["r"]), &real) {
                    cx.bad("C01", format!("after {act} {} {}: {m}", string(&e["op"]), string(&e["form"])));
                    return;
                }
            }
        }
    }
}

/// codes 2k and 2k+1 of the specification are a number and its negative
const WILD: [f64; 16] = [
    0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -1e-310, 1.7e308, -1.7e308, 5e-324, -5e-324, 1.0, -1.0, 0.1, -0.1, 9007199254740993.0, -9007199254740993.0,
];
fn same_value(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
/// Replays at extreme points: the outcome depends on the point alone and is that of a fresh recording.
fn wild<T: Tape + Clone>(t: &T, pts: &[DVector<f64>], f: Option<&ProgFn>) -> Result<(), String> {
    let mut used = t.clone();
    let mut of_f = f.map(|f| f.tape(&pts[0]));
    for (q, p) in pts.iter().enumerate() {
        used.zero_order(p);
        let mut fresh = t.clone();
        fresh.zero_order(p);
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_value(*x, *y));
        if !same(used.x().as_slice(), p.as_slice()) {
            return Err(format!("argument after a replay at {:?} is {:?}", p.as_slice(), used.x().as_slice()));
        }
        if !same(used.values(), fresh.values()) || !same(used.y().as_slice(), fresh.y().as_slice()) {
            return Err(format!("a replay at {:?} gives {:?} after other replays ({q}), but {:?} without", p.as_slice(), used.values(), fresh.values()));
        }
        if let (Some(of_f), Some(f)) = (&mut of_f, f) {
            of_f.zero_order(p);
            let there = f.tape(p);
            if !same(of_f.values(), there.values()) || !same(of_f.y().as_slice(), there.y().as_slice()) || of_tape(&**of_f).ops != of_tape(&*there).ops {
                return Err(format!("a replay at {:?} gives {:?}, but a fresh recording there {:?}", p.as_slice(), of_f.values(), there.values()));
            }
        }
    }
    Ok(())
}

/// The abs-normal tape of a tape at an extreme point holds that point, those results and the operands of the absolute values.
fn wild_anf<T: Tape + Clone + 'static>(t: &T, p: &DVector<f64>) -> Result<(), String> {
    let mut t = t.clone();
    t.zero_order(p);
    let z: Vec<f64> = t.ops_iter().filter(|o| o.opcode == OpCode::Abs).map(|o| t.values()[o.arg1.unwrap()]).collect();
    let (x, y) = (t.x(), t.y());
    let a = AbsNormalTape::new(Box::new(t));
    let same = |what: &str, a: &[f64], b: &[f64]| {
        if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_value(*x, *y)) {
            Ok(())
        } else {
            Err(format!("{what} of the abs-normal tape at {:?} is {a:?}, should be {b:?}", p.as_slice()))
        }
    };
    same("x", a.x().as_slice(), x.as_slice())?;
    same("y", a.y().as_slice(), y.as_slice())?;
    same("z", a.z().as_slice(), &z)
}

fn bin<S: Float>(op: &str, form: &str, x: AFloat<S>, y: AFloat<S>, c: f64) -> AFloat<S> {
    match (op, form) {
        ("Add", "vv") => x + y,
        ("Sub", "vv") => x - y,
        ("Mul", "vv") => x * y,
        ("Div", "vv") => x / y,
        ("Powf", "vv") => x.powf(y),
        ("Add", "vc") => x + c,
        ("Sub", "vc") => x - c,
        ("Mul", "vc") => x * c,
        ("Div", "vc") => x / c,
        ("Add", "cv") => c + y,
        ("Sub", "cv") => c - y,
        ("Mul", "cv") => c * y,
        ("Div", "cv") => c / y,
        _ => {
            let mut z = x;
            match (op, form) {
                ("Add", "av") => z += y,
                ("Sub", "av") => z -= y,
                ("Mul", "av") => z *= y,
                ("Div", "av") => z /= y,
                ("Add", "ac") => z += c,
                ("Sub", "ac") => z -= c,
                ("Mul", "ac") => z *= c,
                ("Div", "ac") => z /= c,
                _ => panic!("spec: {op} {form}"),
            }
            z
        }
    }
}

fn derived<S: Float>(op: &str, x: AFloat<S>, y: AFloat<S>, c: f64) -> AFloat<S> {
    let k = || <AFloat<S> as NumCast>::from(c).unwrap();
    match op {
        "neg" => -x,
        "recip" => x.recip(),
        "powi" => x.powi(c as i32),
        "powf_c" => x.powf(k()),
        "sqrt" => x.sqrt(),
        "cbrt" => x.cbrt(),
        "exp2" => x.exp2(),
        "log" => x.log(y),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "mul_add" => x.mul_add(y, k()),
        "hypot" => x.hypot(y),
        "to_degrees" => x.to_degrees(),
        "to_radians" => x.to_radians(),
        "max" => x.max(y),
        "min" => x.min(y),
        "abs_sub" => {
            #[allow(deprecated)]
            x.abs_sub(y)
        }
        _ => panic!("spec: derived {op}"),
    }
}

fn replay<T: Tape>(cx: &mut Ctx, t: &mut T, map: Option<&Vec<usize>>, spec: &STape, e: &Value, primary: bool) -> bool {
    let xs = DVector::from_vec(fxs(&e["xs"]));
    let shape = (t.indeps().to_vec(), t.deps().to_vec(), t.ops_iter().collect::<Vec<_>>());
    if cx.call("C04", "zero_order", || t.zero_order(&xs)).is_none() {
        return false;
    }
    cx.rep.cmp("C04");
    if shape != (t.indeps().to_vec(), t.deps().to_vec(), t.ops_iter().collect::<Vec<_>>()) {
        cx.bad("C04", "a replay changed the structure of the tape".into());
        return false;
    }
    let want: Vec<f64> = spec.r.deps.iter().map(|d| spec.vals[*d]).collect();
    if !cx.vec("C04", t.x().as_slice(), xs.as_slice(), &|| "argument after replay".into()) {
        return false;
    }
    if !cx.vec("C04", t.y().as_slice(), &want, &|| "result after replay".into()) {
        return false;
    }
    if let Some(m) = map {
        let got: Vec<f64> = m.iter().map(|r| t.values()[*r]).collect();
        if !cx.vec("C04", &got, &spec.vals, &|| "values after replay".into()) {
            return false;
        }
    }
    if primary {
        // against a fresh recording of the same program, from a tape recorded elsewhere
        let f = ProgFn::new(&spec.r);
        let Some((a, b)) = cx.call("C04", "Function::tape", || {
            let x0 = xs.map(|v| v + 0.25);
            let x0 = if spec.r.ops.iter().all(|o| matches!(o.code.as_str(), "Const" | "Add" | "Sub" | "Mul" | "Abs" | "Sin" | "Cos" | "Atan")) { x0 } else { xs.clone() };
            let mut a = f.tape(&x0);
            a.zero_order(&xs);
            (of_tape(&*a), of_tape(&*f.tape(&xs)))
        }) else { return false };
        cx.rep.cmp("C04");
        if !same_rec(&a, &b) {
            cx.bad("C04", format!("replay differs from a fresh recording: {:?} vs {:?}", a.vals, b.vals));
            return false;
        }
    }
    true
}

fn forward(cx: &mut Ctx, t: &dyn Tape, spec: &STape, e: &Value, primary: bool) -> bool {
    let dx = DVector::from_vec(fxs(&e["xs"]));
    let want = fxs(&e["out"]);
    cx.scale = want.iter().fold(cx.scale, |m, x| m.max(x.abs()));
    let Some(dy) = cx.call("C05", "first_order_forward", || t.first_order_forward(&dx)) else { return false };
    if !cx.vec("C05", dy.as_slice(), &want, &|| format!("forward sweep along {:?}", dx.as_slice())) {
        return false;
    }
    if primary {
        // through a function object, at the point the tape was replayed to
        let x: Vec<f64> = spec.r.indeps.iter().map(|i| spec.vals[*i]).collect();
        let f = ProgFn::new(&spec.r);
        let Some(dy) = cx.call("C05", "Function::tape and sweep", || f.tape(&DVector::from_vec(x.clone())).first_order_forward(&dx)) else { return false };
        if !cx.vec("C05", dy.as_slice(), &want, &|| format!("forward sweep of a function's tape along {:?}", dx.as_slice())) {
            return false;
        }
    }
    true
}

fn reverse(cx: &mut Ctx, t: &dyn Tape, spec: &STape, e: &Value, primary: bool) -> bool {
    let w = DVector::from_vec(fxs(&e["xs"]));
    if !boolean(&e["flag"]) {
        // an absolute value on the tape: refused, whatever the weights
        let r = guarded(|| t.first_order_reverse(&w));
        cx.rep.cmp("C06");
        if let Ok(x) = r {
            cx.bad("C06", format!("a tape with an absolute value was reversed: {:?}", x.as_slice()));
            return false;
        }
        return true;
    }
    let want = fxs(&e["out"]);
    cx.scale = want.iter().fold(cx.scale, |m, x| m.max(x.abs()));
    let Some(xbar) = cx.call("C06", "first_order_reverse", || t.first_order_reverse(&w)) else { return false };
    if !cx.vec("C06", xbar.as_slice(), &want, &|| format!("reverse sweep of {:?}", w.as_slice())) {
        return false;
    }
    if primary {
        let x: Vec<f64> = spec.r.indeps.iter().map(|i| spec.vals[*i]).collect();
        let f = ProgFn::new(&spec.r);
        let Some(xb) = cx.call("C06", "Function::tape and sweep", || f.tape(&DVector::from_vec(x.clone())).first_order_reverse(&w)) else { return false };
        if !cx.vec("C06", xb.as_slice(), &want, &|| format!("reverse sweep of a function's tape for {:?}", w.as_slice())) {
            return false;
        }
    }
    true
}

fn jacobian(cx: &mut Ctx, t: &dyn Tape, spec: &STape, e: &Value, primary: bool) -> bool {
    let (m, n) = (int(&e["i"]) as usize, int(&e["j"]) as usize);
    let want = mat(&e["mats"]);
    assert_eq!(want.len(), m);
    cx.scale = want.iter().flatten().fold(cx.scale, |m, x| m.max(x.abs()));
    let Some(j) = cx.call("C07", "jacobian_reverse", || jacobian_reverse(t)) else { return false };
    if !cx.matrix("C07", &j, &want, n, &|| "jacobian_reverse".into()) {
        return false;
    }
    if !primary {
        return true;
    }
    let x = DVector::from_vec(fxs(&e["xs"]));
    let f = ProgFn::new(&spec.r);
    let Some(j) = cx.call("C07", "jacobian_forward", || jacobian_forward(&f, &x)) else { return false };
    if !cx.matrix("C07", &j, &want, n, &|| "jacobian_forward".into()) {
        return false;
    }
    let Some(j) = cx.call("C07", "jacobian_reverse of Function::tape", || jacobian_reverse(&*f.tape(&x))) else { return false };
    if !cx.matrix("C07", &j, &want, n, &|| "jacobian_reverse of a function's tape".into()) {
        return false;
    }
    for wrong in [x.nrows() + 1, x.nrows().wrapping_sub(1)] {
        if wrong == usize::MAX {
            continue;
        }
        let y = DVector::from_element(wrong, 0.5);
        cx.rep.cmp("C07");
        if guarded(|| jacobian_forward(&f, &y)).is_ok() {
            cx.bad("C07", format!("jacobian_forward accepted {wrong} inputs instead of {n}"));
            return false;
        }
    }
    true
}

macro_rules! check_matrix {
    ($cx:ident, $ty:ident, $tape:expr, $want:expr, $cols:expr, $name:expr) => {{
        let want: &[Vec<f64>] = $want;
        let (rows, cols) = (want.len(), $cols);
        let Some(mx) = $cx.call("C08", concat!($name, "::new"), || $ty::new($tape)) else { return false };
        $cx.rep.cmp("C08");
        if mx.nrows() != rows || mx.ncols() != cols {
            $cx.bad("C08", format!("{} is {}x{} instead of {}x{}", $name, mx.nrows(), mx.ncols(), rows, cols));
            return false;
        }
        let Some(r) = $cx.call("C08", concat!($name, "::mul_right(I)"), || mx.mul_right(&DMatrix::<f64>::identity(cols, cols))) else { return false };
        if !$cx.matrix("C08", &r, want, cols, &|| format!("{}*I", $name)) {
            return false;
        }
        let Some(r) = $cx.call("C08", concat!($name, "::mul_left(I)"), || mx.mul_left(&DMatrix::<f64>::identity(rows, rows))) else { return false };
        if !$cx.matrix("C08", &r, want, cols, &|| format!("I*{}", $name)) {
            return false;
        }
        // a rectangular factor from either side, and vectors
        let full = dmat(want, cols);
        let rhs = DMatrix::from_fn(cols, 3, |i, j| ((i * 3 + j * 5) % 7) as f64 - 3.0);
        let lhs = DMatrix::from_fn(2, rows, |i, j| ((i * 5 + j * 3) % 7) as f64 - 2.0);
        let rows_of = |m: &DMatrix<f64>| (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)]).collect::<Vec<_>>()).collect::<Vec<_>>();
        let Some(r) = $cx.call("C08", concat!($name, "::mul_right"), || mx.mul_right(&rhs)) else { return false };
        let prod = &full * &rhs;
        if !$cx.matrix("C08", &r, &rows_of(&prod), 3, &|| format!("{}*R", $name)) {
            return false;
        }
        // a view into a larger matrix, and a transposed one
        let host = DMatrix::from_fn(cols + 3, 7, |i, j| if (1..=cols).contains(&i) && j % 2 == 1 { rhs[(i - 1, j / 2)] } else { 77.0 });
        let Some(v) = $cx.call("C08", concat!($name, "::mul_right of a view"), || mx.mul_right(&host.slice_with_steps((1, 1), (cols, 3), (0, 1)))) else { return false };
        if v != r {
            $cx.bad("C08", format!("{} times a view gives {v}, times the same numbers {r}", $name));
            return false;
        }
        let Some(l) = $cx.call("C08", concat!($name, "::mul_left"), || mx.mul_left(&lhs)) else { return false };
        let host = DMatrix::from_fn(6, rows + 2, |i, j| if (1..=rows).contains(&j) && i % 3 == 1 { lhs[(i / 3, j - 1)] } else { 77.0 });
        let Some(v) = $cx.call("C08", concat!($name, "::mul_left of a view"), || mx.mul_left(&host.slice_with_steps((1, 1), (2, rows), (2, 0)))) else { return false };
        if v != l {
            $cx.bad("C08", format!("a view times {} gives {v}, the same numbers {l}", $name));
            return false;
        }
        let Some(r) = $cx.call("C08", concat!($name, "::mul_left"), || mx.mul_left(&lhs)) else { return false };
        let prod = &lhs * &full;
        if !$cx.matrix("C08", &r, &rows_of(&prod), cols, &|| format!("L*{}", $name)) {
            return false;
        }
        for j in 0..cols {
            let Some(c) = $cx.call("C08", concat!($name, "::column"), || mx.column(j)) else { return false };
            let col: Vec<Vec<f64>> = want.iter().map(|r| vec![r[j]]).collect();
            if !$cx.matrix("C08", &c, &col, 1, &|| format!("{}.column({j})", $name)) {
                return false;
            }
        }
        for i in 0..rows {
            let Some(r) = $cx.call("C08", concat!($name, "::row"), || mx.row(i)) else { return false };
            if !$cx.matrix("C08", &r, &want[i..i + 1], cols, &|| format!("{}.row({i})", $name)) {
                return false;
            }
        }
    }};
}

fn anf(cx: &mut Ctx, tape: Option<Box<dyn Tape>>, spec: &STape, e: &Value) -> bool {
    let (s, m) = (int(&e["i"]) as usize, int(&e["j"]) as usize);
    let x = DVector::from_vec(fxs(&e["g2"]));
    let n = x.nrows();
    let dx = DVector::from_vec(fxs(&e["xs"]));
    let out = fxs(&e["out"]);
    let all = mat(&e["mats"]);
    let (zmat, lmat, jmat, ymat) = (&all[0..s], &all[s..2 * s], &all[2 * s..2 * s + m], &all[2 * s + m..]);
    assert_eq!(all.len(), 2 * s + 2 * m);
    let (z, a, b, dy) = (&out[0..s], &out[s..2 * s], &out[2 * s..2 * s + m], &out[2 * s + m..]);
    cx.scale = all.iter().flatten().chain(out.iter()).fold(cx.scale, |m, x| m.max(x.abs()));
    // products of the matrices with small integer factors
    cx.scale *= 16.0;
    let f = ProgFn::new(&spec.r);
    let Some(form) = cx.call("C08", "abs_normal", || abs_normal(&f, &x)) else { return false };
    if !cx.vec("C08", form.a.as_slice(), a, &|| "a".into())
        || !cx.vec("C08", form.b.as_slice(), b, &|| "b".into())
        || !cx.matrix("C08", &form.zmat, zmat, n, &|| "Z".into())
        || !cx.matrix("C08", &form.lmat, lmat, s, &|| "L".into())
        || !cx.matrix("C08", &form.jmat, jmat, n, &|| "J".into())
        || !cx.matrix("C08", &form.ymat, ymat, s, &|| "Y".into())
    {
        return false;
    }
    for i in 0..s {
        for j in i..s {
            cx.rep.cmp("C08");
            if form.lmat[(i, j)] != 0.0 {
                cx.bad("C08", format!("L({i},{j}) = {} is not strictly lower triangular", form.lmat[(i, j)]));
                return false;
            }
        }
    }
    // the form itself reproduces the increment along dx
    let mut zt = vec![0.0f64; s];
    for i in 0..s {
        zt[i] = form.a[i] + (0..n).map(|j| form.zmat[(i, j)] * dx[j]).sum::<f64>() + (0..i).map(|j| form.lmat[(i, j)] * zt[j].abs()).sum::<f64>();
    }
    cx.scale = zt.iter().fold(cx.scale, |m, x| m.max(x.abs()));
    let got: Vec<f64> = (0..m)
        .map(|i| form.b[i] + (0..n).map(|j| form.jmat[(i, j)] * dx[j]).sum::<f64>() + (0..s).map(|j| form.ymat[(i, j)] * zt[j].abs()).sum::<f64>())
        .collect();
    let big = (0..m).flat_map(|i| (0..s).map(move |j| (i, j))).fold(1.0f64, |q, (i, j)| q.max((form.ymat[(i, j)] * zt[j]).abs()));
    cx.scale = cx.scale.max(big);
    if !cx.vec("C08", &got, dy, &|| format!("increment along {:?} from the abs-normal form", dx.as_slice())) {
        return false;
    }
    let mut tapes: Vec<Box<dyn Tape>> = vec![];
    let Some(t) = cx.call("C08", "Function::tape", || f.tape(&x)) else { return false };
    tapes.push(t);
    tapes.extend(tape);
    for t in tapes {
        let (t_x, t_y) = (t.x(), t.y());
        let Some(at) = cx.call("C08", "AbsNormalTape::new", || AbsNormalTape::new(t)) else { return false };
        cx.rep.cmp("C08");
        if (at.n(), at.m(), at.s()) != (n, m, s) {
            cx.bad("C08", format!("abs-normal tape has n={} m={} s={}, expected {n} {m} {s}", at.n(), at.m(), at.s()));
            return false;
        }
        if !cx.vec("C08", at.z().as_slice(), z, &|| "switching variables z".into())
            || !cx.vec("C08", at.x().as_slice(), t_x.as_slice(), &|| "x of the abs-normal tape".into())
            || !cx.vec("C08", at.y().as_slice(), t_y.as_slice(), &|| "y of the abs-normal tape".into())
        {
            return false;
        }
        check_matrix!(cx, AbsNormalZ, &at, zmat, n, "Z");
        check_matrix!(cx, AbsNormalL, &at, lmat, s, "L");
        check_matrix!(cx, AbsNormalJ, &at, jmat, n, "J");
        check_matrix!(cx, AbsNormalY, &at, ymat, s, "Y");
    }
    true
}

/// The same call in other units: what it tells is what the specification says, in those units.
fn other_units(cx: &mut Ctx, act: &str, spec: &STape, e: &Value, step: usize) -> bool {
    if !matches!(act, "replay" | "fwd" | "rev" | "jac" | "anf" | "gj") {
        return true;
    }
    let seed = spec.vals.iter().fold(step as u64 + 12345, |h, v| (h ^ v.to_bits()).wrapping_mul(0x9E3779B97F4A7C15));
    // the recording itself in other units, or its results in very small or large ones
    let (r, u) = match seed >> 40 & 7 {
        0 => Units::of_results(&spec.r, if matches!(act, "anf" | "gj" | "rev") { -900 } else { -1023 }),
        1 => Units::of_results(&spec.r, 900),
        _ => match Units::of(&spec.r, seed) {
            Some(u) => (spec.r.clone(), u),
            None => return true,
        },
    };
    cx.rep.event(if seed >> 40 & 7 < 2 { "extreme units" } else { "other units" });
    let (tx, ty) = (u.of_ids(&r.indeps), u.of_ids(&r.deps));
    let r = u.recd(&r);
    let f = ProgFn::new(&r);
    let neg = |t: &[i32]| t.iter().map(|k| -k).collect::<Vec<_>>();
    let xs: Vec<f64> = spec.r.indeps.iter().map(|i| spec.vals[*i]).collect();
    let x = DVector::from_vec(scaled(&xs, &tx));
    let arg = fxs(&e["xs"]);
    let out = fxs(&e["out"]);
    // entries (i, j) of a matrix whose rows and columns have units
    fn unscale(m: &DMatrix<f64>, rows: &[i32], cols: &[i32]) -> DMatrix<f64> {
        DMatrix::from_fn(m.nrows(), m.ncols(), |i, j| {
            if i < rows.len() && j < cols.len() {
                times_p2(m[(i, j)], cols[j] - rows[i])
            } else {
                m[(i, j)]
            }
        })
    }
    let text = format!("in other units ({tx:?}): ");
    match act {
        "replay" => {
            let x0 = x.map(|v| if v == 0.0 { 1.0 } else { -v });
            let smooth = spec.r.ops.iter().all(|o| matches!(o.code.as_str(), "Const" | "Add" | "Sub" | "Mul" | "Abs"));
            let Some(y) = cx.call("C04", "zero_order", || {
                let mut t = f.tape(if smooth { &x0 } else { &x });
                t.zero_order(&x);
                t.y()
            }) else { return false };
            let want: Vec<f64> = spec.r.deps.iter().map(|d| spec.vals[*d]).collect();
            cx.vec("C04", &back(y.as_slice(), &ty), &want, &|| format!("{text}result after replay"))
        }
        "fwd" => {
            let dx = DVector::from_vec(scaled(&arg, &tx));
            let Some(dy) = cx.call("C05", "first_order_forward", || f.tape(&x).first_order_forward(&dx)) else { return false };
            cx.vec("C05", &back(dy.as_slice(), &ty), &out, &|| format!("{text}forward sweep along {arg:?}"))
        }
        "rev" => {
            if !boolean(&e["flag"]) {
                return true;
            }
            let w = DVector::from_vec(scaled(&arg, &neg(&ty)));
            let Some(xb) = cx.call("C06", "first_order_reverse", || f.tape(&x).first_order_reverse(&w)) else { return false };
            cx.vec("C06", &back(xb.as_slice(), &neg(&tx)), &out, &|| format!("{text}reverse sweep of {arg:?}"))
        }
        "jac" => {
            let want = mat(&e["mats"]);
            let Some((a, b)) = cx.call("C07", "jacobians", || (jacobian_forward(&f, &x), jacobian_reverse(&*f.tape(&x)))) else { return false };
            cx.matrix("C07", &unscale(&a, &ty, &tx), &want, tx.len(), &|| format!("{text}jacobian_forward"))
                && cx.matrix("C07", &unscale(&b, &ty, &tx), &want, tx.len(), &|| format!("{text}jacobian_reverse"))
        }
        "anf" => {
            let tz: Vec<i32> = spec.r.ops.iter().filter(|o| o.code == "Abs").map(|o| u.t[o.vid]).collect();
            let (s, m, n) = (tz.len(), ty.len(), tx.len());
            let all = mat(&e["mats"]);
            let Some(form) = cx.call("C08", "abs_normal", || abs_normal(&f, &x)) else { return false };
            if !cx.vec("C08", &back(form.a.as_slice(), &tz), &out[s..2 * s], &|| format!("{text}a"))
                || !cx.vec("C08", &back(form.b.as_slice(), &ty), &out[2 * s..2 * s + m], &|| format!("{text}b"))
            {
                return false;
            }
            let Some(at) = cx.call("C08", "AbsNormalTape::new", || AbsNormalTape::new(f.tape(&x))) else { return false };
            if !cx.vec("C08", &back(at.z().as_slice(), &tz), &out[0..s], &|| format!("{text}z"))
                || !cx.vec("C08", at.x().as_slice(), x.as_slice(), &|| format!("{text}x"))
            {
                return false;
            }
            macro_rules! part {
                ($ty:ident, $name:expr, $field:expr, $rows:expr, $cols:expr, $want:expr) => {{
                    let (rows, cols): (&[i32], &[i32]) = ($rows, $cols);
                    if !cx.matrix("C08", &unscale(&$field, rows, cols), $want, cols.len(), &|| format!("{text}{}", $name)) {
                        return false;
                    }
                    let mx = $ty::new(&at);
                    let right = DMatrix::from_fn(cols.len(), cols.len(), |i, j| if i == j { p2(cols[j]) } else { 0.0 });
                    let left = DMatrix::from_fn(rows.len(), rows.len(), |i, j| if i == j { p2(-rows[i]) } else { 0.0 });
                    let Some((a, b)) = cx.call("C08", $name, || (mx.mul_right(&right), mx.mul_left(&left))) else { return false };
                    let zero = vec![0; cols.len()];
                    if !cx.matrix("C08", &unscale(&a, rows, &zero), $want, cols.len(), &|| format!("{text}{}*units", $name))
                        || !cx.matrix("C08", &unscale(&b, &vec![0; rows.len()], cols), $want, cols.len(), &|| format!("{text}units*{}", $name))
                    {
                        return false;
                    }
                }};
            }
            part!(AbsNormalZ, "Z", form.zmat, &tz, &tx, &all[0..s]);
            part!(AbsNormalL, "L", form.lmat, &tz, &tz, &all[s..2 * s]);
            part!(AbsNormalJ, "J", form.jmat, &ty, &tx, &all[2 * s..2 * s + m]);
            part!(AbsNormalY, "Y", form.ymat, &ty, &tz, &all[2 * s + m..]);
            let _ = n;
            true
        }
        _ => {
            let bits: Vec<bool> = list(&e["bits"]).iter().map(boolean).collect();
            let bytes = pack_bits(&bits);
            let want_h = mat(&e["mats"]);
            let next = string(&e["form"]) == "next";
            let dx = DVector::from_vec(scaled(&arg, &tx));
            // the rows of the composed one have no units
            let rows = if next { vec![0; out.len()] } else { ty.clone() };
            let nx = if next {
                let h = dmat(&mat(&e["mats2"]), ty.len());
                Some(GeneralizedJacobian {
                    homogenous: DMatrix::from_fn(h.nrows(), h.ncols(), |i, j| h[(i, j)] * p2(-ty[j])),
                    inhomogenous: DVector::from_vec(fxs(&e["g2"])),
                    multiplicity: int(&e["c"]) as usize,
                })
            } else {
                None
            };
            let Some(g) = cx.call("C09", "generalized_jacobian", || generalized_jacobian(&f, &x, &dx, &bytes, nx)) else { return false };
            cx.rep.cmp("C09");
            if g.multiplicity != int(&e["d"]) as usize {
                cx.bad("C09", format!("{text}multiplicity {} instead of {} (dx {arg:?}, bits {bits:?})", g.multiplicity, int(&e["d"])));
                return false;
            }
            cx.matrix("C09", &unscale(&g.homogenous, &rows, &tx), &want_h, tx.len(), &|| format!("{text}H (dx {arg:?}, bits {bits:?})"))
                && cx.vec("C09", &back(g.inhomogenous.as_slice(), &rows), &out, &|| format!("{text}g (dx {arg:?}, bits {bits:?})"))
        }
    }
}

/// The same call on many copies side by side.
fn many_copies(cx: &mut Ctx, act: &str, spec: &STape, e: &Value, step: usize) -> bool {
    let (n, m, ops) = (spec.r.indeps.len(), spec.r.deps.len(), spec.r.ops.len());
    if !matches!(act, "replay" | "fwd" | "rev" | "jac" | "anf" | "gj") || n == 0 || m == 0 {
        return true;
    }
    let h = cx.trace.bytes().fold(step as u64 * 7919 + 99991, |h, b| (h ^ b as u64).wrapping_mul(0x100000001B3)) >> 20;
    let s = spec.r.ops.iter().filter(|o| o.code == "Abs").count();
    let bits: Vec<bool> = if act == "gj" { list(&e["bits"]).iter().map(boolean).collect() } else { vec![] };
    let own = if act == "gj" { int(&e["d"]) as usize - if string(&e["form"]) == "next" { int(&e["c"]) as usize } else { 0 } } else { 0 };
    let differ = (0..own).any(|i| bits.get(i).copied().unwrap_or(false)) && !(0..own).all(|i| bits.get(i).copied().unwrap_or(false));
    // sizes: beyond 2^16 for the sweeps, beyond 2^8 for the matrices, beyond 64 switches
    let k = match act {
        "replay" | "fwd" | "rev" if h % 24 == 0 => 66_000 / ops.max(1).min(n * 8) + 1,
        "replay" | "fwd" | "rev" if h % 3 == 0 => 300 / n + 1,
        "jac" if h % 24 == 0 => 260 / n.min(m) + 1,
        "jac" if h % 3 == 0 => 18 / n + 2,
        "anf" if h % 12 == 0 && s > 0 => 68 / s + 1,
        "anf" if h % 3 == 0 => 3,
        // more undecided switches than fit into a byte, where their bits differ
        "gj" if h % 4 == 0 && own > 1 && s * 300 / own < 1200 && differ => 262 / own + 1,
        "gj" if h % 12 == 0 && s > 0 => 68 / s + 1,
        "gj" if h % 3 == 0 => 5,
        _ => return true,
    };
    cx.rep.event("many copies");
    let wide = own > 1 && own * k > 256;
    if wide {
        cx.rep.event("more than 256 undecided switches");
    }
    let mut q = Copies::new(k, !matches!(act, "replay" | "fwd" | "rev"), h % 2 == 0 || wide);
    let f = ProgFn::new(&q.recd(&spec.r));
    let xs: Vec<f64> = spec.r.indeps.iter().map(|i| spec.vals[*i]).collect();
    let times = |v: &[f64], k: usize| -> Vec<f64> { (0..k).flat_map(|_| v.iter().cloned()).collect() };
    let x = DVector::from_vec(times(&xs, k));
    let arg = fxs(&e["xs"]);
    let out = fxs(&e["out"]);
    let text = format!("{k} copies ({}): ", if q.woven { "woven" } else { "in a row" });
    // copies at the given offsets on the diagonal, nothing beside
    let blocks = |got: &DMatrix<f64>, rows: &dyn Fn(usize, usize) -> usize, cols: &dyn Fn(usize, usize) -> usize, nr: usize, nc: usize| -> Result<Vec<DMatrix<f64>>, String> {
        let (tr, tc) = (nr * k, nc * k);
        if got.shape() != (tr, tc) {
            return Err(format!("{:?} instead of {:?}", got.shape(), (tr, tc)));
        }
        let mut seen = DMatrix::from_element(tr, tc, false);
        let mut v = vec![];
        for c in 0..k {
            v.push(DMatrix::from_fn(nr, nc, |i, j| got[(rows(c, i), cols(c, j))]));
            for i in 0..nr {
                for j in 0..nc {
                    seen[(rows(c, i), cols(c, j))] = true;
                }
            }
        }
        for i in 0..tr {
            for j in 0..tc {
                if !seen[(i, j)] && got[(i, j)] != 0.0 {
                    return Err(format!("entry ({i},{j}) between two copies is {}", got[(i, j)]));
                }
            }
        }
        Ok(v)
    };
    macro_rules! compare {
        ($prop:expr, $got:expr, $rows:expr, $cols:expr, $nr:expr, $nc:expr, $want:expr, $what:expr) => {{
            cx.rep.cmp($prop);
            match blocks(&$got, $rows, $cols, $nr, $nc) {
                Err(m) => {
                    cx.bad($prop, format!("{text}{}: {m}", $what));
                    return false;
                }
                Ok(v) => {
                    for (c, b) in v.iter().enumerate() {
                        if !cx.matrix($prop, b, $want, $nc, &|| format!("{text}{} of copy {c}", $what)) {
                            return false;
                        }
                    }
                }
            }
        }};
    }
    let at_m = |c: usize, i: usize| c * m + i;
    let at_n = |c: usize, j: usize| c * n + j;
    let at_s = |c: usize, i: usize| q.switch(c, i, s);
    match act {
        "replay" => {
            let x0 = x.map(|v| if v == 0.0 { 1.0 } else { -v });
            let smooth = spec.r.ops.iter().all(|o| matches!(o.code.as_str(), "Const" | "Add" | "Sub" | "Mul" | "Abs"));
            let Some((y, xr, abs)) = cx.call("C04", "zero_order", || {
                let mut t = f.tape(if smooth { &x0 } else { &x });
                t.zero_order(&x);
                (t.y(), t.x(), t.num_abs())
            }) else { return false };
            let want: Vec<f64> = spec.r.deps.iter().map(|d| spec.vals[*d]).collect();
            cx.rep.cmp("C04");
            if xr != x || abs != k * s {
                cx.bad("C04", format!("{text}{} arguments, {abs} absolute values after replay", xr.len()));
                return false;
            }
            cx.vec("C04", y.as_slice(), &times(&want, q.live.len()), &|| format!("{text}result after replay"))
        }
        "fwd" => {
            let dx = DVector::from_vec((0..k).flat_map(|c| arg.iter().map(move |a| (a, c))).map(|(a, c)| a * q.factor(c)).collect());
            let want: Vec<f64> = q.live.iter().flat_map(|c| out.iter().map(move |a| (a, c))).map(|(a, c)| a * q.factor(*c)).collect();
            // absolute values do not scale with negative factors at their kink, nor anything at zero
            let plain = s == 0;
            let dx = if plain { dx } else { DVector::from_vec(times(&arg, k)) };
            let want = if plain { want } else { times(&out, q.live.len()) };
            let Some((dy, wf)) = cx.call("C05", "first_order_forward", || {
                let t = f.tape(&x);
                (t.first_order_forward(&dx), well_formed(&of_tape(&*t)))
            }) else { return false };
            cx.rep.cmp("C01");
            if let Err(m) = wf {
                cx.bad("C01", format!("{text}{m}"));
                return false;
            }
            cx.vec("C05", dy.as_slice(), &want, &|| format!("{text}forward sweep along {arg:?}"))
        }
        "rev" => {
            if !boolean(&e["flag"]) {
                return true;
            }
            let w: Vec<f64> = q.live.iter().flat_map(|c| arg.iter().map(move |a| (a, c))).map(|(a, c)| a * q.factor(*c)).collect();
            let Some(xb) = cx.call("C06", "first_order_reverse", || f.tape(&x).first_order_reverse(&DVector::from_vec(w))) else { return false };
            let mut want = vec![0.0; k * n];
            for c in &q.live {
                for (i, o) in out.iter().enumerate() {
                    want[c * n + i] = o * q.factor(*c);
                }
            }
            cx.vec("C06", xb.as_slice(), &want, &|| format!("{text}reverse sweep of {arg:?}"))
        }
        "jac" => {
            let want = mat(&e["mats"]);
            let Some((a, b)) = cx.call("C07", "jacobians", || (jacobian_forward(&f, &x), jacobian_reverse(&*f.tape(&x)))) else { return false };
            compare!("C07", a, &at_m, &at_n, m, n, &want, "jacobian_forward");
            compare!("C07", b, &at_m, &at_n, m, n, &want, "jacobian_reverse");
            true
        }
        "anf" => {
            let all = mat(&e["mats"]);
            let Some((form, at)) = cx.call("C08", "abs_normal", || (abs_normal(&f, &x), AbsNormalTape::new(f.tape(&x)))) else { return false };
            let mut a = vec![0.0; k * s];
            let mut z = vec![0.0; k * s];
            for c in 0..k {
                for i in 0..s {
                    z[at_s(c, i)] = out[i];
                    a[at_s(c, i)] = out[s + i];
                }
            }
            if !cx.vec("C08", form.a.as_slice(), &a, &|| format!("{text}a"))
                || !cx.vec("C08", form.b.as_slice(), &times(&out[2 * s..2 * s + m], k), &|| format!("{text}b"))
                || !cx.vec("C08", at.z().as_slice(), &z, &|| format!("{text}z"))
            {
                return false;
            }
            compare!("C08", form.zmat, &at_s, &at_n, s, n, &all[0..s], "Z");
            compare!("C08", form.lmat, &at_s, &at_s, s, s, &all[s..2 * s], "L");
            compare!("C08", form.jmat, &at_m, &at_n, m, n, &all[2 * s..2 * s + m], "J");
            compare!("C08", form.ymat, &at_m, &at_s, m, s, &all[2 * s + m..], "Y");
            true
        }
        _ => {
            let next = string(&e["form"]) == "next";
            let beyond = if next { int(&e["c"]) as usize } else { 0 };
            // in evaluation order: every undecided switch of a copy takes that copy's next bit
            let bit = |i: usize| bits.get(i).copied().unwrap_or(false);
            let all: Vec<bool> = if q.woven { (0..own).flat_map(|i| (0..k).map(move |_| i)).map(bit).collect() } else { (0..k).flat_map(|_| 0..own).map(bit).collect() };
            let bytes = pack_bits(&all);
            let want_h = mat(&e["mats"]);
            let rows = out.len();
            let at_r = |c: usize, i: usize| c * rows + i;
            let nx = if next {
                let h = dmat(&mat(&e["mats2"]), m);
                let g = fxs(&e["g2"]);
                Some(GeneralizedJacobian {
                    homogenous: DMatrix::from_fn(rows * k, m * k, |i, j| if i / rows.max(1) == j / m { h[(i % rows, j % m)] } else { 0.0 }),
                    inhomogenous: DVector::from_vec(times(&g, k)),
                    multiplicity: beyond,
                })
            } else {
                None
            };
            let dx = DVector::from_vec(times(&arg, k));
            let Some(g) = cx.call("C09", "generalized_jacobian", || generalized_jacobian(&f, &x, &dx, &bytes, nx)) else { return false };
            cx.rep.cmp("C09");
            if g.multiplicity != own * k + beyond {
                cx.bad("C09", format!("{text}multiplicity {} instead of {} (dx {arg:?}, bits {bits:?})", g.multiplicity, own * k + beyond));
                return false;
            }
            compare!("C09", g.homogenous, &at_r, &at_n, rows, n, &want_h, "H");
            cx.vec("C09", g.inhomogenous.as_slice(), &times(&out, k), &|| format!("{text}g (dx {arg:?}, bits {bits:?})"))
        }
    }
}

pub fn pack_bits(bits: &[bool]) -> Vec<u8> {
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |b, (i, x)| if *x { b | (1 << i) } else { b })).collect()
}

fn genjac(cx: &mut Ctx, tape: Option<Box<dyn Tape>>, spec: &STape, e: &Value) -> bool {
    let (m, n) = (int(&e["i"]) as usize, int(&e["j"]) as usize);
    let dx = DVector::from_vec(fxs(&e["xs"]));
    let bits: Vec<bool> = list(&e["bits"]).iter().map(boolean).collect();
    let bytes = pack_bits(&bits);
    let want_g = fxs(&e["out"]);
    let want_h = mat(&e["mats"]);
    let mult = int(&e["d"]) as usize;
    let next = if string(&e["form"]) == "next" {
        Some(GeneralizedJacobian {
            homogenous: dmat(&mat(&e["mats2"]), m),
            inhomogenous: DVector::from_vec(fxs(&e["g2"])),
            multiplicity: int(&e["c"]) as usize,
        })
    } else {
        None
    };
    cx.scale = want_h.iter().flatten().chain(want_g.iter()).fold(cx.scale, |m, x| m.max(x.abs())) * 16.0;
    let x = DVector::from_vec(spec.r.indeps.iter().map(|i| spec.vals[*i]).collect());
    let f = ProgFn::new(&spec.r);
    let mut results = vec![];
    let what = "generalized_jacobian";
    let Some(r) = cx.call("C09", what, || generalized_jacobian(&f, &x, &dx, &bytes, next.clone())) else { return false };
    results.push((what, r));
    if let Some(t) = tape {
        let what = "generalized_jacobian_tape";
        let Some(r) = cx.call("C09", what, || generalized_jacobian_tape(t, &dx, &bytes, next.clone())) else { return false };
        results.push((what, r));
    }
    for (what, r) in results {
        cx.rep.cmp("C09");
        if r.multiplicity != mult {
            cx.bad("C09", format!("{what}: multiplicity {} instead of {mult} (dx {:?}, bits {bits:?})", r.multiplicity, dx.as_slice()));
            return false;
        }
        if !cx.matrix("C09", &r.homogenous, &want_h, n, &|| format!("{what}: H (dx {:?}, bits {bits:?})", dx.as_slice()))
            || !cx.vec("C09", r.inhomogenous.as_slice(), &want_g, &|| format!("{what}: g (dx {:?}, bits {bits:?})", dx.as_slice()))
        {
            return false;
        }
    }
    true
}
