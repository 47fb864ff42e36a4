//! Replays single calls generated from numbers.qnt on the real scalars.
use crate::itf::*;
use crate::report::*;
use crate::session::Base;
use advantage::*;
use num::traits::{NumCast, One, ToPrimitive, Zero};
use num::{BigInt, Num};
use serde_json::Value;

/// Scalars with a plain number at the bottom.
trait Leaf: Base {
    const SINGLE: bool;
    fn bottom(x: f64) -> Self;
    fn full(x: &Self) -> f64;
    /// first-order part of the value of a nested scalar
    fn inner(x: &AFloat<Self>) -> Option<f64>;
}
impl Leaf for f64 {
    const SINGLE: bool = false;
    fn bottom(x: f64) -> f64 {
        x
    }
    fn full(x: &f64) -> f64 {
        *x
    }
    fn inner(_: &AFloat<f64>) -> Option<f64> {
        None
    }
}
impl Leaf for f32 {
    const SINGLE: bool = true;
    fn bottom(x: f64) -> f32 {
        x as f32
    }
    fn full(x: &f32) -> f64 {
        *x as f64
    }
    fn inner(_: &AFloat<f32>) -> Option<f64> {
        None
    }
}
impl Leaf for AFloat<f64> {
    const SINGLE: bool = false;
    fn bottom(x: f64) -> Self {
        AFloat::new(x, 0.0)
    }
    fn full(x: &Self) -> f64 {
        x.value()
    }
    fn inner(x: &AFloat<Self>) -> Option<f64> {
        Some(x.value().dvalue())
    }
}
/// the same direction on both levels
fn jet<S: Base>(v: f64, d: f64) -> AFloat<S> {
    S::mk(v, d, d, 0.0)
}
impl Base for AFloat<f32> {
    const NAME: &'static str = "nested f32";
    const TAPES: bool = false;
    fn mk(v: f64, d: f64, g: f64, e: f64) -> AFloat<AFloat<f32>> {
        AFloat::new(AFloat::new(v as f32, g as f32), AFloat::new(d as f32, e as f32))
    }
    fn get(x: &AFloat<AFloat<f32>>) -> (f64, f64, Option<(f64, f64)>) {
        (x.value().value() as f64, x.dvalue().value() as f64, Some((x.value().dvalue() as f64, x.dvalue().dvalue() as f64)))
    }
}
impl Leaf for AFloat<f32> {
    const SINGLE: bool = true;
    fn bottom(x: f64) -> Self {
        AFloat::new(x as f32, 0.0)
    }
    fn full(x: &Self) -> f64 {
        x.value() as f64
    }
    fn inner(x: &AFloat<Self>) -> Option<f64> {
        Some(x.value().dvalue() as f64)
    }
}

/// A number of the specification.
fn num(v: &Value) -> f64 {
    let neg = boolean(&v["neg"]);
    let a = match string(&v["c"]) {
        "nan" => return f64::NAN,
        "inf" => f64::INFINITY,
        _ => {
            let m = big(&v["m"]).to_f64().unwrap() / SCALE;
            let e = int(&v["e"]).clamp(-5000, 5000) as i32;
            // in steps, so that neither underflow nor overflow comes early
            let mut x = m;
            let mut e = e;
            while e > 1000 {
                x *= 2f64.powi(1000);
                e -= 1000;
            }
            while e < -1000 {
                x *= 2f64.powi(-1000);
                e += 1000;
            }
            x * 2f64.powi(e)
        }
    };
    if neg {
        -a
    } else {
        a
    }
}
fn plain(v: &Value) -> bool {
    !boolean(&v["neg"]) && string(&v["c"]) == "fin" && big(&v["m"]) == BigInt::from(0)
}
fn agree(got: f64, want: f64, mag: f64, bits: i32, single: bool, signed: bool) -> bool {
    if want.is_nan() || got.is_nan() {
        return want.is_nan() && got.is_nan();
    }
    // beyond the range of the type
    let tiny = if single { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE } * 8.0;
    if want.is_infinite() || got.is_infinite() {
        return want == got;
    }
    if signed && got == 0.0 && want == 0.0 && got.is_sign_negative() != want.is_sign_negative() {
        return false;
    }
    (got - want).abs() <= mag.abs().max(want.abs()) * 2f64.powi(-bits) + if mag == 0.0 && want == 0.0 { 0.0 } else { tiny }
}

struct Cx<'a> {
    rep: &'a mut Report,
    trace: &'a str,
    step: usize,
    what: String,
}
impl Cx<'_> {
    fn check(&mut self, prop: &'static str, ok: bool, what: impl FnOnce() -> String) {
        self.rep.cmp(prop);
        if !ok {
            let w = format!("{}: {}", self.what, what());
            self.rep.bad(prop, self.trace, self.step, w);
        }
    }
}

pub fn run_trace(doc: &Value, name: &str, _profile: &str) -> Report {
    let mut rep = Report::default();
    rep.traces = 1;
    for (step, ev) in states(doc, "last").iter().enumerate() {
        rep.states += 1;
        let kind = string(&ev["kind"]);
        if kind.is_empty() || kind == "skip" {
            continue;
        }
        let ty = string(&ev["ty"]);
        rep.event(&format!("{kind} {ty}"));
        let what = format!(
            "{kind} {} on {ty}, x={:e} dx={:e}{} y={:e} dy={:e}{} z={:e} n={} form={}",
            string(&ev["op"]),
            num(&ev["x"]),
            num(&ev["dx"]),
            if boolean(&ev["recx"]) { " recorded" } else { "" },
            num(&ev["y"]),
            num(&ev["dy"]),
            if boolean(&ev["recy"]) { " recorded" } else { "" },
            num(&ev["z"]),
            big(&ev["n"]),
            int(&ev["form"])
        );
        let mut cx = Cx { rep: &mut rep, trace: name, step, what };
        match ty {
            "f64" => event::<f64>(ev, &mut cx),
            "f32" => event::<f32>(ev, &mut cx),
            "nf64" => event::<AFloat<f64>>(ev, &mut cx),
            "nf32" => event::<AFloat<f32>>(ev, &mut cx),
            t => panic!("unknown type {t}"),
        }
    }
    rep
}

struct Operands<S: Leaf> {
    ctx: AContext,
    x: AFloat<S>,
    y: AFloat<S>,
    recx: bool,
    recy: bool,
}
fn operands<S: Leaf>(ev: &Value) -> Operands<S> {
    let mut ctx = AContext::new();
    let mut x = jet::<S>(num(&ev["x"]), num(&ev["dx"]));
    let mut y = jet::<S>(num(&ev["y"]), num(&ev["dy"]));
    let (recx, recy) = (boolean(&ev["recx"]), boolean(&ev["recy"]));
    if recx {
        ctx.set_indep(&mut x);
    }
    if recy {
        ctx.set_indep(&mut y);
    }
    Operands { ctx, x, y, recx, recy }
}

fn event<S: Leaf>(ev: &Value, cx: &mut Cx) {
    match string(&ev["kind"]) {
        "op" => op::<S>(ev, cx),
        "compare" => compare::<S>(ev, cx),
        "classify" => classify::<S>(ev, cx),
        "convert" => convert::<S>(ev, cx),
        "from" => from::<S>(ev, cx),
        "cast" => match string(&ev["op"]) {
            "f64" => cast::<S, f64>(ev, cx),
            "f32" => cast::<S, f32>(ev, cx),
            "nf64" => cast::<S, AFloat<f64>>(ev, cx),
            _ => cast::<S, AFloat<f32>>(ev, cx),
        },
        "unsupported" => unsupported::<S>(ev, cx),
        "constant" => constant::<S>(ev, cx),
        "marks" => marks::<S>(ev, cx),
        k => panic!("unknown event {k}"),
    }
}

fn unary<S: Float>(op: &str, x: S, n: i32) -> S {
    match op {
        "abs" => x.abs(),
        "exp" => x.exp(),
        "ln" => x.ln(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "neg" => -x,
        "recip" => x.recip(),
        "sqrt" => x.sqrt(),
        "exp2" => x.exp2(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "cbrt" => x.cbrt(),
        "to_degrees" => x.to_degrees(),
        "to_radians" => x.to_radians(),
        "powi" => x.powi(n),
        _ => panic!("unknown operation {op}"),
    }
}
fn binary<S: Float>(op: &str, x: S, y: S) -> S {
    match op {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "powf" => x.powf(y),
        "log" => x.log(y),
        "max" => x.max(y),
        "min" => x.min(y),
        "abs_sub" => x.abs_sub(y),
        "hypot" => x.hypot(y),
        "copysign" => x.copysign(y),
        _ => panic!("unknown operation {op}"),
    }
}
fn is_binary(op: &str) -> bool {
    matches!(op, "add" | "sub" | "mul" | "div" | "powf" | "log" | "max" | "min" | "abs_sub" | "hypot" | "copysign")
}
macro_rules! forms {
    ($op:expr, $f:expr, $x:expr, $y:expr, $xl:expr, $yl:expr, $plain_x:expr, $plain_y:expr) => {{
        let (x, y) = ($x, $y);
        match ($op, $f) {
            ("add", 1) if $plain_y => x + $yl,
            ("sub", 1) if $plain_y => x - $yl,
            ("mul", 1) if $plain_y => x * $yl,
            ("div", 1) if $plain_y => x / $yl,
            ("add", 2) if $plain_x => $xl + y,
            ("sub", 2) if $plain_x => $xl - y,
            ("mul", 2) if $plain_x => $xl * y,
            ("div", 2) if $plain_x => $xl / y,
            ("add", 3) => {
                let mut a = x;
                a += y;
                a
            }
            ("sub", 3) => {
                let mut a = x;
                a -= y;
                a
            }
            ("mul", 3) => {
                let mut a = x;
                a *= y;
                a
            }
            ("div", 3) => {
                let mut a = x;
                a /= y;
                a
            }
            ("add", 4) if $plain_y => {
                let mut a = x;
                a += $yl;
                a
            }
            ("sub", 4) if $plain_y => {
                let mut a = x;
                a -= $yl;
                a
            }
            ("mul", 4) if $plain_y => {
                let mut a = x;
                a *= $yl;
                a
            }
            ("div", 4) if $plain_y => {
                let mut a = x;
                a /= $yl;
                a
            }
            (op, _) => binary(op, x, y),
        }
    }};
}

fn op<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let name = string(&ev["op"]);
    let form = int(&ev["form"]);
    let mut o = operands::<S>(ev);
    // literal operands are plain numbers
    let plain_x = is_binary(name) && form == 2 && plain(&ev["dx"]) && !o.recx;
    let plain_y = is_binary(name) && (form == 1 || form == 4) && plain(&ev["dy"]) && !o.recy;
    let (xl, yl) = (num(&ev["x"]), num(&ev["y"]));
    let res = guarded(|| {
        if is_binary(name) {
            forms!(name, form, o.x, o.y, xl, yl, plain_x, plain_y)
        } else if name == "mul_add" {
            let z = jet::<S>(num(&ev["z"]), 0.0);
            o.x.mul_add(o.y, z)
        } else if form == 1 && (name == "sin" || name == "cos") {
            let (s, c) = o.x.sin_cos();
            if name == "sin" {
                s
            } else {
                c
            }
        } else {
            unary(name, o.x, int(&ev["n"]) as i32)
        }
    });
    let r = match res {
        Ok(r) => r,
        Err(e) => {
            cx.check("C02", false, || e);
            return;
        }
    };
    let (v, d, _) = S::get(&r);
    let bits = int(&ev["bits"]) as i32;
    let (want, signed) = (num(&ev["out"]), boolean(&ev["signed"]));
    // the two summands of a fused multiply-add may cancel
    let mag = if name == "mul_add" { (xl * yl).abs().max(num(&ev["z"]).abs()) } else { want };
    let mag = if mag.is_finite() { mag } else { want };
    // to the precision of the operands where equivalent formulas add and subtract them
    let mag = if matches!(name, "max" | "min" | "abs_sub") { xl.abs().max(yl.abs()) } else { mag };
    // an operand near one makes a small logarithm of what rounding left of it
    cx.check("C02", agree(v, want, mag, bits, S::SINGLE, signed), || format!("value is {v:e}, should be {want:e}"));
    if boolean(&ev["hasd"]) {
        let (wd, dm) = (num(&ev["d"]), num(&ev["dmag"]));
        cx.check("C03", agree(d, wd, dm, bits - 2, S::SINGLE, false), || format!("first-order part is {d:e}, should be {wd:e}"));
        if let Some(i) = S::inner(&r) {
            cx.check("C03", agree(i, wd, dm, bits - 2, S::SINGLE, false), || {
                format!("first-order part of the inner scalar is {i:e}, should be {wd:e}")
            });
        }
    }
    // the recording holds the same value
    let recorded = (o.recx && !plain_x) || (is_binary(name) || name == "mul_add") && o.recy && !plain_y;
    if recorded && name != "copysign" {
        let ok = guarded(|| {
            o.ctx.set_dep(&r);
            let dep = *o.ctx.deps().last().unwrap();
            o.ctx.values()[dep]
        });
        match ok {
            Ok(x) => cx.check("C02", x == v || (x.is_nan() && v.is_nan()), || format!("recorded value is {x:e}, scalar says {v:e}")),
            Err(e) => cx.check("C02", false, || format!("result is not recorded: {e}")),
        }
        if boolean(&ev["hasa"]) {
            again(&o, ev, bits, signed, plain_x, plain_y, cx);
        }
        let seeded = |rec: bool, key: &str| rec || num(&ev[key]) == 0.0;
        if !S::SINGLE && boolean(&ev["hasd"]) && seeded(o.recx && !plain_x, "dx") && seeded(o.recy && !plain_y || !uses_y(name), "dy") {
            sweeps(&o, ev, bits, cx);
        }
        // where there is no derivative the sweep must not invent one either
        let there = |rec: bool, x: &str, dx: &str| !rec || num(&ev[x]).is_finite() && num(&ev[dx]).is_finite() && num(&ev[dx]) != 0.0;
        let plain_one = |rec: bool, dx: &str| rec || num(&ev[dx]) == 0.0;
        if !S::SINGLE
            && S::inner(&r).is_none()
            && d.is_nan()
            && there(o.recx, "x", "dx")
            && there(o.recy, "y", "dy")
            && plain_one(o.recx && !plain_x, "dx")
            && plain_one(o.recy && !plain_y || !uses_y(name), "dy")
        {
            let tape = o.ctx.tape();
            if tape.ops_iter().filter(|p| p.opcode != OpCode::Const && p.opcode != OpCode::Nop).count() == 1 {
                let dx: Vec<f64> = [(o.recx, "dx"), (o.recy, "dy")].iter().filter(|p| p.0).map(|p| num(&ev[p.1])).collect();
                let got = guarded(|| tape.first_order_forward(&DVector::from_vec(dx.clone()))[0]);
                cx.rep.event("no derivative");
                cx.check("C05", matches!(got, Ok(g) if g.is_nan()), || {
                    format!("forward sweep along {dx:?} gives {got:?}, the forward-mode scalar has no derivative")
                });
            }
        }
    }
}

/// Scalars marked as dependents one after the other.
fn marks<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let mut want: Vec<f64> = vec![];
    let mut nx = vec![];
    let got = guarded(|| {
        let mut ctx = AContext::new();
        for i in list(&ev["list"]) {
            let x = num(&i["x"]);
            let mut p = jet::<S>(x, 0.0);
            match string(&i["how"]) {
                "constant" => ctx.set_dep(&p),
                "double" => {
                    ctx.set_dep(&p);
                    want.push(x);
                    ctx.set_dep(&p);
                }
                _ => {
                    ctx.set_indep(&mut p);
                    nx.push(x);
                    ctx.set_dep(&p);
                }
            }
            want.push(x);
        }
        let mut tape = ctx.tape();
        let y = tape.y();
        tape.zero_order(&DVector::from_vec(nx.clone()));
        (y, tape.y(), tape.num_deps(), tape.num_indeps())
    });
    let same = |y: &DVector<f64>| y.len() == want.len() && y.iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan());
    match got {
        Ok((y, z, m, n)) => {
            cx.check("C01", same(&y) && m == want.len() && n == nx.len(), || format!("marked {want:?}, the tape has {:?}, {m} dependents, {n} independents", y.as_slice()));
            cx.check("C04", same(&z), || format!("marked {want:?}, replayed at the same point {:?}", z.as_slice()));
        }
        Err(e) => cx.check("C01", false, || e),
    }
}

/// The recorded call at other operands: the recorded operations, and a replay of the tape, give what the call gives there.
#[allow(clippy::too_many_arguments)]
fn again<S: Leaf>(o: &Operands<S>, ev: &Value, bits: i32, signed: bool, plain_x: bool, plain_y: bool, cx: &mut Cx) {
    let name = string(&ev["op"]);
    let (ax, ay, want) = (num(&ev["ax"]), num(&ev["ay"]), num(&ev["aout"]));
    let mut x = vec![];
    if o.recx {
        x.push(ax);
    }
    if o.recy {
        x.push(ay);
    }
    let _ = (plain_x, plain_y);
    let mag = match name {
        "mul_add" => (ax * ay).abs().max(num(&ev["z"]).abs()),
        "max" | "min" | "abs_sub" => ax.abs().max(ay.abs()),
        _ => want,
    };
    let mag = if mag.is_finite() { mag } else { want };
    let ok = |got: f64| agree(got, want, mag, bits, S::SINGLE, signed);
    let mut tape = o.ctx.tape();
    match interpret(&tape, &x) {
        Ok(y) => cx.check("C01", ok(y), || format!("the recorded operations give {y:e} at x={ax:e} y={ay:e}, should be {want:e}")),
        Err(e) => cx.check("C01", false, || e),
    }
    match guarded(|| {
        tape.zero_order(&DVector::from_vec(x.clone()));
        tape.y()
    }) {
        Ok(y) => cx.check("C04", y.len() == 1 && ok(y[0]), || format!("replay at x={ax:e} y={ay:e} gives {:?}, should be {want:e}", y.as_slice())),
        Err(e) => cx.check("C04", false, || e),
    }
}
/// The recorded operations executed one after the other.
fn interpret(t: &dyn Tape, x: &[f64]) -> Result<f64, String> {
    let mut v: Vec<Option<f64>> = vec![None; t.values().len()];
    if t.num_indeps() != x.len() {
        return Err(format!("{} independents instead of {}", t.num_indeps(), x.len()));
    }
    for (i, x) in t.indeps().iter().zip(x) {
        v[*i] = Some(*x);
    }
    for p in t.ops_iter() {
        let arg = |a: Option<usize>| a.and_then(|a| v.get(a).copied().flatten()).ok_or(format!("{p:?} uses what is not there"));
        if p.opcode == OpCode::Nop {
            continue;
        }
        let y = match p.opcode {
            OpCode::Const => t.values()[p.vid],
            OpCode::Add => arg(p.arg1)? + arg(p.arg2)?,
            OpCode::Sub => arg(p.arg1)? - arg(p.arg2)?,
            OpCode::Mul => arg(p.arg1)? * arg(p.arg2)?,
            OpCode::Div => arg(p.arg1)? / arg(p.arg2)?,
            OpCode::Powf => arg(p.arg1)?.powf(arg(p.arg2)?),
            c => crate::numbers::unary(&format!("{c:?}").to_lowercase(), arg(p.arg1)?, 0),
        };
        v[p.vid] = Some(y);
    }
    t.deps().last().and_then(|d| v[*d]).ok_or("no result".to_string())
}

fn uses_y(name: &str) -> bool {
    is_binary(name) || name == "mul_add"
}

/// The same call, taken as a tape: the forward sweep along the seeds tells the same derivative (C05), and the reverse
/// sweep of a single operation with finite partial derivatives is the transpose (C06).
fn sweeps<S: Leaf>(o: &Operands<S>, ev: &Value, bits: i32, cx: &mut Cx) {
    let mut dx = vec![];
    if o.recx {
        dx.push(num(&ev["dx"]));
    }
    if o.recy {
        dx.push(num(&ev["dy"]));
    }
    let (wd, dm) = (num(&ev["d"]), num(&ev["dmag"]));
    let tape = o.ctx.tape();
    let n = dx.len();
    match guarded(|| tape.first_order_forward(&DVector::from_vec(dx.clone()))) {
        Ok(d) => cx.check("C05", d.len() == 1 && agree(d[0], wd, dm, bits - 2, false, false), || {
            format!("forward sweep along {dx:?} gives {:?}, should be {wd:e}", d.as_slice())
        }),
        Err(e) => cx.check("C05", false, || e),
    }
    let ops: Vec<Operation> = tape.ops_iter().filter(|p| p.opcode != OpCode::Const && p.opcode != OpCode::Nop).collect();
    if ops.iter().any(|p| p.opcode == OpCode::Abs) {
        let r = guarded(|| tape.first_order_reverse(&DVector::from_element(1, 1.0)));
        cx.check("C06", r.is_err(), || "a tape with an absolute value was reversed".to_string());
        return;
    }
    if ops.len() > 1 {
        return;
    }
    let unit = |k: usize| tape.first_order_forward(&DVector::from_fn(n, |i, _| if i == k { 1.0 } else { 0.0 }));
    let Ok(j) = guarded(|| (0..n).map(|k| unit(k)[0]).collect::<Vec<_>>()) else { return };
    if j.iter().any(|x| !x.is_finite()) {
        return;
    }
    for w in [1.0, -2.0, 0.0] {
        let want: Vec<f64> = j.iter().map(|x| x * w).collect();
        if want.iter().any(|x| !x.is_finite()) {
            continue;
        }
        match guarded(|| tape.first_order_reverse(&DVector::from_element(1, w))) {
            Ok(x) => cx.check("C06", x.len() == n && (0..n).all(|k| agree(x[k], want[k], want[k], 40, false, false)), || {
                format!("reverse sweep of the weight {w} gives {:?}, forward sweeps say {want:?}", x.as_slice())
            }),
            Err(e) => cx.check("C06", false, || e),
        }
    }
}

fn compare<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let o = operands::<S>(ev);
    let want: Vec<bool> = list(&ev["bools"]).iter().map(boolean).collect();
    let r = guarded(|| vec![o.x < o.y, o.x > o.y, o.x == o.y, o.x <= o.y, o.x >= o.y, o.x != o.y]);
    cx.check("C02", r == Ok(want.clone()), || format!("< > == <= >= != give {r:?}, should be {want:?}"));
    let p = guarded(|| o.x.partial_cmp(&o.y));
    let wp = match (want[0], want[1], want[2]) {
        (true, _, _) => Some(std::cmp::Ordering::Less),
        (_, true, _) => Some(std::cmp::Ordering::Greater),
        (_, _, true) => Some(std::cmp::Ordering::Equal),
        _ => None,
    };
    cx.check("C02", p == Ok(wp), || format!("partial_cmp gives {p:?}, should be {wp:?}"));
}

fn classify<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let o = operands::<S>(ev);
    let x = o.x;
    let want: Vec<bool> = list(&ev["bools"]).iter().map(boolean).collect();
    let r = guarded(|| vec![x.is_nan(), x.is_infinite(), x.is_finite(), x.is_normal(), x.is_zero(), x.is_one()]);
    cx.check("C02", r == Ok(want[..6].to_vec()), || format!("nan infinite finite normal zero one give {r:?}, should be {:?}", &want[..6]));
    if !want[0] {
        let s = guarded(|| (x.is_sign_negative(), x.is_sign_positive()));
        cx.check("C02", s == Ok((want[6], !want[6])), || format!("sign_negative, sign_positive give {s:?}"));
    }
    let c = guarded(|| format!("{:?}", x.classify()));
    let w = string(&list(&ev["words"])[0]).to_string();
    cx.check("C02", c == Ok(w.clone()), || format!("classify gives {c:?}, should be {w}"));
    let p = S::bottom(num(&ev["x"]));
    let plain_code = if S::SINGLE { (S::full(&p) as f32).integer_decode() } else { S::full(&p).integer_decode() };
    let code = guarded(|| x.integer_decode());
    cx.check("C02", code == Ok(plain_code), || format!("integer_decode gives {code:?}, should be {plain_code:?}"));
}

fn convert<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let o = operands::<S>(ev);
    let x = o.x;
    macro_rules! int_case {
        ($t:ty, $m:ident, $c:expr) => {{
            let want = if boolean(&$c["some"]) { Some(big(&$c["i"])) } else { None };
            let a = guarded(|| x.$m().map(BigInt::from));
            cx.check("C18", a == Ok(want.clone()), || format!("{} gives {a:?}, should be {want:?}", stringify!($m)));
            let b = guarded(|| <$t as NumCast>::from(x).map(BigInt::from));
            cx.check("C18", b == Ok(want.clone()), || format!("NumCast to {} gives {b:?}, should be {want:?}", stringify!($t)));
        }};
    }
    macro_rules! float_case {
        ($how:expr, $e:expr, $c:expr, $single:expr) => {{
            let want = num(&$c["x"]);
            let bits = if boolean(&$c["exact"]) { 60 } else { 23 };
            let r: Result<Option<f64>, String> = guarded(|| $e);
            let ok = matches!(&r, Ok(Some(g)) if agree(*g, want, want, bits, $single, true) && (bits == 23 || *g == want || want.is_nan()));
            cx.check("C18", ok, || format!("{} gives {r:?}, should be {want:e}", $how));
        }};
    }
    for c in list(&ev["conv"]) {
        match string(&c["target"]) {
            "i8" => int_case!(i8, to_i8, c),
            "u8" => int_case!(u8, to_u8, c),
            "i16" => int_case!(i16, to_i16, c),
            "u16" => int_case!(u16, to_u16, c),
            "i32" => int_case!(i32, to_i32, c),
            "u32" => int_case!(u32, to_u32, c),
            "i64" => int_case!(i64, to_i64, c),
            "u64" => int_case!(u64, to_u64, c),
            "i128" => int_case!(i128, to_i128, c),
            "u128" => int_case!(u128, to_u128, c),
            "isize" => int_case!(isize, to_isize, c),
            "usize" => int_case!(usize, to_usize, c),
            "f64" => {
                float_case!("to_f64", x.to_f64(), c, false);
                float_case!("NumCast to f64", <f64 as NumCast>::from(x), c, false);
                float_case!("NumCast to AFloat<f64>", <AFloat<f64> as NumCast>::from(x).map(|y| y.value()), c, false);
                float_case!("NumCast to a nested scalar", <AFloat<AFloat<f64>> as NumCast>::from(x).map(|y| y.value().value()), c, false);
            }
            "f32" => {
                float_case!("to_f32", x.to_f32().map(|y| y as f64), c, true);
                float_case!("NumCast to f32", <f32 as NumCast>::from(x).map(|y| y as f64), c, true);
                float_case!("NumCast to AFloat<f32>", <AFloat<f32> as NumCast>::from(x).map(|y| y.value() as f64), c, true);
            }
            t => panic!("unknown target {t}"),
        }
    }
}

/// A plain number inside a scalar: its value, no derivative, no recording.
fn is_plain<S: Leaf>(how: &str, prop: &'static str, r: &AFloat<S>, want: f64, exact: bool, cx: &mut Cx) {
    let (v, d, dd) = S::get(r);
    let same = if exact { v == want && v.is_sign_negative() == want.is_sign_negative() } else { agree(v, want, want, 22, S::SINGLE, true) };
    cx.check(prop, same || (v.is_nan() && want.is_nan()), || format!("{how} has value {v:e}, should be {want:e}"));
    cx.check(prop, d == 0.0 && dd.map_or(true, |(_, e)| e == 0.0) && S::inner(r).unwrap_or(0.0) == 0.0, || format!("{how} has first-order part {d:e}"));
    check_unrecorded(how, prop, r, v, cx);
}
/// Combined with a recorded scalar it enters that recording as a constant.
fn check_unrecorded<S: Leaf>(how: &str, prop: &'static str, r: &AFloat<S>, v: f64, cx: &mut Cx) {
    let got = guarded(|| {
        let mut ctx = AContext::new();
        let p = ctx.new_indep(S::bottom(1.0));
        let before = (ctx.operations(), ctx.values());
        let _ = *r * *r;
        if (ctx.operations(), ctx.values().len()) != (before.0, before.1.len()) {
            return Err("operations on it alone are recorded".to_string());
        }
        let w = *r * p;
        ctx.set_dep(&w);
        let (dep, ops, vals) = (ctx.deps()[0], ctx.operations(), ctx.values());
        let m = ops.iter().find(|o| o.vid == dep).ok_or("not recorded".to_string())?;
        let c = ops.iter().find(|o| Some(o.vid) == m.arg1).ok_or("operand is not defined".to_string())?;
        if c.opcode != OpCode::Const || !(vals[c.vid] == v || vals[c.vid].is_nan() && v.is_nan()) {
            return Err(format!("enters a recording as {c:?} with value {}", vals[c.vid]));
        }
        Ok(())
    });
    let e = match got {
        Ok(Ok(())) => String::new(),
        Ok(Err(e)) | Err(e) => e,
    };
    cx.check(prop, e.is_empty(), || format!("{how} belongs to a recording: {e}"));
}

fn from<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let n = big(&ev["n"]);
    let source = num(&ev["x"]);
    let want = num(&ev["out"]);
    let r: Result<Option<AFloat<S>>, String> = guarded(|| match string(&ev["op"]) {
        "f64" => <AFloat<S> as NumCast>::from(source),
        "f32" => <AFloat<S> as NumCast>::from(source as f32),
        "i32" => <AFloat<S> as NumCast>::from(n.to_i32().unwrap()),
        "u8" => <AFloat<S> as NumCast>::from(n.to_u8().unwrap()),
        "i64" => <AFloat<S> as NumCast>::from(n.to_i64().unwrap()),
        "u64" => <AFloat<S> as NumCast>::from(n.to_u64().unwrap()),
        "i128" => <AFloat<S> as NumCast>::from(n.to_i128().unwrap()),
        "usize" => <AFloat<S> as NumCast>::from(n.to_usize().unwrap()),
        t => panic!("unknown source {t}"),
    });
    match r {
        Ok(Some(r)) => is_plain(&format!("NumCast from {} {n} {source:e}", string(&ev["op"])), "C18", &r, want, true, cx),
        e => cx.check("C18", false, || format!("NumCast gives {:?}", e.map(|_| "nothing"))),
    }
    match guarded(|| <AFloat<S> as From<S>>::from(S::bottom(want))) {
        Ok(r) => is_plain("From", "C18", &r, want, true, cx),
        Err(e) => cx.check("C18", false, || e),
    }
}

fn cast<S: Leaf, T: Leaf>(ev: &Value, cx: &mut Cx) {
    let mut o = operands::<S>(ev);
    let r = match guarded(|| AFloat::<T>::cast(o.x)) {
        Ok(r) => r,
        Err(e) => {
            cx.check("C18", false, || e);
            return;
        }
    };
    let bits = int(&ev["bits"]) as i32;
    let (v, d, _) = T::get(&r);
    let (wv, wd) = (num(&ev["x"]), num(&ev["dx"]));
    cx.check("C18", agree(v, wv, wv, bits, T::SINGLE, true), || format!("cast has value {v:e}"));
    cx.check("C18", agree(d, wd, wd, bits, T::SINGLE, true), || format!("cast has first-order part {d:e}"));
    if o.recx {
        let id = o.ctx.indeps()[0];
        let got = guarded(|| {
            o.ctx.set_dep(&r);
            let w = r * r;
            o.ctx.set_dep(&w);
            (o.ctx.deps(), o.ctx.operations(), o.ctx.values().len())
        });
        let ok = match &got {
            Ok((deps, ops, n)) => {
                deps.len() == 2
                    && deps[0] == id
                    && ops.iter().any(|p| p.vid == deps[1] && p.opcode == OpCode::Mul && p.arg1 == Some(id) && p.arg2 == Some(id))
                    && deps[1] < *n
            }
            _ => false,
        };
        cx.check("C18", ok, || format!("operations on the cast scalar do not continue the recording of {id}: {got:?}"));
    } else {
        check_unrecorded("cast scalar", "C18", &r, v, cx);
    }
}

fn unsupported<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let o = operands::<S>(ev);
    fn apply<F: Float>(op: &str, x: F, y: F) -> F {
        match op {
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "round" => x.round(),
            "trunc" => x.trunc(),
            "fract" => x.fract(),
            "signum" => x.signum(),
            "exp_m1" => x.exp_m1(),
            "ln_1p" => x.ln_1p(),
            "sinh" => x.sinh(),
            "cosh" => x.cosh(),
            "tanh" => x.tanh(),
            "asinh" => x.asinh(),
            "acosh" => x.acosh(),
            "atanh" => x.atanh(),
            "atan2" => x.atan2(y),
            "rem" => x % y,
            _ => panic!("unknown operation {op}"),
        }
    }
    let name = string(&ev["op"]);
    let (x, y) = (num(&ev["x"]), num(&ev["y"]));
    let want = if S::SINGLE { apply(name, x as f32, y as f32) as f64 } else { apply(name, x, y) };
    let r = guarded(|| apply(name, o.x, o.y));
    if let Ok(r) = r {
        let v = S::get(&r).0;
        cx.check("C02", agree(v, want, want, if S::SINGLE { 12 } else { 36 }, S::SINGLE, false), || {
            format!("answered with {v:e}, plain floats give {want:e}")
        });
    } else {
        cx.check("C02", true, String::new);
    }
    // refusing leaves the recording usable
    let n = guarded(|| o.ctx.values().len());
    cx.check("C02", n.is_ok(), || "the recording is unusable after a refused operation".to_string());
}

fn constant<S: Leaf>(ev: &Value, cx: &mut Cx) {
    let name = string(&ev["op"]);
    let want = num(&ev["x"]);
    type A<S> = AFloat<S>;
    let r: Result<Option<AFloat<S>>, String> = guarded(|| {
        Some(match name {
            "nan" => <A<S> as Float>::nan(),
            "infinity" => <A<S> as Float>::infinity(),
            "neg_infinity" => <A<S> as Float>::neg_infinity(),
            "neg_zero" => <A<S> as Float>::neg_zero(),
            "zero" => A::<S>::zero(),
            "one" => A::<S>::one(),
            "max_value" => <A<S> as Float>::max_value(),
            "min_value" => <A<S> as Float>::min_value(),
            "min_positive_value" => <A<S> as Float>::min_positive_value(),
            "epsilon" => <A<S> as Float>::epsilon(),
            "parse 12.5" => return A::<S>::from_str_radix("12.5", 10).ok(),
            "parse -0.75" => return A::<S>::from_str_radix("-0.75", 10).ok(),
            _ => return A::<S>::from_str_radix("one half", 10).ok(),
        })
    });
    match (name, r) {
        ("parse bad", r) => cx.check("C02", matches!(r, Ok(None)), || "accepted".to_string()),
        (_, Ok(Some(r))) => is_plain(name, "C02", &r, want, true, cx),
        (_, e) => cx.check("C02", false, || format!("{:?}", e.map(|_| "nothing"))),
    }
}
