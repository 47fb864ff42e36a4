//! The parallel drivers under every order of starts and ends TLC finds in Columns.tla, and under real parallelism with noise.
#[path = "../../harness/src/report.rs"]
mod report;
#[path = "../../harness/src/watch.rs"]
mod watch;

use advantage::drivers::*;
use advantage::prelude::*;
use advantage::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use report::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const P: &str = "C17";

// ---------------------------------------------------------------- noise

static NOISE: AtomicBool = AtomicBool::new(false);
static SEEDS: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);
thread_local!(static RNG: Cell<u64> = Cell::new(SEEDS.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed) | 1));

fn dice() -> u64 {
    let x = RNG.try_with(|r| {
        let mut x = r.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        x
    });
    x.unwrap_or(1)
}

/// somewhere another thread may well come in between
fn noise() {
    if !NOISE.load(Ordering::Relaxed) {
        return;
    }
    match dice() % 64 {
        0 => std::thread::sleep(Duration::from_micros(50)),
        1..=15 => std::thread::yield_now(),
        _ => (),
    }
}

// ---------------------------------------------------------------- gate

#[derive(Default)]
struct Inner {
    armed: bool,
    next: usize,
    /// who waits (ticket, caller)
    waiting: Vec<(usize, usize)>,
    released: Vec<usize>,
    evals: usize,
    ended: usize,
    /// what evaluations do at the gate, one after the other: 0 go on, 1 let the pool take up other work, 2 call a driver
    decisions: VecDeque<usize>,
    /// the calls they make
    inner: VecDeque<(usize, Coef, usize)>,
    bad: Vec<String>,
    yields: u64,
    calls: u64,
}
/// Evaluations stop here at their start and at their end until the schedule lets them go on.
#[derive(Default)]
struct Gate {
    m: Mutex<Inner>,
    cv: Condvar,
}
impl Gate {
    fn pass(self: &Arc<Self>, caller: usize, end: bool) {
        noise();
        if NOISE.load(Ordering::Relaxed) && dice() % 512 == 0 {
            rayon::yield_now();
        }
        let mut g = self.m.lock().unwrap();
        if !end {
            g.evals += 1;
        }
        match g.decisions.pop_front() {
                Some(1) => {
                    g.yields += 1;
                    drop(g);
                    rayon::yield_now();
                    g = self.m.lock().unwrap();
                }
                Some(2) => {
                    g.calls += 1;
                    if let Some((m, cols, kind)) = g.inner.pop_front() {
                        drop(g);
                        // a panic is for the caller to show
                        let call = prepare(KINDS[kind % KINDS.len()], m, &cols, self, 100, false);
                        let (got, want) = (call.run(&call.factor), call.expected(&cols));
                        g = self.m.lock().unwrap();
                        if !same(&got, &want) {
                            g.bad.push(format!("{:?} called by an evaluation: {}, expected {}", call.kind, show(&got), show(&want)));
                        }
                    }
                }
                _ => (),
            }
        if g.armed {
            let t = g.next;
            g.next += 1;
            g.waiting.push((t, caller));
            self.cv.notify_all();
            while g.armed && !g.released.contains(&t) {
                g = self.cv.wait(g).unwrap();
            }
            g.waiting.retain(|w| w.0 != t);
            g.released.retain(|w| *w != t);
        }
        if end {
            g.ended += 1;
        }
        drop(g);
        self.cv.notify_all();
        noise();
    }
}

// ---------------------------------------------------------------- functions and tapes whose evaluation stops at the gate

type Coef = Vec<Vec<f64>>; // [row][column]

fn lin(acc: ADouble, row: &[f64], xs: &[ADouble]) -> ADouble {
    let mut y = acc;
    for (c, x) in row.iter().zip(xs) {
        if *c != 0.0 {
            y = y + *x * *c;
        }
    }
    y
}

/// z_k = Z x + L |z|, y = J x + Y |z|; with `bend`, arguments and results go through smooth functions
#[derive(Clone)]
struct Shape {
    n: usize,
    z: Coef,
    l: Coef,
    j: Coef,
    y: Coef,
    bend: bool,
}
impl Shape {
    fn eval(&self, x: &[ADouble]) -> Vec<ADouble> {
        let xs: Vec<ADouble> = if self.bend { x.iter().map(|x| x.sin() * 0.5 + *x).collect() } else { x.to_vec() };
        let zero = if x.is_empty() { ADouble::from(0.0) } else { x[0] * 0.0 };
        let mut a: Vec<ADouble> = Vec::new();
        for k in 0..self.z.len() {
            let z = lin(lin(zero, &self.z[k], &xs), &self.l[k], &a);
            a.push(z.abs());
        }
        (0..self.j.len())
            .map(|i| {
                let y = lin(lin(zero, &self.j[i], &xs), &self.y[i], &a);
                if self.bend {
                    y * 0.25 + (y * 0.001).sin()
                } else {
                    y
                }
            })
            .collect()
    }
}

struct GateFn {
    s: Shape,
    gate: Arc<Gate>,
    caller: usize,
}
impl Function for GateFn {
    fn n(&self) -> usize {
        noise();
        self.s.n
    }
    fn m(&self) -> usize {
        noise();
        self.s.j.len()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        self.gate.pass(self.caller, false);
        let y = self.s.eval(x.as_slice());
        self.gate.pass(self.caller, true);
        DVector::from_vec(y)
    }
    fn tape(&self, x: &DVector<f64>) -> Box<dyn Tape> {
        Box::new(GateTape::new(&self.s, x.as_slice(), self.gate.clone(), self.caller))
    }
}

#[derive(Clone)]
struct GateTape {
    indeps: Vec<usize>,
    deps: Vec<usize>,
    values: Vec<f64>,
    ops: Vec<Operation>,
    gate: Arc<Gate>,
    caller: usize,
}
impl std::fmt::Debug for GateTape {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "GateTape")
    }
}
impl GateTape {
    fn new(s: &Shape, x: &[f64], gate: Arc<Gate>, caller: usize) -> Self {
        let mut c = AContext::new();
        let xs: Vec<ADouble> = x.iter().map(|v| c.new_indep(*v)).collect();
        let ys = s.eval(&xs);
        for y in &ys {
            c.set_dep(y);
        }
        GateTape { indeps: c.indeps(), deps: c.deps(), values: c.values(), ops: c.operations(), gate, caller }
    }
}
struct Ops<'a> {
    it: std::iter::Cloned<std::slice::Iter<'a, Operation>>,
    t: &'a GateTape,
}
impl Iterator for Ops<'_> {
    type Item = Operation;
    fn next(&mut self) -> Option<Operation> {
        self.it.next()
    }
}
impl DoubleEndedIterator for Ops<'_> {
    fn next_back(&mut self) -> Option<Operation> {
        self.it.next_back()
    }
}
impl Drop for Ops<'_> {
    fn drop(&mut self) {
        self.t.gate.pass(self.t.caller, true);
    }
}
impl Tape for GateTape {
    fn indeps(&self) -> &[usize] {
        noise();
        &self.indeps
    }
    fn deps(&self) -> &[usize] {
        noise();
        &self.deps
    }
    fn values(&self) -> &[f64] {
        noise();
        &self.values
    }
    fn values_mut(&mut self) -> &mut [f64] {
        &mut self.values
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> {
        self.gate.pass(self.caller, false);
        Box::new(Ops { it: self.ops.iter().cloned(), t: self })
    }
}

// ---------------------------------------------------------------- drivers

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Forward,
    Reverse,
    ZRight,
    ZLeft,
    LRight,
    LLeft,
    JRight,
    JLeft,
    YRight,
    YLeft,
}
use Kind::*;
const KINDS: [Kind; 10] = [Forward, Reverse, ZRight, ZLeft, LRight, LLeft, JRight, JLeft, YRight, YLeft];

/// One call of a driver: prepared, what it needs as factor, and how to get the columns Columns.tla speaks of from the result.
struct Call {
    kind: Kind,
    w: usize,
    m: usize,
    func: Option<GateFn>,
    tape: Option<GateTape>,
    abs: Option<AbsNormalTape>,
    factor: DMatrix<f64>,
    x: Vec<f64>,
}

fn zeros(r: usize, c: usize) -> Coef {
    vec![vec![0.0; c]; r]
}

/// a driver call whose answer for direction j is cols[j]
fn prepare(kind: Kind, m: usize, cols: &[Vec<f64>], gate: &Arc<Gate>, caller: usize, bend: bool) -> Call {
    let w = cols.len();
    let down: Coef = (0..m).map(|i| cols.iter().map(|c| c[i]).collect()).collect(); // m x w
    let flat: Coef = cols.to_vec(); // w x m
    let mut s = Shape { n: 1, z: vec![], l: vec![], j: vec![], y: vec![], bend };
    let mut factor = DMatrix::identity(w, w);
    match kind {
        Forward => {
            s.n = w;
            s.j = down;
            s.y = zeros(m, 0);
        }
        Reverse => {
            s.n = m;
            s.j = flat;
            s.y = zeros(w, 0);
        }
        ZRight => {
            s.n = w.max(1);
            s.z = down;
            s.l = zeros(m, m);
            factor = DMatrix::identity(s.n, w);
        }
        ZLeft => {
            s.n = m.max(1);
            s.z = flat;
            s.l = zeros(w, w);
        }
        LRight => {
            s.z = zeros(w + m, 1);
            s.l = zeros(w + m, w + m);
            for (i, r) in down.iter().enumerate() {
                s.l[w + i][..w].copy_from_slice(r);
            }
            factor = DMatrix::identity(w + m, w);
        }
        LLeft => {
            s.z = zeros(w + m, 1);
            s.l = zeros(w + m, w + m);
            for (j, r) in flat.iter().enumerate() {
                s.l[m + j][..m].copy_from_slice(r);
            }
            factor = DMatrix::zeros(w, w + m);
            for j in 0..w {
                factor[(j, m + j)] = 1.0;
            }
        }
        JRight => {
            s.n = w.max(1);
            s.j = down;
            s.y = zeros(m, 0);
            factor = DMatrix::identity(s.n, w);
        }
        JLeft => {
            s.n = m.max(1);
            s.j = flat;
            s.y = zeros(w, 0);
        }
        YRight => {
            s.z = zeros(w, 1);
            s.l = zeros(w, w);
            s.j = zeros(m, 1);
            s.y = down;
        }
        YLeft => {
            s.z = zeros(m, 1);
            s.l = zeros(m, m);
            s.j = zeros(w, 1);
            s.y = flat;
        }
    }
    let x: Vec<f64> = (0..s.n).map(|k| 0.5 + 0.25 * k as f64).collect();
    let mut call = Call { kind, w, m, func: None, tape: None, abs: None, factor, x };
    let tape = GateTape::new(&s, &call.x, gate.clone(), caller);
    match kind {
        Forward => call.func = Some(GateFn { s, gate: gate.clone(), caller }),
        Reverse => (),
        _ => call.abs = Some(AbsNormalTape::new(Box::new(tape.clone()))),
    }
    call.tape = Some(tape);
    call
}

impl Call {
    fn run(&self, factor: &DMatrix<f64>) -> DMatrix<f64> {
        let abs = self.abs.as_ref();
        match self.kind {
            Forward => jacobian_forward(self.func.as_ref().unwrap(), &DVector::from_vec(self.x.clone())),
            Reverse => jacobian_reverse(self.tape.as_ref().unwrap()),
            ZRight => AbsNormalZ::new(abs.unwrap()).mul_right(factor),
            ZLeft => AbsNormalZ::new(abs.unwrap()).mul_left(factor),
            LRight => AbsNormalL::new(abs.unwrap()).mul_right(factor),
            LLeft => AbsNormalL::new(abs.unwrap()).mul_left(factor),
            JRight => AbsNormalJ::new(abs.unwrap()).mul_right(factor),
            JLeft => AbsNormalJ::new(abs.unwrap()).mul_left(factor),
            YRight => AbsNormalY::new(abs.unwrap()).mul_right(factor),
            YLeft => AbsNormalY::new(abs.unwrap()).mul_left(factor),
        }
    }
    /// the result, when the answer for direction j is cols[j] (a list of w lists of m numbers)
    fn expected(&self, cols: &[Vec<f64>]) -> DMatrix<f64> {
        let (w, m) = (self.w, self.m);
        match self.kind {
            Forward => DMatrix::from_fn(m, w, |i, j| cols[j][i]),
            Reverse => DMatrix::from_fn(w, m, |j, i| cols[j][i]),
            ZRight | JRight | YRight => DMatrix::from_fn(m, w, |i, j| cols[j][i]),
            ZLeft | JLeft => DMatrix::from_fn(w, m.max(1), |j, i| if i < m { cols[j][i] } else { 0.0 }),
            YLeft => DMatrix::from_fn(w, m, |j, i| cols[j][i]),
            LRight => DMatrix::from_fn(w + m, w, |i, j| if i >= w { cols[j][i - w] } else { 0.0 }),
            LLeft => DMatrix::from_fn(w, w + m, |j, i| if i < m { cols[j][i] } else { 0.0 }),
        }
    }
    fn right(&self) -> bool {
        matches!(self.kind, ZRight | LRight | JRight | YRight)
    }
    fn product(&self) -> bool {
        !matches!(self.kind, Forward | Reverse)
    }
}

fn same(a: &DMatrix<f64>, b: &DMatrix<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits() || x == y)
}

fn show(a: &DMatrix<f64>) -> String {
    let rows: Vec<String> = (0..a.nrows().min(12))
        .map(|i| format!("[{}]", (0..a.ncols().min(12)).map(|j| a[(i, j)].to_string()).collect::<Vec<_>>().join(" ")))
        .collect();
    format!("{}x{} {}", a.nrows(), a.ncols(), rows.join(""))
}

// ---------------------------------------------------------------- schedules

struct Worker {
    pools: HashMap<usize, ThreadPool>,
    patience: Duration,
    timeouts: u64,
    picks: u64,
    yields: u64,
    calls: u64,
}
impl Worker {
    fn new() -> Self {
        Worker { pools: HashMap::new(), patience: Duration::from_millis(20), timeouts: 0, picks: 0, yields: 0, calls: 0 }
    }
    fn pool(&mut self, p: usize) -> &ThreadPool {
        self.pools.entry(p).or_insert_with(|| ThreadPoolBuilder::new().num_threads(p).build().unwrap())
    }
}

/// Every caller makes its call, on one pool; the order of starts and ends is imposed.
fn scheduled(wk: &mut Worker, p: usize, picks: &[usize], calls: &[Call], gate: &Arc<Gate>, total: usize) -> Vec<Result<DMatrix<f64>, String>> {
    wk.pool(p);
    {
        let mut g = gate.m.lock().unwrap();
        *g = Inner { armed: true, ..Inner::default() };
    }
    let left = AtomicUsize::new(calls.len());
    std::thread::scope(|sc| {
        let pool = &wk.pools[&p];
        let left = &left;
        let hs: Vec<_> = calls
            .iter()
            .map(|c| {
                sc.spawn(move || {
                    let r = guarded(|| pool.install(|| c.run(&c.factor)));
                    left.fetch_sub(1, Ordering::SeqCst);
                    gate.cv.notify_all();
                    r
                })
            })
            .collect();
        let mut k = 0;
        let mut g = gate.m.lock().unwrap();
        'all: loop {
            // until as many wait as can be expected
            let expect = p.min(total.saturating_sub(g.ended)).max(1);
            let t0 = Instant::now();
            while g.waiting.len() - g.released.len() < expect {
                if left.load(Ordering::SeqCst) == 0 {
                    break 'all;
                }
                let limit = if g.waiting.len() > g.released.len() { wk.patience } else { Duration::from_millis(5) };
                let (h, to) = gate.cv.wait_timeout(g, limit).unwrap();
                g = h;
                if (to.timed_out() || t0.elapsed() > limit) && g.waiting.len() > g.released.len() {
                    wk.timeouts += 1;
                    wk.patience = (wk.patience / 2).max(Duration::from_millis(1));
                    break;
                }
            }
            if left.load(Ordering::SeqCst) == 0 {
                break;
            }
            let mut w: Vec<(usize, usize)> = g.waiting.iter().filter(|w| !g.released.contains(&w.0)).map(|w| (w.1, w.0)).collect();
            w.sort();
            let pick = w[picks.get(k).copied().unwrap_or(0) % w.len()].1;
            k += 1;
            wk.picks += 1;
            g.released.push(pick);
            gate.cv.notify_all();
            while g.waiting.iter().any(|w| w.0 == pick) {
                g = gate.cv.wait(g).unwrap();
            }
        }
        g.armed = false;
        drop(g);
        gate.cv.notify_all();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// Evaluations let the pool take up other work, and call drivers, as ColumnsNested.tla decides.
fn nested(wk: &mut Worker, line: &Value, name: &str, kinds: &[Kind]) -> Report {
    let mut rep = Report::default();
    let us = |v: &Value| v.as_u64().unwrap() as usize;
    let m = us(&line["m"]);
    let outer = line["w"].as_array().unwrap().len();
    let picks: Vec<usize> = line["picks"].as_array().unwrap().iter().map(us).collect();
    let cols: Vec<Coef> = coefs(&line["cols"]);
    for (k0, kind) in kinds.iter().enumerate() {
        for p in [1, 2] {
            rep.traces += 1;
            rep.event(&format!("nested {kind:?}"));
            let gate = Arc::new(Gate::default());
            let calls: Vec<Call> =
                (0..outer).map(|c| prepare(if name.len() % 2 == 0 { *kind } else { KINDS[(k0 + 3 * c) % KINDS.len()] }, m, &cols[c], &gate, c, false)).collect();
            {
                let mut g = gate.m.lock().unwrap();
                g.decisions = picks.iter().cloned().collect();
                g.inner = cols[outer..].iter().enumerate().map(|(i, c)| (m, c.clone(), *kind as usize + (i + p + name.len()) % 2 * 3)).collect();
            }
            watch::enter(P, name, 0, "driver with evaluations inside evaluations");
            wk.pool(p);
            let pool = &wk.pools[&p];
            let got: Vec<Result<DMatrix<f64>, String>> = if outer == 1 {
                vec![guarded(|| pool.install(|| calls[0].run(&calls[0].factor)))]
            } else {
                std::thread::scope(|sc| {
                    let hs: Vec<_> = calls.iter().map(|c| sc.spawn(move || guarded(|| pool.install(|| c.run(&c.factor))))).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                })
            };
            watch::leave();
            rep.states += picks.len() as u64;
            for (c, call) in calls.iter().enumerate() {
                let want = call.expected(&cols[c]);
                rep.cmp(P);
                match &got[c] {
                    Ok(r) if same(r, &want) => (),
                    r => rep.bad(P, name, picks.len(), format!("{:?}, pool of {p}, decisions {picks:?}: {}, expected {}", call.kind, text(r), show(&want))),
                }
            }
            let mut g = gate.m.lock().unwrap_or_else(|e| e.into_inner());
            wk.yields += g.yields;
            wk.calls += g.calls;
            for b in g.bad.drain(..) {
                rep.bad(P, name, picks.len(), format!("{b}, pool of {p}, decisions {picks:?}"));
            }
        }
    }
    if rep.samples.is_empty() {
        rep.samples.push(line.clone());
    }
    rep
}
fn coefs(v: &Value) -> Vec<Coef> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| c.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()).collect())
        .collect()
}

fn replay(wk: &mut Worker, line: &Value, name: &str, kinds: &[Kind]) -> Report {
    let mut rep = Report::default();
    let us = |v: &Value| v.as_u64().unwrap() as usize;
    let p = us(&line["p"]);
    let m = us(&line["m"]);
    let picks: Vec<usize> = line["picks"].as_array().unwrap().iter().map(us).collect();
    let cols: Vec<Coef> = coefs(&line["cols"]);
    for (k0, kind) in kinds.iter().enumerate() {
        rep.traces += 1;
        rep.event(&format!("{kind:?}"));
        let gate = Arc::new(Gate::default());
        // callers on the same and on different drivers
        let calls: Vec<Call> = cols
            .iter()
            .enumerate()
            .map(|(c, co)| prepare(if name.len() % 2 == 0 { *kind } else { KINDS[(k0 + 3 * c) % KINDS.len()] }, m, co, &gate, c, false))
            .collect();
        // how many evaluations there will be
        gate.m.lock().unwrap().evals = 0;
        watch::enter(P, name, 0, "driver");
        let plain: Vec<_> = calls.iter().map(|c| guarded(|| c.run(&c.factor))).collect();
        let total = gate.m.lock().unwrap().evals;
        watch::enter(P, name, 0, "driver under a schedule");
        let got = scheduled(wk, p, &picks, &calls, &gate, total);
        watch::leave();
        rep.states += picks.len() as u64;
        for (c, call) in calls.iter().enumerate() {
            let want = call.expected(&cols[c]);
            for (how, r) in [("alone", &plain[c]), ("scheduled", &got[c])] {
                rep.cmp(P);
                match r {
                    Ok(r) if same(r, &want) => (),
                    Ok(r) => rep.bad(P, name, picks.len(), format!("{:?} {how}, pool of {p}, order {picks:?}: {}, expected {}", call.kind, show(r), show(&want))),
                    Err(e) => rep.bad(P, name, picks.len(), format!("{:?} {how}, pool of {p}, order {picks:?}: {e}", call.kind)),
                }
            }
        }
    }
    if rep.samples.is_empty() {
        rep.samples.push(line.clone());
    }
    rep
}

// ---------------------------------------------------------------- real parallelism

fn next(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s >> 11
}

/// several callers, several sizes, any schedule the machine comes up with
fn free(rep: &mut Report, seed: u64, rounds: usize, until: Instant) {
    let sizes = [1usize, 2, 3, 4, 5, 8, 16];
    let pools: Vec<(usize, ThreadPool)> = sizes.iter().map(|p| (*p, ThreadPoolBuilder::new().num_threads(*p).build().unwrap())).collect();
    let widths = [0usize, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 100, 128, 129, 200, 257];
    let mut s = seed.wrapping_mul(0x2545F4914F6CDD1D) | 1;
    for _ in 0..5 {
        next(&mut s);
    }
    for round in 0..rounds {
        if Instant::now() > until {
            break;
        }
        let ncall = 1 + (next(&mut s) % 4) as usize;
        let bend = next(&mut s) % 2 == 0;
        let same_kind = next(&mut s) % 2 == 0;
        let (k0, w0, m0) = (next(&mut s) as usize, next(&mut s) as usize, next(&mut s) as usize);
        let twins = next(&mut s) % 3 != 0;
        let gate = Arc::new(Gate::default());
        let mut calls = Vec::new();
        let mut cols = Vec::new();
        for c in 0..ncall {
            let kind = KINDS[(k0 + if same_kind { 0 } else { 7 * c }) % KINDS.len()];
            // the widths come round in turn; callers of one shape are told apart only by their numbers
            let w = widths[if c == 0 { round % widths.len() } else if twins { round % widths.len() } else { (w0 + 5 * c) % widths.len() }];
            let m = if twins { m0 % 4 } else { (m0 + c) % 4 };
            let co: Coef = (0..w).map(|j| (0..m).map(|i| (1 + 1009 * c + 257 * i + j) as f64).collect()).collect();
            calls.push(prepare(kind, m, &co, &gate, c, bend));
            cols.push(co);
        }
        rep.traces += 1;
        rep.event("free");
        let name = format!("free {round}");
        watch::enter(P, &name, 0, "drivers called from several threads");
        // factors other than unit directions, too
        let factors: Vec<DMatrix<f64>> = calls
            .iter()
            .map(|c| {
                let f = &c.factor;
                let odd = next(&mut s) % 2 == 0;
                if !c.product() || !odd {
                    return f.clone();
                }
                DMatrix::from_fn(f.nrows(), f.ncols(), |i, j| f[(i, j)] * 2.0 + ((i * 5 + j * 3) % 7) as f64 - 3.0)
            })
            .collect();
        NOISE.store(false, Ordering::SeqCst);
        // one evaluation after the other, each for itself
        let alone: Vec<Result<DMatrix<f64>, String>> = calls.iter().zip(&factors).map(|(c, f)| guarded(|| sequential(c, f))).collect();
        let one: Vec<Result<DMatrix<f64>, String>> = calls.iter().zip(&factors).map(|(c, f)| guarded(|| pools[0].1.install(|| c.run(f)))).collect();
        let agree = |a: &DMatrix<f64>, b: &DMatrix<f64>| {
            a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| (x - y).abs() <= 1e-11 * (1.0 + x.abs().max(y.abs())))
        };
        for (c, call) in calls.iter().enumerate() {
            rep.cmp(P);
            match (&one[c], &alone[c]) {
                (Ok(a), Ok(b)) if agree(a, b) => (),
                (a, b) => rep.bad(P, &name, 0, format!("{:?} with one thread: {}, expected {}", call.kind, text(a), text(b))),
            }
            if !bend && factors[c] == call.factor {
                rep.cmp(P);
                let want = call.expected(&cols[c]);
                match &one[c] {
                    Ok(a) if same(a, &want) => (),
                    a => rep.bad(P, &name, 0, format!("{:?} with one thread: {}, expected {}", call.kind, text(a), show(&want))),
                }
            }
        }
        NOISE.store(true, Ordering::SeqCst);
        for pass in 0..3 {
            let (p, pool) = &pools[(next(&mut s) as usize) % pools.len()];
            // in one pool, each in its own, or the global one
            let mode = next(&mut s) % 3;
            let got: Vec<Result<DMatrix<f64>, String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = calls
                    .iter()
                    .zip(&factors)
                    .enumerate()
                    .map(|(k, (c, f))| {
                        let pools = &pools;
                        sc.spawn(move || {
                            guarded(|| match mode {
                                0 => c.run(f),
                                1 => pool.install(|| c.run(f)),
                                _ => pools[1 + k].1.install(|| c.run(f)),
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (c, call) in calls.iter().enumerate() {
                rep.cmp(P);
                match (&got[c], &one[c]) {
                    (Ok(a), Ok(b)) if same(a, b) => (),
                    (a, b) => rep.bad(P, &name, pass, format!("{:?} of width {} with {} callers, pool of {p} (mode {mode}): {}, with one thread {}",
                        call.kind, call.w, calls.len(), text(a), text(b))),
                }
            }
        }
        NOISE.store(false, Ordering::SeqCst);
        watch::leave();
    }
}

fn text(r: &Result<DMatrix<f64>, String>) -> String {
    match r {
        Ok(m) => show(m),
        Err(e) => e.clone(),
    }
}

/// the same from single sweeps
fn sequential(c: &Call, f: &DMatrix<f64>) -> DMatrix<f64> {
    fn fwd(t: &dyn Tape, f: &DMatrix<f64>) -> DMatrix<f64> {
        let mut r = DMatrix::zeros(t.num_deps(), f.ncols());
        for j in 0..f.ncols() {
            r.set_column(j, &t.first_order_forward(&DVector::from_iterator(f.nrows(), f.column(j).iter().cloned())));
        }
        r
    }
    fn rev(t: &dyn Tape, f: &DMatrix<f64>) -> DMatrix<f64> {
        let mut r = DMatrix::zeros(f.nrows(), t.num_indeps());
        for i in 0..f.nrows() {
            let x = t.first_order_reverse(&DVector::from_iterator(f.ncols(), f.row(i).iter().cloned()));
            for j in 0..x.nrows() {
                r[(i, j)] = x[j];
            }
        }
        r
    }
    let side = |t: &dyn Tape| if c.right() { fwd(t, f) } else { rev(t, f) };
    let tape = c.tape.as_ref().unwrap();
    let abs = c.abs.as_ref();
    match c.kind {
        Forward => fwd(tape, f),
        Reverse => rev(tape, f),
        ZRight | ZLeft => side(&AbsNormalZ::new(abs.unwrap())),
        LRight | LLeft => side(&AbsNormalL::new(abs.unwrap())),
        JRight | JLeft => side(&AbsNormalJ::new(abs.unwrap())),
        YRight | YLeft => side(&AbsNormalY::new(abs.unwrap())),
    }
}

/// whole abs-normal forms and generalised Jacobians, which are made of such products
fn whole(rep: &mut Report, seed: u64, rounds: usize, until: Instant) {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let pools: Vec<ThreadPool> = [1usize, 2, 4, 7].iter().map(|p| ThreadPoolBuilder::new().num_threads(*p).build().unwrap()).collect();
    for round in 0..rounds {
        if Instant::now() > until {
            break;
        }
        let gate = Arc::new(Gate::default());
        let fs: Vec<(GateFn, DVector<f64>, DVector<f64>)> = (0..3)
            .map(|c| {
                let (n, m, sw) = (1 + (next(&mut s) % 5) as usize, 1 + (next(&mut s) % 5) as usize, (next(&mut s) % 7) as usize);
                let mut r = |a: usize, b: usize| -> Coef { (0..a).map(|_| (0..b).map(|_| (next(&mut s) % 9) as f64 - 4.0).collect()).collect() };
                let (z, mut l, j, y) = (r(sw, n), r(sw, sw), r(m, n), r(m, sw));
                for (k, row) in l.iter_mut().enumerate() {
                    row.truncate(k);
                }
                let (x, dx) = (r(1, n), r(1, n));
                (
                    GateFn { s: Shape { n, z, l, j, y, bend: round % 2 == 0 }, gate: gate.clone(), caller: c },
                    DVector::from_vec(x[0].clone()),
                    DVector::from_vec(dx[0].clone()),
                )
            })
            .collect();
        let name = format!("whole {round}");
        watch::enter(P, &name, 0, "abs_normal and generalized_jacobian");
        let job = |f: &(GateFn, DVector<f64>, DVector<f64>)| {
            guarded(|| {
                let a = abs_normal(&f.0, &f.1);
                let g = generalized_jacobian(&f.0, &f.1, &f.2, &[0b1010_0110], None);
                let h = generalized_jacobian(&f.0, &f.1, &f.2, &[0b0101_1001], Some(GeneralizedJacobian {
                    homogenous: DMatrix::from_fn(2, f.0.m(), |i, j| (i + 3 * j) as f64 - 2.0),
                    inhomogenous: DVector::from_element(2, 1.0),
                    multiplicity: 3,
                }));
                format!("{a:?} {g:?} {h:?}")
            })
        };
        let want: Vec<_> = fs.iter().map(|f| pools[0].install(|| job(f))).collect();
        rep.traces += 1;
        rep.event("whole");
        NOISE.store(true, Ordering::SeqCst);
        for (k, pool) in pools.iter().enumerate() {
            let got: Vec<_> = std::thread::scope(|sc| {
                let hs: Vec<_> = fs.iter().map(|f| sc.spawn(|| pool.install(|| job(f)))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for c in 0..fs.len() {
                rep.cmp(P);
                if got[c] != want[c] || want[c].is_err() {
                    rep.bad(P, &name, k, format!("caller {c}, pool {k}: {:?}, with one thread {:?}", got[c], want[c]));
                }
            }
        }
        NOISE.store(false, Ordering::SeqCst);
        watch::leave();
    }
}

// adv-columns OUT SEED SECONDS ROUNDS LINES...
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(adv_sched)]
    adv_std::sched::set_free(noise);
    let args: Vec<String> = std::env::args().collect();
    let out = args[1].clone();
    let seed: u64 = args[2].parse().unwrap();
    let secs: u64 = args[3].parse().unwrap();
    let rounds: usize = args[4].parse().unwrap();
    watch::start(out.clone(), Duration::from_secs(60));
    let mut jobs: Vec<(String, Value, Vec<Kind>)> = Vec::new();
    for (f, path) in args[5..].iter().enumerate() {
        for (no, l) in std::fs::read_to_string(path).unwrap().lines().filter(|l| l.starts_with("\"@@")).enumerate() {
            let inner: String = serde_json::from_str(l).unwrap();
            let doc: Value = serde_json::from_str(&inner[2..]).unwrap();
            // every driver for the short ones, in turn for the others
            let n = doc["picks"].as_array().unwrap().len();
            let kinds = if n <= 6 { KINDS.to_vec() } else { (0..3).map(|k| KINDS[(no + 3 * k + f) % KINDS.len()]).collect() };
            jobs.push((format!("file {f} line {}", no + 1), doc, kinds));
        }
    }
    let total = Mutex::new(Report::default());
    let (nexti, timeouts, picks) = (AtomicUsize::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let (yields, calls) = (AtomicU64::new(0), AtomicU64::new(0));
    let t0 = Instant::now();
    let until = t0 + Duration::from_secs(secs);
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| {
                let mut wk = Worker::new();
                let mut mine = Report::default();
                loop {
                    let k = nexti.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() || Instant::now() > until {
                        break;
                    }
                    // spread over all of them, should the time run out
                    let (name, doc, kinds) = &jobs[(k * 7919) % jobs.len().max(1)];
                    mine.merge(if doc["nested"] == Value::Bool(true) { nested(&mut wk, doc, name, kinds) } else { replay(&mut wk, doc, name, kinds) });
                    done.fetch_add(1, Ordering::SeqCst);
                }
                timeouts.fetch_add(wk.timeouts, Ordering::SeqCst);
                picks.fetch_add(wk.picks, Ordering::SeqCst);
                yields.fetch_add(wk.yields, Ordering::SeqCst);
                calls.fetch_add(wk.calls, Ordering::SeqCst);
                watch::leave();
                total.lock().unwrap().merge(mine);
            });
        }
    });
    let mut rep = total.into_inner().unwrap();
    let t1 = t0.elapsed();
    let until = Instant::now() + Duration::from_secs(secs);
    free(&mut rep, seed, rounds, until);
    whole(&mut rep, seed, rounds / 4 + 1, until);
    let mut j = rep.to_json();
    j["ok"] = Value::Bool(true);
    j["schedules"] = json!({"wanted": jobs.len(), "replayed": done.load(Ordering::SeqCst), "picks": picks.load(Ordering::SeqCst),
        "nested_yields": yields.load(Ordering::SeqCst), "nested_calls": calls.load(Ordering::SeqCst),
        "not_all_arrived": timeouts.load(Ordering::SeqCst), "seconds": t1.as_secs_f64(), "free_seconds": (t0.elapsed() - t1).as_secs_f64()});
    std::fs::write(&out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
