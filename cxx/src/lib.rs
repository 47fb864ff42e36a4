//! Replays histories of Handles.tla on the C++ and C interfaces and compares with the same computation on the Rust interface.
use advantage::*;
use num::Zero;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, CStr, CString};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicI64, Ordering};

extern "C" {
    fn drv_step(api: c_int, act: *const c_char, s: c_int, a: c_int, b: c_int, op: *const c_char, x: f64);
    fn drv_plain(op: *const c_char, x: f64, y: f64) -> f64;
    fn drv_observe(api: c_int, s: c_int, seen: extern "C" fn());
    fn drv_end(api: c_int, order: c_int);
    fn drv_live() -> c_long;
}

/// Counts what is allocated; what is freed is overwritten, so that using it afterwards shows.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        std::ptr::write_bytes(p, 0xA5, l.size());
        // kept out of sight of the optimiser
        std::hint::black_box(p);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

const CONSTS: [f64; 8] = [0.0, 2.5, -0.75, 0.0, -0.0, 1e300, f64::NAN, f64::INFINITY];

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn unary<S: Float>(op: &str, x: S) -> Option<S> {
    Some(match op {
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "abs" => x.abs(),
        "exp" => x.exp(),
        "ln" => x.ln(),
        _ => return None,
    })
}
fn binary<S: Float>(op: &str, x: S, y: S) -> S {
    match op {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "min" => x.min(y),
        _ => x.max(y),
    }
}

thread_local! {
    static SEEN: RefCell<Option<Vec<f64>>> = const { RefCell::new(None) };
    static KNOWN: RefCell<usize> = const { RefCell::new(0) };
}
/// the ids given out since the last look, in order, that are alive
fn fresh() -> Vec<usize> {
    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        let mut out = vec![];
        let mut id = *k;
        let mut gap = 0;
        while gap < 24 {
            if AContext::from_cid(id).is_some() {
                out.push(id);
                *k = id + 1;
                gap = 0;
            } else {
                gap += 1;
            }
            id += 1;
        }
        out
    })
}
extern "C" fn seen() {
    // the newest living context
    let ids = fresh();
    let r = ids.last().and_then(|id| AContext::from_cid(*id)).map(|c| {
        let v = c.values();
        c.deps().iter().map(|d| v[*d]).collect::<Vec<f64>>()
    });
    SEEN.with(|s| *s.borrow_mut() = r);
}

fn field(e: &Value, f: &str) -> usize {
    e[f].as_u64().unwrap() as usize
}

/// Ok, or what differs
fn history(doc: &Value, api: c_int, order: c_int, compared: &mut BTreeMap<String, u64>) -> Result<(), String> {
    let nodes = doc["nodes"].as_array().unwrap();
    let deps = doc["deps"].as_array().unwrap();
    let hist = doc["h"].as_array().unwrap();
    let mut mirror: Vec<AContext> = vec![];
    let mut ids: Vec<Option<usize>> = vec![];
    let mut vals: Vec<ADouble> = vec![];
    let mut ndep = 0;
    let mut count = |w: &str| *compared.entry(w.to_string()).or_default() += 1;
    fresh();
    for e in hist {
        let act = e["act"].as_str().unwrap();
        let op = e["op"].as_str().unwrap();
        let (s, a, b, x) = (field(e, "s"), field(e, "a"), field(e, "b"), CONSTS[field(e, "k")]);
        count(&format!("{} {act} {op}", if api == 0 { "C++" } else { "C" }));
        if act == "plain" {
            let (x, y) = (CONSTS[a], CONSTS[b]);
            let got = unsafe { drv_plain(CString::new(op).unwrap().as_ptr(), x, y) };
            let want = match unary(op, x) {
                Some(w) => w,
                // which operand is answered with is not specified when one is not a number
                None if x.is_nan() || y.is_nan() => got,
                None => binary(op, x, y),
            };
            if !(same(got, want) || (got - want).abs() <= want.abs() * 1e-14) {
                return Err(format!("adv::{op}({x}, {y}) of plain numbers is {got}, should be {want}"));
            }
            continue;
        }
        let (ca, co) = (CString::new(act).unwrap(), CString::new(op).unwrap());
        unsafe { drv_step(api, ca.as_ptr(), s as c_int, a as c_int, b as c_int, co.as_ptr(), x) };
        match act {
            "knew" | "krenew" => {
                ids.push(fresh().last().copied());
                mirror.push(AContext::new());
                fresh();
            }
            "dep" => {
                let d = &deps[ndep];
                ndep += 1;
                mirror[field(d, "c") - 1].set_dep(&vals[field(d, "n") - 1]);
            }
            "default" | "value" | "indep" | "bin" | "left" | "right" | "un" => {
                let n = &nodes[vals.len()];
                let c = field(n, "c");
                let get = |f: &str| match field(n, f) {
                    0 => ADouble::from(CONSTS[field(n, "k")]),
                    i if c == 0 => ADouble::from(vals[i - 1].value()),
                    i => vals[i - 1],
                };
                let op = n["op"].as_str().unwrap();
                vals.push(match op {
                    "default" => ADouble::zero(),
                    "const" => ADouble::from(CONSTS[field(n, "k")]),
                    "indep" => mirror[c - 1].new_indep(0.0),
                    _ => match unary(op, get("a")) {
                        Some(r) => r,
                        None => binary(op, get("a"), get("b")),
                    },
                });
            }
            _ => {}
        }
    }
    // which contexts are alive
    let k = doc["k"].as_array().unwrap();
    let owner = |c: usize| k.iter().position(|x| x["st"] == "live" && field(x, "c") == c);
    let selfmoved = hist.iter().any(|e| e["act"] == "kmove" && e["s"] == e["a"]);
    for c in 1..=mirror.len() {
        let Some(id) = ids[c - 1] else { return Err(format!("context {c} cannot be found after its creation")) };
        if !selfmoved && AContext::from_cid(id).is_some() != owner(c).is_some() {
            return Err(format!("context {c} is {}", if owner(c).is_some() { "gone" } else { "still alive" }));
        }
        count("liveness");
    }
    // what the variables hold
    for (i, s) in doc["v"].as_array().unwrap().iter().enumerate() {
        if s["st"] != "live" {
            continue;
        }
        let n = field(s, "n");
        let c = field(&nodes[n - 1], "c");
        match if c == 0 { None } else { owner(c) } {
            Some(o) => {
                let d = CString::new("dep").unwrap();
                unsafe { drv_step(api, d.as_ptr(), o as c_int + 1, i as c_int + 1, 0, d.as_ptr(), 0.0) };
                mirror[c - 1].set_dep(&vals[n - 1]);
            }
            None => {
                unsafe { drv_observe(api, i as c_int + 1, seen) };
                let got = SEEN.with(|s| s.borrow_mut().take());
                let want = vals[n - 1].value() * 1.0;
                if !matches!(&got, Some(g) if g.len() == 1 && same(g[0], want)) {
                    return Err(format!("variable {} is {got:?}, should be {want}", i + 1));
                }
                count("value");
            }
        }
    }
    // the recordings
    for c in 1..=mirror.len() {
        if owner(c).is_none() {
            continue;
        }
        let real = AContext::from_cid(ids[c - 1].unwrap()).unwrap();
        let want = &mirror[c - 1];
        if real.operations() != want.operations() || real.indeps() != want.indeps() || real.deps() != want.deps() {
            return Err(format!(
                "context {c} recorded {:?} indeps {:?} deps {:?}, should be {:?} {:?} {:?}",
                real.operations(),
                real.indeps(),
                real.deps(),
                want.operations(),
                want.indeps(),
                want.deps()
            ));
        }
        if real.values().len() != want.values().len() || real.values().iter().zip(want.values()).any(|(a, b)| !same(*a, b)) {
            return Err(format!("context {c} recorded values {:?}, should be {:?}", real.values(), want.values()));
        }
        count("recording");
    }
    drop(mirror);
    unsafe { drv_end(api, order) };
    Ok(())
}

/// FILE OUT PROGRESS SHARD SHARDS
#[no_mangle]
pub extern "C" fn vp_main(argc: c_int, argv: *const *const c_char) -> c_int {
    let args: Vec<String> = (0..argc as usize).map(|i| unsafe { CStr::from_ptr(*argv.add(i)) }.to_string_lossy().to_string()).collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let (shard, shards): (usize, usize) = (args[4].parse().unwrap(), args[5].parse().unwrap());
    let mut progress = std::fs::File::create(&args[3]).unwrap();
    let mut compared = BTreeMap::new();
    let mut bad: Vec<Value> = vec![];
    let (mut traces, mut steps) = (0u64, 0u64);
    for api in 0..2 {
        for (no, l) in text.lines().enumerate() {
            if !l.starts_with("\"@@") || no % shards != shard {
                continue;
            }
            progress.seek(SeekFrom::Start(0)).unwrap();
            progress.write_all(format!("{:10} {}", no, api).as_bytes()).unwrap();
            let inner: String = serde_json::from_str(l).unwrap();
            let doc: Value = serde_json::from_str(&inner[2..]).unwrap();
            if traces == 0 {
                // whatever is allocated once and kept
                let _ = history(&doc, api, 0, &mut compared);
                unsafe { drv_end(api, 0) };
            }
            for w in ["liveness", "value", "recording"] {
                compared.entry(w.to_string()).or_insert(0);
            }
            for e in doc["h"].as_array().unwrap() {
                let key = format!("{} {} {}", if api == 0 { "C++" } else { "C" }, e["act"].as_str().unwrap(), e["op"].as_str().unwrap());
                compared.entry(key).or_insert(0);
            }
            SEEN.with(|s| *s.borrow_mut() = None);
            let before = (LIVE.load(Ordering::Relaxed), unsafe { drv_live() });
            let r = history(&doc, api, (no % 2) as c_int, &mut compared);
            traces += 1;
            steps += doc["h"].as_array().unwrap().len() as u64;
            let r = r.and_then(|_| {
                let after = (LIVE.load(Ordering::Relaxed), unsafe { drv_live() });
                if after != before {
                    return Err(format!(
                        "{} library and {} C++ allocations are left after everything is destroyed",
                        after.0 - before.0,
                        after.1 - before.1
                    ));
                }
                Ok(())
            });
            if let Err(e) = r {
                unsafe { drv_end(api, 0) };
                if bad.len() < 20 {
                    bad.push(json!({"property": "C16", "trace": describe(&doc, api), "step": no, "what": e}));
                }
            }
        }
    }
    let j = json!({"mismatches": bad, "events": compared, "traces": traces, "states": steps});
    std::fs::write(&args[2], j.to_string()).unwrap();
    0
}

fn describe(doc: &Value, api: c_int) -> String {
    let mut out = String::from(if api == 0 { "C++: " } else { "C: " });
    for e in doc["h"].as_array().unwrap() {
        out += &format!("{}({}{} {} {} k{}); ", e["act"].as_str().unwrap(), e["op"].as_str().unwrap(), e["s"], e["a"], e["b"], e["k"]);
    }
    out
}
