//! Reading behaviours of the Quint specification (ITF JSON).
use num::{BigInt, ToPrimitive};
use serde_json::Value;

pub const SCALE: f64 = 340282366920938463463374607431768211456.0; // 2^128

pub fn big(v: &Value) -> BigInt {
    match v {
        Value::Object(o) => o["#bigint"].as_str().unwrap().parse().unwrap(),
        Value::Number(n) => BigInt::from(n.as_i64().unwrap()),
        _ => panic!("not an integer: {v}"),
    }
}
/// fixed-point number of the specification as f64
pub fn fx(v: &Value) -> f64 {
    big(v).to_f64().unwrap() / SCALE
}
pub fn int(v: &Value) -> i64 {
    big(v).to_i64().unwrap()
}
pub fn list(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("not a list: {v}"))
}
pub fn fxs(v: &Value) -> Vec<f64> {
    list(v).iter().map(fx).collect()
}
pub fn ints(v: &Value) -> Vec<i64> {
    list(v).iter().map(int).collect()
}
pub fn mat(v: &Value) -> Vec<Vec<f64>> {
    list(v).iter().map(fxs).collect()
}
pub fn boolean(v: &Value) -> bool {
    v.as_bool().unwrap()
}
pub fn string(v: &Value) -> &str {
    v.as_str().unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct SOp {
    pub code: String,
    pub vid: usize,
    pub a: i64,
    pub b: i64,
}
/// A recording of the specification.
#[derive(Clone, Debug, Default)]
pub struct Recd {
    pub indeps: Vec<usize>,
    pub deps: Vec<usize>,
    pub ops: Vec<SOp>,
    pub vals: Vec<f64>,
}
pub fn recd(v: &Value) -> Recd {
    Recd {
        indeps: ints(&v["indeps"]).iter().map(|x| *x as usize).collect(),
        deps: ints(&v["deps"]).iter().map(|x| *x as usize).collect(),
        ops: list(&v["ops"])
            .iter()
            .map(|o| SOp {
                code: string(&o["code"]).to_string(),
                vid: int(&o["vid"]) as usize,
                a: int(&o["a"]),
                b: int(&o["b"]),
            })
            .collect(),
        vals: fxs(&v["vals"]),
    }
}

/// The states of a behaviour: the value of the only variable whose name ends in `name`.
pub fn states(doc: &Value, name: &str) -> Vec<Value> {
    list(&doc["states"])
        .iter()
        .map(|s| {
            let o = s.as_object().unwrap();
            o.iter()
                .find(|(k, _)| k.as_str() == name || k.ends_with(&format!("::{name}")))
                .unwrap_or_else(|| panic!("no variable {name}"))
                .1
                .clone()
        })
        .collect()
}
