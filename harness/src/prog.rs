//! A user function that executes a recording of the specification operation by operation.
use crate::itf::{Recd, SOp};
use advantage::*;

#[derive(Clone)]
pub struct ProgFn {
    pub r: Recd,
    pub n: usize,
}

pub fn unary<S: Float>(code: &str, x: AFloat<S>) -> AFloat<S> {
    match code {
        "Sin" => x.sin(),
        "Cos" => x.cos(),
        "Tan" => x.tan(),
        "Abs" => x.abs(),
        "Exp" => x.exp(),
        "Ln" => x.ln(),
        "Asin" => x.asin(),
        "Acos" => x.acos(),
        "Atan" => x.atan(),
        _ => panic!("spec: unary {code}"),
    }
}
pub fn binary<S: Float>(code: &str, x: AFloat<S>, y: AFloat<S>) -> AFloat<S> {
    match code {
        "Add" => x + y,
        "Sub" => x - y,
        "Mul" => x * y,
        "Div" => x / y,
        "Powf" => x.powf(y),
        _ => panic!("spec: binary {code}"),
    }
}

impl ProgFn {
    pub fn new(r: &Recd) -> ProgFn {
        ProgFn { r: r.clone(), n: r.indeps.len() }
    }
    fn run(&self, x: &[ADouble]) -> Vec<ADouble> {
        let mut v: Vec<ADouble> = self.r.vals.iter().map(|c| ADouble::from(*c)).collect();
        for (k, id) in self.r.indeps.iter().enumerate() {
            v[*id] = x[k];
        }
        for SOp { code, vid, a, b } in &self.r.ops {
            if code == "Const" {
                continue;
            }
            v[*vid] = if *b < 0 { unary(code, v[*a as usize]) } else { binary(code, v[*a as usize], v[*b as usize]) };
        }
        self.r.deps.iter().map(|d| v[*d]).collect()
    }
}

impl Function for ProgFn {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.r.deps.len()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_vec(self.run(x.as_slice()))
    }
}
