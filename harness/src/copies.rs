//! Many copies of a recording side by side: the specification of the whole is that of one copy, copy by copy, with nothing
//! in between.  Takes sessions to sizes the specification is not unfolded for.
use crate::itf::{Recd, SOp};

pub struct Copies {
    pub k: usize,
    /// copies whose dependents are dependents of the whole
    pub live: Vec<usize>,
    /// operation by operation over the copies, or copy by copy
    pub woven: bool,
    n: usize,
}

impl Copies {
    pub fn new(k: usize, all: bool, woven: bool) -> Copies {
        let mut live: Vec<usize> = if all { (0..k).collect() } else { vec![0, k / 3, k - 1] };
        live.dedup();
        Copies { k, live, woven, n: 0 }
    }
    pub fn recd(&mut self, r: &Recd) -> Recd {
        let n = r.vals.len();
        self.n = n;
        let op = |o: &SOp, c: usize| SOp {
            code: o.code.clone(),
            vid: o.vid + c * n,
            a: if o.a >= 0 { o.a + (c * n) as i64 } else { o.a },
            b: if o.b >= 0 { o.b + (c * n) as i64 } else { o.b },
        };
        let mut s = Recd::default();
        for c in 0..self.k {
            s.indeps.extend(r.indeps.iter().map(|i| i + c * n));
            s.vals.extend(&r.vals);
        }
        for c in &self.live {
            s.deps.extend(r.deps.iter().map(|i| i + c * n));
        }
        if self.woven {
            for o in &r.ops {
                s.ops.extend((0..self.k).map(|c| op(o, c)));
            }
        } else {
            for c in 0..self.k {
                s.ops.extend(r.ops.iter().map(|o| op(o, c)));
            }
        }
        s
    }
    /// place of the i-th of s absolute values of copy c
    pub fn switch(&self, c: usize, i: usize, s: usize) -> usize {
        if self.woven {
            i * self.k + c
        } else {
            c * s + i
        }
    }
    /// a factor for each copy
    pub fn factor(&self, c: usize) -> f64 {
        [1.0, -2.0, 0.0, 0.5, -1.0, 4.0, 1.0][(c * 5 + c / 7) % 7]
    }
}
