//! Changes of units: every recording is equivariant under the scalings that respect its operations (both operands of a sum
//! have one unit, units multiply in products, ...).  Powers of two are exact, so the scaled run has to tell the same numbers.
use crate::itf::{Recd, SOp};

/// exponents of two, one per id
pub struct Units {
    pub t: Vec<i32>,
}

pub fn p2(k: i32) -> f64 {
    2f64.powi(k)
}
pub fn times_p2(x: f64, k: i32) -> f64 {
    // in halves, so that neither overflows
    x * 2f64.powi(k / 2) * 2f64.powi(k - k / 2)
}

impl Units {
    /// A change of units the recording allows, if there is one that is not trivial.
    pub fn of(r: &Recd, seed: u64) -> Option<Units> {
        let n = r.vals.len();
        if n == 0 || n > 200 {
            return None;
        }
        let is_const = |id: usize| r.ops.iter().any(|o| o.vid == id && o.code == "Const");
        let mut rows: Vec<Vec<f64>> = vec![];
        let mut eq = |terms: &[(usize, f64)]| {
            let mut row = vec![0.0; n];
            for (i, c) in terms {
                row[*i] += *c;
            }
            rows.push(row);
        };
        for o in &r.ops {
            if o.code == "Const" {
                continue;
            }
            let (v, a) = (o.vid, o.a as usize);
            match o.code.as_str() {
                "Add" | "Sub" => {
                    eq(&[(v, 1.0), (a, -1.0)]);
                    eq(&[(v, 1.0), (o.b as usize, -1.0)]);
                }
                "Mul" => eq(&[(v, 1.0), (a, -1.0), (o.b as usize, -1.0)]),
                "Div" => eq(&[(v, 1.0), (a, -1.0), (o.b as usize, 1.0)]),
                "Abs" => eq(&[(v, 1.0), (a, -1.0)]),
                _ => {
                    let b = if o.b >= 0 { o.b as usize } else { a };
                    let p = if o.code == "Powf" && is_const(b) { r.vals[b] } else { 0.5f64.sqrt() };
                    if o.code == "Powf" && (p * 2.0).fract() == 0.0 {
                        eq(&[(v, 1.0), (a, -p)]);
                    } else {
                        eq(&[(v, 1.0)]);
                        eq(&[(a, 1.0)]);
                    }
                    if b != a {
                        eq(&[(b, 1.0)]);
                    }
                }
            }
        }
        // reduced row echelon form
        let mut pivots: Vec<usize> = vec![];
        let mut k = 0;
        for c in (0..n).rev() {
            let Some(p) = (k..rows.len()).find(|i| rows[*i][c].abs() > 1e-9) else { continue };
            rows.swap(k, p);
            let d = rows[k][c];
            rows[k].iter_mut().for_each(|x| *x /= d);
            let row = rows[k].clone();
            for (i, other) in rows.iter_mut().enumerate() {
                let f = other[c];
                if i != k && f != 0.0 {
                    other.iter_mut().zip(&row).for_each(|(x, y)| *x -= f * y);
                }
            }
            pivots.push(c);
            k += 1;
        }
        let free: Vec<usize> = (0..n).filter(|c| !pivots.contains(c)).collect();
        if free.is_empty() {
            return None;
        }
        let mut s = seed | 1;
        for round in 0..6 {
            let mut t = vec![0.0; n];
            for c in &free {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                t[*c] = ((s >> 20) % 7) as f64 * 20.0 - 60.0;
                if round > 3 {
                    t[*c] /= 3.0;
                }
            }
            for (i, c) in pivots.iter().enumerate() {
                t[*c] = -free.iter().map(|f| rows[i][*f] * t[*f]).sum::<f64>();
            }
            // whole and of moderate size
            if t.iter().any(|x| x.abs() > 200.0 || (x - x.round()).abs() > 1e-6) {
                continue;
            }
            let t: Vec<i32> = t.iter().map(|x| x.round() as i32).collect();
            if r.indeps.iter().all(|i| t[*i] == 0) {
                continue;
            }
            return Some(Units { t });
        }
        None
    }
    /// Every result in units of its own, down to where numbers are subnormal.
    pub fn of_results(r: &Recd, t: i32) -> (Recd, Units) {
        let mut r = r.clone();
        let n = r.vals.len();
        for k in 0..r.deps.len() {
            let (d, c) = (r.deps[k], r.vals.len());
            r.ops.push(SOp { code: "Const".into(), vid: c, a: -1, b: -1 });
            r.ops.push(SOp { code: "Mul".into(), vid: c + 1, a: d as i64, b: c as i64 });
            r.vals.push(1.0);
            r.vals.push(r.vals[d]);
            r.deps[k] = c + 1;
        }
        let t = (0..r.vals.len()).map(|v| if v < n { 0 } else { t }).collect();
        (r, Units { t })
    }
    pub fn of_ids(&self, ids: &[usize]) -> Vec<i32> {
        ids.iter().map(|i| self.t[*i]).collect()
    }
    pub fn recd(&self, r: &Recd) -> Recd {
        let mut s = r.clone();
        for (v, t) in s.vals.iter_mut().zip(&self.t) {
            *v = times_p2(*v, *t);
        }
        s
    }
}
pub fn scaled(x: &[f64], t: &[i32]) -> Vec<f64> {
    x.iter().zip(t).map(|(x, t)| times_p2(*x, *t)).collect()
}
pub fn back(x: &[f64], t: &[i32]) -> Vec<f64> {
    x.iter().zip(t).map(|(x, t)| times_p2(*x, -*t)).collect()
}
