//! Collecting disagreements between the specification and the code.
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub prop: &'static str,
    pub trace: String,
    pub step: usize,
    pub what: String,
}

#[derive(Default, Debug)]
pub struct Report {
    pub mismatches: Vec<Mismatch>,
    /// comparisons made per property
    pub compared: BTreeMap<&'static str, u64>,
    /// things that happened (event kinds, ...), for coverage
    pub events: BTreeMap<String, u64>,
    /// largest error relative to the tolerance
    pub worst: BTreeMap<&'static str, (f64, String)>,
    pub traces: u64,
    pub states: u64,
    pub samples: Vec<Value>,
}

impl Report {
    pub fn cmp(&mut self, prop: &'static str) {
        *self.compared.entry(prop).or_default() += 1;
    }
    pub fn event(&mut self, name: &str) {
        *self.events.entry(name.to_string()).or_default() += 1;
    }
    pub fn bad(&mut self, prop: &'static str, trace: &str, step: usize, what: String) {
        if self.mismatches.len() < 400 {
            self.mismatches.push(Mismatch { prop, trace: trace.to_string(), step, what });
        }
    }
    pub fn merge(&mut self, o: Report) {
        for m in o.mismatches {
            if self.mismatches.len() < 400 {
                self.mismatches.push(m);
            }
        }
        for (k, v) in o.compared {
            *self.compared.entry(k).or_default() += v;
        }
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.worst {
            let e = self.worst.entry(k).or_insert((0.0, String::new()));
            if v.0 > e.0 {
                *e = v;
            }
        }
        self.traces += o.traces;
        self.states += o.states;
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
    pub fn to_json(&self) -> Value {
        json!({
            "mismatches": self.mismatches.iter().map(|m| json!({
                "property": m.prop, "trace": m.trace, "step": m.step, "what": m.what })).collect::<Vec<_>>(),
            "compared": self.compared,
            "events": self.events,
            "worst": self.worst.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
            "traces": self.traces,
            "states": self.states,
            "samples": self.samples,
        })
    }
}

/// |got - want| within tol of want; NaN never agrees
pub fn close(got: f64, want: f64, tol: f64) -> bool {
    got == want || (got - want).abs() <= tol
}

/// Run `f`, turning a panic of the code under test into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            format!("panicked: {s}")
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("panicked: {s}")
        } else {
            "panicked".to_string()
        }
    })
}
