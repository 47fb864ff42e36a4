mod chain;
mod copies;
mod forms;
mod itf;
mod lifecycle;
mod numbers;
mod prog;
mod report;
mod revseq;
mod session;
mod units;
mod watch;

use report::Report;
use serde_json::Value;
use std::path::PathBuf;

/// Replay every behaviour in the given files; the profile is the file name up to the first '-'.
fn replay_dir(files: &[PathBuf], f: &(dyn Fn(&Value, &str, &str) -> Report + Sync)) -> Report {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new(Report::default());
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= files.len() {
                    break;
                }
                let name = files[k].file_name().unwrap().to_string_lossy().to_string();
                let profile = name.split('-').next().unwrap().to_string();
                let text = std::fs::read(&files[k]).unwrap();
                let doc: Value = serde_json::from_slice(&text).unwrap();
                let r = f(&doc, &name, &profile);
                total.lock().unwrap().merge(r);
            });
        }
    });
    total.into_inner().unwrap()
}

/// Replay every line TLC printed (marked with @@) in a file.
fn replay_lines(path: &str, f: &(dyn Fn(&Value, &str) -> Report + Sync)) -> Report {
    let text = std::fs::read_to_string(path).unwrap();
    let lines: Vec<(usize, &str)> = text.lines().enumerate().filter(|(_, l)| l.starts_with("\"@@")).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new(Report::default());
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) {
            s.spawn(|| {
                let mut mine = Report::default();
                loop {
                    let k = next.fetch_add(16, std::sync::atomic::Ordering::SeqCst);
                    if k >= lines.len() {
                        break;
                    }
                    for (no, l) in &lines[k..(k + 16).min(lines.len())] {
                        let inner: String = serde_json::from_str(l).unwrap();
                        let doc: Value = serde_json::from_str(&inner[2..]).unwrap();
                        mine.merge(f(&doc, &format!("line {}", no + 1)));
                    }
                }
                watch::leave();
                total.lock().unwrap().merge(mine);
            });
        }
    });
    total.into_inner().unwrap()
}

fn itf_files(dir: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.to_string_lossy().ends_with(".itf.json"))
        .collect();
    v.sort();
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let out = &args[2];
    watch::start(out.clone(), std::time::Duration::from_secs(45));
    if args[1] == "revseq" {
        // revseq OUT TRACES n:c n:c ...
        let pairs: Vec<(usize, usize)> = std::fs::read_to_string(&args[4])
            .unwrap()
            .split_whitespace()
            .map(|p| {
                let (a, b) = p.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        let j = revseq::run(&args[3], &pairs);
        std::fs::write(out, j.to_string()).unwrap();
        return;
    }
    let rep = match args[1].as_str() {
        "session" => replay_dir(&itf_files(&args[3]), &|d, n, p| {
            session::run_trace(d, n, &session::Opts { profile: p.to_string() })
        }),
        "numbers" => replay_dir(&itf_files(&args[3]), &numbers::run_trace),
        "chain" => replay_dir(&itf_files(&args[3]), &chain::run_trace),
        "forms" => replay_lines(&args[3], &forms::run_form),
        "chains" => replay_lines(&args[3], &forms::run_chain),
        "lifecycle" => {
            let mut r = Report::default();
            let mut crowd = None;
            for (k, f) in args[3..].iter().enumerate() {
                // the same among many other contexts
                if k == 1 {
                    crowd = Some(lifecycle::Crowd::new(1100, &mut r));
                }
                r.merge(replay_lines(f, &lifecycle::run));
                if let Some(c) = &crowd {
                    c.check(&mut r);
                }
            }
            drop(crowd);
            lifecycle::all_gone(&mut r);
            r
        }
        other => {
            eprintln!("unknown command {other}");
            std::process::exit(2)
        }
    };
    let mut j = rep.to_json();
    j["ok"] = Value::Bool(true);
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
