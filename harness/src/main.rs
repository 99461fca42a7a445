#![recursion_limit = "256"]
mod constopt;
mod data;
mod evolve;
mod expr;
mod refops;
mod sched;
mod search;
mod start;
mod tree;

use serde_json::{Value, json};

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

/// Abort the process with status 3 if one unit of work takes too long (a hang is an observation).
static HEART: std::sync::Mutex<Option<(std::time::Instant, u64, String)>> = std::sync::Mutex::new(None);
pub fn heartbeat(limit_s: u64, what: &str) {
    *HEART.lock().unwrap() = Some((std::time::Instant::now(), limit_s, what.to_string()));
}

fn main() {
    std::thread::spawn(|| {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let h = HEART.lock().unwrap();
            if let Some((t, l, w)) = &*h {
                if t.elapsed().as_secs() > *l {
                    println!("HANG {w}");
                    eprintln!("HANG {w}");
                    std::process::exit(3);
                }
            }
        }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let a = Args(std::env::args().collect());
    let seed = a.num("--seed", 1);
    let n = a.num("--n", 20) as usize;
    let v: Value = match a.0.get(1).map(|s| s.as_str()) {
        Some(mode @ ("search" | "frozen")) => {
            let runs: Vec<Value> = (0..n)
                .map(|i| {
                    let cfg = if mode == "search" { search::gen_cfg(seed, i) } else { search::frozen_cfg(seed, i) };
                    heartbeat(120, &format!("search {i}"));
                    search::log_json(&cfg, &search::run(&cfg, None))
                })
                .collect();
            json!({ "runs": runs })
        }
        Some("tree") => tree::run(seed, n, &serde_json::from_str::<Vec<Vec<(u8, u16)>>>(&std::fs::read_to_string(a.get("--gen").unwrap()).unwrap()).unwrap()),
        Some("expr") => {
            let exhaustive = match a.get("--gen") {
                Some(f) => serde_json::from_str::<Vec<Vec<(u8, u16, String)>>>(&std::fs::read_to_string(f).unwrap()).unwrap(),
                None => vec![],
            };
            expr::run(a.get("--prop").expect("--prop"), seed, n, &expr::Gen { exhaustive })
        }
        Some("evolve") => {
            let scen = match a.get("--gen") {
                Some(f) => serde_json::from_str::<Vec<Vec<u64>>>(&std::fs::read_to_string(f).unwrap()).unwrap(),
                None => vec![],
            };
            heartbeat(600, "evolve");
            evolve::run(a.get("--prop").expect("--prop"), seed, n, &scen)
        }
        Some("data") => {
            heartbeat(600, "data");
            data::run(a.get("--prop").expect("--prop"), seed, n)
        }
        Some(mode @ ("pool" | "sched" | "pairs")) => {
            let gen_: Value = serde_json::from_str(&std::fs::read_to_string(a.get("--gen").expect("--gen")).unwrap()).unwrap();
            let threads = a.num("--threads", 1) as usize;
            rayon::ThreadPoolBuilder::new().num_threads(threads).build_global().unwrap();
            match mode {
                "pool" => sched::pool(seed, threads, n, &gen_),
                "sched" => sched::forced(seed, threads, &gen_),
                _ => sched::pairs(seed, threads, &gen_),
            }
        }
        _ => panic!("usage"),
    };
    let out = a.get("--out").expect("--out");
    std::fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
}
