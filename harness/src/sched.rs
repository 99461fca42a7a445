//! Schedules and pool scenarios generated from the specification, replayed in the real orchestrator.
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, mpsc};
use std::time::Duration;

use fastrand::Rng;
use serde_json::{Value, json};
use symbolic_regression::verif_hooks::{self as vh, Event, LossFn, LossObject};
use symbolic_regression::{SearchEngine, equation_search};

use crate::heartbeat;
use crate::search::{self, D, Enc, Ops, Opts, Ranks, RunCfg, RunLog};

fn nums(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

/// The configuration of one generated schedule.
fn cfg_of(seed: u64, i: usize, w: &Value, threads: usize) -> RunCfg {
    let mut c = search::gen_cfg(seed, i * 3 + 1);
    c.name = format!("word{i}");
    c.opts.populations = w["npops"].as_u64().unwrap() as usize;
    c.opts.niterations = w["niter"].as_u64().unwrap() as usize;
    c.threads = threads;
    c.outside = true;
    c.sched = w.get("choices").map(nums);
    c
}

/// Every completion order of the design model, forced onto real searches.
pub fn forced(seed: u64, threads: usize, words: &Value) -> Value {
    let mut runs = vec![];
    for (i, w) in words.as_array().unwrap().iter().enumerate() {
        let cfg = cfg_of(seed, i, w, threads);
        heartbeat(120, &format!("schedule {i}"));
        runs.push(search::log_json(&cfg, &search::run(&cfg, None)));
    }
    json!({ "runs": runs })
}

/// Orchestrator events only: where tasks of different populations overlap, their own events do not
/// come in any particular order.
fn orchestrator(log: &RunLog) -> RunLog {
    RunLog {
        events: log
            .events
            .iter()
            .filter(|e| !matches!(e, Event::TaskStart { .. } | Event::TaskEnd { .. }))
            .cloned()
            .collect(),
        panic: log.panic.clone(),
        steps: log.steps.clone(),
        result: log.result.clone(),
        forced: log.forced,
    }
}

fn group(name: &str, kind: &str, total: usize, logs: &[(String, RunLog)]) -> Value {
    let mut e = Enc::new();
    let mut enc: Vec<(String, Vec<Value>, bool, Value)> = vec![];
    for (src, l) in logs {
        let l = orchestrator(l);
        let evs = search::enc_events(&mut e, &l);
        enc.push((src.clone(), evs, l.forced, json!(l.steps)));
    }
    let rk = Ranks::new(&e.ids, &e.vals);
    let logs: Vec<Value> = enc
        .into_iter()
        .map(|(src, mut evs, forced, steps)| {
            search::rank_ids(&mut evs, &rk);
            json!({"src": src, "ev": evs, "forced": forced, "steps": steps})
        })
        .collect();
    json!({"name": name, "kind": kind, "total": total, "logs": logs})
}

/// Groups of runs that must agree.
pub fn pairs(seed: u64, threads: usize, words: &Value) -> Value {
    let mut groups = vec![];
    for (i, w) in words.as_array().unwrap().iter().enumerate() {
        heartbeat(200, &format!("pair {i}"));
        let mut cfg = cfg_of(seed, i, w, threads);
        let total = cfg.opts.populations * cfg.opts.niterations;
        let mut logs = vec![];
        if let Some(chunks) = w.get("chunks") {
            // one worker, the engine, and the engine in generated chunks
            cfg.sched = None;
            let mut c = cfg.clone();
            c.threads = 0;
            c.step_chunk = 0;
            logs.push(("engine".to_string(), search::run(&c, None)));
            for ch in chunks.as_array().unwrap() {
                c.steps = nums(ch);
                logs.push((format!("steps{:?}", c.steps), search::run(&c, None)));
            }
            if threads == 1 {
                logs.push(("one worker, outside".into(), search::run(&cfg, None)));
            }
            let mut c = cfg.clone();
            c.threads = 1;
            c.outside = false;
            logs.push(("one worker, inside".into(), search::run(&c, None)));
            if i % 4 == 0 {
                for l in concurrent(&cfg) {
                    logs.push(("concurrent engine".into(), l));
                }
            }
            groups.push(group(&cfg.name, "step", total, &logs));
        } else {
            logs.push(("first".to_string(), search::run(&cfg, None)));
            let other = search::gen_cfg(seed ^ 77, i);
            if i % 3 == 0 {
                search::run(&other, None); // something else in between
            }
            logs.push(("second".into(), search::run(&cfg, None)));
            groups.push(group(&cfg.name, "order", total, &logs));
        }
    }
    json!({ "groups": groups })
}

/// The same search stepped on two threads at once; events are told apart by thread.
fn concurrent(cfg: &RunCfg) -> Vec<RunLog> {
    let seen: Arc<std::sync::Mutex<Vec<(std::thread::ThreadId, Event)>>> = Default::default();
    let s2 = seen.clone();
    vh::set_sink(Some(Arc::new(move |e| {
        s2.lock().unwrap_or_else(|e| e.into_inner()).push((std::thread::current().id(), e));
        std::thread::yield_now();
    })));
    let hs: Vec<_> = (0..2)
        .map(|_| {
            let c = cfg.clone();
            std::thread::spawn(move || {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let r = SearchEngine::<f64, Ops, D>::new(c.dataset(), c.opts.clone()).run_to_completion();
                    (vh::hall_views(&r.hall_of_fame), vh::member_view(&r.best), vh::member_views(&r.hall_of_fame.pareto_front()))
                }));
                (std::thread::current().id(), r)
            })
        })
        .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    vh::set_sink(None);
    let seen = std::mem::take(&mut *seen.lock().unwrap_or_else(|e| e.into_inner()));
    rs.into_iter()
        .map(|(id, r)| {
            let events = seen.iter().filter(|(t, _)| *t == id).map(|(_, e)| e.clone()).collect();
            match r {
                Ok(v) => RunLog { events, panic: None, steps: vec![], result: Some(v), forced: true },
                Err(e) => RunLog { events, panic: Some(search::panic_text(e)), steps: vec![], result: None, forced: true },
            }
        })
        .collect()
}

// ------------------------------------------------------------------------------------------------
// C07

/// A loss that panics at its `at`-th call (or gradient call).
struct Faulty {
    inner: LossObject<f64>,
    calls: AtomicUsize,
    at: usize,
    grad: bool,
    fired: Arc<AtomicBool>,
}
impl Faulty {
    fn tick(&self, grad: bool) {
        if self.grad == grad && self.calls.fetch_add(1, Ordering::SeqCst) + 1 == self.at {
            self.fired.store(true, Ordering::SeqCst);
            panic!("injected fault");
        }
    }
}
impl LossFn<f64> for Faulty {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        self.tick(false);
        self.inner.loss(yhat, y, w)
    }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        self.tick(true);
        self.inner.dloss_dyhat(yhat, y, w, out)
    }
}

struct One {
    opts: Opts,
    cfg: RunCfg,
    fired: Arc<AtomicBool>,
}

fn outcome(o: &One, engine: bool) -> &'static str {
    let ds = o.cfg.dataset();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if engine {
            SearchEngine::<f64, Ops, D>::new(ds, o.opts.clone()).run_to_completion();
        } else {
            equation_search::<f64, Ops, D>(&ds, &o.opts);
        }
    }));
    if r.is_ok() { "r" } else { "p" }
}

/// Scenarios of Pool.tla (threads, where the callers are, sizes, the failing task), each repeated
/// `reps` times with different delays.
pub fn pool(seed: u64, threads: usize, reps: usize, scens: &Value) -> Value {
    let mut runs = vec![];
    let mut hangs = 0;
    'all: for (i, sc) in scens.as_array().unwrap().iter().enumerate() {
        for rep in 0..reps {
            let wh: Vec<String> = sc["where"].as_array().unwrap().iter().map(|w| w.as_str().unwrap().to_string()).collect();
            let crash = sc["crash"].as_u64().unwrap() as usize;
            let mut rng = Rng::with_seed(seed * 1000 + (i * reps + rep) as u64);
            let ones: Vec<Arc<One>> = (0..wh.len())
                .map(|s| {
                    let mut cfg = search::gen_cfg(seed + rep as u64, i * 5 + s);
                    cfg.opts.populations = sc["pops"].as_u64().unwrap() as usize;
                    cfg.opts.niterations = sc["iter"].as_u64().unwrap() as usize;
                    cfg.opts.population_size = 2 + i % 4;
                    cfg.opts.ncycles_per_iteration = 1 + i % 3;
                    cfg.opts.optimizer_iterations = 2;
                    let fired = Arc::new(AtomicBool::new(false));
                    let mut opts = cfg.opts.clone();
                    // a fault in the code a task runs: in the loss, or in its gradient during optimization
                    if crash > 0 && s == 0 && (i + rep) % 3 != 0 {
                        let grad = (i + rep) % 3 == 1;
                        if grad {
                            opts.should_optimize_constants = true;
                            opts.optimizer_probability = 1.0;
                        }
                        let init = opts.populations * opts.population_size + opts.use_baseline as usize;
                        opts.loss = Arc::new(Faulty {
                            inner: opts.loss.clone(),
                            calls: AtomicUsize::new(0),
                            at: if grad { crash + rng.usize(0..4) } else { init + crash * (1 + rng.usize(0..6)) },
                            grad,
                            fired: fired.clone(),
                        });
                    }
                    Arc::new(One { opts, cfg, fired })
                })
                .collect();
            // delays everywhere, and a fault at the start or end of the n-th task when nothing else fails
            let sink_fault = crash > 0 && (i + rep) % 3 == 0 && wh.len() == 1;
            let at_end = rng.bool();
            let slow = rng.u8(0..3);
            let n = AtomicUsize::new(0);
            let fired = ones[0].fired.clone();
            let jitter = AtomicUsize::new(rng.usize(0..1000));
            vh::set_sink(Some(Arc::new(move |e: Event| {
                let j = jitter.fetch_add(0x9E37, Ordering::Relaxed) % 7;
                let task = matches!(&e, Event::TaskStart { .. } | Event::TaskEnd { .. });
                if slow == 1 && task || slow == 2 && !task {
                    std::thread::sleep(Duration::from_micros(150 * j as u64));
                }
                let here = if at_end { matches!(&e, Event::TaskEnd { .. }) } else { matches!(&e, Event::TaskStart { .. }) };
                if sink_fault && here && n.fetch_add(1, Ordering::SeqCst) + 1 == crash {
                    fired.store(true, Ordering::SeqCst);
                    panic!("injected fault");
                }
            })));
            let (tx, rx) = mpsc::channel();
            let nested = rng.bool();
            let mut inside = vec![];
            for (s, w) in wh.iter().enumerate() {
                let (o, tx) = (ones[s].clone(), tx.clone());
                let w = w.clone();
                let job = move || {
                    let r = outcome(&o, w == "eng");
                    let _ = tx.send((s, r));
                };
                match wh[s].as_str() {
                    "in" if nested => inside.push(job),
                    "in" => rayon::spawn(job),
                    _ => {
                        std::thread::spawn(job);
                    }
                }
            }
            if !inside.is_empty() {
                // started by a pool job, so that they queue on one worker
                rayon::spawn(move || {
                    for j in inside {
                        rayon::spawn(j);
                    }
                });
            }
            let mut out: Vec<Option<&str>> = vec![None; wh.len()];
            for _ in 0..wh.len() {
                match rx.recv_timeout(Duration::from_secs(40)) {
                    Ok((s, r)) => out[s] = Some(r),
                    Err(_) => break,
                }
            }
            vh::set_sink(None);
            let hang = out.iter().any(|o| o.is_none());
            let outs: Vec<Value> = ones
                .iter()
                .zip(&out)
                .map(|(o, r)| json!({"o": r.unwrap_or("hang"), "fired": o.fired.load(Ordering::SeqCst)}))
                .collect();
            let mut sc = sc.clone();
            sc["T"] = json!(threads);
            runs.push(json!({"sc": sc, "out": outs}));
            if hang {
                hangs += 1;
                if hangs >= 1 {
                    break 'all; // the pool is stuck from here on
                }
            }
        }
    }
    json!({ "runs": runs })
}
