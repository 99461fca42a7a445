//! Running real searches under the event sink, with optional schedule forcing and fault injection.
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use dynamic_expressions::OpId;
use dynamic_expressions::OperatorSet;
use dynamic_expressions::node::PNode;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use fastrand::Rng;
use ndarray::{Array1, Array2};
use serde_json::{Value, json};
use symbolic_regression::verif_hooks::{self as vh, Event, MemberView, StateView};
use symbolic_regression::{
    Dataset, LossKind, Operators, Options, OutputStyle, PopMember, SearchEngine, equation_search, make_loss,
};

use crate::refops::{self, RefLoss};

pub const D: usize = 3;
pub type Ops = BuiltinOpsF64;
pub type Opts = Options<f64, D>;

#[derive(Clone)]
pub struct RunCfg {
    pub name: String,
    pub opts: Opts,
    pub ref_loss: RefLoss,
    pub x: Vec<Vec<f64>>, // rows
    pub y: Vec<f64>,
    pub w: Option<Vec<f64>>,
    pub threads: usize, // 0: stepped engine; n: equation_search in a pool of n threads
    pub sched: Option<Vec<usize>>,
    pub step_chunk: usize, // engine only: 0 = run to completion
    pub steps: Vec<usize>, // engine only: the exact sizes to step by
    pub outside: bool,     // call from outside the (global) pool
}

/// The same vector in a contiguous, strided or reversed memory layout.
pub fn laid_out(v: &[f64], lay: u64) -> Array1<f64> {
    match lay {
        1 => Array1::from_iter(v.iter().flat_map(|a| [*a, 1e30])).slice_move(ndarray::s![..;2]),
        2 => {
            let mut a = Array1::from_iter(v.iter().rev().copied());
            a.invert_axis(ndarray::Axis(0));
            a
        }
        _ => Array1::from(v.to_vec()),
    }
}

impl RunCfg {
    pub fn dataset(&self) -> Dataset<f64> {
        let rows = self.x.len();
        let nf = self.x[0].len();
        let x = Array2::from_shape_fn((nf, rows), |(f, r)| self.x[r][f]);
        let lay = self.opts.seed % 3;
        let x = if lay == 1 { x.t().as_standard_layout().to_owned().reversed_axes() } else { x };
        Dataset::with_weights_and_names(x, laid_out(&self.y, lay), self.w.as_ref().map(|w| laid_out(w, lay)), Vec::new())
    }
    pub fn nfeat(&self) -> usize {
        self.x[0].len()
    }
    /// Reference loss on the full data; infinite when evaluation is not finite throughout.
    pub fn truth(&self, nodes: &[PNode], consts: &[f64]) -> f64 {
        let mut yhat = Vec::with_capacity(self.y.len());
        for r in &self.x {
            let (v, fin) = refops::eval_row::<Ops>(nodes, consts, r);
            if !fin {
                return f64::INFINITY;
            }
            yhat.push(v);
        }
        let l = refops::loss(&self.ref_loss, &yhat, &self.y, self.w.as_deref());
        if l.is_finite() { l } else { f64::INFINITY }
    }
    pub fn norm(&self) -> f64 {
        let z = vec![0.0; self.y.len()];
        let b = refops::loss(&self.ref_loss, &z, &self.y, self.w.as_deref());
        if self.opts.use_baseline && b.is_finite() && b >= 0.01 { b } else { 0.01 }
    }
}

pub fn ref_of(kind: LossKind) -> RefLoss {
    match kind {
        LossKind::Mse => RefLoss::Mse,
        LossKind::Mae => RefLoss::Mae,
        LossKind::Rmse => RefLoss::Rmse,
        LossKind::Huber { delta } => RefLoss::Huber(delta),
        LossKind::LogCosh => RefLoss::LogCosh,
        LossKind::Lp { p } => RefLoss::Lp(p),
        LossKind::Quantile { tau } => RefLoss::Quantile(tau),
        LossKind::EpsilonInsensitive { eps } => RefLoss::Eps(eps),
    }
}

pub fn operators(names: &[(&str, u8)]) -> Operators<D> {
    let mut o = Operators::<D>::new();
    for (n, a) in names {
        o.push(op(n, *a));
    }
    o
}

pub fn op(name: &str, arity: u8) -> OpId {
    for &id in Ops::ops_with_arity(arity) {
        let o = OpId { arity, id };
        if Ops::name(o).eq_ignore_ascii_case(name) {
            return o;
        }
    }
    panic!("no operator {name}/{arity}")
}

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.usize(0..v.len())]
}

/// A pseudo-random search configuration; `i` spreads the interesting switches.
pub fn gen_cfg(seed: u64, i: usize) -> RunCfg {
    let mut r = Rng::with_seed(seed.wrapping_mul(0x9E37_79B9).wrapping_add(i as u64 * 7919 + 13));
    let nf = 1 + r.usize(0..3);
    let rows = *pick(&mut r, &[1usize, 5, 12, 20, 33]);
    let x: Vec<Vec<f64>> = (0..rows)
        .map(|_| (0..nf).map(|_| (r.f64() * 8.0 - 4.0) * 1.0).collect())
        .collect();
    let scale = *pick(&mut r, &[1.0, 1.0, 1.0, 0.01]);
    let form = r.usize(0..4);
    let y: Vec<f64> = x
        .iter()
        .map(|v| {
            let a = v[0];
            let b = v[nf - 1];
            scale
                * match form {
                    0 => a * a + 2.0 * b - 1.0,
                    1 => (a * 1.3).sin() * 2.0 + b,
                    2 => a * b * 0.5 + 3.0,
                    _ => (a.abs() + 1.0).ln() + 0.1 * b,
                }
        })
        .collect();
    let w = r.bool().then(|| (0..rows).map(|_| r.f64() * 3.0 + 0.01).collect::<Vec<f64>>());
    let mut o = Opts::default();
    o.seed = r.u64(0..1 << 40);
    o.progress = false;
    o.output_style = OutputStyle::Plain;
    o.populations = *pick(&mut r, &[1, 2, 2, 3, 3, 4]);
    o.population_size = *pick(&mut r, &[2, 4, 6, 8, 12]);
    o.niterations = *pick(&mut r, &[1, 2, 3, 4, 6]);
    o.ncycles_per_iteration = *pick(&mut r, &[1, 3, 6, 15]);
    o.maxsize = *pick(&mut r, &[1, 2, 3, 5, 7, 9, 12, 15, 20]);
    o.maxdepth = *pick(&mut r, &[2, 3, 4, 6, 30]);
    o.warmup_maxsize_by = *pick(&mut r, &[0.0, 0.0, 0.3, 0.5, 0.9, 1.0]);
    o.parsimony = *pick(&mut r, &[0.0, 0.0, 0.003, 0.5]);
    o.topn = *pick(&mut r, &[0, 1, 2, 3, 12]);
    o.migration = r.u8(0..4) != 0;
    o.hof_migration = r.u8(0..4) != 0;
    o.fraction_replaced = *pick(&mut r, &[0.0, 0.1, 0.3, 0.6, 2.0]);
    o.fraction_replaced_hof = *pick(&mut r, &[0.0, 0.1, 0.3, 0.6, 1.5]);
    o.batching = r.u8(0..3) == 0;
    o.batch_size = *pick(&mut r, &[1, 3, 10, 50]);
    o.use_baseline = r.u8(0..4) != 0;
    o.crossover_probability = *pick(&mut r, &[0.0259, 0.3, 0.7, 1.0]);
    if o.population_size < 2 {
        o.crossover_probability = 0.0;
    }
    o.tournament_selection_n = *pick(&mut r, &[1, 2, 3, 5, 15]);
    o.tournament_selection_p = *pick(&mut r, &[0.982, 1.0, 0.5]);
    o.annealing = r.bool();
    o.alpha = *pick(&mut r, &[3.17, 0.1]);
    o.use_frequency = r.bool();
    o.use_frequency_in_tournament = r.bool();
    o.adaptive_parsimony_scaling = *pick(&mut r, &[1040.0, 20.0]);
    o.skip_mutation_failures = r.u8(0..3) != 0;
    o.should_simplify = r.u8(0..4) != 0;
    o.should_optimize_constants = r.u8(0..4) != 0;
    o.optimizer_probability = *pick(&mut r, &[0.0, 0.14, 0.5, 1.0]);
    o.optimizer_iterations = *pick(&mut r, &[2, 8]);
    o.optimizer_nrestarts = *pick(&mut r, &[0, 1, 2]);
    let kind = match r.u8(0..10) {
        0 => LossKind::Mae,
        1 => LossKind::Rmse,
        2 => LossKind::Huber { delta: 0.7 },
        3 => LossKind::LogCosh,
        4 => LossKind::Quantile { tau: 0.3 },
        5 => LossKind::Lp { p: 3.0 },
        6 => LossKind::EpsilonInsensitive { eps: 0.2 },
        _ => LossKind::Mse,
    };
    o.loss = make_loss(kind);
    let sets: [&[(&str, u8)]; 6] = [
        &[("add", 2), ("sub", 2), ("mul", 2), ("div", 2)],
        &[("add", 2), ("mul", 2), ("sin", 1), ("cos", 1)],
        &[("add", 2), ("sub", 2), ("mul", 2), ("log", 1), ("sqrt", 1), ("exp", 1)],
        &[("sub", 2), ("max", 2), ("neg", 1), ("abs2", 1), ("fma", 3), ("clamp", 3)],
        &[("add", 2), ("neg", 1), ("inv", 1), ("tanh", 1)],
        &[("mul", 2), ("sub", 2), ("add", 2), ("div", 2), ("cos", 1), ("pow", 2)],
    ];
    let mut set = *pick(&mut r, &sets);
    if i % 11 == 3 {
        // no binary-free dead ends at maxsize 1/2, but exercise a unary-only library too
        set = &[("sin", 1), ("neg", 1), ("abs", 1)];
    }
    o.operators = operators(set);
    o.mutation_weights.optimize = *pick(&mut r, &[0.0, 0.3]);
    o.mutation_weights.randomize = *pick(&mut r, &[0.0005, 0.5]);
    o.mutation_weights.simplify = *pick(&mut r, &[0.002, 0.5]);
    o.mutation_weights.insert_node = *pick(&mut r, &[0.01, 2.0]);
    // constraints
    if r.u8(0..3) == 0 {
        let (n, a) = *pick(&mut r, set);
        o.op_constraints
            .set_op_arg_constraint(op(n, a), r.usize(0..a as usize), 1 + r.u16(0..3));
    }
    if r.u8(0..3) == 0 {
        let (n, a) = *pick(&mut r, set);
        let (n2, a2) = *pick(&mut r, set);
        o.nested_constraints.add_nested_constraint(op(n, a), op(n2, a2), r.u8(0..2));
    }
    match r.u8(0..6) {
        0 => {
            o.complexity_of_constants = 2;
            o.complexity_of_variables = 1;
            let (n, a) = *pick(&mut r, set);
            o.operator_complexity_overrides.insert(op(n, a), 1 + r.u16(1..4));
        }
        1 => {
            o.complexity_of_variables = 3;
            o.variable_complexities = Some((0..nf as u16).map(|k| 1 + k).collect());
        }
        2 => {
            o.complexity_of_constants = 0;
        }
        _ => {}
    }
    let threads = match i % 4 {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => 3,
    };
    RunCfg {
        name: format!("gen{i}"),
        ref_loss: ref_of(kind),
        opts: o,
        x,
        y,
        w,
        threads,
        sched: None,
        step_chunk: r.usize(0..4),
        steps: vec![],
        outside: false,
    }
}

/// A search in which most ways of changing an equation are switched off.
/// "all": nothing may change; "shape": only constants may; "const": no new constant may appear.
pub fn frozen_cfg(seed: u64, i: usize) -> RunCfg {
    let mut c = gen_cfg(seed ^ 0xF02E, i);
    let mut r = Rng::with_seed(seed ^ (i as u64).wrapping_mul(0x5851_F42D));
    let off = ["all", "shape", "const"][i % 3];
    c.name = format!("{off}{i}");
    let o = &mut c.opts;
    let w = &mut o.mutation_weights;
    let mut any = |v: &mut f64, on: bool| *v = if on { r.f64() + 0.1 } else { 0.0 };
    let (all, shape, cst) = (false, off == "shape", off == "const");
    any(&mut w.mutate_constant, shape);
    any(&mut w.mutate_operator, cst);
    any(&mut w.mutate_feature, cst);
    any(&mut w.swap_operands, cst);
    any(&mut w.rotate_tree, cst);
    any(&mut w.add_node, all);
    any(&mut w.insert_node, all);
    any(&mut w.delete_node, cst);
    any(&mut w.simplify, i % 2 == 0);
    any(&mut w.randomize, all);
    any(&mut w.do_nothing, true);
    any(&mut w.optimize, shape || i % 2 == 1);
    o.should_simplify = false;
    if !cst {
        o.crossover_probability = 0.0;
    }
    if !shape {
        match r.u8(0..2) {
            0 => o.should_optimize_constants = false,
            _ => o.optimizer_probability = 0.0,
        }
    }
    c
}

pub struct RunLog {
    pub events: Vec<Event>,
    pub panic: Option<String>,
    pub steps: Vec<[u64; 5]>, // requested, returned, completed before, completed after, finished
    pub result: Option<(Vec<(usize, MemberView)>, MemberView, Vec<MemberView>)>, // hall, best, front
    pub forced: bool,
}

struct Gate {
    inflight: Vec<usize>,
    iter_applied: usize,
    step: usize,
    allowed: Option<usize>,
    broken: bool,
    events: Vec<Event>,
    fronts: Vec<()>,
    last: Instant,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// Run one search and record its events. `panic_at`: panic inside the k-th started task.
pub fn run(cfg: &RunCfg, panic_at: Option<usize>) -> RunLog {
    let npops = cfg.opts.populations;
    let workers = cfg.threads.min(npops).max(1);
    let gate = Arc::new((
        Mutex::new(Gate {
            inflight: vec![],
            iter_applied: 0,
            step: 0,
            allowed: None,
            broken: false,
            events: vec![],
            fronts: vec![],
            last: Instant::now(),
        }),
        Condvar::new(),
    ));
    // Where the code under test does not follow the schedules at all, stop trying to force them.
    static BROKEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let sched = cfg.sched.clone().filter(|_| BROKEN.load(std::sync::atomic::Ordering::Relaxed) < 3);
    let g2 = gate.clone();
    let started = Arc::new(Mutex::new(0usize));
    let sink = move |ev: Event| {
        let (m, cv) = &*g2;
        let decide = |g: &mut Gate| {
            if let Some(s) = &sched {
                let expect = workers.min(npops - g.iter_applied.min(npops));
                if g.allowed.is_none() && !g.inflight.is_empty() && g.inflight.len() >= expect {
                    let k = s.get(g.step).copied().unwrap_or(0) % g.inflight.len();
                    g.allowed = Some(g.inflight[k]);
                }
            }
        };
        let boom = match (&ev, panic_at) {
            (Event::TaskStart { .. }, Some(k)) => {
                let mut n = started.lock().unwrap();
                *n += 1;
                *n == k
            }
            _ => false,
        };
        let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
        g.last = Instant::now();
        let mut wait_for = None;
        match &ev {
            Event::Dispatch { pop, .. } => {
                g.inflight.push(*pop);
                decide(&mut g);
            }
            Event::ApplyStart { pop, .. } => {
                let p = *pop;
                g.inflight.retain(|q| *q != p);
                g.iter_applied += 1;
                g.step += 1;
                g.allowed = None;
                if g.iter_applied == npops {
                    g.iter_applied = 0;
                }
            }
            Event::ApplyEnd { .. } => decide(&mut g),
            Event::TaskEnd { pop, .. } => wait_for = Some(*pop),
            _ => {}
        }
        g.events.push(ev);
        cv.notify_all();
        if boom {
            drop(g);
            panic!("injected fault");
        }
        if let (Some(p), Some(_)) = (wait_for, &sched) {
            let t0 = Instant::now();
            while g.allowed != Some(p) && !g.broken {
                decide(&mut g);
                if g.allowed == Some(p) {
                    break;
                }
                let (g3, _) = cv.wait_timeout(g, Duration::from_millis(200)).unwrap_or_else(|e| e.into_inner());
                g = g3;
                if t0.elapsed() > Duration::from_secs(5) && g.last.elapsed() > Duration::from_secs(5) {
                    BROKEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    g.broken = true; // the code schedules differently: stop forcing, keep recording
                }
            }
        }
    };
    vh::set_sink(Some(Arc::new(sink)));
    let ds = cfg.dataset();
    let mut steps = vec![];
    let out = catch_unwind(AssertUnwindSafe(|| {
        if cfg.threads == 0 {
            let mut eng = SearchEngine::<f64, Ops, D>::new(ds, cfg.opts.clone());
            if cfg.step_chunk == 0 && cfg.steps.is_empty() {
                let r = eng.run_to_completion();
                (vh::hall_views(&r.hall_of_fame), vh::member_view(&r.best), vh::member_views(&r.hall_of_fame.pareto_front()))
            } else {
                let mut n = 0usize;
                let mut k = 0;
                loop {
                    let req = match cfg.steps.get(k) {
                        Some(n) => *n,
                        None if !cfg.steps.is_empty() => break,
                        None if k % 5 == 4 => 0,
                        None => cfg.step_chunk,
                    };
                    k += 1;
                    let before = eng.cycles_completed();
                    let ret = eng.step(req);
                    steps.push([
                        req as u64,
                        ret as u64,
                        before as u64,
                        eng.cycles_completed() as u64,
                        eng.is_finished() as u64,
                    ]);
                    n += 1;
                    if cfg.steps.is_empty() && ((ret < req) || n > 4000) {
                        break;
                    }
                }
                (
                    vh::hall_views(eng.hall_of_fame()),
                    vh::member_view(eng.best()),
                    vh::member_views(&eng.hall_of_fame().pareto_front()),
                )
            }
        } else {
            let opts = cfg.opts.clone();
            let r = if cfg.outside {
                equation_search::<f64, Ops, D>(&ds, &opts)
            } else {
                in_pool(cfg.threads, || equation_search::<f64, Ops, D>(&ds, &opts))
            };
            (vh::hall_views(&r.hall_of_fame), vh::member_view(&r.best), vh::member_views(&r.hall_of_fame.pareto_front()))
        }
    }));
    vh::set_sink(None);
    let mut g = gate.0.lock().unwrap_or_else(|e| e.into_inner());
    let events = std::mem::take(&mut g.events);
    let forced = !g.broken;
    match out {
        Ok(r) => RunLog { events, panic: None, steps, result: Some(r), forced },
        Err(e) => RunLog { events, panic: Some(panic_text(e)), steps, result: None, forced },
    }
}

/// `equation_search` uses the current pool; entering it makes the caller a pool worker, which
/// reserves one thread for orchestration. The pool therefore gets one more thread than wanted.
pub fn in_pool<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    let p = rayon::ThreadPoolBuilder::new().num_threads(n + 1).build().unwrap();
    p.install(f)
}

// ------------------------------------------------------------------------------------------------
// Encoding

pub const INF: i64 = 1_000_000_000;

pub struct Enc {
    exprs: Vec<Vec<PNode>>,
    expr_ix: HashMap<Vec<PNode>, usize>,
    contents: Vec<(usize, Vec<u64>)>,
    content_ix: HashMap<(usize, Vec<u64>), usize>,
    mems: Vec<MemKey>,
    mem_ix: HashMap<MemKey, usize>,
    pub ids: Vec<u64>,
    pub vals: Vec<f64>,
    views: Vec<MemberView>,
}
type MemKey = (u64, Option<u64>, u64, usize, u64, u64, usize);

impl Enc {
    pub fn new() -> Self {
        Enc {
            exprs: vec![],
            expr_ix: HashMap::new(),
            contents: vec![],
            content_ix: HashMap::new(),
            mems: vec![],
            mem_ix: HashMap::new(),
            ids: vec![],
            vals: vec![],
            views: vec![],
        }
    }
    pub fn expr(&mut self, nodes: &[PNode]) -> usize {
        if let Some(i) = self.expr_ix.get(nodes) {
            return *i;
        }
        self.exprs.push(nodes.to_vec());
        self.expr_ix.insert(nodes.to_vec(), self.exprs.len());
        self.exprs.len()
    }
    pub fn content(&mut self, nodes: &[PNode], consts: &[f64]) -> usize {
        let x = self.expr(nodes);
        let key = (x, consts.iter().map(|c| c.to_bits()).collect::<Vec<_>>());
        if let Some(i) = self.content_ix.get(&key) {
            return *i;
        }
        self.contents.push(key.clone());
        self.content_ix.insert(key, self.contents.len());
        self.contents.len()
    }
    pub fn mem(&mut self, m: &MemberView) -> usize {
        let e = self.content(&m.nodes, &m.consts);
        let norm = |v: f64| if v == 0.0 { 0.0 } else { v };
        let key = (m.id, m.parent, m.birth, m.complexity, norm(m.loss).to_bits(), norm(m.cost).to_bits(), e);
        if let Some(i) = self.mem_ix.get(&key) {
            return *i;
        }
        self.mems.push(key);
        self.views.push(m.clone());
        self.mem_ix.insert(key, self.mems.len());
        self.ids.push(m.id);
        if let Some(p) = m.parent {
            self.ids.push(p);
        }
        self.vals.push(m.loss);
        self.vals.push(m.cost);
        self.mems.len()
    }
    pub fn mems(&mut self, ms: &[MemberView]) -> Vec<usize> {
        ms.iter().map(|m| self.mem(m)).collect()
    }
    pub fn hall(&mut self, h: &[(usize, MemberView)]) -> Vec<[usize; 2]> {
        h.iter().map(|(c, m)| [*c, self.mem(m)]).collect()
    }
}

pub fn node_json(n: &PNode) -> Value {
    match *n {
        PNode::Var { feature } => json!([0, feature, 0]),
        PNode::Const { idx } => json!([1, idx, 0]),
        PNode::Op { arity, op } => json!([2, arity, op]),
    }
}
pub fn nodes_json(ns: &[PNode]) -> Value {
    Value::Array(ns.iter().map(node_json).collect())
}

pub struct Ranks(Vec<u64>, Vec<f64>);
impl Ranks {
    pub fn new(ids: &[u64], vals: &[f64]) -> Self {
        let mut ids = ids.to_vec();
        ids.sort();
        ids.dedup();
        let mut v: Vec<f64> = vals.iter().copied().filter(|v| v.is_finite()).map(|v| if v == 0.0 { 0.0 } else { v }).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        Ranks(ids, v)
    }
    pub fn id(&self, i: u64) -> i64 {
        self.0.binary_search(&i).map(|k| k as i64 + 1).unwrap_or(-2)
    }
    pub fn val(&self, x: f64) -> i64 {
        if x.is_nan() {
            -1
        } else if x == f64::INFINITY {
            INF
        } else if x == f64::NEG_INFINITY {
            -INF
        } else {
            self.1.binary_search_by(|a| a.partial_cmp(&x).unwrap()).map(|k| k as i64 + 1).unwrap_or(-3)
        }
    }
}

pub fn cfg_json(c: &RunCfg) -> Value {
    let o = &c.opts;
    let mut opcx: Vec<Value> = o.operator_complexity_overrides.iter().map(|(k, v)| json!([k.arity, k.id, v])).collect();
    opcx.sort_by_key(|v| v.to_string());
    let mut oparg = vec![];
    for (k, lims) in &o.op_constraints.limits {
        for (j, l) in lims.iter().enumerate() {
            if let Some(l) = l {
                oparg.push(json!([k.arity, k.id, j + 1, l]));
            }
        }
    }
    let mut nested = vec![];
    for (k, v) in &o.nested_constraints.limits {
        for (n, m) in v {
            nested.push(json!([k.arity, k.id, n.arity, n.id, m]));
        }
    }
    let ops: Vec<Value> = o.operators.ops_by_arity.iter().flatten().map(|k| json!([k.arity, k.id])).collect();
    let nw = 10_000i64;
    json!({
        "name": c.name, "npops": o.populations, "niter": o.niterations, "maxsize": o.maxsize, "maxdepth": o.maxdepth,
        "topn": o.topn, "mig": o.migration, "hofmig": o.hof_migration,
        "fr0": o.fraction_replaced <= 0.0, "frh0": o.fraction_replaced_hof <= 0.0,
        "nfeat": c.nfeat(), "ops": ops, "cvar": o.complexity_of_variables,
        "ccst": o.complexity_of_constants, "vcx": o.variable_complexities.clone().unwrap_or_default(),
        "opcx": opcx, "oparg": oparg, "nested": nested, "batch": o.batching,
        "warm": (o.warmup_maxsize_by as f64 * nw as f64).round() as i64,
        "popsize": o.population_size, "off": off_of(c),
        "threads": c.threads, "workers": c.threads.min(o.populations).max(1),
    })
}

/// what is switched off in this search
fn off_of(c: &RunCfg) -> &str {
    ["all", "shape", "const"].into_iter().find(|p| c.name.starts_with(p)).unwrap_or("")
}

fn state_json(e: &mut Enc, s: &StateView, scale: f64) -> Value {
    let mut h = e.hall(&s.hall);
    h.sort();
    json!({
        "tc": s.total_cycles, "cs": s.cycles_started, "cc": s.cycles_completed, "ev": s.total_evals,
        "pres": s.present, "hall": h, "best": e.mem(&s.best),
        "bsp": s.best_sub_pops.iter().map(|v| e.mems(v)).collect::<Vec<_>>(),
        "freq": s.frequencies.iter().map(|f| (f * scale).round() as i64).collect::<Vec<_>>(),
    })
}

/// JSON of one run: members, expressions and events, with ids and costs replaced by dense ranks.
pub fn log_json(cfg: &RunCfg, log: &RunLog) -> Value {
    let mut e = Enc::new();
    let mut evs = enc_events(&mut e, log);
    let rk = Ranks::new(&e.ids, &e.vals);
    rank_ids(&mut evs, &rk);
    let mut out = members_json(cfg, &e);
    out["cfg"] = cfg_json(cfg);
    out["ev"] = Value::Array(evs);
    out["steps"] = json!(log.steps);
    out["forced"] = json!(log.forced);
    out
}

pub fn rank_ids(evs: &mut [Value], rk: &Ranks) {
    for ev in evs.iter_mut() {
        if let Some(n) = ev.get("nid").and_then(|n| n.as_u64()) {
            ev["nid"] = json!(rk.id(n));
        }
    }
}

/// The events of a run, with members numbered by `e`.
pub fn enc_events(e: &mut Enc, log: &RunLog) -> Vec<Value> {
    let mut evs: Vec<Value> = vec![];
    for ev in &log.events {
        let v = match ev {
            Event::Init { pops, hall, best, best_sub_pops, total_evals } => {
                let mut h = e.hall(hall);
                h.sort();
                json!({"t": "init", "pops": pops.iter().map(|p| e.mems(p)).collect::<Vec<_>>(), "hall": h,
                    "best": e.mem(best), "bsp": best_sub_pops.iter().map(|p| e.mems(p)).collect::<Vec<_>>(), "ev": total_evals})
            }
            Event::Dispatch { pop, curmaxsize, normalized_frequencies, state } => {
                json!({"t": "disp", "p": pop + 1, "cur": curmaxsize,
                    "nf": normalized_frequencies.iter().map(|f| (f * 100_000.0).round() as i64).collect::<Vec<_>>(),
                    "st": state_json(e, state, 1.0)})
            }
            Event::TaskStart { pop, curmaxsize, members, next_id, next_birth } => {
                e.ids.push(*next_id);
                json!({"t": "start", "p": pop + 1, "cur": curmaxsize, "m": e.mems(members), "nid": next_id, "nb": next_birth})
            }
            Event::TaskEnd { pop, curmaxsize, evals, best_seen, best_sub_pop, members } => {
                let mut h = e.hall(best_seen);
                h.sort();
                json!({"t": "end", "p": pop + 1, "cur": curmaxsize, "ev": evals, "bs": h, "bsp": e.mems(best_sub_pop), "m": e.mems(members)})
            }
            Event::ApplyStart { pop, curmaxsize, evals, best_seen, best_sub_pop, members, next_id, next_birth } => {
                e.ids.push(*next_id);
                let mut h = e.hall(best_seen);
                h.sort();
                json!({"t": "as", "p": pop + 1, "cur": curmaxsize, "ev": evals, "bs": h, "bsp": e.mems(best_sub_pop),
                    "m": e.mems(members), "nid": next_id, "nb": next_birth})
            }
            Event::ApplyEnd { pop, members, next_id, next_birth, state } => {
                e.ids.push(*next_id);
                json!({"t": "ae", "p": pop + 1, "m": e.mems(members), "nid": next_id, "nb": next_birth, "st": state_json(e, state, 1.0)})
            }
        };
        evs.push(v);
    }
    if let Some((h, b, f)) = &log.result {
        let mut hh = e.hall(h);
        hh.sort();
        evs.push(json!({"t": "result", "hall": hh, "best": e.mem(b), "front": e.mems(f)}));
    }
    if let Some(p) = &log.panic {
        evs.push(json!({"t": "panic", "msg": p}));
    }
    evs
}

/// The members and expressions encountered so far.
pub fn members_json(cfg: &RunCfg, e: &Enc) -> Value {
    let rk = Ranks::new(&e.ids, &e.vals);
    let norm = cfg.norm();
    let mut canon: Option<HashMap<String, usize>> = (off_of(cfg) != "").then(HashMap::new);
    let mems: Vec<Value> = e
        .mems
        .iter()
        .zip(&e.views)
        .map(|(k, m)| {
            let wf = refops::well_formed(&m.nodes, m.consts.len(), cfg.nfeat());
            let truth = if wf { cfg.truth(&m.nodes, &m.consts) } else { f64::NAN };
            let want_cost = truth / norm + cfg.opts.parsimony * m.complexity as f64;
            let lo = refops::close_rel(m.loss, truth, 1e-7) || (m.loss - truth).abs() < 1e-12;
            let ko = refops::close_rel(m.cost, m.loss / norm + cfg.opts.parsimony * m.complexity as f64, 1e-7)
                && (refops::close_rel(m.cost, want_cost, 1e-6) || (m.cost - want_cost).abs() < 1e-9);
            // every constant slot used by exactly one node
            let mut used: Vec<usize> = m.nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { Some(*idx as usize) } else { None }).collect();
            used.sort();
            let cuse = used == (0..m.consts.len()).collect::<Vec<_>>();
            let mut v = json!({"id": rk.id(k.0), "pa": k.1.map_or(0, |p| rk.id(p)), "b": k.2, "c": k.3, "l": rk.val(m.loss), "k": rk.val(m.cost),
                "e": k.6, "x": e.contents[k.6 - 1].0, "wf": wf, "cu": cuse, "lo": lo, "ko": ko});
            if let Some(ix) = &mut canon {
                // the equation, its shape and the values of its constants, however its slots are numbered
                let value = |n: &PNode| if let PNode::Const { idx } = n { m.consts.get(*idx as usize).map(|c| c.to_bits()) } else { None };
                let vals: Vec<u64> = m.nodes.iter().filter_map(value).collect();
                let shape: Vec<PNode> = m.nodes.iter().map(|n| if let PNode::Const { .. } = n { PNode::Const { idx: 0 } } else { *n }).collect();
                let mut num = |key: String| {
                    let n = ix.len() + 1;
                    *ix.entry(key).or_insert(n)
                };
                v["cv"] = json!(vals.iter().map(|b| num(b.to_string())).collect::<Vec<_>>());
                v["sh"] = json!(num(format!("{shape:?}")));
                v["se"] = json!(num(format!("{shape:?}{vals:?}")));
            }
            v
        })
        .collect();
    json!({"exprs": e.exprs.iter().map(|x| nodes_json(x)).collect::<Vec<_>>(), "mem": mems})
}

pub type Member = PopMember<f64, Ops, D>;
