//! What the evaluation count counts (C33) and what the first populations look like (C34).
use std::collections::BTreeSet;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};

use dynamic_expressions::node::PNode;
use fastrand::Rng;
use serde_json::{Value, json};
use symbolic_regression::verif_hooks::{Event, LossFn, LossObject};
use symbolic_regression::{LossKind, SearchEngine, make_loss};

use crate::evolve::permissive;
use crate::search::{self, D, Ops, nodes_json};

/// A loss that counts how often it is asked.
struct Counting(LossObject<f64>, Arc<AtomicU64>);
impl LossFn<f64> for Counting {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        self.1.fetch_add(1, Ordering::Relaxed);
        self.0.loss(yhat, y, w)
    }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        self.0.dloss_dyhat(yhat, y, w, out)
    }
}

pub fn c33(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC33);
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 33_000);
        let (maxsize, maxdepth) = (cfg.opts.maxsize.max(3), cfg.opts.maxdepth);
        let (annealing, use_frequency) = (cfg.opts.annealing, cfg.opts.use_frequency);
        permissive(&mut cfg); // operators that are defined everywhere: every evaluation asks the loss once
        let o = &mut cfg.opts;
        if r.bool() {
            o.maxsize = maxsize;
            o.maxdepth = maxdepth;
            o.annealing = annealing;
            o.use_frequency = use_frequency;
        }
        let opt = r.u8(0..3) == 0;
        o.should_optimize_constants = opt;
        if opt {
            o.optimizer_probability = 0.5;
        }
        if i % 5 == 0 {
            o.crossover_probability = *[0.0, 1.0].get(r.usize(0..2)).unwrap();
        }
        let calls = Arc::new(AtomicU64::new(0));
        let kind = *[LossKind::Mae, LossKind::Huber { delta: 1.0 }].get(r.usize(0..2)).unwrap();
        o.loss = Arc::new(Counting(make_loss(kind), calls.clone()));
        let (np, ps, ni) = (o.populations, o.population_size, o.niterations);
        let baseline = |c: &search::RunCfg| c.opts.use_baseline as u64;
        let n0 = calls.load(Ordering::Relaxed);
        let mut eng = SearchEngine::<f64, Ops, D>::new(cfg.dataset(), cfg.opts.clone());
        let base = baseline(&cfg);
        let at = |eng: &SearchEngine<f64, Ops, D>| json!([eng.total_evals(), calls.load(Ordering::Relaxed) - n0]);
        let mut seen = vec![at(&eng)];
        let chunk = 1 + r.usize(0..3);
        while !eng.is_finished() && seen.len() < 200 {
            eng.step(chunk);
            seen.push(at(&eng));
        }
        out.push(json!({"t": "evals", "npops": np, "popsize": ps, "niter": ni, "opt": opt, "base": base, "seen": seen}));
    }
    out
}

pub fn c34(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC34);
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 34_000);
        permissive(&mut cfg);
        let sets: [&[(&str, u8)]; 6] = [
            &[("add", 2), ("sub", 2), ("neg", 1), ("max", 2), ("abs", 1), ("clamp", 3)],
            &[("add", 2), ("mul", 2)],
            &[("neg", 1)],
            &[("clamp", 3)],
            &[("sin", 1), ("div", 2), ("sub", 2)],
            &[("neg", 1), ("clamp", 3)],
        ];
        let set = sets[r.usize(0..sets.len())];
        cfg.opts.operators = search::operators(set);
        cfg.opts.maxsize = *[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 30, 30, 30].get(r.usize(0..14)).unwrap();
        cfg.opts.populations = 1 + r.usize(0..4);
        cfg.opts.population_size = *[3, 30, 60].get(r.usize(0..3)).unwrap();
        cfg.opts.niterations = 1;
        cfg.opts.ncycles_per_iteration = 1;
        cfg.threads = 0;
        cfg.steps = vec![0];
        let (np, ps) = (cfg.opts.populations, cfg.opts.population_size);
        let ops: Vec<_> = cfg.opts.operators.ops_by_arity.iter().flatten().copied().collect();
        let nf = cfg.nfeat();
        let rounds = (600 / (np * ps)).clamp(2, 40);
        let (mut trees, mut shapes) = (vec![], BTreeSet::new());
        let (mut total, mut leaves, mut consts, mut pos, mut pops_ok, mut alike) = (0, 0, 0, 0, true, 0);
        let mut bands = [0usize; 4];
        let mut opn = vec![0usize; ops.len()];
        let mut feats = vec![0usize; nf];
        for _ in 0..rounds {
            cfg.opts.seed = r.u64(0..1 << 40);
            let log = search::run(&cfg, None);
            for e in &log.events {
                let Event::Init { pops, .. } = e else { continue };
                pops_ok &= pops.len() == np && pops.iter().all(|p| p.len() == ps);
                let key = |p: &Vec<symbolic_regression::verif_hooks::MemberView>| -> String {
                    p.iter().map(|m| format!("{:?}{:?}", m.nodes, m.consts)).collect()
                };
                let ks: BTreeSet<String> = pops.iter().map(key).collect();
                alike += (ks.len() < pops.len()) as usize;
                for m in pops.iter().flatten() {
                    total += 1;
                    for nd in &m.nodes {
                        match *nd {
                            PNode::Const { idx } => {
                                consts += 1;
                                let c = m.consts[idx as usize];
                                pos += (c > 0.0) as usize;
                                // quartiles and tails of a standard normal
                                for (k, hit) in [c.abs() < 0.674_489_75, c < -1.0, c > 1.0, c.abs() > 2.0].iter().enumerate() {
                                    bands[k] += *hit as usize;
                                }
                                leaves += 1;
                            }
                            PNode::Var { feature } => {
                                feats[feature as usize] += 1;
                                leaves += 1;
                            }
                            PNode::Op { arity, op } => {
                                if let Some(k) = ops.iter().position(|o| o.arity == arity && o.id == op) {
                                    opn[k] += 1;
                                }
                            }
                        }
                    }
                    let j = nodes_json(&m.nodes);
                    if shapes.insert(j.to_string()) && trees.len() < 150 {
                        trees.push(j);
                    }
                }
            }
        }
        out.push(json!({"t": "init", "cur": cfg.opts.maxsize, "ops": ops.iter().map(|o| json!([o.arity, o.id])).collect::<Vec<_>>(), "nf": nf,
            "trees": trees, "total": total, "expect": rounds * np * ps, "opn": opn, "leaves": leaves, "consts": consts, "pos": pos, "bands": bands, "feats": feats,
            "popsok": pops_ok, "alike": alike, "popsize": ps, "small": ps < 30 || ops.len() < 3 || cfg.opts.maxsize < 10}));
    }
    out
}
