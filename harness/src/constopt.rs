//! Constant optimisation (C37): what it keeps when something goes wrong, and what it reaches.
use std::sync::{Arc, Mutex};

use dynamic_expressions::GradContext;
use dynamic_expressions::node::PNode;
use fastrand::Rng;
use serde_json::{Value, json};
use symbolic_regression::verif_hooks::{self as vh, Evaluator, LossFn, LossObject};
use symbolic_regression::{LossKind, MemberId, make_loss};

use crate::evolve::{World, expr_of, rnd_expr};
use crate::refops::{self, RefLoss};
use crate::search::{self, D, Member, Ops, RunCfg, op};

#[derive(Default)]
struct Log {
    asked: usize,             // questions so far
    outcome: Vec<u64>,        // of each question to come: 0 fine, 1 no finite loss, 2 no finite slope
    last: (f64, u64),         // answer and outcome of the latest question
    moved: f64,               // lowest loss at a point moved to: its slope was asked for, or it was asked for again
    linear: bool,             // different constants have different values
    last_at: Vec<f64>,        // values of the latest question
    heard: f64,               // lowest loss answered
    slopes: usize,
}
/// A loss that fails where it is told to and remembers where the search for constants has been.
struct Faulty(LossObject<f64>, Arc<Mutex<Log>>);
impl LossFn<f64> for Faulty {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        let v = self.0.loss(yhat, y, w);
        let mut g = self.1.lock().unwrap();
        let o = g.outcome.get(g.asked).copied().unwrap_or(0);
        g.asked += 1;
        if v.is_finite() && o != 1 {
            g.heard = g.heard.min(v);
        }
        if v.is_finite() && o == 1 && g.linear && g.last.1 == 0 && g.last_at == yhat {
            g.moved = g.moved.min(v);
        }
        g.last = (v, o);
        g.last_at = yhat.to_vec();
        if o == 1 { f64::NAN } else { v }
    }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        self.0.dloss_dyhat(yhat, y, w, out);
        let mut g = self.1.lock().unwrap();
        g.slopes += 1;
        let (v, o) = g.last;
        if o != 1 && v.is_finite() {
            g.moved = g.moved.min(v);
        }
        if o == 2 {
            out.fill(f64::NAN);
        }
    }
}

/// A loss without slope, lower at each question, that remembers where its slope was asked for.
struct Flat(Arc<Mutex<Vec<Vec<f64>>>>);
impl LossFn<f64> for Flat {
    fn loss(&self, _: &[f64], _: &[f64], _: Option<&[f64]>) -> f64 {
        1.0 / (1.0 + self.0.lock().unwrap().len() as f64)
    }
    fn dloss_dyhat(&self, yhat: &[f64], _: &[f64], _: Option<&[f64]>, out: &mut [f64]) {
        self.0.lock().unwrap().push(yhat.to_vec());
        out.fill(0.0);
    }
}

fn optimise(w: &World, m: &mut Member, r: &mut Rng) -> bool {
    let mut ev = Evaluator::new(w.data.n_rows);
    let mut grad = GradContext::<f64, D>::new(w.data.n_rows);
    let mut nb = 50;
    let ctx = vh::OptimizeConstantsCtx { dataset: w.tagged(), options: &w.cfg.opts, evaluator: &mut ev, grad_ctx: &mut grad, next_birth: &mut nb };
    vh::optimize_constants(r, m, ctx).0
}

fn base_cfg(seed: u64, i: usize) -> RunCfg {
    let mut cfg = search::gen_cfg(seed, i + 37_000);
    let o = &mut cfg.opts;
    o.should_optimize_constants = true;
    o.maxsize = 60;
    o.maxdepth = 60;
    o.batching = false;
    o.operators = search::operators(&[("add", 2), ("sub", 2), ("mul", 2), ("neg", 1), ("cos", 1), ("exp", 1), ("div", 2)]);
    cfg
}

/// something linear in its constants, in postfix
fn linear(r: &mut Rng, nf: usize, k: &mut u16, most: u16, depth: usize, out: &mut Vec<PNode>) {
    let o = |n: &str, a: u8| PNode::Op { arity: a, op: op(n, a).id };
    fn plain(r: &mut Rng, nf: usize, out: &mut Vec<PNode>) {
        let v = |r: &mut Rng| PNode::Var { feature: r.usize(0..nf) as u16 };
        out.push(v(r));
        if r.u8(0..4) == 0 {
            out.push(v(r));
            out.push(PNode::Op { arity: 2, op: op(["add", "mul"][r.usize(0..2)], 2).id });
        }
    }
    match if depth == 0 { 0 } else { r.usize(0..7) } {
        0 | 1 => {
            if *k < most {
                out.push(PNode::Const { idx: *k });
                *k += 1;
            } else {
                plain(r, nf, out);
            }
        }
        2 => {
            plain(r, nf, out);
            linear(r, nf, k, most, depth - 1, out);
            out.push(o("mul", 2));
        }
        3 => {
            linear(r, nf, k, most, depth - 1, out);
            plain(r, nf, out);
            out.push(o("mul", 2));
        }
        4 => {
            linear(r, nf, k, most, depth - 1, out);
            out.push(o("neg", 1));
        }
        _ => {
            linear(r, nf, k, most, depth - 1, out);
            linear(r, nf, k, most, depth - 1, out);
            out.push(o(["add", "sub"][r.usize(0..2)], 2));
        }
    }
}

fn det(g: &[Vec<i64>]) -> i64 {
    match g.len() {
        0 => 1,
        1 => g[0][0],
        n => (0..n)
            .map(|c| {
                let minor: Vec<Vec<i64>> = g[1..].iter().map(|r| r.iter().enumerate().filter(|(j, _)| *j != c).map(|(_, v)| *v).collect()).collect();
                (if c % 2 == 0 { 1 } else { -1 }) * g[0][c] * det(&minor)
            })
            .sum(),
    }
}

/// squared loss, an equation linear in its constants, small integers everywhere
fn quadratic(r: &mut Rng, seed: u64, i: usize) -> Option<Value> {
    let mut cfg = base_cfg(seed, i);
    let (nr, nf) = (2 + r.usize(0..4), 1 + r.usize(0..3));
    let int = |r: &mut Rng, m: i64| (r.usize(0..(2 * m + 1) as usize) as i64 - m) as f64;
    cfg.x = (0..nr).map(|_| (0..nf).map(|_| int(r, 2)).collect()).collect();
    cfg.y = (0..nr).map(|_| int(r, 3)).collect();
    cfg.w = if r.u8(0..3) == 0 { Some((0..nr).map(|_| (1 + r.usize(0..2)) as f64).collect()) } else { None };
    cfg.opts.variable_complexities = None;
    cfg.opts.loss = make_loss(LossKind::Mse);
    cfg.ref_loss = RefLoss::Mse;
    let mut nodes = vec![];
    let mut k = 0u16;
    let most = 1 + r.usize(0..2) as u16;
    linear(r, nf, &mut k, most, 3, &mut nodes);
    let k = k as usize;
    if k == 0 {
        return None;
    }
    // columns of the design, as integers
    let col = |c: &[f64]| -> Vec<f64> { cfg.x.iter().map(|row| refops::eval_row::<Ops>(&nodes, c, row).0).collect() };
    let off = col(&vec![0.0; k]);
    let mut cols: Vec<Vec<i64>> = (0..k)
        .map(|j| {
            let mut c = vec![0.0; k];
            c[j] = 1.0;
            col(&c).iter().zip(&off).map(|(a, b)| (a - b) as i64).collect()
        })
        .collect();
    cols.push(cfg.y.iter().zip(&off).map(|(a, b)| (a - b) as i64).collect());
    let wt: Vec<i64> = (0..nr).map(|j| cfg.w.as_ref().map_or(1, |w| w[j] as i64)).collect();
    let gram: Vec<Vec<i64>> = cols.iter().map(|a| cols.iter().map(|b| (0..nr).map(|j| wt[j] * a[j] * b[j]).sum()).collect()).collect();
    let small: Vec<Vec<i64>> = gram[..k].iter().map(|g| g[..k].to_vec()).collect();
    let (dd, nn) = (det(&small), det(&gram));
    let trace: i64 = (0..k).map(|j| gram[j][j]).sum();
    // well conditioned, and within TLC's integers
    if dd <= 0 || nn > 20_000 || gram.iter().flatten().any(|v| v.abs() > 500) || (k == 2 && trace * trace > 200 * dd) {
        return None;
    }
    let o = &mut cfg.opts;
    o.optimizer_nrestarts = r.usize(0..3);
    o.optimizer_iterations = if k == 1 { 4 + r.usize(0..30) } else { 60 };
    o.optimizer_f_calls_limit = [0, 10_000][r.usize(0..2)];
    let w = World::new(cfg);
    let consts: Vec<f64> = (0..k).map(|_| int(r, 40) / 8.0).collect();
    let mut m = w.member(7, 3, expr_of(nodes, consts));
    let start = m.loss;
    optimise(&w, &mut m, r);
    let sw: i64 = wt.iter().sum();
    let q = |l: f64| (l * (sw * dd) as f64 * 1e5).min(2e9).round() as i64;
    Some(json!({"t": "quad", "cols": cols, "w": wt, "det": dd, "loss": q(m.loss), "start": q(start), "k": k}))
}

pub fn c37(seed: u64, n: usize, words: &[Vec<u64>]) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC37);
    // faults, as the design model can meet them
    for (i, word) in words.iter().enumerate() {
        let mut cfg = base_cfg(seed, i);
        let kind = *[LossKind::Mse, LossKind::Huber { delta: 1.0 }, LossKind::LogCosh].get(r.usize(0..3)).unwrap();
        cfg.ref_loss = RefLoss::Mse; // not used: losses are compared with each other only
        let log = Arc::new(Mutex::new(Log { moved: f64::INFINITY, heard: f64::INFINITY, ..Default::default() }));
        cfg.opts.loss = Arc::new(Faulty(make_loss(kind), log.clone()));
        cfg.opts.optimizer_nrestarts = i % 3;
        let limited = i % 4 == 3;
        let limit = [1, 2, 3, 5, 8, 13, 30][r.usize(0..7)];
        cfg.opts.optimizer_f_calls_limit = if limited { limit } else { [0, 10_000][r.usize(0..2)] };
        cfg.opts.optimizer_iterations = [1, 2, 3, 8, 20][r.usize(0..5)];
        let iters = cfg.opts.optimizer_iterations;
        let nf = cfg.nfeat();
        let w = World::new(cfg);
        let mut e = rnd_expr(&mut r, &w.cfg, 9);
        for _ in 0..20 {
            if i % 2 == 0 {
                let (mut nodes, mut k) = (vec![], 0);
                linear(&mut r, nf, &mut k, 1 + (i / 2 % 2) as u16, 3, &mut nodes);
                e = expr_of(nodes, (0..k).map(|_| r.f64() * 8.0 - 4.0).collect());
            } else {
                e = rnd_expr(&mut r, &w.cfg, 9);
                // with one constant, the slope is also asked for beside the points moved to: keep the loss smooth at that scale
                if e.consts.len() == 1 {
                    let (mut nodes, mut k) = (vec![], 0);
                    linear(&mut r, nf, &mut k, 1, 3, &mut nodes);
                    nodes.push(PNode::Op { arity: 1, op: op("exp", 1).id });
                    e = expr_of(nodes, (0..k).map(|_| r.f64() * 2.0 - 1.0).collect());
                }
            }
            if !e.consts.is_empty() {
                break;
            }
        }
        let mut m = w.member(7, 3, e);
        let before = m.loss;
        if m.expr.consts.is_empty() || !before.is_finite() {
            continue;
        }
        let starts = w.cfg.opts.optimizer_nrestarts + 1;
        *log.lock().unwrap() = Log { moved: f64::INFINITY, heard: f64::INFINITY, outcome: [&[0], &word[..]].concat(), linear: i % 2 == 0, ..Default::default() };
        let improved = optimise(&w, &mut m, &mut r);
        let g = log.lock().unwrap();
        // the last question is about the result itself
        let spoilt = g.last.1 == 1;
        // a squared loss of something linear has one valley: whatever was heard on the way is reached
        let valley = i % 2 == 0 && word.is_empty() && matches!(kind, LossKind::Mse);
        let best = g.moved.min(before).min(if valley { g.heard } else { f64::INFINITY });
        out.push(json!({"t": "kept", "word": word, "starts": starts, "limit": w.cfg.opts.optimizer_f_calls_limit, "iters": iters,
            "asked": g.asked, "slopes": g.slopes, "spoilt": spoilt, "improved": improved, "notworse": m.loss <= before,
            "loss": m.loss.to_string(), "best": best.to_string(), "before": before.to_string(), "kept": m.loss <= best + 1e-3 * best.abs() + 1e-9}));
    }
    // convex quadratics
    let mut i = 0;
    let least = out.len() + n;
    while out.len() < least {
        i += 1;
        out.extend(quadratic(&mut r, seed, i));
    }
    // a stationary point that is no minimum is left by a restart, and by nothing else
    for i in 0..n / 4 {
        let mut cfg = base_cfg(seed, i);
        cfg.x = (0..12).map(|j| vec![j as f64 * std::f64::consts::PI / 6.0; cfg.nfeat()]).collect();
        cfg.y = cfg.x.iter().map(|v| v[0].cos()).collect();
        cfg.w = None;
        cfg.opts.loss = make_loss(LossKind::Mse);
        cfg.ref_loss = RefLoss::Mse;
        let restarts = i % 4;
        cfg.opts.optimizer_nrestarts = restarts;
        cfg.opts.optimizer_iterations = 30;
        cfg.opts.optimizer_f_calls_limit = 10_000;
        let w = World::new(cfg);
        let nodes = vec![
            PNode::Var { feature: 0 },
            PNode::Const { idx: 0 },
            PNode::Op { arity: 2, op: op("add", 2).id },
            PNode::Op { arity: 1, op: op("cos", 1).id },
        ];
        let mut m = w.member(7, 3, expr_of(nodes, vec![std::f64::consts::PI]));
        m.parent = Some(MemberId(2));
        optimise(&w, &mut m, &mut r);
        out.push(json!({"t": "restart", "restarts": restarts, "bottom": m.loss < 1e-9, "top": m.loss > 1.9}));
    }
    // a flat loss ends every start where it begins
    for i in 0..n / 4 {
        let mut cfg = base_cfg(seed, i);
        cfg.x = (0..4).map(|j| vec![(j % 2) as f64; cfg.nfeat()]).collect();
        cfg.y = vec![0.0; 4];
        cfg.w = None;
        let restarts = [0, 1, 2, 3, 7, 40][i % 6];
        cfg.opts.optimizer_nrestarts = restarts;
        cfg.opts.optimizer_iterations = 1 + i % 9;
        let log = Arc::new(Mutex::new(vec![]));
        cfg.opts.loss = Arc::new(Flat(log.clone()));
        cfg.ref_loss = RefLoss::Mse; // not used
        let two = i % 2 == 1;
        let mut nodes = vec![PNode::Const { idx: 0 }];
        if two {
            nodes.extend([
                PNode::Var { feature: 0 },
                PNode::Const { idx: 1 },
                PNode::Op { arity: 2, op: op("mul", 2).id },
                PNode::Op { arity: 2, op: op("add", 2).id },
            ]);
        }
        let w = World::new(cfg);
        let mut c = || (if r.bool() { 1.0 } else { -1.0 }) * 10f64.powf(r.f64() * 4.0 - 2.0);
        let consts: Vec<f64> = (0..1 + two as usize).map(|_| c()).collect();
        let mut m = w.member(7, 3, expr_of(nodes, consts.clone()));
        log.lock().unwrap().clear();
        optimise(&w, &mut m, &mut r);
        // relative to the current constants, in millionths
        let rel = |v: f64, c: f64| ((v / c - 1.0) * 1e6).clamp(-1e9, 1e9).round() as i64;
        let begins: Vec<Vec<i64>> = log
            .lock()
            .unwrap()
            .iter()
            .map(|y: &Vec<f64>| {
                let mut b = vec![rel(y[0], consts[0])];
                if two {
                    b.push(rel(y[1] - y[0], consts[1]));
                }
                b
            })
            .collect();
        out.push(json!({"t": "begin", "restarts": restarts, "begins": begins}));
    }
    out
}
