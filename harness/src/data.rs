//! Direct drives of the parts around the search loop: losses (C29), mini-batches (C22), operator selection (C25),
//! size statistics (C20), warm-up (C09), hall of fame (C01), Pareto front (C03) and migration (C11).
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use dynamic_expressions::node::PNode;
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{HasOp, OpId, OperatorSet};
use fastrand::Rng;
use ndarray::Array2;
use num_traits::Float;
use serde_json::{Value, json};
use symbolic_regression::verif_hooks::{self as vh, LossFn, LossObject, Population, RunningSearchStatistics};
use symbolic_regression::{
    Dataset, HallOfFame, LossKind, MemberId, OperatorLibrary, Operators, Options, PopMember, SearchEngine,
    epsilon_insensitive, equation_search, huber, log_cosh, lp, mae, make_loss, mse, quantile, rmse,
};

use crate::evolve::expr_of;
use crate::expr::{Ops4, OpsMul, OpsSub};
use crate::search::{self, D, INF, Member, Ops, Opts, laid_out, op};

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.usize(0..v.len())]
}

// ------------------------------------------------------------------------------------------------ losses (C29)

/// Residuals are integers over `u`; every loss below is an integer over `scale`.
#[derive(Clone, Copy)]
struct Shape {
    kind: &'static str,
    u: i64,
    a: i64, // huber delta and eps in units of 1/u, tau in tenths, the power p
}
impl Shape {
    fn scale(&self) -> f64 {
        let u = self.u as f64;
        match self.kind {
            "mse" | "rmse" => u * u,
            "huber" => 2.0 * u * u,
            "quantile" => 10.0 * u,
            "lp" => u.powi(self.a as i32),
            "logcosh" => 100_000.0,
            _ => u,
        }
    }
    fn gscale(&self) -> f64 {
        let u = self.u as f64;
        match self.kind {
            "mse" | "rmse" | "huber" => u,
            "quantile" => 10.0,
            "lp" => u.powi(self.a as i32 - 1),
            "logcosh" => 100_000.0,
            _ => 1.0,
        }
    }
    fn make<T: Float + Send + Sync + 'static>(&self, r: &mut Rng) -> LossObject<T> {
        let (u, a) = (self.u as f64, self.a as f64);
        let direct = r.bool();
        let k = match self.kind {
            "mse" => (LossKind::Mse, direct.then(|| mse::<T>())),
            "mae" => (LossKind::Mae, direct.then(|| mae::<T>())),
            "rmse" => (LossKind::Rmse, direct.then(|| rmse::<T>())),
            "huber" => (LossKind::Huber { delta: a / u }, direct.then(|| huber::<T>(a / u))),
            "logcosh" => (LossKind::LogCosh, direct.then(|| log_cosh::<T>())),
            "lp" => (LossKind::Lp { p: a }, direct.then(|| lp::<T>(a))),
            "quantile" => (LossKind::Quantile { tau: a / 10.0 }, direct.then(|| quantile::<T>(a / 10.0))),
            _ => (LossKind::EpsilonInsensitive { eps: a / u }, direct.then(|| epsilon_insensitive::<T>(a / u))),
        };
        k.1.unwrap_or_else(|| make_loss::<T>(k.0))
    }
}

fn lncosh(d: f64) -> f64 {
    let a = d.abs();
    if a < 1e-4 { a * a / 2.0 } else { a + (-2.0 * a).exp().ln_1p() - std::f64::consts::LN_2 }
}

/// The nearest integer and whether the value really is (almost) that integer.
fn int(x: f64, tol: f64) -> Value {
    if !x.is_finite() || x.abs() > 1.9e9 {
        return json!([0, false]);
    }
    json!([x.round() as i64, (x - x.round()).abs() <= tol * x.abs().max(1.0)])
}

fn loss_case<T: Float + Send + Sync + 'static>(r: &mut Rng, i: usize, f32s: bool) -> Value {
    let kinds = ["mse", "mae", "rmse", "huber", "logcosh", "lp", "quantile", "eps"];
    let kind = kinds[i % 8];
    let sh = Shape {
        kind,
        u: *pick(r, &[1i64, 1, 2, 4]),
        a: match kind {
            "lp" => 1 + r.i64(0..3),
            "quantile" => 1 + r.i64(0..9),
            _ => 1 + r.i64(0..6),
        },
    };
    let n = 1 + r.usize(0..8);
    let big = i % 5 == 4;
    let span = if f32s { 8 } else if kind == "logcosh" { 15 } else if big && kind != "lp" { 900 } else { 15 };
    let mut d: Vec<i64> = (0..n).map(|_| r.i64(-span..span + 1)).collect();
    if r.u8(0..4) == 0 {
        d.fill(0);
    }
    if kind == "huber" || kind == "eps" {
        // the kinks
        d[0] = *pick(r, &[sh.a, -sh.a, sh.a + 1, sh.a - 1]);
    }
    let far = kind == "logcosh" && i % 3 == 0;
    let n = if far {
        d = vec![if f32s { *pick(r, &[95i64, -200, 3000]) } else { *pick(r, &[800i64, -5000, 711, -710]) } * sh.u];
        1
    } else {
        n
    };
    let mode = r.u8(0..4); // 0: unweighted, 1: weights, 2: scaled weights, 3: replicated rows
    let mut w: Vec<i64> = (0..n).map(|_| if mode == 0 || far { 1 } else { r.i64(0..if f32s { 4 } else { 10 }) }).collect();
    if w.iter().all(|x| *x == 0) {
        w[0] = 1;
    }
    let c = if mode == 2 { *pick(r, &[0.125, 1000.0, 1e-3, 3.7, 1e6]) } else { 1.0 };
    let y: Vec<f64> = (0..n).map(|_| r.i64(-20..21) as f64 / sh.u as f64).collect();
    let yh: Vec<f64> = (0..n).map(|k| y[k] + d[k] as f64 / sh.u as f64).collect();
    let t = |v: f64| T::from(v).unwrap();
    let loss = sh.make::<T>(r);
    let (mut a, mut b, mut ww, mut owner) = (vec![], vec![], vec![], vec![]);
    for k in 0..n {
        for _ in 0..if mode == 3 { w[k] } else { 1 } {
            a.push(t(yh[k]));
            b.push(t(y[k]));
            ww.push(t(w[k] as f64 * c));
            owner.push(k);
        }
    }
    let wo = (mode == 1 || mode == 2).then_some(&ww[..]);
    let v = loss.loss(&a, &b, wo).to_f64().unwrap();
    let mut g = vec![t(7.5); a.len()];
    loss.dloss_dyhat(&a, &b, wo, &mut g);
    let mut gs = vec![0.0; n];
    let mut equal = true;
    let mut first: HashMap<usize, f64> = HashMap::new();
    for (k, o) in owner.iter().enumerate() {
        let q = g[k].to_f64().unwrap();
        gs[*o] += q;
        equal &= *first.entry(*o).or_insert(q) == q;
    }
    let wsum: i64 = w.iter().sum();
    let tol = if f32s { 2e-5 } else { 1e-9 };
    let (lt, gt) = (tol.max(if kind == "logcosh" { 0.5 } else { 0.0 }), tol.max(if kind == "logcosh" { 0.5 } else { 0.0 }));
    let vv = if kind == "rmse" { v * v } else { v };
    let gfac = if kind == "rmse" { v } else { 1.0 };
    let table: Vec<i64> = d.iter().map(|k| (1e5 * lncosh(*k as f64 / sh.u as f64)).round() as i64).collect();
    let gtable: Vec<i64> = d.iter().map(|k| (1e5 * (*k as f64 / sh.u as f64).tanh()).round() as i64).collect();
    json!({"t": "loss", "kind": kind, "u": sh.u, "a": sh.a, "d": d, "w": w, "mode": mode, "f32": f32s,
        "v": int(vv * wsum as f64 * sh.scale(), lt), "neg": v < 0.0, "zero": v == 0.0,
        "g": gs.iter().map(|q| int(q * gfac * wsum as f64 * sh.gscale(), gt)).collect::<Vec<_>>(), "eq": equal,
        "acc": n > 1 || mode == 3 || kind != "logcosh" || (v - lncosh(d[0] as f64 / sh.u as f64)).abs() <= if f32s { 1e-5 } else { 1e-11 } * (1.0 + v.abs()),
        "gz": gs.iter().all(|q| *q == 0.0), "tab": table, "gtab": gtable})
}

// ------------------------------------------------------------------------------------------------ mini-batches (C22)

fn coded(n: usize, nf: usize, wt: bool, base: usize, lay: u64) -> Dataset<f64> {
    let code = |row: usize, part: usize| ((base + row) * 1000 + part) as f64;
    let x = Array2::from_shape_fn((nf, n), |(f, r)| code(r, f));
    let x = if lay == 1 { x.t().as_standard_layout().to_owned().reversed_axes() } else { x };
    let y: Vec<f64> = (0..n).map(|r| code(r, 900)).collect();
    let w: Vec<f64> = (0..n).map(|r| code(r, 901)).collect();
    Dataset::with_weights_and_names(x, laid_out(&y, lay), wt.then(|| laid_out(&w, lay)), (0..nf).map(|f| format!("v{f}")).collect())
}
fn columns(d: &Dataset<f64>) -> Vec<Vec<i64>> {
    (0..d.y.len())
        .map(|c| {
            let mut v: Vec<i64> = d.x.column(c).iter().map(|a| *a as i64).collect();
            v.push(d.y_slice()[c] as i64);
            if let Some(w) = d.weights_slice() {
                v.push(w[c] as i64);
            }
            v
        })
        .collect()
}

fn batch_case(r: &mut Rng) -> Value {
    let n = *pick(r, &[1usize, 2, 3, 5, 8, 13]);
    let nf = 1 + r.usize(0..4);
    let wt = r.bool();
    let bs = *pick(r, &[1, 2, n.saturating_sub(1).max(1), n, n + 1, 2 * n + 3]);
    let lay = r.u64(0..3);
    let a = coded(n, nf, wt, 0, lay);
    let n2 = *pick(r, &[1, n, n + 2]);
    let b = coded(n2, nf, wt, 500, (lay + 1) % 3);
    let mut buf = Dataset::make_batch_buffer(&a, bs);
    let mut rounds = vec![];
    let mut rng = Rng::with_seed(r.u64(..));
    for k in 0..5 {
        let (full, base) = if k == 3 { (&b, 500) } else { (&a, 0) };
        let before = columns(full);
        buf.resample_from(full, &mut rng);
        rounds.push(json!({"base": base, "n": full.n_rows, "cols": columns(&buf), "same": columns(full) == before && full.y.len() == full.n_rows,
            "rows": buf.n_rows, "xd": [buf.x.dim().0, buf.x.dim().1], "wl": buf.weights.as_ref().map_or(-1, |w| w.len() as i64),
            "nf": buf.n_features}));
    }
    json!({"t": "batch", "n": n, "nf": nf, "wt": wt, "bs": bs, "rounds": rounds})
}

fn reach_case(r: &mut Rng) -> Value {
    let n = 1 + r.usize(0..7);
    let bs = 1 + r.usize(0..5);
    let full = coded(n, 2, true, 0, 0);
    let mut buf = Dataset::make_batch_buffer(&full, bs);
    let mut rng = Rng::with_seed(r.u64(..));
    let mut hits = vec![vec![0u32; n]; bs];
    for _ in 0..40 * n {
        buf.resample_from(&full, &mut rng);
        for (p, h) in hits.iter_mut().enumerate() {
            let row = (buf.y_slice()[p] as usize) / 1000;
            if row < n {
                h[row] += 1;
            }
        }
    }
    json!({"t": "reach", "n": n, "bs": bs, "hits": hits})
}

/// Records the data every loss call works on.
struct Recording {
    inner: LossObject<f64>,
    log: Mutex<(BTreeSet<Vec<i64>>, usize)>,
}
fn row_code(v: f64) -> i64 {
    if v.fract() == 0.0 && v.abs() < 1e6 { v as i64 } else { -1 }
}
impl LossFn<f64> for Recording {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        let same = yhat.iter().all(|v| *v == yhat[0]);
        let mut key: Vec<i64> = vec![y.len() as i64, yhat.len() as i64, w.map_or(-1, |w| w.len() as i64)];
        key.extend(y.iter().map(|v| row_code(*v)));
        key.extend(w.unwrap_or(&[]).iter().map(|v| row_code(*v)));
        key.extend(yhat.iter().map(|v| if same && yhat.len() > 1 { -2 } else { row_code(*v) }));
        let mut g = self.log.lock().unwrap();
        g.1 += 1;
        if g.0.len() < 400 {
            g.0.insert(key);
        }
        self.inner.loss(yhat, y, w)
    }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        self.inner.dloss_dyhat(yhat, y, w, out)
    }
}

fn batch_search(r: &mut Rng, i: usize) -> Value {
    let n = *pick(r, &[1usize, 2, 5, 9, 20]);
    let bs = [0usize, 1, n.saturating_sub(1), n, n + 1, 2 * n + 3, 64][i % 7];
    let wt = r.bool();
    let mut o = Opts::default();
    o.seed = r.u64(0..1 << 40);
    o.progress = false;
    o.batching = true;
    o.batch_size = bs;
    o.populations = 1 + i / 7 % 2;
    o.population_size = 8;
    o.niterations = 12 / o.populations;
    o.ncycles_per_iteration = 6;
    o.mutation_weights.randomize = 3.0;
    o.mutation_weights.mutate_constant = 3.0;
    // leaves only, so that predictions are a constant or one coded input
    o.maxsize = 1;
    o.operators = search::operators(&[("add", 2), ("neg", 1)]);
    o.should_optimize_constants = r.bool();
    o.optimizer_probability = 0.5;
    let rec = Arc::new(Recording { inner: mse::<f64>(), log: Mutex::new((BTreeSet::new(), 0)) });
    o.loss = rec.clone();
    let data = coded(n, 2, wt, 0, i as u64 % 3);
    let before = columns(&data);
    let engine = i % 2 == 0;
    let o2 = o.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if engine {
            let mut e: SearchEngine<f64, Ops, D> = SearchEngine::new(data.clone(), o2);
            let mut k = 0;
            while !e.is_finished() && k < 100 {
                e.step(1);
                k += 1;
            }
            (e.cycles_completed(), columns(e.dataset()) == before)
        } else {
            let res = equation_search::<f64, Ops, D>(&data, &o2);
            let _ = res;
            (12, columns(&data) == before)
        }
    }));
    let (cyc, same, panic) = match res {
        Ok((c, s)) => (c, s, String::new()),
        Err(e) => (0, true, search::panic_text(e)),
    };
    let log = rec.log.lock().unwrap_or_else(|e| e.into_inner());
    let calls: Vec<Value> = log
        .0
        .iter()
        .map(|k| {
            let (ny, nh, nw) = (k[0] as usize, k[1] as usize, k[2]);
            let nwl = nw.max(0) as usize;
            json!({"y": k[3..3 + ny], "w": k[3 + ny..3 + ny + nwl], "hw": nw >= 0, "h": k[3 + ny + nwl..3 + ny + nwl + nh]})
        })
        .collect();
    json!({"t": "bsearch", "n": n, "bs": bs.max(1), "pops": o.populations, "wt": wt, "cycles": cyc, "same": same, "panic": panic, "calls": calls, "total": log.1})
}

// ------------------------------------------------------------------------------------------------ operator selection (C25)

fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn library<O: OperatorSet>() -> Value {
    let mut v = vec![];
    for a in 1..=O::MAX_ARITY {
        for &id in O::ops_with_arity(a) {
            let m = O::meta(OpId { arity: a, id }).unwrap();
            v.push(json!({"a": m.arity, "i": m.id, "n": chars(m.name), "d": chars(m.display), "x": m.infix.map_or(vec![], chars)}));
        }
    }
    Value::Array(v)
}
fn ids<const DD: usize>(o: &Operators<DD>) -> Value {
    json!(o.ops_by_arity.iter().map(|v| v.iter().map(|p| json!([p.arity, p.id])).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn select<O: OperatorSet, const DD: usize>(r: &mut Rng, lib: &str) -> Value {
    let mut names: Vec<(u8, Vec<String>)> = vec![];
    for a in 1..=O::MAX_ARITY {
        for &id in O::ops_with_arity(a) {
            let o = OpId { arity: a, id };
            let mut t = vec![O::name(o).to_string(), O::display(o).to_string(), O::name(o).to_ascii_uppercase(), format!(" {}", O::name(o))];
            if let Some(x) = O::infix(o) {
                t.push(x.to_string());
                t.push(format!("{x} "));
            }
            names.push((a, t));
        }
    }
    let strange = ["", " ", "nope", "ad", "addd", "**", "x0", "+-", "Sinn", "unknown_op"];
    let err = r.u8(0..3) == 0;
    let tok = |r: &mut Rng, ar: Option<u8>| -> String {
        if err && r.u8(0..6) == 0 {
            return pick(r, &strange).to_string();
        }
        loop {
            let (a, t) = &names[r.usize(0..names.len())];
            if ar.is_none_or(|q| q == *a) || (err && r.u8(0..12) == 0) {
                return t[r.usize(0..t.len())].clone();
            }
            if ar.is_some_and(|q| !names.iter().any(|(a, _)| *a == q)) {
                return "nope".into();
            }
        }
    };
    let plain = r.bool();
    let (toks, out): (Vec<Vec<String>>, Result<Operators<DD>, String>) = if plain {
        let k = r.usize(0..5);
        let t: Vec<String> = (0..k).map(|_| tok(r, None)).collect();
        let refs: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        let res = Operators::<DD>::from_names::<O>(&refs).map_err(|e| e.to_string());
        (vec![t], res)
    } else {
        let t: Vec<Vec<String>> = (1..=3u8).map(|a| (0..r.usize(0..4)).map(|_| tok(r, Some(a))).collect()).collect();
        let refs: Vec<Vec<&str>> = t.iter().map(|v| v.iter().map(|s| s.as_str()).collect()).collect();
        let res = Operators::<DD>::from_names_by_arity::<O>(&refs[0], &refs[1], &refs[2]).map_err(|e| e.to_string());
        (t, res)
    };
    let (ok, sel, msg) = match &out {
        Ok(o) => (true, ids(o), String::new()),
        Err(e) => (false, json!([]), e.clone()),
    };
    // what the selection makes a search draw
    let mut drawn: BTreeSet<(u8, u16)> = BTreeSet::new();
    let mut counts: Vec<usize> = vec![];
    let mut arities: BTreeSet<(usize, usize)> = BTreeSet::new();
    if let Ok(o) = &out {
        let total = o.total_ops_up_to(DD);
        counts = (1..=DD).map(|a| o.nops(a)).collect();
        for cap in 1..=DD + 1 {
            let t = o.total_ops_up_to(cap);
            if t > 0 {
                for _ in 0..40 * t {
                    arities.insert((cap, o.sample_arity(r, cap)));
                }
            }
        }
        for _ in 0..60 * total {
            let a = o.sample_arity(r, DD);
            let p = o.sample_op(r, a);
            drawn.insert((p.arity, p.id));
        }
        for a in 1..=DD {
            if o.nops(a) > 0 {
                for _ in 0..60 * o.nops(a) {
                    let p = o.sample_op(r, a);
                    drawn.insert((p.arity, p.id));
                }
            }
        }
    }
    json!({"t": "sel", "lib": lib, "D": DD, "plain": plain, "toks": toks.iter().map(|v| v.iter().map(|s| chars(s)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "show": toks, "ok": ok, "sel": sel, "msg": msg, "drawn": drawn, "nops": counts, "ar": arities})
}
fn builder_case() -> Vec<Value> {
    let d3 = OperatorLibrary::sr_default::<BuiltinOpsF64, 3>();
    let d2 = OperatorLibrary::sr_default::<BuiltinOpsF32, 2>();
    let d1 = OperatorLibrary::sr_default::<BuiltinOpsF64, 1>();
    let b = Operators::<3>::builder::<BuiltinOpsF64>().sr_default_binary().build();
    let c = Operators::<3>::builder::<BuiltinOpsF64>().unary::<builtin::Sin>().binary::<builtin::Max>().unary::<builtin::Neg>().build();
    let n = |s: &str, a: u8| -> Value {
        let o = op(s, a);
        json!([o.arity, o.id])
    };
    let four = json!([[], [n("add", 2), n("sub", 2), n("mul", 2), n("div", 2)], []]);
    let four2 = json!([[], [n("add", 2), n("sub", 2), n("mul", 2), n("div", 2)]]);
    let sin = <BuiltinOpsF64 as HasOp<builtin::Sin>>::op_id();
    let mut v = vec![
        json!({"t": "built", "got": ids(&d3), "want": four}),
        json!({"t": "built", "got": ids(&d2), "want": four2}),
        json!({"t": "built", "got": ids(&d1), "want": [[]]}),
        json!({"t": "built", "got": ids(&b), "want": four}),
        json!({"t": "built", "got": ids(&c), "want": [[n("sin", 1), n("neg", 1)], [n("max", 2)], []]}),
    ];
    v.push(json!({"t": "built", "got": [[[sin.arity, sin.id]]], "want": [[n("sin", 1)]]}));
    v
}

// ------------------------------------------------------------------------------------------------ size statistics (C20)

fn micro(v: &[f64]) -> Vec<i64> {
    v.iter().map(|a| (a * 1e6).round() as i64).collect()
}
fn window_case(r: &mut Rng) -> Value {
    let k = 1 + r.usize(0..8);
    let win = *pick(r, &[1usize, 3, 5, 10, 20, 50, 200, 1000]);
    let full = r.bool();
    let mut s = RunningSearchStatistics::new(k, win);
    let mut steps = vec![];
    let init = micro(&s.frequencies);
    for step in 0..8 {
        // sometimes: fill the window at once, then exceed it by a little
        let count = if full && step == 0 { win } else if full { r.usize(0..3) } else { r.usize(0..30) };
        let skew = r.usize(0..k + 1);
        let sizes: Vec<usize> = (0..count).map(|_| if r.bool() { skew } else { r.usize(0..k + 3) }).collect();
        let f0 = micro(&s.frequencies);
        s.update_from_population(sizes.iter().copied());
        let f1 = micro(&s.frequencies);
        s.move_window();
        let f2 = micro(&s.frequencies);
        let mut t = s.clone();
        t.normalize();
        let same = micro(&t.frequencies) == f2;
        let sum: f64 = s.frequencies.iter().sum();
        let nd = s.frequencies.iter().zip(&t.normalized_frequencies).map(|(f, n)| (n - f / sum).abs()).fold(0.0, f64::max);
        let nd = if t.normalized_frequencies.len() == k { (nd * 1e12).min(1e9) as i64 } else { 1_000_000_000 };
        steps.push(json!({"sizes": sizes, "f0": f0, "f1": f1, "f2": f2, "nf": micro(&t.normalized_frequencies), "nd": nd, "same": same,
            "fin": s.frequencies.iter().all(|a| a.is_finite())}));
    }
    json!({"t": "win", "k": k, "win": win, "init": init, "steps": steps})
}

/// A search long enough to pass its window: counts and windowing of every applied cycle, in thousandths.
fn long_search(r: &mut Rng, engine: bool, cycles: usize) -> Value {
    let thou = |v: &[f64]| v.iter().map(|a| (a * 1e3).round() as i64).collect::<Vec<_>>();
    let mut o = Opts::default();
    o.maxsize = 4 + r.usize(0..8);
    o.populations = 1 + r.usize(0..2);
    let per = 2000 + r.usize(0..2000);
    (o.population_size, o.tournament_selection_n, o.ncycles_per_iteration) = (per, per, 1);
    o.niterations = (100_000 / per + cycles).div_ceil(o.populations);
    o.should_optimize_constants = false;
    o.seed = r.u64(..);
    let (x, y) = (vec![0.5, -1.0, 2.0], vec![1.0, 0.0, 3.0]);
    let ds = Dataset::new(Array2::from_shape_vec((1, 3), x).unwrap(), y.into());
    let k = o.maxsize;
    let steps = Arc::new(Mutex::new(vec![]));
    let last = Arc::new(Mutex::new(vec![0i64; k]));
    let (log, hist) = (steps.clone(), last.clone());
    vh::set_sink(Some(Arc::new(move |e: vh::Event| match e {
        vh::Event::ApplyStart { members, .. } => {
            let mut h = vec![0i64; k];
            members.iter().filter(|m| m.complexity >= 1 && m.complexity <= k).for_each(|m| h[m.complexity - 1] += 1);
            *hist.lock().unwrap() = h;
        }
        vh::Event::ApplyEnd { state, .. } => {
            let h = hist.lock().unwrap().clone();
            log.lock().unwrap().push(json!({"apply": true, "h": h, "f": thou(&state.frequencies), "nd": 0}));
        }
        vh::Event::Dispatch { normalized_frequencies: nf, state, .. } => {
            let sum: f64 = state.frequencies.iter().sum();
            let nd = nf.iter().zip(&state.frequencies).map(|(n, f)| (n - f / sum).abs()).fold(0.0, f64::max);
            let nd = if nf.len() == k { (nd * 1e12).min(1e9) as i64 } else { 1_000_000_000 };
            log.lock().unwrap().push(json!({"apply": false, "h": [], "f": thou(&state.frequencies), "nd": nd}));
        }
        _ => {}
    })));
    if engine {
        let mut e = SearchEngine::<f64, Ops, D>::new(ds, o);
        while e.step(3) > 0 {}
    } else {
        equation_search::<f64, Ops, D>(&ds, &o);
    }
    vh::set_sink(None);
    let steps = std::mem::take(&mut *steps.lock().unwrap());
    json!({"t": "long", "k": k, "steps": steps})
}

// ------------------------------------------------------------------------------------------------ warm-up (C09)

fn warm_case(r: &mut Rng, i: usize) -> Value {
    let mut o = Opts::default();
    o.maxsize = [1usize, 2, 3, 4, 5, 7, 12, 20, 30, 50][i % 10];
    let tenth = (i / 10) % 12;
    let warm = if tenth == 11 { 3333 } else { tenth as i64 * 1000 };
    o.warmup_maxsize_by = warm as f32 / 10000.0;
    let total = 1 + r.usize(0..60);
    let out: Vec<usize> = (0..total).map(|e| vh::get_cur_maxsize(&o, total, total - e)).collect();
    json!({"t": "warm", "max": o.maxsize, "warm": warm, "total": total, "out": out})
}

// ------------------------------------------------------------------------------------------------ hall of fame (C01, C03)

/// x0 under c-1 negations: complexity c.
fn chain(c: usize, tag: f64) -> (Vec<PNode>, Vec<f64>) {
    let neg = op("neg", 1);
    let mut n = if tag == 0.0 { vec![PNode::Var { feature: 0 }] } else { vec![PNode::Const { idx: 0 }] };
    let cs = if tag == 0.0 { vec![] } else { vec![tag] };
    for _ in 1..c {
        n.push(PNode::Op { arity: 1, op: neg.id });
    }
    (n, cs)
}
fn val(v: i64) -> f64 {
    match v {
        INF => f64::INFINITY,
        -1 => f64::NAN,
        v => v as f64,
    }
}
fn mk(id: u64, birth: u64, c: usize, loss: i64, cost: i64) -> Member {
    let (n, cs) = chain(c.max(1), id as f64 + 1.0);
    let mut m: Member = PopMember::from_expr(MemberId(id), None, birth, expr_of(n, cs), 1);
    m.complexity = c;
    m.loss = val(loss);
    m.cost = val(cost);
    m
}
fn back(v: f64) -> i64 {
    if v.is_nan() {
        -1
    } else if v == f64::INFINITY {
        INF
    } else {
        v as i64
    }
}
fn mem(m: &Member) -> Value {
    json!({"id": m.id.0, "pa": m.parent.map_or(-1, |p| p.0 as i64), "b": m.birth, "c": m.complexity, "l": back(m.loss), "k": back(m.cost),
        "e": m.expr.consts.first().map_or(0, |v| *v as i64), "x": m.expr.nodes.len()})
}
fn mems(v: &[Member]) -> Vec<Value> {
    v.iter().map(mem).collect()
}
fn hall(h: &HallOfFame<f64, Ops, D>) -> Value {
    json!(h.best_by_complexity.iter().enumerate().filter_map(|(i, m)| m.as_ref().map(|m| json!([i, mem(m)]))).collect::<Vec<_>>())
}

/// Every hall over `slots` slots with losses from `vals` (0: empty slot).
fn fronts(slots: usize, vals: &[i64]) -> Vec<Value> {
    let k = vals.len() + 1;
    let mut out = vec![];
    for code in 0..k.pow(slots as u32) {
        let mut h: HallOfFame<f64, Ops, D> = HallOfFame::new(slots);
        let mut c = code;
        let mut f = vec![0i64; slots];
        for s in 0..slots {
            let v = c % k;
            c /= k;
            if v > 0 {
                f[s] = v as i64;
                // costs run against losses: the front is about losses
                h.best_by_complexity[s + 1] = Some(mk(s as u64 + 1, s as u64, s + 1, vals[v - 1], 100 - vals[v - 1].clamp(-1, 50)));
            }
        }
        let front = h.pareto_front();
        let listed: Vec<Value> = h.members().map(mem).collect();
        out.push(json!({"t": "front", "f": f, "hall": hall(&h), "front": mems(&front), "listed": listed}));
    }
    out
}

/// Every sequence of `len` offers with complexities 1..=3 (limit 2) and the given costs.
fn offers(len: usize, costs: &[i64]) -> Vec<Value> {
    let k = costs.len() * 3;
    let mut out = vec![];
    let mut o = Opts::default();
    o.maxsize = 3;
    o.operators = search::operators(&[("neg", 1)]);
    for code in 0..k.pow(len as u32) {
        let mut h: HallOfFame<f64, Ops, D> = HallOfFame::new(3);
        let mut c = code;
        let mut steps = vec![];
        let mut seq = vec![];
        let mut group = vec![];
        for s in 0..len {
            let v = c % k;
            c /= k;
            let (cx, cost) = (1 + v % 3, costs[v / 3]);
            seq.push(v);
            let lim = if code % 2 == 0 { 2 } else { 3 };
            let m = mk(s as u64, s as u64, cx, 7, cost);
            group.push(m);
            if (code / 7 + s) % 2 == 0 || s + 1 == len {
                if group.len() == 1 {
                    h.consider(&group[0], &o, lim);
                } else {
                    h.update_from_members(&group, &o, lim);
                }
                steps.push(json!({"ms": mems(&group), "lim": lim, "h": hall(&h)}));
                group.clear();
            }
        }
        out.push(json!({"t": "offers", "seq": seq, "steps": steps}));
    }
    out
}

/// One cycle, run with 1..=K rounds from the same state: what the rounds produced, and the record of the last run.
/// With annealing the shorter runs are not prefixes of the last one: the rounds are replayed one by one at falling temperatures,
/// and count if they lead to the same population (`all`); otherwise only the start and the end are known.
fn cover_case(r: &mut Rng, seed: u64, i: usize) -> Value {
    let mut cfg = search::gen_cfg(seed ^ 0xC0FE, i);
    cfg.opts.annealing = i % 3 == 0;
    cfg.opts.migration = false;
    let cur = cfg.opts.maxsize;
    let rounds = 1 + r.usize(0..5);
    let data = cfg.dataset();
    let base = {
        let z = vec![0.0; cfg.y.len()];
        let b = crate::refops::loss(&cfg.ref_loss, &z, &cfg.y, cfg.w.as_deref());
        (cfg.opts.use_baseline && b.is_finite()).then_some(b)
    };
    let tagged = symbolic_regression::TaggedDataset::new(&data, base);
    let batch = cfg.opts.batching.then(|| {
        let mut b = Dataset::make_batch_buffer(&data, cfg.opts.batch_size);
        b.resample_from(&data, &mut Rng::with_seed(i as u64));
        b
    });
    let mut ev = vh::Evaluator::<f64, D>::new(data.n_rows);
    let mut start: Vec<Member> = vec![];
    let mut rr = Rng::with_seed(r.u64(..));
    for k in 0..cfg.opts.population_size as u64 {
        let e = vh::random_expr_append_ops(&mut rr, &cfg.opts.operators, cfg.nfeat(), 3, cfg.opts.maxsize);
        let mut m: Member = PopMember::from_expr(MemberId(k), None, k, e, cfg.nfeat());
        m.evaluate(&tagged, &cfg.opts, &mut ev);
        start.push(m);
    }
    let stats = RunningSearchStatistics::new(cfg.opts.maxsize, 1000);
    let mut enc = search::Enc::new();
    let mut pops = vec![enc.mems(&vh::member_views(&start))];
    let mut bs = json!([]);
    let s = rr.u64(..);
    let mut replayed: Vec<Vec<vh::MemberView>> = vec![];
    if cfg.opts.annealing && rounds > 1 {
        let mut pop = Population::new(start.clone());
        let mut rng = Rng::with_seed(s);
        let (mut nid, mut nb) = (1000u64, 1000u64);
        let eval = symbolic_regression::TaggedDataset::new(batch.as_ref().unwrap_or(&data), base);
        ev.ensure_n_rows(eval.n_rows);
        for k in 0..rounds {
            vh::reg_evol_cycle(
                &mut pop,
                vh::RegEvolCtx {
                    rng: &mut rng,
                    dataset: eval,
                    temperature: 1.0 + (k as f64) / ((rounds - 1) as f64) * (0.0 - 1.0),
                    curmaxsize: cur,
                    stats: &stats,
                    options: &cfg.opts,
                    evaluator: &mut ev,
                    next_id: &mut nid,
                    next_birth: &mut nb,
                    _ops: std::marker::PhantomData::<Ops>,
                },
            );
            replayed.push(vh::member_views(&pop.members));
        }
    }
    let mut same = false;
    for k in (if cfg.opts.annealing { rounds } else { 1 })..=rounds {
        let mut o = cfg.opts.clone();
        o.ncycles_per_iteration = k;
        let mut pop = Population::new(start.clone());
        let mut rng = Rng::with_seed(s);
        let mut gc = dynamic_expressions::GradContext::new(data.n_rows);
        let (mut nid, mut nb) = (1000u64, 1000u64);
        let eval = symbolic_regression::TaggedDataset::new(batch.as_ref().unwrap_or(&data), base);
        let (_, seen) = vh::s_r_cycle(
            &mut pop,
            &mut vh::IterationCtx {
                rng: &mut rng,
                full_dataset: tagged,
                curmaxsize: cur,
                stats: &stats,
                options: &o,
                evaluator: &mut ev,
                grad_ctx: &mut gc,
                next_id: &mut nid,
                next_birth: &mut nb,
                _ops: std::marker::PhantomData::<Ops>,
            },
            eval,
        );
        let end = vh::member_views(&pop.members);
        if replayed.last().is_some_and(|r| enc.mems(r) == enc.mems(&end)) {
            same = true;
            pops.extend(replayed[..rounds - 1].iter().map(|r| enc.mems(r)));
        }
        pops.push(enc.mems(&end));
        bs = json!(enc.hall(&vh::hall_views(&seen)));
    }
    let mut one = search::members_json(&cfg, &enc);
    one["t"] = json!("cover");
    one["cfg"] = search::cfg_json(&cfg);
    one["cur"] = json!(cur);
    one["pops"] = json!(pops);
    one["bs"] = bs;
    one["all"] = json!(!cfg.opts.annealing || rounds == 1 || same);
    one
}

// ------------------------------------------------------------------------------------------------ migration (C11)

fn migrate_case(r: &mut Rng) -> Value {
    let n = 1 + r.usize(0..6);
    let costs = [1i64, 2, 3, 3, 5, INF];
    let mut pop = Population::new((0..n).map(|k| mk(k as u64, r.u64(0..9), 1 + r.usize(0..3), r.i64(0..9), *pick(r, &costs))).collect::<Vec<Member>>());
    let pre = mems(&pop.members);
    let donors: Vec<Member> =
        (0..r.usize(0..5)).map(|k| mk(500 + k as u64, r.u64(0..200), 1 + r.usize(0..3), r.i64(0..9), *pick(r, &costs))).collect();
    let frac = *pick(r, &[0.0, -1.0, 0.2, 0.5, 1.0, 3.0]);
    let topn = r.usize(0..n + 2);
    let bsp = vh::best_sub_pop(&pop, topn);
    let (mut nid, mut nb) = (1000u64, 100u64);
    vh::migrate_into(&mut pop, &donors, frac, r, &mut nid, &mut nb);
    json!({"t": "mig", "pre": pre, "post": mems(&pop.members), "don": mems(&donors), "zero": frac <= 0.0, "nid": [1000, nid], "nb": [100, nb],
        "topn": topn, "bsp": mems(&bsp)})
}
/// Whether migration happens at all, and to every slot, from every donor.
fn migrate_rate(r: &mut Rng) -> Value {
    let n = 2 + r.usize(0..4);
    let nd = 1 + r.usize(0..4);
    let frac = *pick(r, &[0.3, 0.6, 1.0]);
    let mut hit = vec![0u32; n];
    let mut src = vec![0u32; nd];
    for _ in 0..600 {
        let mut pop = Population::new((0..n).map(|k| mk(k as u64, k as u64, 1, 1, 1)).collect::<Vec<Member>>());
        let donors: Vec<Member> = (0..nd).map(|k| mk(500 + k as u64, 3, 1, 1, 1)).collect();
        let (mut nid, mut nb) = (1000u64, 100u64);
        vh::migrate_into(&mut pop, &donors, frac, r, &mut nid, &mut nb);
        for (k, m) in pop.members.iter().enumerate() {
            if let Some(p) = m.parent {
                hit[k] += 1;
                src[p.0 as usize - 500] += 1;
            }
        }
    }
    json!({"t": "rate", "hit": hit, "src": src})
}

/// How many copies one migration makes; which slots and donors they take.
fn migrate_many(r: &mut Rng, i: usize) -> Value {
    const N: usize = 40_000;
    let (num, den, n) = [(1, 4, 5), (1, 2, 2), (1, 1, 3), (3, 1, 6), (3, 1, 30), (12, 1, 24), (25, 1, 50), (40, 1, 80), (70, 1, 140), (9, 1, 9)][i % 10];
    let nd = [60 + r.usize(0..80), 1, 2, 3, 5, 12][(i / 2 + r.usize(0..3)) % 6];
    let frac = num as f64 / (den * n) as f64;
    let donors: Vec<Member> = (0..nd).map(|k| mk(500 + k as u64, 3, 1, 1, 1)).collect();
    let mut hist = vec![0u32; n.min(nd) + 1];
    let mut hit = vec![0u32; n];
    let mut src = vec![0u32; nd];
    let mut pop = Population::new((0..n).map(|k| mk(k as u64, k as u64, 1, 1, 1)).collect::<Vec<Member>>());
    let (mut nid, mut nb) = (1000u64, 100u64);
    for _ in 0..N {
        let first = nid;
        vh::migrate_into(&mut pop, &donors, frac, r, &mut nid, &mut nb);
        let c = (nid - first) as usize;
        if c >= hist.len() {
            hist.resize(c + 1, 0);
        }
        hist[c] += 1;
        for (k, m) in pop.members.iter().enumerate() {
            if m.id.0 >= first && m.id.0 >= 1000 {
                hit[k] += 1;
                src[m.parent.unwrap().0 as usize - 500] += 1;
            }
        }
    }
    json!({"t": "many", "num": num, "den": den, "cap": n.min(nd), "n": N, "hist": hist, "hit": hit, "src": src})
}

pub fn run(prop: &str, seed: u64, n: usize) -> Value {
    let mut r = Rng::with_seed(seed.wrapping_mul(0x51ED_270B).wrapping_add(prop.bytes().map(|b| b as u64).sum()));
    let mut cases: Vec<Value> = vec![];
    let mut libs = json!({});
    match prop {
        "C29" => {
            for i in 0..n {
                cases.push(if i % 3 == 2 { loss_case::<f32>(&mut r, i / 3, true) } else { loss_case::<f64>(&mut r, i, false) });
            }
        }
        "C22" => {
            for i in 0..n {
                cases.push(match i % 8 {
                    0 => reach_case(&mut r),
                    1 => batch_search(&mut r, i / 8),
                    _ => batch_case(&mut r),
                });
                crate::heartbeat(120, "mini-batches");
            }
        }
        "C25" => {
            libs = json!({"b": library::<BuiltinOpsF64>(), "f": library::<BuiltinOpsF32>(), "q": library::<Ops4>(), "s": library::<OpsSub>(),
                "m": library::<OpsMul>()});
            cases = builder_case();
            for i in 0..n {
                cases.push(match i % 8 {
                    0 => select::<BuiltinOpsF32, 2>(&mut r, "f"),
                    1 => select::<BuiltinOpsF64, 1>(&mut r, "b"),
                    2 => select::<Ops4, 3>(&mut r, "q"),
                    3 => select::<Ops4, 4>(&mut r, "q"),
                    4 => select::<OpsSub, 2>(&mut r, "s"),
                    5 => select::<OpsMul, 3>(&mut r, "m"),
                    _ => select::<BuiltinOpsF64, 3>(&mut r, "b"),
                });
            }
        }
        "C20" => {
            cases.extend((0..n).map(|_| window_case(&mut r)));
            for i in 0..(n / 700).max(2) {
                crate::heartbeat(120, "a long search");
                cases.push(long_search(&mut r, i % 2 == 0, 4));
            }
        }
        "C09" => cases.extend((0..n).map(|i| warm_case(&mut r, i))),
        "C03" => {
            cases.extend(fronts(5, &[1, 2, 3, INF, -1]));
            if n > 10_000 {
                cases.extend(fronts(7, &[1, 2, INF]));
            }
        }
        "C01" => {
            cases.extend(offers(3, &[1, 2, INF]));
            if n > 300 {
                cases.extend(offers(4, &[1, 2, INF]));
            }
            for i in 0..n {
                crate::heartbeat(120, &format!("cycle {i}"));
                cases.push(cover_case(&mut r, seed, i));
            }
        }
        "C11" => {
            for i in 0..n {
                cases.push(if i % 40 == 0 { migrate_rate(&mut r) } else { migrate_case(&mut r) });
            }
            for i in 0..n / 150 {
                cases.push(migrate_many(&mut r, i));
            }
        }
        p => panic!("no data cases for {p}"),
    }
    json!({"cases": cases, "libs": libs})
}

#[allow(dead_code)]
fn _unused(_: &Options<f64, D>) {}
