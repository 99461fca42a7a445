//! Drives the tabular front end of the browser build (web/wasm): ingestion, split, metrics, options and member lookup.
use std::panic::{AssertUnwindSafe, catch_unwind};

use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use dynamic_expressions::{EvalOptions, eval_tree_array};
use fastrand::Rng;
use ndarray::{Array1, Array2};
use serde_json::{Map, Value, json};
use symbolic_regression::{Dataset, Operators, Options, SearchEngine};
use symbolic_regression_wasm::verif_hooks as wh;
use symbolic_regression_wasm::{WasmSearchOptions, WasmSplitIndices};

const BAD: i64 = 1_000_000;

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.usize(0..v.len())]
}
fn flip(r: &mut Rng, one_in: u8) -> bool {
    r.u8(0..one_in) == 0
}

/// A value in eighths, or a flag when it is not one.
fn eighths(v: f64) -> i64 {
    let e = v * 8.0;
    if e.is_finite() && e == e.round() && e.abs() < 1e6 { e as i64 } else { 2 * BAD }
}

fn number(r: &mut Rng, k: i64) -> String {
    let v = k as f64 / 8.0;
    let mut s = match r.u8(0..5) {
        0 => format!("{v}"),
        1 => format!("{v:.4}"),
        2 => format!("{:e}", v),
        3 if v >= 0.0 => format!("+{v}"),
        _ => format!("{v:?}"),
    };
    if flip(r, 4) {
        s = format!(" {s}");
    }
    if flip(r, 4) {
        s.push_str("  ");
    }
    if flip(r, 5) { format!("\"{s}\"") } else { s }
}

fn ingest_case(r: &mut Rng) -> Value {
    let hdr = r.bool();
    let cols = if flip(r, 12) { 1 } else { 2 + r.usize(0..4) };
    let rows = if flip(r, 15) { 0 } else { 1 + r.usize(0..6) };
    let stems = ["alpha", "b c", "x0", "Y", "a,b", "weight", "quo\"te", "x1"];
    let names: Vec<String> = (0..cols).map(|_| pick(r, &stems).to_string()).collect();
    let mut cells: Vec<Vec<i64>> = (0..rows).map(|_| (0..cols).map(|_| r.i64(-400..400)).collect()).collect();
    if rows > 0 && flip(r, 10) {
        let (i, j) = (r.usize(0..rows), r.usize(0..cols));
        cells[i][j] = BAD;
    }
    if rows > 0 && flip(r, 12) {
        let i = r.usize(0..rows);
        if r.bool() {
            cells[i].push(r.i64(-9..9));
        } else {
            cells[i].pop();
        }
    }
    let eol = if r.bool() { "\n" } else { "\r\n" };
    let mut text = String::new();
    if hdr {
        let h: Vec<String> = names
            .iter()
            .map(|n| {
                if n.contains(',') || n.contains('"') || flip(r, 3) {
                    format!("\"{}\"", n.replace('"', "\"\""))
                } else if flip(r, 3) {
                    format!("  {n} ")
                } else {
                    n.clone()
                }
            })
            .collect();
        text.push_str(&h.join(","));
        text.push_str(eol);
    }
    for (i, row) in cells.iter().enumerate() {
        let fs: Vec<String> = row
            .iter()
            .map(|&k| if k == BAD { pick(r, &["abc", "", "1.2.3", "1,5", "--3", "0x10", "12a"]).to_string() } else { number(r, k) })
            .map(|s| if s.is_empty() && row.len() < 2 { "abc".into() } else { s }) // an empty line is no row
            .map(|s| if s == "1,5" { "\"1,5\"".into() } else { s })
            .collect();
        text.push_str(&fs.join(","));
        if i + 1 < cells.len() || r.bool() {
            text.push_str(eol);
        }
    }
    let col = |r: &mut Rng| if flip(r, 14) { cols + r.usize(0..3) } else { r.usize(0..cols) };
    let y = if r.bool() { Some(col(r)) } else { None };
    let w = if flip(r, 3) { Some(col(r)) } else { None };
    let x: Option<Vec<usize>> = if r.bool() {
        let yc = y.unwrap_or(cols - 1);
        let n = if flip(r, 8) { 0 } else { 1 + r.usize(0..4) };
        let wild = flip(r, 3);
        Some((0..n).map(|_| col(r)).filter(|&c| wild || (c != yc && Some(c) != w)).collect())
    } else {
        None
    };
    let opts = WasmSearchOptions { has_headers: hdr, x_columns: x.clone(), y_column: y, weights_column: w, ..Default::default() };
    let got = catch_unwind(AssertUnwindSafe(|| {
        let (h, rs) = wh::parse_csv(&text, hdr)?;
        wh::full_dataset(&h, &rs, &opts)
    }));
    let num = |o: Option<usize>| o.map(|v| v as i64).unwrap_or(-1);
    let mut c = json!({"t": "ingest", "hdr": hdr, "cols": cols, "names": names, "cells": cells, "given": x.is_some(),
        "x": x.unwrap_or_default(), "y": num(y), "w": num(w), "text": text, "panic": got.is_err()});
    let o = c.as_object_mut().unwrap();
    match got {
        Ok(Ok((d, names, weights))) => {
            // the weights travel beside the dataset until the split
            let all = WasmSplitIndices { train: (0..d.n_rows).collect(), val: vec![] };
            let whole = wh::split(&d, weights.as_ref(), &names, &all).map(|p| p.0);
            o.insert("ok".into(), json!(true));
            o.insert("d".into(), table(&d, eighths));
            o.insert("vn".into(), json!(names));
            o.insert("hw".into(), json!(weights.is_some()));
            o.insert("wt".into(), json!(weights.map(|w| w.iter().map(|&v| eighths(v)).collect::<Vec<_>>()).unwrap_or_default()));
            o.insert("whole".into(), json!(whole.iter().map(|d| table(d, eighths)).collect::<Vec<_>>()));
        }
        _ => {
            o.insert("ok".into(), json!(false));
        }
    }
    c
}

fn table(d: &Dataset<f64>, f: fn(f64) -> i64) -> Value {
    json!({"x": d.x.rows().into_iter().map(|r| r.iter().map(|&v| f(v)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "y": d.y.iter().map(|&v| f(v)).collect::<Vec<_>>(),
        "hw": d.weights.is_some(),
        "w": d.weights.as_ref().map(|w| w.iter().map(|&v| f(v)).collect::<Vec<_>>()).unwrap_or_default(),
        "nf": d.n_features, "nr": d.n_rows, "vn": d.variable_names, "xd": [d.x.dim().0, d.x.dim().1]})
}

fn split_case(r: &mut Rng, i: usize) -> Value {
    // every size up to 12 with every share in steps of 5 % first
    let (n, vf) = if i < 12 * 21 { (1 + i / 21, (i % 21) as i64 * 50) } else { (1 + r.usize(0..60), *pick(r, &[-300i64, 0, 1, 100, 200, 333, 500, 750, 899, 900, 950, 1000, 5000])) };
    let seed = *pick(r, &[0u64, 1, 2, 12345, u64::MAX, 0x6a09_e667_f3bc_c909]);
    let s = wh::split_indices(n, vf as f64 / 1000.0, seed);
    let _ = wh::split_indices(1 + r.usize(0..9), r.f64(), r.u64(..));
    let again = wh::split_indices(n, vf as f64 / 1000.0, seed);
    let nf = 1 + r.usize(0..3);
    let wt = r.bool();
    let x = Array2::from_shape_fn((nf, n), |(j, i)| (i * 1000 + j) as f64);
    let y = Array1::from_shape_fn(n, |i| (i * 1000 + 900) as f64);
    let w = wt.then(|| Array1::from_shape_fn(n, |i| (i * 1000 + 901) as f64));
    let names: Vec<String> = (0..nf).map(|j| format!("v{j}")).collect();
    let all = Dataset::with_weights_and_names(x, y, None, names.clone());
    let (tr, va) = wh::split(&all, w.as_ref(), &names, &s).expect("split");
    json!({"t": "split", "n": n, "vf": vf, "nf": nf, "wtd": wt, "train": s.train, "val": s.val,
        "again": s.train == again.train && s.val == again.val, "names": names,
        "tr": table(&tr, |v| v as i64), "va": va.iter().map(|d| table(d, |v| v as i64)).collect::<Vec<_>>()})
}

/// Every row can be in either part.
fn split_reach(n: usize, vf: i64) -> Value {
    let mut hits = vec![0u32; n];
    for seed in 0..300u64 {
        for &i in &wh::split_indices(n, vf as f64 / 1000.0, seed).val {
            hits[i] += 1;
        }
    }
    json!({"t": "reach", "n": n, "vf": vf, "trials": 300, "hits": hits})
}

/// `[nearest integer, whether it is one]`
fn int(v: f64) -> Value {
    if !v.is_finite() || v.abs() > 1.9e9 {
        return json!([0, false]);
    }
    json!([v.round() as i64, (v - v.round()).abs() <= 1e-9 * v.abs().max(1.0)])
}

fn metric_case(r: &mut Rng, i: usize) -> Value {
    let n = 1 + r.usize(0..8);
    let span = if i % 3 == 0 { 2 } else { 9 };
    let y: Vec<i64> = (0..n).map(|_| r.i64(-span..span + 1)).collect();
    let p: Vec<i64> = match r.u8(0..5) {
        0 => y.clone(),
        1 => vec![y[0]; n],
        2 => y.iter().map(|v| 9 - v).collect(),
        _ => (0..n).map(|_| r.i64(-span..span + 1)).collect(),
    };
    let wt = r.bool();
    let mut w: Vec<i64> = (0..n).map(|_| if wt { r.i64(0..5) } else { 1 }).collect();
    if w.iter().all(|&v| v == 0) {
        w[0] = 3;
    }
    let off = if flip(r, 4) { *pick(r, &[100i64, -1000, 50_000]) } else { 0 };
    let yf = Array1::from_iter(y.iter().map(|&v| (v + off) as f64));
    let pf: Vec<f64> = p.iter().map(|&v| (v + off) as f64).collect();
    let wf = wt.then(|| Array1::from_iter(w.iter().map(|&v| v as f64)));
    let d = Dataset::with_weights_and_names(Array2::zeros((1, n)), yf, wf, vec!["a".into()]);
    let m = wh::metrics(&pf, &d);
    let sw: i64 = w.iter().sum();
    let sse: i64 = (0..n).map(|i| w[i] * (p[i] - y[i]) * (p[i] - y[i])).sum();
    let sst: i64 = sw * (0..n).map(|i| w[i] * y[i] * y[i]).sum::<i64>() - (0..n).map(|i| w[i] * y[i]).sum::<i64>().pow(2);
    let ni = n as i64;
    let var = |a: &[i64]| ni * a.iter().map(|v| v * v).sum::<i64>() - a.iter().sum::<i64>().pow(2);
    let vv = var(&y) * var(&p);
    let _ = sse;
    json!({"t": "metrics", "y": y, "p": p, "w": w, "wtd": wt, "n": m.n,
        "mse": int(m.mse * sw as f64), "mae": int(m.mae * sw as f64), "rmse": int(m.rmse * m.rmse * sw as f64), "rneg": m.rmse < 0.0,
        "r2d": sst, "r2": int((1.0 - m.r2) * sst as f64), "r2z": m.r2 == 0.0,
        "cd": vv, "corr": int(m.corr * m.corr * vv as f64), "cs": if m.corr > 0.0 { 1 } else if m.corr < 0.0 { -1 } else { 0 },
        "min": int(m.min_abs_err), "max": int(m.max_abs_err)})
}

macro_rules! fields {
    ($o:expr, $out:expr, $($f:ident),*) => { $( $out.insert(stringify!($f).into(), json!(format!("{:?}", $o.$f))); )* };
}
fn option_fields<const D: usize>(o: &Options<f64, D>) -> Map<String, Value> {
    let mut m = Map::new();
    fields!(o, m, seed, niterations, populations, population_size, ncycles_per_iteration, batch_size, complexity_of_constants,
        complexity_of_variables, maxsize, maxdepth, warmup_maxsize_by, parsimony, adaptive_parsimony_scaling, crossover_probability,
        perturbation_factor, probability_negate_constant, tournament_selection_n, tournament_selection_p, alpha, optimizer_nrestarts,
        optimizer_probability, optimizer_iterations, optimizer_f_calls_limit, fraction_replaced, fraction_replaced_hof,
        fraction_replaced_guesses, topn, use_frequency, use_frequency_in_tournament, skip_mutation_failures, annealing,
        should_optimize_constants, migration, hof_migration, use_baseline, should_simplify, batching);
    let w = &o.mutation_weights;
    macro_rules! mw { ($($f:ident),*) => { $( m.insert(concat!("mw.", stringify!($f)).into(), json!(format!("{:?}", w.$f))); )* }; }
    mw!(mutate_constant, mutate_operator, mutate_feature, swap_operands, rotate_tree, add_node, insert_node, delete_node, simplify,
        randomize, do_nothing, optimize, form_connection, break_connection);
    m
}

fn ops3() -> Operators<3> {
    Operators::<3>::from_names_by_arity::<BuiltinOpsF64>(&["cos", "neg"], &["+", "*", "-"], &[]).expect("operators")
}

fn option_case(r: &mut Rng) -> Value {
    let dflt = option_fields(&Options::<f64, 3>::default());
    let small = ["complexity_of_constants", "complexity_of_variables"];
    let mut given = Map::new(); // name -> the text of the value asked for
    let mut js = Map::new();
    let mut mw = Map::new();
    let share = *pick(r, &[1u8, 2, 8]);
    for (name, v) in &dflt {
        if !flip(r, share) {
            continue;
        }
        let text = v.as_str().unwrap();
        let (val, shown) = if text == "true" || text == "false" {
            let b = r.bool();
            (json!(b), format!("{b:?}"))
        } else if text.contains('.') || text.contains('e') {
            let k = r.i64(0..64);
            let f = k as f64 / 64.0; // exact as f32 as well
            (json!(f), format!("{f:?}"))
        } else {
            let u = r.u64(0..if small.contains(&name.as_str()) { 9 } else { 5000 });
            (json!(u), format!("{u:?}"))
        };
        given.insert(name.clone(), json!(shown));
        match name.strip_prefix("mw.") {
            Some(n) => mw.insert(n.to_string(), val),
            None => js.insert(name.clone(), val),
        };
    }
    if !mw.is_empty() {
        js.insert("mutation_weights".into(), Value::Object(mw));
    }
    let kinds = [
        ("mse", "mse"), (" MSE ", "mse"), ("mae", "mae"), ("Rmse", "rmse"), ("huber", "huber"), ("HUBER", "huber"), ("lp", "lp"),
        ("quantile", "quantile"), ("epsilon-insensitive", "eps"), ("epsilon_insensitive", "eps"), ("eps-insensitive", "eps"),
        ("Eps_Insensitive", "eps"),
    ];
    let (spelt, kind) = *pick(r, &kinds);
    let default_loss = flip(r, 8);
    if !default_loss {
        js.insert("loss_kind".into(), json!(spelt));
    }
    let kind = if default_loss { "mse" } else { kind };
    let a = match kind { "lp" => 1 + r.i64(0..3), "quantile" => 1 + r.i64(0..9), _ => 1 + r.i64(0..6) };
    // every parameter is given, with only the one of the chosen kind being the one that counts
    js.insert("huber_delta".into(), json!(if kind == "huber" { a } else { 77 }));
    js.insert("lp_p".into(), json!(if kind == "lp" { a } else { 5 }));
    js.insert("quantile_tau".into(), json!(if kind == "quantile" { a as f64 / 10.0 } else { 0.95 }));
    js.insert("epsilon_insensitive_eps".into(), json!(if kind == "eps" { a } else { 66 }));
    let has = r.bool();
    js.insert("has_headers".into(), json!(has));
    let opts: WasmSearchOptions = serde_json::from_value(Value::Object(js.clone())).expect("options from JSON");
    let back: WasmSearchOptions = serde_json::from_value(serde_json::to_value(&opts).unwrap()).expect("round trip");
    let o = wh::options(&opts, ops3());
    let got = option_fields(&o);
    let got2 = option_fields(&wh::options(&back, ops3()));
    let d: Vec<i64> = (0..4).map(|_| r.i64(-9..10)).collect();
    let scale = match kind { "huber" => 2.0, "quantile" => 10.0, _ => 1.0 } * 4.0;
    let yhat: Vec<f64> = d.iter().map(|&v| v as f64).collect();
    let l = o.loss.loss(&yhat, &[0.0; 4], None);
    let l = if kind == "rmse" { l * l } else { l };
    let names: Vec<&String> = dflt.keys().collect();
    json!({"t": "opts", "names": names, "given": given.keys().collect::<Vec<_>>(), "want": given, "got": got, "dflt": dflt, "twice": got == got2,
        "ops": [o.operators.nops(1), o.operators.nops(2), o.operators.nops(3)], "progress": o.progress,
        "kind": kind, "a": a, "d": d, "v": int(l * scale)})
}

/// A real engine behind the browser front end: snapshots, lookups and scores.
fn engine_case(r: &mut Rng) -> Value {
    let n = 6 + r.usize(0..20);
    let mut text = String::from("p,q,t,w\n");
    for i in 0..n {
        let (a, b) = (r.i64(-20..20) as f64 / 4.0, i as f64 / 4.0);
        let y = 2.0 * (a).cos() + a * b - 1.25;
        text.push_str(&format!("{a},{b},{y},{}\n", 1 + r.i64(0..3)));
    }
    let weighted = r.bool();
    let js = json!({"has_headers": true, "x_columns": [0, 1], "y_column": 2, "weights_column": if weighted { json!(3) } else { Value::Null },
        "validation_fraction": *pick(r, &[0.0, 0.25, 0.5]), "seed": r.u64(0..1000), "niterations": 3, "populations": 1 + r.usize(0..3),
        "population_size": 12, "ncycles_per_iteration": 15, "maxsize": 12, "tournament_selection_n": 4, "topn": 3,
        "batching": flip(r, 3), "batch_size": 5, "loss_kind": "mse", "optimizer_probability": 0.05, "progress": false});
    let opts: WasmSearchOptions = serde_json::from_value(js).unwrap();
    let (h, rows) = wh::parse_csv(&text, true).unwrap();
    let (all, names, w) = wh::full_dataset(&h, &rows, &opts).unwrap();
    let split = wh::split_indices(all.n_rows, opts.validation_fraction, opts.core.seed);
    let (train, val) = wh::split(&all, w.as_ref(), &names, &split).unwrap();
    let mut engine = SearchEngine::<f64, BuiltinOpsF64, 3>::new(train, wh::options(&opts, ops3()));
    let mut seen: std::collections::HashMap<u64, String> = Default::default();
    let mut steps = vec![];
    loop {
        let pk = *pick(r, &[1usize, 2, 4, 250]);
        let snap = wh::engine_snapshot(&engine, pk);
        let front = engine.hall_of_fame().pareto_front();
        let full: Vec<Value> = front.iter().map(|m| json!([m.id.0.to_string(), m.complexity, format!("{:?}", m.loss), format!("{:?}", m.cost)])).collect();
        let shown: Vec<Value> = snap.pareto_points.iter().map(|m| json!([m.id, m.complexity, format!("{:?}", m.loss), format!("{:?}", m.cost)])).collect();
        let b = engine.best();
        let text_of = |m: &wh::Member| wh::summary(&engine, m).equation;
        let best_ok = snap.best.id == b.id.0.to_string() && snap.best.complexity == b.complexity && snap.best.equation == text_of(b)
            && snap.best.loss.to_bits() == b.loss.to_bits() && snap.best.cost.to_bits() == b.cost.to_bits();
        let mut lookups = vec![];
        for m in engine.hall_of_fame().members().chain(std::iter::once(b)) {
            let f = wh::find_member(&engine, m.id.0);
            let here = format!("{} {:?} {:?}", text_of(m), m.expr.nodes, m.expr.consts);
            let same = f.as_ref().is_some_and(|f| {
                f.id == m.id && f.expr.nodes == m.expr.nodes && f.expr.consts == m.expr.consts && f.complexity == m.complexity
            });
            let before = seen.insert(m.id.0, here.clone());
            let stable = before.is_none_or(|b| b == here);
            // scores on both parts, against predictions by the tree evaluator and the definition
            let mut scores = vec![];
            for d in [Some(engine.dataset()), val.as_ref()].into_iter().flatten() {
                let (p, ok) = eval_tree_array::<f64, BuiltinOpsF64, 3>(&m.expr, d.x.view(), &EvalOptions { check_finite: true, early_exit: false });
                let got = catch_unwind(AssertUnwindSafe(|| wh::evaluate(d, m)));
                let good = match got {
                    Ok((met, yhat)) => {
                        let w = |i: usize| d.weights.as_ref().map(|w| w[i]).unwrap_or(1.0);
                        let sw: f64 = (0..d.n_rows).map(w).sum();
                        let mse: f64 = (0..d.n_rows).map(|i| w(i) * (p[i] - d.y[i]).powi(2)).sum::<f64>() / sw;
                        let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-6);
                        ok && met.n == d.n_rows && yhat.len() == d.n_rows && (0..d.n_rows).all(|i| close(yhat[i], p[i])) && close(met.mse, mse)
                            && (!std::ptr::eq(d, engine.dataset()) || close(met.mse, m.loss))
                    }
                    Err(_) => !ok,
                };
                scores.push(good);
            }
            lookups.push(json!({"found": f.is_some(), "same": same, "stable": stable, "scores": scores}));
        }
        let absent = wh::find_member(&engine, u64::MAX).is_none();
        steps.push(json!({"pk": pk, "full": full, "shown": shown, "best": best_ok, "look": lookups, "absent": absent,
            "counts": [snap.total_cycles, snap.cycles_completed, engine.total_cycles(), engine.cycles_completed()],
            "evals": snap.total_evals == engine.total_evals()}));
        if engine.is_finished() {
            break;
        }
        engine.step(1 + r.usize(0..2));
    }
    json!({"t": "engine", "steps": steps})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let mut r = Rng::with_seed(num("--seed", 1) ^ 0x7ab1e);
    let n = num("--n", 100) as usize;
    let prop = get("--prop").expect("--prop");
    let mut cases = vec![];
    match prop.as_str() {
        "C23" => {
            for i in 0..n {
                cases.push(ingest_case(&mut r));
                cases.push(metric_case(&mut r, i));
            }
            for i in 0..(12 * 21 + n) {
                cases.push(split_case(&mut r, i));
            }
            for (m, vf) in [(5, 400), (9, 500), (12, 250), (4, 900), (2, 500)] {
                cases.push(split_reach(m, vf));
            }
            for _ in 0..n / 60 {
                cases.push(engine_case(&mut r));
            }
        }
        "C24" => {
            for _ in 0..n {
                cases.push(engine_case(&mut r));
            }
        }
        "C30" => {
            for _ in 0..n {
                cases.push(option_case(&mut r));
            }
        }
        _ => std::process::exit(2),
    }
    std::fs::write(get("--out").expect("--out"), serde_json::to_string(&json!({"cases": cases})).unwrap()).unwrap();
}
