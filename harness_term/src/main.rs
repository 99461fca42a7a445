//! Searches with their progress display on; what stands on the terminal is read by tools/terminal.py.
use fastrand::Rng;
use ndarray::{Array1, Array2};
use serde_json::{Value, json};
use symbolic_regression::prelude::*;
use symbolic_regression::{HallOfFame, OutputStyle, SearchEngine};

const D: usize = 3;
type Ops = BuiltinOpsF64;

fn mark(what: &str, i: usize) {
    eprint!("\x1b]9;{what};{i}\x07");
}

fn front(h: &HallOfFame<f64, Ops, D>) -> Vec<Value> {
    h.pareto_front()
        .iter()
        .map(|m| {
            // mantissa in millionths and exponent
            let t = format!("{:.12e}", m.loss);
            let (a, e) = t.split_once('e').unwrap_or(("0", "0"));
            let a: f64 = a.parse().unwrap();
            json!({"c": m.complexity, "m": (a * 1e6).round() as i64, "e": e.parse::<i64>().unwrap(),
                "eq": m.expr.to_string().chars().map(|c| c as u32).collect::<Vec<_>>()})
        })
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let n: usize = get("--n").unwrap().parse().unwrap();
    // paces of stepped searches: the pause before each cycle
    let words: Vec<Vec<u64>> = serde_json::from_str(&std::fs::read_to_string(get("--gen").unwrap()).unwrap()).unwrap();
    let (part, parts): (usize, usize) = (get("--part").unwrap().parse().unwrap(), get("--parts").unwrap().parse().unwrap());
    let words: Vec<Vec<u64>> = words.into_iter().skip(part).step_by(parts).collect();
    let slow = words.len();
    let mut r = Rng::with_seed(seed);
    let mut runs = vec![];
    for i in 0..n + slow {
        let nf = 1 + r.usize(0..3);
        let rows = 3 + r.usize(0..12);
        let scale = 10f64.powi([0, 0, -3, 3, -40, 60, 5][r.usize(0..7)]);
        let names: Vec<Vec<&str>> = vec![
            vec![],
            vec!["t", "u", "v"],
            vec!["temperature_of_the_first_room", "p", "a_rather_long_name_for_a_column_of_a_table_that_nobody_abbreviated"],
            vec!["β", "größe", "数据列"],
        ];
        let names = &names[r.usize(0..4)];
        let names: Vec<String> = names.iter().take(nf).map(|s| s.to_string()).collect();
        let x = Array2::from_shape_fn((nf, rows), |_| r.f64() * 6.0 - 3.0);
        let y = Array1::from_shape_fn(rows, |j| scale * (x[(0, j)].sin() * 2.0 + x[(nf - 1, j)] * x[(0, j)] + 0.3));
        let data = Dataset::with_weights_and_names(x, y, None, names);
        let mut o = Options::<f64, D>::default();
        o.operators = Operators::<D>::from_names_by_arity::<Ops>(&["cos", "exp", "neg"], &["+", "-", "*", "/", "pow"], &["fma"]).unwrap();
        o.seed = r.u64(0..1 << 40);
        o.populations = 1 + r.usize(0..3);
        o.population_size = 4 + r.usize(0..12);
        o.niterations = 1 + r.usize(0..4);
        o.ncycles_per_iteration = 1 + r.usize(0..120);
        o.maxsize = [3, 12, 30, 60][r.usize(0..4)];
        o.maxdepth = 60;
        o.adaptive_parsimony_scaling = 20.0;
        o.progress = r.u8(0..12) != 0;
        let style = r.usize(0..3);
        o.output_style = if style == 0 { OutputStyle::Plain } else if style == 1 { OutputStyle::Ansi } else { OutputStyle::Auto };
        let word = words.get(i).cloned().unwrap_or_default();
        if i < slow {
            o.populations = 1;
            o.niterations = word.len();
        }
        let total = o.populations * o.niterations;
        let (progress, iters) = (o.progress, o.niterations);
        let mut states = vec![];
        mark("BEGIN", i);
        if i < slow {
            let mut e = SearchEngine::<f64, Ops, D>::new(data, o);
            let mut k = 0;
            while !e.is_finished() {
                std::thread::sleep(std::time::Duration::from_millis([0, 300, 560][word[k] as usize]));
                e.step(1);
                k += 1;
                states.push(json!({"done": e.cycles_completed(), "evals": e.total_evals(), "front": front(e.hall_of_fame())}));
                mark("STEP", k);
            }
        } else if r.bool() {
            let mut e = SearchEngine::<f64, Ops, D>::new(data, o);
            while !e.is_finished() {
                e.step(1 + r.usize(0..3));
            }
            if r.bool() {
                e.step(1);
            }
            states.push(json!({"done": e.cycles_completed(), "evals": e.total_evals(), "front": front(e.hall_of_fame())}));
        } else {
            let res = equation_search::<f64, Ops, D>(&data, &o);
            states.push(json!({"done": total, "evals": -1, "front": front(&res.hall_of_fame)}));
        }
        mark("END", i);
        runs.push(json!({"progress": progress, "total": total, "word": word, "iters": iters, "style": (["plain", "ansi", "auto"][style]), "states": states}));
    }
    std::fs::write(get("--out").unwrap(), serde_json::to_string(&json!({"runs": runs})).unwrap()).unwrap();
}
