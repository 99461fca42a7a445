//! Operator sets compiled from the declarations of spec/OpsDefs.tla (gen.rs), asked about everything they know.
use std::fmt::Display;

use dynamic_expressions::expression::{Metadata, PostfixExpr};
use dynamic_expressions::node::PNode;
use dynamic_expressions::{
    DiffContext, EvalContext, EvalOptions, GradContext, HasOp, LookupError, OpId, OpTag, Operator, OperatorSet,
    StringTreeOptions, combine_operators_in_place, compile_plan, eval_diff_tree_array, eval_grad_tree_array, eval_plan_array_into,
    eval_tree_array, eval_tree_array_into, simplify_tree_in_place, string_tree,
};
use fastrand::Rng;
use ndarray::{Array1, Array2};
use serde_json::{Value, json};
use symbolic_regression::prelude::*;
use symbolic_regression::{OperatorSelectError, PopMember, SearchEngine, equation_search};

#[cfg(not(feature = "plain"))]
mod gen;
#[cfg(feature = "plain")]
mod gen {
    pub fn all(_: &mut crate::Ctx) {
        println!("{}", crate::Case::default().t);
    }
}

const D: usize = 4;

#[derive(Default)]
pub struct Case {
    pub t: &'static str,
}
pub struct Ctx {
    r: Rng,
    n: usize,
    decls: Value,
    cases: Vec<Value>,
}

/// What a marker type says about its operator.
pub struct Entry<T> {
    mark: &'static str,
    op: OpId,
    says: Value,
    eval: Box<dyn Fn(&[T]) -> T>,
    partial: Box<dyn Fn(&[T], usize) -> T>,
}
fn opt(v: Option<&str>) -> Value {
    v.map_or(json!([]), |x| json!([x]))
}
pub fn entry<T: num_traits::Float, Ops: HasOp<Tag>, Tag: OpTag + Operator<T, A>, const A: usize>(mark: &'static str) -> Entry<T> {
    let op = <Ops as HasOp<Tag>>::op_id();
    let args = |a: &[T]| -> [T; A] { std::array::from_fn(|j| a[j]) };
    Entry {
        mark,
        op,
        says: json!({"mark": mark, "arity": op.arity, "id": op.id, "name": Tag::NAME, "display": Tag::DISPLAY, "infix": opt(Tag::INFIX),
            "commutative": Tag::COMMUTATIVE, "associative": Tag::ASSOCIATIVE, "complexity": Tag::COMPLEXITY}),
        eval: Box::new(move |a| Tag::eval(&args(a))),
        partial: Box::new(move |a, j| Tag::partial(&args(a), j)),
    }
}

fn int<T: num_traits::Float>(v: T) -> Value {
    match v.to_f64() {
        Some(x) if x.fract() == 0.0 && x.abs() < 2e9 => json!(x as i64),
        Some(x) => json!(format!("{x:?}")),
        None => json!("?"),
    }
}
fn ints<T: num_traits::Float>(v: &[T]) -> Value {
    Value::Array(v.iter().map(|x| int(*x)).collect())
}
fn jop(o: OpId) -> Value {
    json!([o.arity, o.id])
}
fn jnode(n: &PNode) -> Value {
    match *n {
        PNode::Var { feature } => json!([0, feature, 0]),
        PNode::Const { idx } => json!([1, idx, 0]),
        PNode::Op { arity, op } => json!([2, arity, op]),
    }
}
fn jnodes(n: &[PNode]) -> Value {
    Value::Array(n.iter().map(jnode).collect())
}
fn verdict(v: Result<OpId, LookupError>) -> Value {
    match v {
        Ok(o) => json!({"r": "ok", "token": "", "op": jop(o), "who": []}),
        Err(LookupError::Unknown(t)) => json!({"r": "unknown", "token": t, "op": [], "who": []}),
        Err(LookupError::Ambiguous { token, candidates }) => json!({"r": "ambiguous", "token": token, "op": [], "who": candidates}),
    }
}
fn jtok(t: &str) -> Value {
    json!([t.trim(), t.trim().to_ascii_lowercase()])
}

fn asked_set<Ops: OperatorSet>(c: &mut Ctx, name: &str, marks: Vec<Value>) {
    let ids: Vec<Value> = (0..=6u8).map(|a| json!(Ops::ops_with_arity(a))).collect();
    let mut each = vec![];
    Ops::for_each_op(|o| each.push(jop(o)));
    let mut metas = vec![];
    for arity in 0..=6u8 {
        let n = Ops::ops_with_arity(arity).len() as u16;
        for id in (0..n + 2).chain([255, 256, 65535]) {
            let o = OpId { arity, id };
            let m = Ops::meta(o);
            metas.push(json!({"arity": arity, "id": id, "there": m.is_some(), "own": m.map_or(json!([]), |m| json!([m.arity, m.id])),
                "name": Ops::name(o), "display": Ops::display(o), "infix": opt(Ops::infix(o)), "commutative": Ops::commutative(o),
                "associative": Ops::associative(o), "complexity": Ops::complexity(o)}));
            if let Some(m) = m {
                // the same again, from the record itself
                metas.push(json!({"arity": arity, "id": id, "there": true, "own": [m.arity, m.id], "name": m.name, "display": m.display,
                    "infix": opt(m.infix), "commutative": m.commutative, "associative": m.associative, "complexity": m.complexity}));
            }
        }
    }
    c.cases.push(json!({"t": "set", "set": name, "max_arity": Ops::MAX_ARITY, "ids": ids, "each": each, "metas": metas, "marks": marks}));
}

fn other_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|x| if r.bool() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect()
}
fn tokens<Ops: OperatorSet>(c: &mut Ctx, name: &str) -> Vec<String> {
    let mut toks: Vec<String> = vec!["".into(), "  ".into(), "nobody".into(), "unknown_op".into(), "-".into(), "+".into(), "add".into(), "0".into()];
    let set = c.decls["sets"].as_array().unwrap().iter().find(|s| s["name"] == name).unwrap().clone();
    for g in set["groups"].as_array().unwrap() {
        for o in g["ops"].as_array().unwrap() {
            let n = o["name"].as_str().unwrap();
            toks.extend([n.to_string(), other_case(&mut c.r, n), format!(" {n}\t"), format!("{n}x"), n[..n.len() - 1].to_string()]);
            for f in ["display", "infix"] {
                for t in o[f].as_array().unwrap() {
                    let t = t.as_str().unwrap();
                    toks.extend([t.to_string(), other_case(&mut c.r, t), format!("\n{t} "), format!("{t}{t}")]);
                }
            }
            toks.push(o["mark"].as_str().unwrap().to_string());
        }
    }
    for t in &toks {
        let all: Vec<Value> = Ops::lookup_all(t).into_iter().map(jop).collect();
        let by: Vec<Value> = (1..=5u8).map(|a| verdict(Ops::lookup_with_arity(t, a))).collect();
        c.cases.push(json!({"t": "token", "set": name, "tok": jtok(t), "all": all, "one": verdict(Ops::lookup(t)), "by": by}));
    }
    toks
}

fn choice<const K: usize>(c: &mut Ctx, name: &str, asked: Vec<Value>, got: Result<Operators<K>, OperatorSelectError>) {
    let (r, ops) = match got {
        Ok(o) => ("ok", o.ops_by_arity.iter().map(|v| json!(v.iter().map(|x| x.id).collect::<Vec<_>>())).collect()),
        Err(OperatorSelectError::Lookup(LookupError::Unknown(_))) => ("unknown", vec![]),
        Err(OperatorSelectError::Lookup(LookupError::Ambiguous { .. })) => ("ambiguous", vec![]),
        Err(OperatorSelectError::ArityMismatch { .. }) => ("mismatch", vec![]),
        Err(OperatorSelectError::ArityTooLarge { .. }) => ("too large", vec![]),
        Err(OperatorSelectError::Duplicate(_)) => ("duplicate", vec![]),
        Err(OperatorSelectError::Empty) => ("empty", vec![]),
    };
    c.cases.push(json!({"t": "choice", "set": name, "d": K, "asked": asked, "r": r, "ops": ops}));
}
fn choices<Ops: OperatorSet>(c: &mut Ctx, name: &str, toks: &[String]) {
    // mostly tokens that some operator answers to
    let good: Vec<&String> = toks.iter().filter(|t| Ops::lookup(t).is_ok()).collect();
    for round in 0..c.n {
        let some = |c: &mut Ctx, lo: usize| -> Vec<String> {
            (0..lo + c.r.usize(0..4))
                .map(|_| if good.is_empty() || c.r.usize(0..12) == 0 { toks[c.r.usize(0..toks.len())].clone() } else { good[c.r.usize(0..good.len())].clone() })
                .collect()
        };
        if round % 2 == 0 {
            let v = some(c, 0);
            let asked: Vec<Value> = v.iter().map(|t| json!({"arity": 0, "tok": jtok(t)})).collect();
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            match c.r.usize(0..4) {
                0 => choice(c, name, asked, Operators::<1>::from_names::<Ops>(&v)),
                1 => choice(c, name, asked, Operators::<2>::from_names::<Ops>(&v)),
                2 => choice(c, name, asked, Operators::<3>::from_names::<Ops>(&v)),
                _ => choice(c, name, asked, Operators::<4>::from_names::<Ops>(&v)),
            }
        } else {
            let mut by: [Vec<String>; 3] = Default::default();
            for t in some(c, 0) {
                let a = match Ops::lookup(&t) {
                    Ok(o) if c.r.usize(0..10) > 0 => (o.arity as usize - 1).min(2),
                    _ => c.r.usize(0..3),
                };
                by[a].push(t);
            }
            let mut asked = vec![];
            for (a, ts) in by.iter().enumerate() {
                asked.extend(ts.iter().map(|t| json!({"arity": a + 1, "tok": jtok(t)})));
            }
            let [u, b, t] = by.each_ref().map(|v| v.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            match c.r.usize(0..4) {
                0 => choice(c, name, asked, Operators::<1>::from_names_by_arity::<Ops>(&u, &b, &t)),
                1 => choice(c, name, asked, Operators::<2>::from_names_by_arity::<Ops>(&u, &b, &t)),
                2 => choice(c, name, asked, Operators::<3>::from_names_by_arity::<Ops>(&u, &b, &t)),
                _ => choice(c, name, asked, Operators::<4>::from_names_by_arity::<Ops>(&u, &b, &t)),
            }
        }
    }
}

/// The declared coefficients of an operator: arity, weights, product, offset.
struct Decl {
    arity: u8,
    id: u16,
    w: Vec<f64>,
    p: f64,
    b: f64,
}
fn declared(c: &Ctx, name: &str) -> Vec<Decl> {
    let set = c.decls["sets"].as_array().unwrap().iter().find(|s| s["name"] == name).unwrap();
    let mut out = vec![];
    for g in set["groups"].as_array().unwrap() {
        for (id, o) in g["ops"].as_array().unwrap().iter().enumerate() {
            out.push(Decl {
                arity: g["arity"].as_u64().unwrap() as u8,
                id: id as u16,
                w: o["w"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect(),
                p: o["p"].as_f64().unwrap(),
                b: o["b"].as_f64().unwrap(),
            });
        }
    }
    out
}
/// A random tree; returns a bound of its values and of those of its derivatives.
fn grow(r: &mut Rng, ops: &[Decl], depth: usize, nf: usize, nodes: &mut Vec<PNode>, consts: &mut Vec<i64>) -> (f64, f64) {
    if depth == 0 || r.usize(0..5) == 0 {
        if r.usize(0..3) == 0 {
            nodes.push(PNode::Const { idx: consts.len() as u16 });
            consts.push(r.i64(-2..=2));
        } else {
            nodes.push(PNode::Var { feature: r.u16(0..nf as u16) });
        }
        return (2.0, 1.0);
    }
    let o = &ops[r.usize(0..ops.len())];
    let kids: Vec<(f64, f64)> = o.w.iter().map(|_| grow(r, ops, depth - 1, nf, nodes, consts)).collect();
    nodes.push(PNode::Op { arity: o.arity, op: o.id });
    let v = o.b.abs() + kids.iter().zip(&o.w).map(|(k, w)| k.0 * w.abs()).sum::<f64>() + o.p * kids.iter().map(|k| k.0.max(1.0)).product::<f64>();
    let all = kids.iter().map(|k| k.0.max(1.0)).product::<f64>();
    let d = kids.iter().zip(&o.w).map(|(k, w)| k.1 * (w.abs() + o.p * all)).sum::<f64>();
    (v.max(all), d.max(1.0))
}

macro_rules! dump {
    ($dump:ident, $T:ty, $max:expr) => {
        pub fn $dump<Ops: OperatorSet<T = $T>>(c: &mut Ctx, name: &str, marks: Vec<Entry<$T>>)
        where
            $T: Display,
        {
            asked_set::<Ops>(c, name, marks.iter().map(|m| m.says.clone()).collect());
            for m in &marks {
                for _ in 0..4 {
                    let a: Vec<i64> = (0..m.op.arity).map(|_| c.r.i64(-3..=3)).collect();
                    let v: Vec<$T> = a.iter().map(|x| *x as $T).collect();
                    let ps: Vec<Value> = (0..a.len()).map(|j| int((m.partial)(&v, j))).collect();
                    c.cases.push(json!({"t": "point", "set": name, "op": jop(m.op), "mark": m.mark, "args": a, "value": int((m.eval)(&v)), "partials": ps}));
                }
            }
            let toks = tokens::<Ops>(c, name);
            choices::<Ops>(c, name, &toks);
            let ops = declared(c, name);
            let mut made = 0;
            while made < c.n {
                let nf = 1 + c.r.usize(0..3);
                let (mut nodes, mut consts) = (vec![], vec![]);
                let depth = [1, 1, 2, 2, 3][c.r.usize(0..5)];
                let (v, d) = grow(&mut c.r, &ops, depth, nf, &mut nodes, &mut consts);
                if nodes.len() > 25 || v.max(d) > $max {
                    continue;
                }
                made += 1;
                let nr = 1 + c.r.usize(0..9);
                let x: Array2<$T> = Array2::from_shape_fn((nf, nr), |_| c.r.i64(-2..=2) as $T);
                let e = PostfixExpr::<$T, Ops, D>::new(nodes, consts.iter().map(|x| *x as $T).collect(), Metadata::default());
                let o = EvalOptions { check_finite: c.r.bool(), early_exit: c.r.bool() };
                let (values, ok1) = eval_tree_array::<$T, Ops, D>(&e, x.view(), &o);
                let mut ctx = EvalContext::<$T, D>::new(nr);
                let mut again = vec![<$T>::NAN; nr];
                let ok2 = eval_tree_array_into::<$T, Ops, D>(&mut again, &e, x.view(), &mut ctx, &o);
                let plan = compile_plan::<D>(&e.nodes, nf, e.consts.len());
                let mut planned = vec![<$T>::NAN; nr];
                let mut scratch = Array2::<$T>::zeros((plan.n_slots, nr));
                let ok3 = eval_plan_array_into::<$T, Ops, D>(&mut planned, &plan, &e, x.view(), &mut scratch, &o);
                let dir = c.r.usize(0..nf);
                let (dv, dd, ok4) = eval_diff_tree_array::<$T, Ops, D>(&e, x.view(), dir, &mut DiffContext::new(nr), &o);
                let mut g = GradContext::new(nr);
                let (_, gx, ok5) = eval_grad_tree_array::<$T, Ops, D>(&e, x.view(), true, &mut g, &o);
                let (_, gc, ok6) = eval_grad_tree_array::<$T, Ops, D>(&e, x.view(), false, &mut g, &o);
                let rows = |m: &dynamic_expressions::GradMatrix<$T>| -> Vec<Value> { (0..m.n_dir).map(|q| ints(&m.data[q * nr..(q + 1) * nr])).collect() };
                let mut s = e.clone();
                let how = c.r.usize(0..3);
                if how != 1 {
                    simplify_tree_in_place::<$T, Ops, D>(&mut s, &o);
                }
                if how != 0 {
                    combine_operators_in_place::<$T, Ops, D>(&mut s);
                }
                let sv = eval_tree_array::<$T, Ops, D>(&s, x.view(), &o).0;
                c.cases.push(json!({"t": "tree", "set": name, "nodes": jnodes(&e.nodes), "consts": consts, "complete": ok1 && ok2 && ok3 && ok4 && ok5 && ok6,
                    "rows": (0..nr).map(|r| (0..nf).map(|f| x[(f, r)] as i64).collect::<Vec<_>>()).collect::<Vec<_>>(),
                    "values": ints(&values), "again": ints(&again), "plan": ints(&planned), "dir": dir,
                    "diff": dv.iter().zip(&dd).map(|(a, b)| json!([int(*a), int(*b)])).collect::<Vec<_>>(), "grad_x": rows(&gx), "grad_c": rows(&gc),
                    "plain": e.to_string(), "pretty": string_tree(&e, StringTreeOptions { variable_names: None, pretty: true }),
                    "simple": {"nodes": jnodes(&s.nodes), "consts": ints(&s.consts), "values": ints(&sv)}}));
            }
        }
    };
}
dump!(dump_f64, f64, 1e8);
dump!(dump_f32, f32, 4e6);

/// Operators picked with sr_ops!, which must be these in this order.
pub fn built(c: &mut Ctx, name: &str, o: Operators<4>, want: &[(usize, usize)]) {
    let mut ops: [Vec<usize>; 4] = Default::default();
    for (a, j) in want {
        ops[a - 1].push(*j);
    }
    let got: Vec<Vec<usize>> = o.ops_by_arity.iter().map(|v| v.iter().map(|x| x.id as usize).collect()).collect();
    let arities = o.ops_by_arity.iter().enumerate().all(|(a, v)| v.iter().all(|x| x.arity as usize == a + 1));
    c.cases.push(json!({"t": "built", "set": name, "got": got, "want": ops, "arities": arities}));
}

pub fn search<Ops: OperatorSet<T = f64> + Send + Sync>(c: &mut Ctx, name: &str) {
    for round in 0..1 + c.n / 40 {
        let mut ids = vec![];
        Ops::for_each_op(|o| {
            if (1..2000).contains(&Ops::complexity(o)) {
                ids.push(o)
            }
        });
        c.r.shuffle(&mut ids);
        ids.truncate(1 + c.r.usize(0..6));
        let mut operators = Operators::<D>::new();
        ids.iter().for_each(|o| operators.push(*o));
        let x = Array2::from_shape_fn((2, 12), |_| c.r.f64() * 4.0 - 2.0);
        let y = Array1::from_shape_fn(12, |j| 1.5 + x[(0, j)] * x[(1, j)] - x[(0, j)]);
        let data = Dataset::new(x, y);
        let mut o = Options::<f64, D> { operators, ..Default::default() };
        o.seed = c.r.u64(0..1 << 40);
        o.populations = 2;
        o.population_size = 12;
        o.niterations = 2;
        o.ncycles_per_iteration = 20;
        o.maxsize = 6 + c.r.usize(0..16);
        o.maxdepth = o.maxsize;
        o.progress = false;
        let mut over = vec![];
        for q in &ids {
            if round % 2 == 1 && c.r.bool() {
                let v = 1 + c.r.u16(0..4);
                o.operator_complexity_overrides.insert(*q, v);
                over.push(json!([q.arity, q.id, v]));
            }
        }
        let mut got = vec![];
        let mut keep = |m: &PopMember<f64, Ops, D>| got.push(json!({"nodes": jnodes(&m.expr.nodes), "complexity": m.complexity}));
        let hall;
        if c.r.bool() {
            let s = equation_search::<f64, Ops, D>(&data, &o);
            hall = s.hall_of_fame.members().count();
            s.hall_of_fame.members().chain([&s.best]).for_each(&mut keep);
        } else {
            let mut e = SearchEngine::<f64, Ops, D>::new(data, o.clone());
            while !e.is_finished() {
                e.step(1);
            }
            hall = e.hall_of_fame().members().count();
            e.hall_of_fame().members().chain([e.best()]).for_each(&mut keep);
        }
        c.cases.push(json!({"t": "search", "set": name, "chosen": ids.iter().map(|o| jop(*o)).collect::<Vec<_>>(), "over": over,
            "maxsize": o.maxsize, "hall": hall, "members": got}));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let decls: Value = serde_json::from_str(&std::fs::read_to_string(get("--gen").unwrap()).unwrap()).unwrap();
    let mut lows = serde_json::Map::new();
    for s in decls["sets"].as_array().unwrap() {
        for g in s["groups"].as_array().unwrap() {
            for o in g["ops"].as_array().unwrap() {
                let n = o["name"].as_str().unwrap();
                lows.insert(n.to_string(), json!(n.to_ascii_lowercase()));
            }
        }
    }
    let mut c = Ctx { r: Rng::with_seed(seed), n: get("--n").unwrap().parse().unwrap(), decls, cases: vec![] };
    gen::all(&mut c);
    std::fs::write(get("--out").unwrap(), serde_json::to_string(&json!({"lows": lows, "cases": c.cases})).unwrap()).unwrap();
}
