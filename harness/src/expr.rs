//! Observations of the expression layer (evaluation, derivatives, simplification, printing,
//! composition, constraints) as cases for ExprCases.tla.
use std::collections::HashMap;

use dynamic_expressions::num_traits::Float;
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{
    DiffContext, EvalContext, EvalOptions, GradContext, Metadata, OpId, OperatorSet, PNode, PostfixExpr, Src,
    StringTreeOptions, combine_operators_in_place, compile_plan, count_depth, eval_diff_tree_array,
    eval_grad_tree_array, eval_plan_array_into, eval_tree_array, eval_tree_array_into, lit, simplify_in_place,
    simplify_tree_in_place, string_tree,
};
use fastrand::Rng;
use ndarray::Array2;
use serde_json::{Value, json};
use symbolic_regression::verif_hooks as vh;
use symbolic_regression::{Options, compute_complexity};

use crate::refops::{self, apply, partial};

dynamic_expressions::custom_opset! {
    pub struct Ops4<f64> {
        1 {
            neg { infix: "-", eval(a) { -a[0] }, partial(_a, _i) { -1.0 }, }
            abs2 { eval(a) { a[0] * a[0] }, partial(a, _i) { 2.0 * a[0] }, }
        }
        2 {
            rsub { eval(a) { a[1] - a[0] }, partial(_a, i) { if i == 0 { -1.0 } else { 1.0 } }, }
            mul { display: "*", infix: "*", eval(a) { a[0] * a[1] }, partial(a, i) { a[1 - i] }, }
            add { infix: "+", eval(a) { a[0] + a[1] }, partial(_a, _i) { 1.0 }, }
            sub { infix: "-", eval(a) { a[0] - a[1] }, partial(_a, i) { if i == 0 { 1.0 } else { -1.0 } }, }
        }
        3 {
            lin3 { infix: "#", eval(a) { a[0] + 2.0 * a[1] - 3.0 * a[2] }, partial(_a, i) { [1.0, 2.0, -3.0][i] }, }
        }
        4 {
            lin4 { eval(a) { a[0] - 2.0 * a[1] + 3.0 * a[2] - 5.0 * a[3] }, partial(_a, i) { [1.0, -2.0, 3.0, -5.0][i] }, }
            mix4 { eval(a) { a[0] * a[1] - a[2] * a[3] }, partial(a, i) { [a[1], a[0], -a[3], -a[2]][i] }, }
        }
    }
}

dynamic_expressions::opset! {
    pub struct OpsSub<f64>;
    ops {
        (1, USub) { Neg, Abs2, }
        (2, BSub) { Max, Sub, }
    }
}

dynamic_expressions::opset! {
    pub struct OpsMul<f64>;
    ops {
        (1, UMul) { Neg, }
        (2, BMul) { Mul, Sub, Add, }
        (3, TMul) { Fma, }
    }
}

pub const NONINT: i64 = 1_073_741_824;

/// Reference notation: (name, arity, infix symbol, pretty display).
pub fn notation(os: &str) -> Vec<(&'static str, u8, Option<&'static str>, &'static str)> {
    let unary = [
        "abs", "abs2", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "cot", "csc", "exp",
        "exp2", "expm1", "identity", "inv", "log", "log1p", "log2", "log10", "sec", "sign", "sin", "sinh", "sqrt",
        "tan", "tanh",
    ];
    let mut b: Vec<(&'static str, u8, Option<&'static str>, &'static str)> =
        unary.iter().map(|n| (*n, 1u8, None, *n)).collect();
    b.push(("neg", 1, Some("-"), "-"));
    for (n, s) in [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")] {
        b.push((n, 2, Some(s), s));
    }
    for n in ["atan2", "max", "min", "pow"] {
        b.push((n, 2, None, n));
    }
    for n in ["clamp", "fma"] {
        b.push((n, 3, None, n));
    }
    let has = |ns: &[(&str, u8)]| b.iter().filter(|e| ns.contains(&(e.0, e.1))).cloned().collect::<Vec<_>>();
    match os {
        "builtin" => b,
        "sub" => has(&[("neg", 1), ("abs2", 1), ("max", 2), ("sub", 2)]),
        "mul" => has(&[("neg", 1), ("mul", 2), ("sub", 2), ("add", 2), ("fma", 3)]),
        "four" => vec![
            ("neg", 1, Some("-"), "neg"),
            ("abs2", 1, None, "abs2"),
            ("rsub", 2, None, "rsub"),
            ("mul", 2, Some("*"), "*"),
            ("add", 2, Some("+"), "add"),
            ("sub", 2, Some("-"), "sub"),
            ("lin3", 3, Some("#"), "lin3"),
            ("lin4", 4, None, "lin4"),
            ("mix4", 4, None, "mix4"),
        ],
        _ => unreachable!(),
    }
}

const INT_OPS: [(&str, u8); 13] = [
    ("abs", 1), ("abs2", 1), ("identity", 1), ("neg", 1), ("add", 2), ("max", 2), ("min", 2), ("mul", 2), ("sub", 2),
    ("clamp", 3), ("fma", 3), ("sub", 2), ("neg", 1),
];

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.usize(0..v.len())]
}

pub fn name_of<Ops: OperatorSet>(o: OpId) -> String {
    Ops::name(o).to_ascii_lowercase()
}

pub fn find_op<Ops: OperatorSet>(name: &str, arity: u8) -> OpId {
    for &id in Ops::ops_with_arity(arity) {
        let o = OpId { arity, id };
        if name_of::<Ops>(o) == name {
            return o;
        }
    }
    panic!("no operator {name}/{arity}")
}

pub fn jn<Ops: OperatorSet>(n: &[PNode]) -> Vec<Value> {
    n.iter()
        .map(|p| match *p {
            PNode::Var { feature } => json!([0, feature, 0]),
            PNode::Const { idx } => json!([1, idx, 0]),
            PNode::Op { arity, op } => json!([2, arity, name_of::<Ops>(OpId { arity, id: op })]),
        })
        .collect()
}

/// A random postfix tree of about `size` nodes.
pub fn rnd_nodes(r: &mut Rng, size: usize, pool: &[OpId], nf: usize, nc: usize) -> Vec<PNode> {
    if size <= 1 {
        if nc > 0 && r.usize(0..5) < 2 {
            return vec![PNode::Const { idx: r.u16(0..nc as u16) }];
        }
        return vec![PNode::Var { feature: r.u16(0..nf as u16) }];
    }
    let fit: Vec<OpId> = pool.iter().copied().filter(|o| (o.arity as usize) < size).collect();
    let o = if fit.is_empty() { *pick(r, pool) } else { *pick(r, &fit) };
    let a = o.arity as usize;
    let mut left = size.saturating_sub(1).max(a);
    let mut out = vec![];
    for j in 0..a {
        let rest = a - j - 1;
        let s = if rest == 0 { left } else { 1 + r.usize(0..(left - rest).max(1)) };
        left = left.saturating_sub(s).max(rest);
        out.extend(rnd_nodes(r, s, pool, nf, nc));
    }
    out.push(PNode::Op { arity: o.arity, op: o.id });
    out
}

fn mat(x: &[Vec<f64>]) -> Array2<f64> {
    Array2::from_shape_fn((x[0].len(), x.len()), |(f, r)| x[r][f])
}

/// Reusable contexts and buffers, shared by all cases of a run on purpose.
pub struct Shared<T: Float, const D: usize> {
    ev: HashMap<usize, EvalContext<T, D>>,
    df: HashMap<usize, DiffContext<T, D>>,
    gr: HashMap<(usize, bool), GradContext<T, D>>,
    scratch: Array2<T>,
}
impl<T: Float, const D: usize> Shared<T, D> {
    pub fn new() -> Self {
        Self { ev: HashMap::new(), df: HashMap::new(), gr: HashMap::new(), scratch: Array2::zeros((0, 0)) }
    }
}

fn opts(cf: bool, ee: bool) -> EvalOptions {
    EvalOptions { check_finite: cf, early_exit: ee }
}

/// All ways of evaluating one expression: (path, check_finite, early_exit, complete, values).
fn all_paths<Ops: OperatorSet<T = f64>, const D: usize>(
    sh: &mut Shared<f64, D>,
    nodes: &[PNode],
    consts: &[f64],
    x: &[Vec<f64>],
    r: &mut Rng,
) -> Vec<(&'static str, bool, bool, bool, Vec<f64>)> {
    let e = PostfixExpr::<f64, Ops, D>::new(nodes.to_vec(), consts.to_vec(), Metadata::default());
    let m = mat(x);
    let n = x.len();
    let mut out = vec![];
    for (cf, ee) in [(true, true), (true, false), (false, true), (false, false)] {
        let o = opts(cf, ee);
        let (v, ok) = eval_tree_array::<f64, Ops, D>(&e, m.view(), &o);
        out.push(("fresh", cf, ee, ok, v));
        let ctx = sh.ev.entry(n).or_insert_with(|| EvalContext::new(n));
        let mut v = vec![f64::NAN; n];
        let ok = eval_tree_array_into::<f64, Ops, D>(&mut v, &e, m.view(), ctx, &o);
        out.push(("ctx", cf, ee, ok, v));
        // same context, same expression, other constants and data in between
        if r.bool() && !consts.is_empty() {
            let e2 = PostfixExpr::<f64, Ops, D>::new(
                nodes.to_vec(),
                consts.iter().map(|c| c * 1.5 + 1.0).collect(),
                Metadata::default(),
            );
            let m2 = m.mapv(|v| v - 2.0);
            let mut w = vec![0.0; n];
            eval_tree_array_into::<f64, Ops, D>(&mut w, &e2, m2.view(), ctx, &o);
            let mut v = vec![f64::NAN; n];
            let ok = eval_tree_array_into::<f64, Ops, D>(&mut v, &e, m.view(), ctx, &o);
            out.push(("again", cf, ee, ok, v));
        }
        let plan = compile_plan::<D>(nodes, x[0].len(), consts.len());
        let mut v = vec![f64::NAN; n];
        let ok = eval_plan_array_into::<f64, Ops, D>(&mut v, &plan, &e, m.view(), &mut sh.scratch, &o);
        out.push(("plan", cf, ee, ok, v));
    }
    out
}

fn all_values<Ops: OperatorSet>(nodes: &[PNode], consts: &[f64], x: &[f64], jit: &mut dyn FnMut() -> f64) -> Vec<f64> {
    let mut st: Vec<f64> = vec![];
    let mut all = vec![];
    for n in nodes {
        let v = match *n {
            PNode::Var { feature } => x[feature as usize],
            PNode::Const { idx } => consts[idx as usize],
            PNode::Op { arity, op } => {
                let a = st.split_off(st.len() - arity as usize);
                apply(&name_of::<Ops>(OpId { arity, id: op }), &a) * (1.0 + jit())
            }
        };
        st.push(v);
        all.push(v);
    }
    all
}

/// Largest deviation of the result under relative perturbations of every operator's result;
/// None if finiteness anywhere depends on the perturbation.
fn spread<Ops: OperatorSet>(nodes: &[PNode], consts: &[f64], x: &[f64], eps: f64, r: &mut Rng) -> Option<f64> {
    spread_c::<Ops>(nodes, consts, x, eps, 0.0, r)
}
/// The same, with the constants (rounded results themselves, after folding) moved by `ceps` as well.
fn spread_c<Ops: OperatorSet>(nodes: &[PNode], consts: &[f64], x: &[f64], eps: f64, ceps: f64, r: &mut Rng) -> Option<f64> {
    let base = all_values::<Ops>(nodes, consts, x, &mut || 0.0);
    let b = *base.last().unwrap();
    let mut d: f64 = 0.0;
    for k in 0..6 {
        let moved: Vec<f64> = consts.iter().map(|c| c * (1.0 + ceps * (r.f64() * 2.0 - 1.0))).collect();
        let v = all_values::<Ops>(nodes, &moved, x, &mut || match k {
            0 => eps,
            1 => -eps,
            _ => eps * (r.f64() * 2.0 - 1.0),
        });
        if base.iter().zip(&v).any(|(p, q)| p.is_finite() != q.is_finite()) {
            return None;
        }
        let w = *v.last().unwrap();
        if w.is_finite() {
            d = d.max((w - b).abs());
        }
    }
    Some(d)
}

fn same_class(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    same_class(a, b) || (a.is_finite() && b.is_finite() && (a - b).abs() <= tol)
}

#[derive(Default)]
struct Ids {
    vals: Vec<f64>,
    ix: HashMap<u64, usize>,
}
impl Ids {
    fn id(&mut self, v: f64) -> usize {
        let key = if v.is_nan() { u64::MAX } else { v.to_bits() };
        if let Some(i) = self.ix.get(&key) {
            return *i;
        }
        self.vals.push(v);
        self.ix.insert(key, self.vals.len());
        self.vals.len()
    }
    fn cands(&self, v: f64, tol: f64) -> Vec<usize> {
        (0..self.vals.len()).filter(|i| near(self.vals[*i], v, tol)).map(|i| i + 1).collect()
    }
}

struct Table {
    ids: Ids,
    tab: Vec<(String, Vec<usize>, usize)>,
    seen: HashMap<(String, Vec<usize>), usize>,
    c: Vec<usize>,
    x: Vec<Vec<usize>>,
    amb: Vec<bool>,
    tol: Vec<f64>,
}
fn table<Ops: OperatorSet>(nodes: &[PNode], consts: &[f64], x: &[Vec<f64>], r: &mut Rng, eps: f64, rel: f64) -> Table {
    let mut t = Table {
        ids: Ids::default(),
        tab: vec![],
        seen: HashMap::new(),
        c: vec![],
        x: vec![],
        amb: vec![],
        tol: vec![],
    };
    t.c = consts.iter().map(|v| t.ids.id(*v)).collect();
    for row in x {
        let ids: Vec<usize> = row.iter().map(|v| t.ids.id(*v)).collect();
        let mut st: Vec<usize> = vec![];
        for n in nodes {
            match *n {
                PNode::Var { feature } => st.push(ids[feature as usize]),
                PNode::Const { idx } => st.push(t.c[idx as usize]),
                PNode::Op { arity, op } => {
                    let a = st.split_off(st.len() - arity as usize);
                    let nm = name_of::<Ops>(OpId { arity, id: op });
                    let av: Vec<f64> = a.iter().map(|i| t.ids.vals[*i - 1]).collect();
                    let v = t.ids.id(apply(&nm, &av));
                    if t.seen.insert((nm.clone(), a.clone()), v).is_none() {
                        t.tab.push((nm, a, v));
                    }
                    st.push(v);
                }
            }
        }
        let v = t.ids.vals[st[0] - 1];
        let sp = spread::<Ops>(nodes, consts, row, eps, r);
        let tol = sp.map_or(0.0, |s| rel * v.abs() + 100.0 * s);
        t.amb.push(sp.is_none() || (v.is_finite() && tol > 1e-3 * v.abs().max(1e-3)));
        t.tol.push(tol);
        t.x.push(ids);
    }
    t
}

fn iv(v: f64) -> i64 {
    if v.is_finite() && v.fract() == 0.0 && v.abs() < (1 << 29) as f64 { v as i64 } else { NONINT }
}
fn small<Ops: OperatorSet>(nodes: &[PNode], consts: &[f64], x: &[Vec<f64>]) -> bool {
    x.iter()
        .all(|row| all_values::<Ops>(nodes, consts, row, &mut || 0.0).iter().all(|v| v.abs() < 3e7 && v.fract() == 0.0))
}

// ------------------------------------------------------------------------------------------------

pub struct Gen {
    pub exhaustive: Vec<Vec<(u8, u16, String)>>,
}
impl Gen {
    pub fn nodes<Ops: OperatorSet>(&self, i: usize) -> Vec<PNode> {
        self.exhaustive[i]
            .iter()
            .map(|(k, a, n)| match k {
                0 => PNode::Var { feature: *a },
                1 => PNode::Const { idx: *a },
                _ => {
                    let o = find_op::<Ops>(n, *a as u8);
                    PNode::Op { arity: o.arity, op: o.id }
                }
            })
            .collect()
    }
}

fn pool_of<Ops: OperatorSet>(names: &[(&str, u8)]) -> Vec<OpId> {
    names.iter().map(|(n, a)| find_op::<Ops>(n, *a)).collect()
}
fn all_ops<Ops: OperatorSet>() -> Vec<OpId> {
    let mut v = vec![];
    Ops::for_each_op(|o| v.push(o));
    v
}

fn int_x(r: &mut Rng, rows: usize, nf: usize) -> Vec<Vec<f64>> {
    (0..rows).map(|_| (0..nf).map(|_| r.i32(-6..=6) as f64).collect()).collect()
}
fn int_c(r: &mut Rng, nc: usize) -> Vec<f64> {
    (0..nc).map(|_| r.i32(-5..=5) as f64).collect()
}
fn flt(r: &mut Rng) -> f64 {
    match r.u8(0..8) {
        0 => r.i32(-3..=3) as f64,
        1 => r.f64() * 0.98,
        2 => r.f64() * 20.0 - 10.0,
        3 => r.f64() * 1e-3,
        _ => r.f64() * 4.0 - 2.0,
    }
}
fn wild(r: &mut Rng) -> f64 {
    match r.u8(0..12) {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        2 => f64::NAN,
        3 => 0.0,
        4 => 1e308,
        5 => -1e300,
        6 => 800.0,
        _ => flt(r),
    }
}
fn any_rows(r: &mut Rng) -> usize {
    if r.u8(0..40) == 0 { *pick(r, &[33usize, 65, 130, 300]) } else { *pick(r, &[1, 1, 1, 2, 2, 3, 3, 3, 5, 5, 9, 18]) }
}

/// One generated expression of an integer-valued operator set.
struct IntCase {
    nodes: Vec<PNode>,
    c: Vec<f64>,
    x: Vec<Vec<f64>>,
    os: usize,
}

fn int_case(g: &Gen, i: usize, r: &mut Rng) -> IntCase {
    let rows = any_rows(r);
    loop {
        if i < g.exhaustive.len() {
            let nodes = g.nodes::<BuiltinOpsF64>(i);
            let x = int_x(r, rows, 2);
            let c = int_c(r, 2);
            if small::<BuiltinOpsF64>(&nodes, &c, &x) {
                return IntCase { nodes, c, x, os: 0 };
            }
            continue;
        }
        if i % 97 == 3 {
            // many nodes, constants and features
            let (nf, nc) = (1 + r.usize(0..9), *pick(r, &[3usize, 40, 290]));
            let pool = pool_of::<BuiltinOpsF64>(&[("add", 2), ("sub", 2), ("max", 2), ("neg", 1), ("min", 2)]);
            let size = 60 + r.usize(0..240);
            let nodes = rnd_nodes(r, size, &pool, nf, nc);
            let x = int_x(r, 2, nf);
            let c = int_c(r, nc);
            return IntCase { nodes, c, x, os: 0 };
        }
        let nf = 1 + r.usize(0..4);
        let nc = r.usize(0..5);
        let size = 1 + r.usize(0..26);
        let os = *pick(r, &[0usize, 0, 1, 2, 3]);
        let x = int_x(r, rows, nf);
        let c = int_c(r, nc);
        let nodes = match os {
            0 => rnd_nodes(r, size, &pool_of::<BuiltinOpsF64>(&INT_OPS), nf, nc),
            1 => rnd_nodes(r, size, &all_ops::<Ops4>(), nf, nc),
            2 => rnd_nodes(r, size, &all_ops::<OpsSub>(), nf, nc),
            _ => rnd_nodes(r, size, &all_ops::<OpsMul>(), nf, nc),
        };
        let ok = match os {
            0 => small::<BuiltinOpsF64>(&nodes, &c, &x),
            1 => small::<Ops4>(&nodes, &c, &x),
            2 => small::<OpsSub>(&nodes, &c, &x),
            _ => small::<OpsMul>(&nodes, &c, &x),
        };
        if ok {
            return IntCase { nodes, c, x, os };
        }
    }
}

fn jix(x: &[Vec<f64>]) -> Vec<Vec<i64>> {
    x.iter().map(|r| r.iter().map(|v| *v as i64).collect()).collect()
}
fn jic(c: &[f64]) -> Vec<i64> {
    c.iter().map(|v| iv(*v)).collect()
}

pub struct Pools {
    b: Shared<f64, 3>,
    f: Shared<f64, 4>,
    s: Shared<f64, 2>,
    m: Shared<f64, 3>,
}
impl Pools {
    pub fn new() -> Self {
        Self { b: Shared::new(), f: Shared::new(), s: Shared::new(), m: Shared::new() }
    }
}

// ---- C14 -----------------------------------------------------------------------------------

fn c14_int<Ops: OperatorSet<T = f64>, const D: usize>(sh: &mut Shared<f64, D>, k: &IntCase, r: &mut Rng) -> Value {
    let out: Vec<Value> = all_paths::<Ops, D>(sh, &k.nodes, &k.c, &k.x, r)
        .iter()
        .map(|(p, _, _, ok, v)| json!([p, ok, v.iter().map(|v| iv(*v)).collect::<Vec<_>>()]))
        .collect();
    json!({"k": "int", "n": jn::<Ops>(&k.nodes), "c": jic(&k.c), "x": jix(&k.x), "out": out})
}

fn c14_plan<Ops: OperatorSet, const D: usize>(nodes: &[PNode], nf: usize, nc: usize) -> Value {
    let p = compile_plan::<D>(nodes, nf, nc);
    let src = |s: &Src| match *s {
        Src::Var(f) => json!([0, f]),
        Src::Const(c) => json!([1, c]),
        Src::Slot(s) => json!([2, s]),
    };
    let instrs: Vec<Value> = p
        .instrs
        .iter()
        .map(|i| {
            let args: Vec<Value> = i.args[..i.arity as usize].iter().map(src).collect();
            json!([i.arity, name_of::<Ops>(OpId { arity: i.arity, id: i.op }), args, i.dst])
        })
        .collect();
    json!({"k": "plan", "n": jn::<Ops>(nodes), "plan": {"instrs": instrs, "nslots": p.n_slots, "root": src(&p.root)}})
}

fn c14_tab(sh: &mut Shared<f64, 3>, sh32: &mut Shared<f32, 3>, r: &mut Rng) -> Value {
    type O = BuiltinOpsF64;
    let nf = 1 + r.usize(0..3);
    let nc = r.usize(0..4);
    let rows = any_rows(r);
    let size = 1 + r.usize(0..14);
    let nodes = rnd_nodes(r, size, &all_ops::<O>(), nf, nc);
    let f32case = r.u8(0..5) == 0;
    let q = |v: f64| if f32case { v as f32 as f64 } else { v };
    let x: Vec<Vec<f64>> = (0..rows).map(|_| (0..nf).map(|_| q(flt(r))).collect()).collect();
    let c: Vec<f64> = (0..nc).map(|_| q(flt(r))).collect();
    let (eps, rel) = if f32case { (3e-7, 1e-5) } else { (1e-14, 1e-10) };
    let mut t = table::<O>(&nodes, &c, &x, r, eps, rel);
    let paths: Vec<(&str, bool, bool, bool, Vec<f64>)> = if f32case {
        let e = PostfixExpr::<f32, BuiltinOpsF32, 3>::new(
            map_nodes::<O, BuiltinOpsF32>(&nodes),
            c.iter().map(|v| *v as f32).collect(),
            Metadata::default(),
        );
        let m = mat(&x).mapv(|v| v as f32);
        // magnitudes outside the f32 range are not comparable
        for (i, row) in x.iter().enumerate() {
            if all_values::<O>(&nodes, &c, row, &mut || 0.0).iter().any(|v| v.abs() > 1e30 || (v.abs() < 1e-30 && *v != 0.0)) {
                t.amb[i] = true;
            }
        }
        let (v, ok) = eval_tree_array::<f32, BuiltinOpsF32, 3>(&e, m.view(), &opts(false, true));
        let ctx = sh32.ev.entry(rows).or_insert_with(|| EvalContext::new(rows));
        let mut w = vec![0.0f32; rows];
        let ok2 = eval_tree_array_into::<f32, BuiltinOpsF32, 3>(&mut w, &e, m.view(), ctx, &opts(false, false));
        let up = |v: Vec<f32>| v.into_iter().map(|z| z as f64).collect::<Vec<_>>();
        vec![("f32", false, true, ok, up(v)), ("f32ctx", false, false, ok2, up(w))]
    } else {
        all_paths::<O, 3>(sh, &nodes, &c, &x, r)
    };
    let out: Vec<Value> = paths
        .iter()
        .filter(|p| p.3 || !p.2 || !p.1)
        .map(|p| json!([p.0, p.3, (0..rows).map(|i| t.ids.cands(p.4[i], t.tol[i])).collect::<Vec<_>>()]))
        .collect();
    json!({"k": "tab", "n": jn::<O>(&nodes), "c": t.c, "x": t.x, "tab": t.tab, "amb": t.amb, "out": out})
}

fn map_nodes<A: OperatorSet, B: OperatorSet>(n: &[PNode]) -> Vec<PNode> {
    n.iter()
        .map(|p| match *p {
            PNode::Op { arity, op } => {
                let o = find_op::<B>(&name_of::<A>(OpId { arity, id: op }), arity);
                PNode::Op { arity: o.arity, op: o.id }
            }
            o => o,
        })
        .collect()
}

/// Different expressions of the same length, constants and features evaluated through one context,
/// among them two whose node sequences share a hash.
fn c14_hash(r: &mut Rng, i: usize) -> Value {
    type O = BuiltinOpsF64;
    let add = find_op::<O>("add", 2);
    let chain = |f: &[u16], o: &dyn Fn(usize) -> OpId| {
        let mut v = vec![PNode::Var { feature: f[0] }];
        for (k, g) in f[1..].iter().enumerate() {
            let p = o(k);
            v.push(PNode::Var { feature: *g });
            v.push(PNode::Op { arity: p.arity, op: p.id });
        }
        v
    };
    let x: Vec<Vec<f64>> = (0..3).map(|_| (0..5).map(|_| r.i32(-9..=9) as f64).collect()).collect();
    let mut seqs: Vec<Vec<PNode>> = vec![];
    if i == 0 {
        let a: [u16; 20] = [2, 0, 1, 0, 0, 1, 0, 3, 0, 0, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0];
        let b: [u16; 20] = [0, 1, 0, 4, 2, 0, 3, 0, 0, 2, 0, 0, 0, 4, 3, 3, 2, 0, 0, 1];
        for s in [&a, &b, &a] {
            seqs.push(chain(s, &|_| add));
        }
    } else {
        let len = 2 + r.usize(0..8);
        let pool = pool_of::<O>(&[("add", 2), ("sub", 2), ("max", 2), ("min", 2)]);
        for _ in 0..6 {
            let f: Vec<u16> = (0..len).map(|_| r.u16(0..5)).collect();
            let os: Vec<OpId> = (0..len).map(|_| *pick(r, &pool)).collect();
            seqs.push(chain(&f, &|k| os[k]));
        }
        // neighbours that differ in one place only
        let mut s = seqs[0].clone();
        for n in s.iter_mut().rev() {
            if let PNode::Op { op, .. } = n {
                *op = find_op::<O>(if name_of::<O>(OpId { arity: 2, id: *op }) == "sub" { "add" } else { "sub" }, 2).id;
                break;
            }
        }
        seqs.push(s);
        let mut s = seqs[0].clone();
        if let PNode::Var { feature } = &mut s[0] {
            *feature = (*feature + 1) % 5;
        }
        seqs.push(s);
        seqs.push(seqs[0].clone());
    }
    let m = mat(&x);
    let mut ctx = EvalContext::<f64, 3>::new(3);
    let mut dc = DiffContext::<f64, 3>::new(3);
    let mut gc = GradContext::<f64, 3>::new(3);
    let mut seq = vec![];
    for s in seqs {
        let e = PostfixExpr::<f64, O, 3>::new(s.clone(), vec![], Metadata::default());
        let mut v = vec![0.0; 3];
        eval_tree_array_into::<f64, O, 3>(&mut v, &e, m.view(), &mut ctx, &opts(true, true));
        let (dv, _, _) = eval_diff_tree_array::<f64, O, 3>(&e, m.view(), 0, &mut dc, &opts(true, true));
        let (gv, _, _) = eval_grad_tree_array::<f64, O, 3>(&e, m.view(), true, &mut gc, &opts(true, true));
        for w in [v, dv, gv] {
            seq.push(json!({"n": jn::<O>(&s), "c": [], "out": w.iter().map(|v| iv(*v)).collect::<Vec<_>>()}));
        }
    }
    json!({"k": "hash", "n": [], "x": jix(&x), "seq": seq})
}

// ---- C15 -----------------------------------------------------------------------------------

struct DerObs {
    mode: u8,
    dir: usize,
    obs: Vec<(Vec<f64>, Vec<f64>, bool)>,
}

fn derivs<Ops: OperatorSet<T = f64>, const D: usize>(
    sh: &mut Shared<f64, D>,
    nodes: &[PNode],
    consts: &[f64],
    x: &[Vec<f64>],
    o: &EvalOptions,
) -> Vec<DerObs> {
    let e = PostfixExpr::<f64, Ops, D>::new(nodes.to_vec(), consts.to_vec(), Metadata::default());
    let m = mat(x);
    let (n, nf) = (x.len(), x[0].len());
    let mut out: Vec<DerObs> = vec![];
    for dir in 0..nf {
        out.push(DerObs { mode: 0, dir, obs: vec![] });
    }
    for dir in 0..consts.len() {
        out.push(DerObs { mode: 1, dir, obs: vec![] });
    }
    for dir in 0..nf {
        let mut fresh = DiffContext::new(n);
        out[dir].obs.push(eval_diff_tree_array::<f64, Ops, D>(&e, m.view(), dir, &mut fresh, o));
        let ctx = sh.df.entry(n).or_insert_with(|| DiffContext::new(n));
        out[dir].obs.push(eval_diff_tree_array::<f64, Ops, D>(&e, m.view(), dir, ctx, o));
    }
    for variable in [true, false] {
        for reuse in [false, true] {
            let mut fresh = GradContext::new(n);
            let ctx = if reuse { sh.gr.entry((n, false)).or_insert_with(|| GradContext::new(n)) } else { &mut fresh };
            let (v, g, ok) = eval_grad_tree_array::<f64, Ops, D>(&e, m.view(), variable, ctx, o);
            let nd = if variable { nf } else { consts.len() };
            let shape_ok = g.n_dir == nd && g.n_rows == n && g.data.len() == nd * n;
            for dir in 0..nd {
                let d = if shape_ok { g.data[dir * n..(dir + 1) * n].to_vec() } else { vec![f64::NAN; n] };
                out[if variable { dir } else { nf + dir }].obs.push((v.clone(), d, ok));
            }
        }
    }
    out
}

fn c15_int<Ops: OperatorSet<T = f64>, const D: usize>(sh: &mut Shared<f64, D>, k: &IntCase) -> Value {
    let der: Vec<Value> = derivs::<Ops, D>(sh, &k.nodes, &k.c, &k.x, &opts(true, true))
        .into_iter()
        .map(|d| {
            let obs: Vec<Value> = d
                .obs
                .iter()
                .map(|(v, g, _)| json!([v.iter().map(|z| iv(*z)).collect::<Vec<_>>(), g.iter().map(|z| iv(*z)).collect::<Vec<_>>()]))
                .collect();
            json!({"mode": d.mode, "dir": d.dir, "obs": obs})
        })
        .collect();
    json!({"k": "int", "n": jn::<Ops>(&k.nodes), "c": jic(&k.c), "x": jix(&k.x), "der": der})
}

/// (leaf, steps to the root) for every leaf of one kind; nodes and arguments count from one.
fn chain_terms(nodes: &[PNode], mode: u8, dir: usize) -> Vec<(usize, Vec<(usize, usize)>)> {
    let mut st: Vec<usize> = vec![];
    let mut parent = vec![(0usize, 0usize); nodes.len()];
    for (i, n) in nodes.iter().enumerate() {
        if let PNode::Op { arity, .. } = n {
            let kids = st.split_off(st.len() - *arity as usize);
            for (j, k) in kids.iter().enumerate() {
                parent[*k] = (i, j);
            }
        }
        st.push(i);
    }
    let mut out = vec![];
    for (i, n) in nodes.iter().enumerate() {
        let hit = match *n {
            PNode::Var { feature } => mode == 0 && feature as usize == dir,
            PNode::Const { idx } => mode == 1 && idx as usize == dir,
            _ => false,
        };
        if hit {
            let mut way = vec![];
            let mut at = i;
            while at + 1 != nodes.len() {
                let (p, j) = parent[at];
                way.push((p + 1, j + 1));
                at = p;
            }
            out.push((i + 1, way));
        }
    }
    out
}

/// Sum of products of reference partials along the terms; None where a partial or value is not finite.
fn terms_value<Ops: OperatorSet>(
    nodes: &[PNode],
    consts: &[f64],
    row: &[f64],
    terms: &[(usize, Vec<(usize, usize)>)],
    jit: &mut dyn FnMut() -> f64,
) -> Option<f64> {
    let v = all_values::<Ops>(nodes, consts, row, jit);
    let mut kids: Vec<Vec<usize>> = vec![];
    let mut st: Vec<usize> = vec![];
    for (i, n) in nodes.iter().enumerate() {
        let ks = match n {
            PNode::Op { arity, .. } => st.split_off(st.len() - *arity as usize),
            _ => vec![],
        };
        kids.push(ks);
        st.push(i);
    }
    if v.iter().any(|z| !z.is_finite()) {
        return None;
    }
    let mut s = 0.0;
    for (_, way) in terms {
        let mut p = 1.0;
        for (node, j) in way {
            let PNode::Op { arity, op } = nodes[node - 1] else { unreachable!() };
            let a: Vec<f64> = kids[node - 1].iter().map(|k| v[*k]).collect();
            let d = partial(&name_of::<Ops>(OpId { arity, id: op }), &a, j - 1) * (1.0 + jit());
            if !d.is_finite() {
                return None;
            }
            p *= d;
        }
        s += p;
    }
    s.is_finite().then_some(s)
}

/// Is every partial of every operator on a moving path finite and stable on this row?
fn c15_terms<Ops: OperatorSet<T = f64>, const D: usize>(
    sh: &mut Shared<f64, D>,
    nodes: &[PNode],
    c: &[f64],
    x: &[Vec<f64>],
    r: &mut Rng,
) -> Value {
    let o = if r.bool() { opts(false, true) } else { opts(true, false) };
    let der: Vec<Value> = derivs::<Ops, D>(sh, nodes, c, x, &o)
        .into_iter()
        .map(|d| {
            let terms = chain_terms(nodes, d.mode, d.dir);
            let mut want: Vec<Option<(f64, f64, f64, f64)>> = vec![];
            for row in x {
                let base = terms_value::<Ops>(nodes, c, row, &terms, &mut || 0.0);
                let val = *all_values::<Ops>(nodes, c, row, &mut || 0.0).last().unwrap();
                let eps = 1e-13;
                let mut dev: Option<f64> = base.map(|_| 0.0);
                let vs = spread::<Ops>(nodes, c, row, eps, r);
                for k in 0..8 {
                    let p = terms_value::<Ops>(nodes, c, row, &terms, &mut || match k {
                        0 => eps,
                        1 => -eps,
                        _ => eps * (r.f64() * 2.0 - 1.0),
                    });
                    dev = match (dev, p, base) {
                        (Some(m), Some(p), Some(b)) => Some(m.max((p - b).abs())),
                        _ => None,
                    };
                }
                want.push(match (base, dev, vs) {
                    (Some(b), Some(m), Some(vs)) => {
                        let tol = 1e-8 * b.abs() + 1000.0 * m + 1e-12 * b.abs().min(1e-3);
                        let scale = b.abs().max(1e-6);
                        (tol < 1e-2 * scale).then_some((b, tol, val, 1e-9 * val.abs() + 1000.0 * vs))
                    }
                    _ => None,
                });
            }
            let obs: Vec<Vec<bool>> = d
                .obs
                .iter()
                .map(|(v, g, _)| {
                    (0..x.len())
                        .map(|i| match want[i] {
                            None => true,
                            Some((b, tol, val, vt)) => near(g[i], b, tol.max(1e-300)) && near(v[i], val, vt),
                        })
                        .collect()
                })
                .collect();
            json!({"mode": d.mode, "dir": d.dir, "terms": terms, "obs": obs,
                   "judged": want.iter().filter(|w| w.is_some()).count()})
        })
        .collect();
    json!({"k": "terms", "n": jn::<Ops>(nodes), "der": der})
}

/// Every operator with every combination of argument shapes.
fn shape_cases<Ops: OperatorSet>(r: &mut Rng) -> Vec<(Vec<PNode>, usize)> {
    let mut out = vec![];
    let neg = find_op::<Ops>("neg", 1);
    let nop = PNode::Op { arity: 1, op: neg.id };
    for o in all_ops::<Ops>() {
        let a = o.arity as usize;
        for code in 0..4usize.pow(a as u32) {
            let mut n = vec![];
            let mut nc = 0u16;
            let mut c = code;
            for _ in 0..a {
                match c % 4 {
                    0 => n.push(PNode::Var { feature: r.u16(0..2) }),
                    1 => {
                        n.push(PNode::Const { idx: nc });
                        nc += 1;
                    }
                    2 => n.extend([PNode::Var { feature: r.u16(0..2) }, nop]),
                    _ => {
                        n.extend([PNode::Const { idx: nc }, nop]);
                        nc += 1;
                    }
                }
                c /= 4;
            }
            n.push(PNode::Op { arity: o.arity, op: o.id });
            out.push((n, nc as usize));
        }
    }
    out
}

// ---- C16 -----------------------------------------------------------------------------------

fn c16<Ops: OperatorSet<T = f64>, const D: usize>(
    nodes: &[PNode],
    c: &[f64],
    x: &[Vec<f64>],
    int: bool,
    r: &mut Rng,
    out: &mut Vec<Value>,
) {
    for which in 0..3 {
        let mut e = PostfixExpr::<f64, Ops, D>::new(nodes.to_vec(), c.to_vec(), Metadata::default());
        let o = opts(r.bool(), r.bool());
        let changed = match which {
            0 => simplify_in_place::<f64, Ops, D>(&mut e, &o),
            1 => simplify_tree_in_place::<f64, Ops, D>(&mut e, &o),
            _ => combine_operators_in_place::<f64, Ops, D>(&mut e),
        };
        let bits = |v: &[f64]| v.iter().map(|z| z.to_bits()).collect::<Vec<_>>();
        let same = e.nodes == nodes && bits(&e.consts) == bits(c);
        let mut v = json!({"n": jn::<Ops>(nodes), "n2": jn::<Ops>(&e.nodes), "nc2": e.consts.len(), "full": which == 0,
                           "same": same, "changed": changed, "which": which});
        if int {
            v["k"] = json!("int");
            v["c"] = json!(jic(c));
            v["c2"] = json!(jic(&e.consts));
            v["x"] = json!(jix(x));
        } else {
            v["k"] = json!("flt");
            let rows: Vec<Value> = if refops::well_formed(&e.nodes, e.consts.len(), x[0].len()) {
                x.iter()
                    .map(|row| {
                        let (a, f1) = refops::eval_row::<Ops>(nodes, c, row);
                        let (b, _) = refops::eval_row::<Ops>(&e.nodes, &e.consts, row);
                        let mut amb = true;
                        let mut tol = 0.0;
                        if let (Some(s1), Some(s2)) =
                            (spread::<Ops>(nodes, c, row, 1e-14, r), spread_c::<Ops>(&e.nodes, &e.consts, row, 1e-14, 1e-14, r))
                        {
                            tol = 1e-9 * a.abs() + 300.0 * s1 + 300.0 * if b.is_finite() { s2 } else { 0.0 };
                            amb = tol > 1e-3 * a.abs().max(1e-6);
                        }
                        json!({"fin1": f1, "fin2": b.is_finite(), "close": near(a, b, tol), "amb": amb})
                    })
                    .collect()
            } else {
                vec![]
            };
            v["rows"] = json!(rows);
        }
        out.push(v);
    }
}

fn tame_partials<Ops: OperatorSet>(nodes: &[PNode], c: &[f64], row: &[f64]) -> bool {
    let mut st: Vec<f64> = vec![];
    for n in nodes {
        match *n {
            PNode::Var { feature } => st.push(row[feature as usize]),
            PNode::Const { idx } => st.push(c[idx as usize]),
            PNode::Op { arity, op } => {
                let a = st.split_off(st.len() - arity as usize);
                let nm = name_of::<Ops>(OpId { arity, id: op });
                for j in 0..a.len() {
                    let d = partial(&nm, &a, j);
                    if !d.is_finite() || d.abs() > 1e12 {
                        return false;
                    }
                }
                st.push(apply(&nm, &a));
            }
        }
    }
    true
}

// ---- C17 -----------------------------------------------------------------------------------

fn c17<Ops: OperatorSet<T = f64>, const D: usize>(
    sh: &mut Shared<f64, D>,
    nodes: &[PNode],
    c: &[f64],
    x: &[Vec<f64>],
    r: &mut Rng,
) -> Value {
    let t = table::<Ops>(nodes, c, x, r, 1e-14, 1e-10);
    let n = x.len();
    let mut obs: Vec<Value> = vec![];
    let cand = |v: &[f64]| (0..n).map(|i| t.ids.cands(v[i], t.tol[i])).collect::<Vec<_>>();
    for (p, cf, ee, ok, v) in all_paths::<Ops, D>(sh, nodes, c, x, r) {
        obs.push(json!({"p": p, "cf": cf, "ee": ee, "ok": ok, "derfin": true, "out": cand(&v)}));
    }
    // derivatives may be checked as well: completion is required only where all of them are surely finite
    let derfin = x.iter().all(|row| tame_partials::<Ops>(nodes, c, row));
    for (cf, ee) in [(true, true), (true, false), (false, true), (false, false)] {
        for d in derivs::<Ops, D>(sh, nodes, c, x, &opts(cf, ee)) {
            for (v, _, ok) in &d.obs {
                obs.push(json!({"p": "der", "cf": cf, "ee": ee, "ok": ok, "derfin": derfin, "out": cand(v)}));
            }
        }
    }
    let fin: Vec<bool> = t.ids.vals.iter().map(|v| v.is_finite()).collect();
    json!({"n": jn::<Ops>(nodes), "c": t.c, "x": t.x, "tab": t.tab, "amb": t.amb, "fin": fin, "obs": obs})
}

// ---- C18 -----------------------------------------------------------------------------------

fn tokenize(s: &str, consts: &[f64]) -> Option<Vec<Value>> {
    let ch: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let mut operand = true; // an operand is expected next
    let slots = |txt: &str| -> Option<Vec<usize>> {
        let v: f64 = txt.parse().ok()?;
        Some(
            (0..consts.len())
                .filter(|k| consts[*k] == v || (consts[*k].is_nan() && v.is_nan()))
                .filter(|k| consts[*k].is_nan() || consts[*k].is_sign_negative() == v.is_sign_negative())
                .collect(),
        )
    };
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < ch.len() {
        let c = ch[i];
        if c == ' ' {
            i += 1;
        } else if c == '(' || c == ')' || c == ',' {
            out.push(json!([c.to_string()]));
            operand = c != ')';
            i += 1;
        } else if operand && (c.is_ascii_digit() || (c == '-' && i + 1 < ch.len() && (ch[i + 1].is_ascii_digit() || (word(ch[i + 1])))))
        {
            let mut j = i + 1;
            while j < ch.len() && (word(ch[j]) || ch[j] == '.' || (ch[j - 1] == 'e' && (ch[j] == '-' || ch[j] == '+'))) {
                j += 1;
            }
            let txt: String = ch[i..j].iter().collect();
            out.push(json!(["num", slots(&txt)?]));
            operand = false;
            i = j;
        } else if word(c) {
            let mut j = i;
            while j < ch.len() && word(ch[j]) {
                j += 1;
            }
            let txt: String = ch[i..j].iter().collect();
            i = j;
            if !operand {
                out.push(json!(["sym", txt]));
                operand = true;
            } else if (txt == "inf" || txt == "NaN") && ch.get(j) != Some(&'(') {
                out.push(json!(["num", slots(&txt)?]));
                operand = false;
            } else {
                out.push(json!(["id", txt]));
                operand = false;
            }
        } else {
            out.push(json!(["sym", c.to_string()]));
            operand = true;
            i += 1;
        }
    }
    Some(out)
}

fn c18<Ops: OperatorSet<T = f64>, const D: usize>(os: &str, nodes: &[PNode], c: &[f64], nf: usize, r: &mut Rng) -> Value {
    let default: Vec<String> = (0..nf).map(|i| format!("x{i}")).collect();
    let all = ["alpha", "x_1", "beta2", "T", "θ", "mass_kg", "y", "e1", "x2b", "Q", "_v"];
    let custom: Vec<String> = (0..nf).map(|i| all[(i * 3 + nf) % 11].to_string()).collect();
    let e = PostfixExpr::<f64, Ops, D>::new(nodes.to_vec(), c.to_vec(), Metadata::default());
    let named = PostfixExpr::<f64, Ops, D>::new(
        nodes.to_vec(),
        c.to_vec(),
        Metadata { variable_names: custom.clone() },
    );
    let how = r.u8(0..7);
    let (s, vn, pretty) = match how {
        0 => (format!("{e}"), &default, false),
        1 => (string_tree(&e, StringTreeOptions { variable_names: None, pretty: true }), &default, true),
        2 => (string_tree(&e, StringTreeOptions { variable_names: Some(&custom), pretty: false }), &custom, false),
        3 => (format!("{named}"), &custom, false),
        4 => (string_tree(&named, StringTreeOptions { variable_names: Some(&default), pretty: true }), &default, true),
        5 => (string_tree(&named, StringTreeOptions { variable_names: None, pretty: true }), &custom, true),
        _ => (string_tree(&named, StringTreeOptions { variable_names: None, pretty: false }), &custom, false),
    };
    let toks = tokenize(&s, c).unwrap_or_default();
    json!({"n": jn::<Ops>(nodes), "s": s, "toks": toks, "vn": vn, "os": format!("{os}{}", if pretty { "_pretty" } else { "" })})
}

fn notation_tables() -> Value {
    let mut m = serde_json::Map::new();
    for os in ["builtin", "sub", "mul", "four"] {
        for pretty in [false, true] {
            let t: Vec<Value> = notation(os)
                .iter()
                .map(|(n, a, infix, disp)| {
                    let tok = if pretty { *disp } else { infix.unwrap_or(n) };
                    let form = if infix.is_some() && *a > 1 { "infix" } else { "call" };
                    json!([tok, a, n, form])
                })
                .collect();
            m.insert(format!("{os}{}", if pretty { "_pretty" } else { "" }), Value::Array(t));
        }
    }
    Value::Object(m)
}

fn wide_consts(r: &mut Rng, nc: usize) -> Vec<f64> {
    (0..nc)
        .map(|_| match r.u8(0..9) {
            0 => f64::INFINITY,
            1 => f64::NEG_INFINITY,
            2 => 1e300 * r.f64(),
            3 => -1e-12 * r.f64(),
            4 => -(r.i32(0..9) as f64),
            5 => 0.1 + 0.2,
            _ => flt(r),
        })
        .collect()
}

// ---- C26 -----------------------------------------------------------------------------------

type B = BuiltinOpsF64;
type E3 = PostfixExpr<f64, B, 3>;

fn c26(r: &mut Rng) -> Value {
    use dynamic_expressions::operators as f;
    let mut ids = Ids::default();
    let int = r.u8(0..3) > 0;
    let nf = 3;
    let x = int_x(r, 3, nf);
    let pool = if int { pool_of::<B>(&INT_OPS) } else { all_ops::<B>() };
    let mut part = |r: &mut Rng| -> E3 {
        loop {
            let nc = r.usize(0..4);
            let size = 1 + r.usize(0..7);
            let nodes = rnd_nodes(r, size, &pool, nf, nc);
            let c = if int { int_c(r, nc) } else { (0..nc).map(|_| flt(r)).collect() };
            let names = if r.bool() { vec![] } else { (0..nf).map(|i| format!("{}{i}", *pick(r, &["p", "q", "z"]))).collect() };
            if !int || all_small(&nodes, &c, &x) {
                return PostfixExpr::new(nodes, c, Metadata { variable_names: names });
            }
        }
    };
    fn all_small(n: &[PNode], c: &[f64], x: &[Vec<f64>]) -> bool {
        x.iter().all(|row| all_values::<B>(n, c, row, &mut || 0.0).iter().all(|v| v.abs() < 5e3))
    }
    let a = part(r);
    let b = part(r);
    let c = part(r);
    let s = if int { r.i32(-7..=7) as f64 } else { flt(r) };
    let sc = || PostfixExpr::<f64, B, 3>::new(vec![PNode::Const { idx: 0 }], vec![s], Metadata::default());
    let un: [(&str, fn(E3) -> E3); 30] = [
        ("cos", f::cos), ("sin", f::sin), ("tan", f::tan), ("asin", f::asin), ("acos", f::acos), ("atan", f::atan),
        ("sinh", f::sinh), ("cosh", f::cosh), ("tanh", f::tanh), ("asinh", f::asinh), ("acosh", f::acosh),
        ("atanh", f::atanh), ("sec", f::sec), ("csc", f::csc), ("cot", f::cot), ("exp", f::exp), ("exp2", f::exp2),
        ("expm1", f::expm1), ("log", f::log), ("log2", f::log2), ("log10", f::log10), ("log1p", f::log1p),
        ("sqrt", f::sqrt), ("cbrt", f::cbrt), ("abs", f::abs), ("abs2", f::abs2), ("inv", f::inv), ("sign", f::sign),
        ("identity", f::identity), ("neg", f::neg),
    ];
    let bi: [(&str, fn(E3, E3) -> E3); 8] = [
        ("div", f::div), ("add", f::add), ("sub", f::sub), ("mul", f::mul), ("pow", f::pow), ("atan2", f::atan2),
        ("min", f::min), ("max", f::max),
    ];
    let (op, parts, res): (&str, Vec<E3>, E3) = match r.u8(0..18) {
        0 => ("add", vec![a.clone(), b.clone()], a + b),
        1 => ("sub", vec![a.clone(), b.clone()], a - b),
        2 => ("mul", vec![a.clone(), b.clone()], a * b),
        3 => ("div", vec![a.clone(), b.clone()], a / b),
        4 => ("neg", vec![a.clone()], -a),
        5 => ("add", vec![a.clone(), sc()], a + s),
        6 => ("sub", vec![a.clone(), sc()], a - s),
        7 => ("mul", vec![a.clone(), sc()], a * s),
        8 => ("div", vec![a.clone(), sc()], a / s),
        9 => ("add", vec![sc(), a.clone()], lit(s) + a),
        10 => ("sub", vec![sc(), a.clone()], lit(s) - a),
        11 => ("mul", vec![sc(), a.clone()], lit(s) * a),
        12 => ("div", vec![sc(), a.clone()], lit(s) / a),
        13 => ("fma", vec![a.clone(), b.clone(), c.clone()], f::fma(a, b, c)),
        14 => ("clamp", vec![a.clone(), b.clone(), c.clone()], f::clamp(a, b, c)),
        15 => {
            let (n, g) = *pick(r, &un);
            (n, vec![a.clone()], g(a))
        }
        _ => {
            let (n, g) = *pick(r, &bi);
            (n, vec![a.clone(), b.clone()], g(a, b))
        }
    };
    let intop = INT_OPS.iter().any(|o| o.0 == op);
    let pj: Vec<Value> = parts
        .iter()
        .map(|p| {
            json!({"n": jn::<B>(&p.nodes), "c": p.consts.iter().map(|v| ids.id(*v)).collect::<Vec<_>>(),
                   "iv": p.consts.iter().map(|v| iv(*v)).collect::<Vec<_>>(), "names": p.meta.variable_names})
        })
        .collect();
    let val = int && intop;
    let out: Vec<i64> = if val {
        let (v, _) = eval_tree_array::<f64, B, 3>(&res, mat(&x).view(), &opts(true, false));
        v.iter().map(|v| iv(*v)).collect()
    } else {
        vec![]
    };
    json!({"parts": pj, "op": op, "val": val, "x": jix(&x), "out": out,
           "res": {"n": jn::<B>(&res.nodes), "c": res.consts.iter().map(|v| ids.id(*v)).collect::<Vec<_>>(),
                   "names": res.meta.variable_names}})
}

// ---- C13 -----------------------------------------------------------------------------------

fn c13<Ops: OperatorSet<T = f64>, const D: usize>(nodes: &[PNode], nf: usize, nc: usize, r: &mut Rng) -> Value {
    let mut o = Options::<f64, D>::default();
    let ops = all_ops::<Ops>();
    // prefer operators that occur
    let mine: Vec<OpId> = nodes
        .iter()
        .filter_map(|n| match *n {
            PNode::Op { arity, op } => Some(OpId { arity, id: op }),
            _ => None,
        })
        .collect();
    let some = |r: &mut Rng| if !mine.is_empty() && r.u8(0..5) > 0 { *pick(r, &mine) } else { *pick(r, &ops) };
    let nm = |o: &OpId| name_of::<Ops>(*o);
    let n = nodes.len();
    o.maxdepth = match r.u8(0..3) {
        0 => 1 + r.usize(0..5),
        1 => (1 + r.usize(0..8)).max(2),
        _ => 30,
    };
    if r.bool() {
        match r.u8(0..5) {
            0 => o.complexity_of_constants = r.u16(0..4),
            1 => o.complexity_of_variables = r.u16(0..4),
            2 => {
                // one weight may be missing: the default for variables applies
                o.complexity_of_variables = 1 + r.u16(0..2);
                o.variable_complexities = Some((0..r.usize(0..nf + 1) as u16).map(|k| (k * 2 + 1) % 4).collect());
            }
            3 => {
                for _ in 0..1 + r.usize(0..3) {
                    o.operator_complexity_overrides.insert(some(r), r.u16(0..5));
                }
            }
            _ => {
                o.complexity_of_constants = r.u16(0..3);
                o.operator_complexity_overrides.insert(some(r), r.u16(0..4));
                o.variable_complexities = Some((0..nf as u16).map(|k| k % 3).collect());
            }
        }
    }
    let mut oparg = vec![];
    let mut set: HashMap<(OpId, usize), u16> = HashMap::new();
    for _ in 0..*pick(r, &[0usize, 0, 1, 1, 2, 3]) {
        let q = some(r);
        let j = r.usize(0..q.arity as usize);
        let l = r.u16(0..6);
        o.op_constraints.set_op_arg_constraint(q, j, l);
        set.insert((q, j), l);
    }
    for ((q, j), l) in &set {
        oparg.push(json!([q.arity, nm(q), j + 1, l]));
    }
    let mut nested = vec![];
    let (rules, one, root) = (*pick(r, &[0usize, 0, 1, 1, 2, 3, 4]), r.bool(), some(r));
    for _ in 0..rules {
        // several rules of one operator, or of several
        let (p, q, m) = (if one { root } else { some(r) }, some(r), r.u8(0..3.max(rules as u8)));
        o.nested_constraints.add_nested_constraint(p, q, m);
        nested.push(json!([p.arity, nm(&p), q.arity, nm(&q), m]));
    }
    let expr = PostfixExpr::<f64, Ops, D>::new(nodes.to_vec(), vec![0.0; nc], Metadata::default());
    let cx = compute_complexity::<f64, D>(nodes, &o);
    let cur = match r.u8(0..4) {
        0 => cx,
        1 => cx.saturating_sub(1),
        2 => cx + r.usize(0..10),
        _ => r.usize(0..n + 4),
    };
    o.maxsize = cur.max(1);
    let mut opcx: Vec<Value> = vec![];
    for (q, w) in &o.operator_complexity_overrides {
        opcx.push(json!([q.arity, nm(q), w]));
    }
    let accepted = vh::check_constraints::<f64, Ops, D>(&expr, &o, cur);
    json!({"n": jn::<Ops>(nodes), "cur": cur, "accepted": accepted, "cx": cx, "depth": count_depth(nodes),
           "o": {"cvar": o.complexity_of_variables, "ccst": o.complexity_of_constants,
                 "vcx": o.variable_complexities.clone().unwrap_or_default(), "opcx": opcx, "maxdepth": o.maxdepth,
                 "oparg": oparg, "nested": nested}})
}

// ------------------------------------------------------------------------------------------------

pub fn run(prop: &str, seed: u64, n: usize, g: &Gen) -> Value {
    let mut r = Rng::with_seed(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xA5A5);
    let mut cases: Vec<Value> = vec![];
    let mut p = Pools::new();
    let mut sh32 = Shared::<f32, 3>::new();
    let total = g.exhaustive.len() + n;
    // the markers behind the names: a name must denote the operator it is documented to be
    assert_eq!(Ops4::MAX_ARITY, 4);
    let _ = <B as dynamic_expressions::HasOp<builtin::Sin>>::ID;
    macro_rules! by_os {
        ($k:expr, $f:ident, $($a:expr),*) => {
            match $k.os {
                0 => $f::<BuiltinOpsF64, 3>($($a),*),
                1 => $f::<Ops4, 4>($($a),*),
                2 => $f::<OpsSub, 2>($($a),*),
                _ => $f::<OpsMul, 3>($($a),*),
            }
        };
    }
    macro_rules! by_os_sh {
        ($k:expr, $f:ident, $($a:expr),*) => {
            match $k.os {
                0 => $f::<BuiltinOpsF64, 3>(&mut p.b, $($a),*),
                1 => $f::<Ops4, 4>(&mut p.f, $($a),*),
                2 => $f::<OpsSub, 2>(&mut p.s, $($a),*),
                _ => $f::<OpsMul, 3>(&mut p.m, $($a),*),
            }
        };
    }
    let os_name = ["builtin", "four", "sub", "mul"];
    for i in 0..total {
        if i % 50 == 0 {
            crate::heartbeat(120, &format!("expr {prop} {i}"));
        }
        match prop {
            "C13" => {
                let k = int_case(g, i, &mut r);
                cases.push(by_os!(k, c13, &k.nodes, k.x[0].len(), k.c.len(), &mut r));
            }
            "C14" => {
                let k = int_case(g, i, &mut r);
                cases.push(by_os!(k, c14_plan, &k.nodes, k.x[0].len(), k.c.len()));
                cases.push(by_os_sh!(k, c14_int, &k, &mut r));
                if i % 2 == 0 {
                    cases.push(c14_tab(&mut p.b, &mut sh32, &mut r));
                }
                if i % 20 == 0 {
                    cases.push(c14_hash(&mut r, i));
                }
            }
            "C15" => {
                let k = int_case(g, i, &mut r);
                cases.push(by_os_sh!(k, c15_int, &k));
                if i % 2 == 0 {
                    let nf = 1 + r.usize(0..3);
                    let nc = r.usize(0..4);
                    let rows = any_rows(&mut r);
                    let size = 1 + r.usize(0..12);
                    let nodes = rnd_nodes(&mut r, size, &all_ops::<B>(), nf, nc);
                    let x: Vec<Vec<f64>> = (0..rows).map(|_| (0..nf).map(|_| flt(&mut r)).collect()).collect();
                    let c: Vec<f64> = (0..nc).map(|_| flt(&mut r)).collect();
                    cases.push(c15_terms::<B, 3>(&mut p.b, &nodes, &c, &x, &mut r));
                }
            }
            "C16" => {
                let k = int_case(g, i, &mut r);
                by_os!(k, c16, &k.nodes, &k.c, &k.x, true, &mut r, &mut cases);
                // constant-rich trees, where folding and regrouping really happen
                let nf = 1 + r.usize(0..2);
                let nc = 1 + r.usize(0..4);
                let pool = pool_of::<OpsMul>(&[("add", 2), ("sub", 2), ("mul", 2), ("neg", 1), ("sub", 2)]);
                let size = 3 + r.usize(0..9);
                let nodes = rnd_nodes(&mut r, size, &pool, nf, nc);
                let nodes: Vec<PNode> = nodes
                    .into_iter()
                    .map(|n| match n {
                        PNode::Var { .. } if r.bool() => PNode::Const { idx: r.u16(0..nc as u16) },
                        o => o,
                    })
                    .collect();
                let x = int_x(&mut r, 3, nf);
                let c = int_c(&mut r, nc);
                if small::<OpsMul>(&nodes, &c, &x) {
                    c16::<OpsMul, 3>(&nodes, &c, &x, true, &mut r, &mut cases);
                }
                let c: Vec<f64> = (0..nc)
                    .map(|_| match r.u8(0..6) {
                        0 => 1e308 * (1.0 + r.f64() * 0.5) * if r.bool() { 1.0 } else { -1.0 },
                        1 => 1e160 * r.f64(),
                        2 => wild(&mut r),
                        _ => flt(&mut r),
                    })
                    .collect();
                let x: Vec<Vec<f64>> = (0..3).map(|_| (0..nf).map(|_| flt(&mut r)).collect()).collect();
                c16::<OpsMul, 3>(&nodes, &c, &x, false, &mut r, &mut cases);
                let size = 1 + r.usize(0..12);
                let nodes = rnd_nodes(&mut r, size, &all_ops::<B>(), nf, nc);
                c16::<B, 3>(&nodes, &c, &x, false, &mut r, &mut cases);
                // the same few operators nested in each other, with many constants
                let all = all_ops::<B>();
                let some: Vec<OpId> = (0..1 + r.usize(0..3)).map(|_| *pick(&mut r, &all)).collect();
                let size = 3 + r.usize(0..7);
                let nodes: Vec<PNode> = rnd_nodes(&mut r, size, &some, nf, nc)
                    .into_iter()
                    .map(|n| match n {
                        PNode::Var { .. } if r.bool() => PNode::Const { idx: r.u16(0..nc as u16) },
                        o => o,
                    })
                    .collect();
                let c: Vec<f64> = (0..nc).map(|_| flt(&mut r)).collect();
                c16::<B, 3>(&nodes, &c, &x, false, &mut r, &mut cases);
            }
            "C17" => {
                let (nf, nc) = (1 + r.usize(0..2), r.usize(0..3));
                let rows = any_rows(&mut r);
                let dull = r.bool();
                let val = |r: &mut Rng| if dull { flt(r) } else { wild(r) };
                let mut x: Vec<Vec<f64>> = (0..rows).map(|_| (0..nf).map(|_| val(&mut r)).collect()).collect();
                if rows > 20 {
                    // only one row, often a late one, is out of the ordinary
                    let late = if r.bool() { rows - 1 } else { r.usize(0..rows) };
                    for (i, row) in x.iter_mut().enumerate() {
                        for v in row.iter_mut() {
                            *v = if i == late { wild(&mut r) } else { 0.1 + r.f64() * 0.8 };
                        }
                    }
                }
                let c: Vec<f64> = (0..nc).map(|_| if rows > 20 { 0.1 + r.f64() * 0.8 } else { val(&mut r) }).collect();
                let size = 1 + r.usize(0..if rows > 20 { 4 } else { 9 });
                if r.u8(0..5) == 0 {
                    let nodes = rnd_nodes(&mut r, size, &all_ops::<Ops4>(), nf, nc);
                    cases.push(c17::<Ops4, 4>(&mut p.f, &nodes, &c, &x, &mut r));
                } else {
                    let nodes = rnd_nodes(&mut r, size, &all_ops::<B>(), nf, nc);
                    cases.push(c17::<B, 3>(&mut p.b, &nodes, &c, &x, &mut r));
                }
            }
            "C18" => {
                let k = int_case(g, i, &mut r);
                let c = wide_consts(&mut r, k.c.len());
                cases.push(by_os!(k, c18, os_name[k.os], &k.nodes, &c, k.x[0].len(), &mut r));
                let (nf, nc) = (1 + r.usize(0..8), r.usize(0..5));
                let size = 1 + r.usize(0..20);
                let nodes = rnd_nodes(&mut r, size, &all_ops::<B>(), nf, nc);
                let c = wide_consts(&mut r, nc);
                cases.push(c18::<B, 3>("builtin", &nodes, &c, nf, &mut r));
            }
            "C26" => cases.push(c26(&mut r)),
            _ => panic!("no such expression check"),
        }
    }
    if prop == "C15" || prop == "C17" || prop == "C14" {
        // every operator over every combination of argument shapes
        let reps = 1 + n / 1500;
        for _ in 0..reps {
            for (nodes, nc) in shape_cases::<B>(&mut r) {
                let val = |r: &mut Rng| if prop == "C17" && r.bool() { wild(r) } else { flt(r) };
                let x: Vec<Vec<f64>> = (0..4).map(|_| (0..2).map(|_| val(&mut r)).collect()).collect();
                let c: Vec<f64> = (0..nc).map(|_| val(&mut r)).collect();
                match prop {
                    "C15" => cases.push(c15_terms::<B, 3>(&mut p.b, &nodes, &c, &x, &mut r)),
                    "C17" => cases.push(c17::<B, 3>(&mut p.b, &nodes, &c, &x, &mut r)),
                    _ => {
                        let t = table::<B>(&nodes, &c, &x, &mut r, 1e-14, 1e-10);
                        let out: Vec<Value> = all_paths::<B, 3>(&mut p.b, &nodes, &c, &x, &mut r)
                            .iter()
                            .filter(|q| q.3 || !q.2 || !q.1)
                            .map(|q| json!([q.0, q.3, (0..4).map(|i| t.ids.cands(q.4[i], t.tol[i])).collect::<Vec<_>>()]))
                            .collect();
                        cases.push(json!({"k": "tab", "n": jn::<B>(&nodes), "c": t.c, "x": t.x, "tab": t.tab, "amb": t.amb, "out": out}));
                    }
                }
            }
        }
    }
    json!({"cases": cases, "ops": notation_tables()})
}
