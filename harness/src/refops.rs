//! Independent reference semantics of the built-in operators, keyed by name (never by kernel).
use dynamic_expressions::node::PNode;
use dynamic_expressions::{OpId, OperatorSet};

pub fn apply(name: &str, a: &[f64]) -> f64 {
    match (name, a) {
        ("abs", [x]) => x.abs(),
        ("abs2", [x]) => x * x,
        ("acos", [x]) => x.acos(),
        ("acosh", [x]) => x.acosh(),
        ("asin", [x]) => x.asin(),
        ("asinh", [x]) => x.asinh(),
        ("atan", [x]) => x.atan(),
        ("atanh", [x]) => x.atanh(),
        ("cbrt", [x]) => x.cbrt(),
        ("cos", [x]) => x.cos(),
        ("cosh", [x]) => x.cosh(),
        ("cot", [x]) => 1.0 / x.tan(),
        ("csc", [x]) => 1.0 / x.sin(),
        ("exp", [x]) => x.exp(),
        ("exp2", [x]) => x.exp2(),
        ("expm1", [x]) => x.exp_m1(),
        ("identity", [x]) => *x,
        ("inv", [x]) => 1.0 / x,
        ("log", [x]) => x.ln(),
        ("log1p", [x]) => x.ln_1p(),
        ("log2", [x]) => x.log2(),
        ("log10", [x]) => x.log10(),
        ("neg", [x]) => -x,
        ("sec", [x]) => 1.0 / x.cos(),
        ("sign", [x]) => x.signum(),
        ("sin", [x]) => x.sin(),
        ("sinh", [x]) => x.sinh(),
        ("sqrt", [x]) => x.sqrt(),
        ("tan", [x]) => x.tan(),
        ("tanh", [x]) => x.tanh(),
        ("add", [x, y]) => x + y,
        ("atan2", [x, y]) => x.atan2(*y),
        ("div", [x, y]) => x / y,
        ("max", [x, y]) => x.max(*y),
        ("min", [x, y]) => x.min(*y),
        ("mul", [x, y]) => x * y,
        ("pow", [x, y]) => x.powf(*y),
        ("sub", [x, y]) => x - y,
        ("clamp", [x, lo, hi]) => {
            if x < lo {
                *lo
            } else if x > hi {
                *hi
            } else {
                *x
            }
        }
        ("fma", [x, y, z]) => x.mul_add(*y, *z),
        ("rsub", [x, y]) => y - x,
        ("lin3", [a, b, c]) => a + 2.0 * b - 3.0 * c,
        ("lin4", [a, b, c, d]) => a - 2.0 * b + 3.0 * c - 5.0 * d,
        ("mix4", [a, b, c, d]) => a * b - c * d,
        _ => panic!("reference semantics: unknown operator {name}/{}", a.len()),
    }
}

/// Mathematical partial derivatives, written independently of the code under test.
pub fn partial(name: &str, a: &[f64], j: usize) -> f64 {
    let ln2 = std::f64::consts::LN_2;
    match (name, a) {
        ("abs", [x]) => if *x == 0.0 { f64::NAN } else { x.signum() },
        ("abs2", [x]) => x + x,
        ("acos", [x]) => -1.0 / ((1.0 - x) * (1.0 + x)).sqrt(),
        ("acosh", [x]) => if *x < 1.0 { f64::NAN } else { 1.0 / ((x - 1.0) * (x + 1.0)).sqrt() },
        ("asin", [x]) => 1.0 / ((1.0 - x) * (1.0 + x)).sqrt(),
        ("asinh", [x]) => 1.0 / x.hypot(1.0),
        ("atan", [x]) => 1.0 / (1.0 + x * x),
        ("atanh", [x]) => if x.abs() >= 1.0 { f64::NAN } else { 1.0 / ((1.0 - x) * (1.0 + x)) },
        ("cbrt", [x]) => 1.0 / (3.0 * x.cbrt() * x.cbrt()),
        ("cos", [x]) => -x.sin(),
        ("cosh", [x]) => x.sinh(),
        ("cot", [x]) => -1.0 / x.sin().powi(2),
        ("csc", [x]) => -x.cos() / x.sin().powi(2),
        ("exp", [x]) => x.exp(),
        ("exp2", [x]) => ln2 * x.exp2(),
        ("expm1", [x]) => x.exp(),
        ("identity", [_]) => 1.0,
        ("inv", [x]) => -1.0 / (x * x),
        ("log", [x]) => if *x < 0.0 { f64::NAN } else { 1.0 / x },
        ("log1p", [x]) => if *x < -1.0 { f64::NAN } else { 1.0 / (1.0 + x) },
        ("log2", [x]) => if *x < 0.0 { f64::NAN } else { 1.0 / (x * ln2) },
        ("log10", [x]) => if *x < 0.0 { f64::NAN } else { 1.0 / (x * std::f64::consts::LN_10) },
        ("neg", [_]) => -1.0,
        ("sec", [x]) => x.sin() / x.cos().powi(2),
        ("sign", [x]) => if *x == 0.0 { f64::NAN } else { 0.0 },
        ("sin", [x]) => x.cos(),
        ("sinh", [x]) => x.cosh(),
        ("sqrt", [x]) => 0.5 / x.sqrt(),
        ("tan", [x]) => 1.0 / x.cos().powi(2),
        ("tanh", [x]) => 1.0 / x.cosh().powi(2),
        ("add", [_, _]) => 1.0,
        ("atan2", [y, x]) => (if j == 0 { *x } else { -y }) / (x * x + y * y),
        ("div", [x, y]) => if j == 0 { 1.0 / y } else { -x / (y * y) },
        ("max", [x, y]) | ("min", [x, y]) if x == y => f64::NAN,
        ("max", [x, y]) => f64::from((j == 0) == (x > y)),
        ("min", [x, y]) => f64::from((j == 0) == (x < y)),
        ("mul", [x, y]) => if j == 0 { *y } else { *x },
        ("pow", [x, y]) => if j == 0 { y * x.powf(y - 1.0) } else { x.powf(*y) * x.ln() },
        ("sub", [_, _]) => if j == 0 { 1.0 } else { -1.0 },
        ("clamp", [x, lo, hi]) => {
            if !(lo < hi) || x == lo || x == hi {
                f64::NAN
            } else {
                let active = if x < lo { 1 } else if x > hi { 2 } else { 0 };
                f64::from(active == j)
            }
        }
        ("fma", [x, y, _]) => [*y, *x, 1.0][j],
        ("rsub", [_, _]) => [-1.0, 1.0][j],
        ("lin3", [_, _, _]) => [1.0, 2.0, -3.0][j],
        ("lin4", [_, _, _, _]) => [1.0, -2.0, 3.0, -5.0][j],
        ("mix4", [a, b, c, d]) => [*b, *a, -d, -c][j],
        _ => panic!("reference semantics: unknown operator {name}/{}", a.len()),
    }
}

/// Value of the tree on one row, and whether every constant, input and intermediate was finite.
pub fn eval_row<Ops: OperatorSet>(nodes: &[PNode], consts: &[f64], x: &[f64]) -> (f64, bool) {
    let mut st: Vec<f64> = Vec::new();
    let mut finite = true;
    for n in nodes {
        let v = match *n {
            PNode::Var { feature } => x[feature as usize],
            PNode::Const { idx } => consts[idx as usize],
            PNode::Op { arity, op } => {
                let args = st.split_off(st.len() - arity as usize);
                apply(&Ops::name(OpId { arity, id: op }).to_ascii_lowercase(), &args)
            }
        };
        finite &= v.is_finite();
        st.push(v);
    }
    assert_eq!(st.len(), 1, "malformed postfix expression");
    (st[0], finite)
}

/// Is this a well-formed postfix tree whose constants and features exist?
pub fn well_formed(nodes: &[PNode], n_consts: usize, n_features: usize) -> bool {
    let mut depth = 0usize;
    for n in nodes {
        match *n {
            PNode::Var { feature } => {
                if feature as usize >= n_features {
                    return false;
                }
                depth += 1;
            }
            PNode::Const { idx } => {
                if idx as usize >= n_consts {
                    return false;
                }
                depth += 1;
            }
            PNode::Op { arity, .. } => {
                if arity == 0 || depth < arity as usize {
                    return false;
                }
                depth = depth + 1 - arity as usize;
            }
        }
    }
    depth == 1
}

#[derive(Clone, Debug, PartialEq)]
pub enum RefLoss {
    Mse,
    Mae,
    Rmse,
    Huber(f64),
    LogCosh,
    Lp(f64),
    Quantile(f64),
    Eps(f64),
}

pub fn point_loss(k: &RefLoss, yhat: f64, y: f64) -> f64 {
    let r = yhat - y;
    match k {
        RefLoss::Mse | RefLoss::Rmse => r * r,
        RefLoss::Mae => r.abs(),
        RefLoss::Huber(d) => {
            if r.abs() <= *d {
                0.5 * r * r
            } else {
                d * (r.abs() - 0.5 * d)
            }
        }
        RefLoss::LogCosh if r.abs() > 300.0 => r.abs() - core::f64::consts::LN_2,
        RefLoss::LogCosh => r.cosh().ln(),
        RefLoss::Lp(p) => r.abs().powf(*p),
        RefLoss::Quantile(t) => {
            if y >= yhat {
                t * (y - yhat)
            } else {
                (1.0 - t) * (yhat - y)
            }
        }
        RefLoss::Eps(e) => (r.abs() - e).max(0.0),
    }
}

pub fn loss(k: &RefLoss, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
    let mut s = 0.0;
    let mut sw = 0.0;
    for i in 0..y.len() {
        let wi = w.map_or(1.0, |w| w[i]);
        s += wi * point_loss(k, yhat[i], y[i]);
        sw += wi;
    }
    if sw == 0.0 {
        return 0.0;
    }
    let m = s / sw;
    if *k == RefLoss::Rmse { m.sqrt() } else { m }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol * (1.0f64).max(a.abs()).max(b.abs())
}

pub fn close_rel(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return a.is_nan() && b.is_nan();
    }
    (a - b).abs() <= tol * a.abs().max(b.abs()) + 1e-300
}
