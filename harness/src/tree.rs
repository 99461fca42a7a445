//! Structural queries (C39): what they answer about every sequence of nodes, well formed or not.
use std::panic::{AssertUnwindSafe, catch_unwind};

use dynamic_expressions::expression::{Metadata, PostfixExpr};
use dynamic_expressions::node::PNode;
use dynamic_expressions::node_utils as nu;
use dynamic_expressions::{ConstRef, compress_constants, get_scalar_constants, set_scalar_constants};
use fastrand::Rng;
use serde_json::{Value, json};

fn jn(n: &PNode) -> Value {
    match *n {
        PNode::Var { feature } => json!([0, feature, 0]),
        PNode::Const { idx } => json!([1, idx, 0]),
        PNode::Op { arity, op } => json!([2, arity, op]),
    }
}
fn jns(n: &[PNode]) -> Value {
    Value::Array(n.iter().map(jn).collect())
}
type Walk = Vec<PNode>;
fn up(p: PNode, ks: &[Walk]) -> Walk {
    std::iter::once(p).chain(ks.iter().flatten().copied()).collect()
}

fn answers(n: &[PNode], dirty: &mut Vec<Walk>) -> Value {
    let (mut l, mut b) = (0, 0);
    let walk = nu::tree_mapreduce(
        n,
        |x| {
            l += 1;
            vec![*x]
        },
        |x| {
            b += 1;
            *x
        },
        up,
    );
    let walk2 = nu::tree_mapreduce_with_stack(n, |x| vec![*x], |x| *x, up, Some(dirty));
    dirty.push(walk.clone());
    let sizes = nu::subtree_sizes(n);
    let ranges: Vec<_> = (0..n.len()).map(|i| nu::subtree_range(&sizes, i)).collect();
    json!({"depth": nu::count_depth(n), "sizes": sizes, "ranges": ranges, "nodes": nu::count_nodes(n), "vars": nu::count_variable_nodes(n),
        "consts": nu::count_constant_nodes(n), "ops": nu::count_operator_nodes(n), "arity": nu::max_arity(n), "leaf": nu::is_leaf(n),
        "has": [nu::has_variables(n), nu::has_constants(n), nu::has_operators(n)],
        "walk": jns(&walk), "walk2": jns(&walk2), "calls": [l, b]})
}

fn case(n: &[PNode], nc: usize, last: &mut Vec<PNode>, dirty: &mut Vec<Walk>, r: &mut Rng) -> Value {
    let valid = nu::is_valid_postfix(n);
    let mut out = json!({"n": jns(n), "valid": valid});
    if valid {
        out["ans"] = answers(n, dirty);
        *last = n.to_vec();
    } else {
        let refuses = |f: &mut dyn FnMut()| catch_unwind(AssertUnwindSafe(f)).is_err();
        let refused = [
            refuses(&mut || drop(nu::subtree_sizes(n))),
            refuses(&mut || drop(nu::tree_mapreduce(n, |x| vec![*x], |x| *x, up))),
            refuses(&mut || drop(nu::tree_mapreduce_with_stack(n, |x| vec![*x], |x| *x, up, Some(dirty)))),
            refuses(&mut || {
                nu::count_depth(n);
            }),
        ];
        out["refused"] = json!(refused);
        out["then"] = json!({"n": jns(last), "depth": nu::count_depth(last)});
    }
    let before: Vec<i64> = (0..nc).map(|j| 10 + j as i64 / 2).collect();
    let mut e = PostfixExpr::<i64, (), 3>::new(n.to_vec(), before.clone(), Metadata::default());
    let (got, cref) = get_scalar_constants(&e);
    let news: Vec<i64> = (0..nc).map(|j| 50 + j as i64).collect();
    set_scalar_constants(&mut e, &news, &cref);
    let whole = e.consts.clone();
    set_scalar_constants(&mut e, &got, &cref);
    let mut at: Vec<usize> = (0..nc).collect();
    r.shuffle(&mut at);
    at.truncate(r.usize(0..=nc));
    let new: Vec<i64> = at.iter().map(|_| r.i64(60..70)).collect();
    let mut f = e.clone();
    set_scalar_constants(&mut f, &new, &ConstRef { const_indices: at.clone() });
    let mut g = e.clone();
    let changed = compress_constants(&mut g);
    let (n2, c2) = (jns(&g.nodes), g.consts.clone());
    let again = compress_constants(&mut g);
    out["slots"] = json!({"before": before, "got": got, "news": news, "whole": whole, "at": at, "new": new, "part": f.consts,
        "n2": n2, "c2": c2, "changed": changed, "again": again});
    out
}

pub fn run(seed: u64, n: usize, words: &[Vec<(u8, u16)>]) -> Value {
    let mut r = Rng::with_seed(seed ^ 0x7EE5);
    let mut last = vec![PNode::Var { feature: 0 }];
    let mut dirty = vec![];
    let mut cases = vec![];
    let mut go = |nodes: Vec<PNode>, r: &mut Rng| {
        let nc = nodes.iter().map(|p| if let PNode::Const { idx } = p { *idx as usize + 1 } else { 0 }).max().unwrap_or(0);
        let nc = nc + [0, 0, 1, 3][r.usize(0..4)];
        case(&nodes, nc, &mut last, &mut dirty, r)
    };
    for (i, w) in words.iter().enumerate() {
        if i % 500 == 0 {
            crate::heartbeat(60, &format!("tree {i}"));
        }
        let nodes = w
            .iter()
            .map(|&(k, a)| match k {
                0 if r.bool() => PNode::Var { feature: r.u16(0..3) },
                0 => PNode::Const { idx: r.u16(0..4) },
                1 => PNode::Const { idx: a },
                _ => PNode::Op { arity: a as u8, op: r.u16(0..3) },
            })
            .collect();
        let c = go(nodes, &mut r);
        cases.push(c);
    }
    // larger ones: random trees, some with one node lost, doubled or changed
    for i in 0..n {
        crate::heartbeat(60, &format!("tree random {i}"));
        let ops = (1..=4u8).map(|arity| dynamic_expressions::OpId { arity, id: arity as u16 % 3 }).collect::<Vec<_>>();
        let mut nodes = crate::expr::rnd_nodes(&mut r, 2 + i % 60, &ops, 4, 5);
        if r.usize(0..3) == 0 {
            let p = r.usize(0..nodes.len());
            match r.u8(0..3) {
                0 => drop(nodes.remove(p)),
                1 => nodes.insert(p, nodes[p]),
                _ => nodes[p] = PNode::Op { arity: 1 + r.u8(0..4), op: 0 },
            }
        }
        let c = go(nodes, &mut r);
        cases.push(c);
    }
    // trees deeper, wider and with more constants than a byte counts
    for (i, arity) in [1u8, 2, 2, 3, 4].into_iter().enumerate() {
        crate::heartbeat(60, &format!("tree large {i}"));
        let ops = [dynamic_expressions::OpId { arity, id: 1 }];
        let nodes = if i == 2 {
            // every leaf another constant, hung on one long branch
            let mut v = vec![PNode::Const { idx: 299 }];
            (0..299).for_each(|k| v.extend([PNode::Const { idx: (k * 7) % 299 }, PNode::Op { arity: 2, op: 0 }]));
            v
        } else {
            crate::expr::rnd_nodes(&mut r, 300 + 50 * i, &ops, 400, 300)
        };
        let c = go(nodes, &mut r);
        cases.push(c);
    }
    json!({ "cases": cases })
}
