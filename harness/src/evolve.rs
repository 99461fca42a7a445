//! Evolution events of the real code: ageing (C10), variation (C12), constant optimisation (C19),
//! tournaments (C21) and acceptance (C28).
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;

use dynamic_expressions::expression::PostfixExpr;
use dynamic_expressions::node::PNode;
use dynamic_expressions::{EvalOptions, GradContext};
use fastrand::Rng;
use serde_json::{Value, json};
use symbolic_regression::verif_hooks::{self as vh, Evaluator, Population, RunningSearchStatistics};
use symbolic_regression::{Dataset, LossKind, MemberId, MutationWeights, PopMember, TaggedDataset, make_loss};

use crate::expr::rnd_nodes;
use crate::refops::{self, RefLoss};
use crate::search::{self, D, Member, Ops, Opts, RunCfg, nodes_json, op};

type Expr = PostfixExpr<f64, Ops, D>;

pub fn expr_of(nodes: Vec<PNode>, consts: Vec<f64>) -> Expr {
    PostfixExpr::new(nodes, consts, Default::default())
}

/// Dense identifiers of values and contents within one case; ranks of losses and costs.
#[derive(Default)]
struct Case {
    vals: Vec<f64>,
    contents: HashMap<(Vec<PNode>, Vec<u64>), usize>,
}
impl Case {
    fn add(&mut self, m: &Member) {
        self.vals.extend([m.loss, m.cost]);
        self.vals.extend(m.expr.consts.iter());
    }
    fn rank(&self, x: f64) -> i64 {
        if x.is_nan() {
            return -1;
        }
        if x == f64::INFINITY {
            return 1_000_000_000;
        }
        let mut v: Vec<f64> = self.vals.iter().copied().filter(|a| a.is_finite()).map(|a| a + 0.0).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v.iter().position(|a| *a == x).map_or(-3, |k| k as i64 + 1)
    }
    fn member(&mut self, m: &Member) -> Value {
        // the equation, however its constant slots are numbered
        let bits = |n: &PNode| if let PNode::Const { idx } = n { m.expr.consts.get(*idx as usize).map(|c| c.to_bits()) } else { None };
        let cs: Vec<u64> = m.expr.nodes.iter().filter_map(bits).collect();
        let ns = m.expr.nodes.iter().map(|n| if let PNode::Const { .. } = n { PNode::Const { idx: 0 } } else { *n }).collect();
        let key = (ns, cs);
        let n = self.contents.len() + 1;
        let e = *self.contents.entry(key).or_insert(n);
        json!({"id": m.id.0, "pa": m.parent.map_or(0, |p| p.0), "b": m.birth, "cx": m.complexity, "l": self.rank(m.loss),
            "k": self.rank(m.cost), "n": nodes_json(&m.expr.nodes),
            "c": m.expr.consts.iter().map(|c| self.rank(*c)).collect::<Vec<_>>(), "e": e})
    }
    fn members(&mut self, ms: &[Member]) -> Vec<Value> {
        ms.iter().map(|m| self.member(m)).collect()
    }
}

pub struct World {
    pub cfg: RunCfg,
    pub data: Dataset<f64>,
    base: Option<f64>,
}
impl World {
    pub fn new(cfg: RunCfg) -> Self {
        let data = cfg.dataset();
        let b = cfg.norm();
        let base = if cfg.opts.use_baseline && b > 0.01 { Some(b) } else { None };
        let z = vec![0.0; cfg.y.len()];
        let raw = refops::loss(&cfg.ref_loss, &z, &cfg.y, cfg.w.as_deref());
        let base = if cfg.opts.use_baseline && raw.is_finite() { Some(raw) } else { base };
        World { cfg, data, base }
    }
    pub fn tagged(&self) -> TaggedDataset<'_, f64> {
        TaggedDataset::new(&self.data, self.base)
    }
    pub fn member(&self, id: u64, birth: u64, e: Expr) -> Member {
        let mut m = PopMember::from_expr(MemberId(id), None, birth, e, self.cfg.nfeat());
        let mut ev = Evaluator::new(self.data.n_rows);
        m.evaluate(&self.tagged(), &self.cfg.opts, &mut ev);
        m
    }
    /// loss and cost of `m` are those of its equation
    pub fn truthful(&self, m: &Member) -> bool {
        let t = self.cfg.truth(&m.expr.nodes, &m.expr.consts);
        let k = t / self.cfg.norm() + self.cfg.opts.parsimony * m.complexity as f64;
        (refops::close_rel(m.loss, t, 1e-7) || (m.loss - t).abs() < 1e-12)
            && (refops::close_rel(m.cost, k, 1e-6) || (m.cost - k).abs() < 1e-9)
            && m.loss.is_infinite() == m.cost.is_infinite()
    }
}

fn limits_json(c: &RunCfg) -> Value {
    let v = search::cfg_json(c);
    json!({"cvar": v["cvar"], "ccst": v["ccst"], "vcx": v["vcx"], "opcx": v["opcx"], "maxdepth": v["maxdepth"], "oparg": v["oparg"],
        "nested": v["nested"]})
}
fn ops_json(c: &RunCfg) -> Value {
    search::cfg_json(c)["ops"].clone()
}

fn pool(o: &Opts) -> Vec<dynamic_expressions::OpId> {
    o.operators.ops_by_arity.iter().flatten().copied().collect()
}

pub fn rnd_expr(r: &mut Rng, c: &RunCfg, size: usize) -> Expr {
    let nodes = rnd_nodes(r, size, &pool(&c.opts), c.nfeat(), 200);
    // give every constant its own slot, numbered from zero in random order
    let k = nodes.iter().filter(|n| matches!(n, PNode::Const { .. })).count();
    let mut slots: Vec<u16> = (0..k as u16).collect();
    r.shuffle(&mut slots);
    let mut it = slots.into_iter();
    let nodes: Vec<PNode> =
        nodes.into_iter().map(|n| if let PNode::Const { .. } = n { PNode::Const { idx: it.next().unwrap() } } else { n }).collect();
    let consts = (0..k).map(|_| (r.f64() * 6.0 - 3.0) * if r.u8(0..8) == 0 { 100.0 } else { 1.0 }).collect();
    expr_of(nodes, consts)
}

fn zero_weights() -> MutationWeights {
    MutationWeights {
        mutate_constant: 0.0,
        mutate_operator: 0.0,
        mutate_feature: 0.0,
        swap_operands: 0.0,
        rotate_tree: 0.0,
        add_node: 0.0,
        insert_node: 0.0,
        delete_node: 0.0,
        simplify: 0.0,
        randomize: 0.0,
        do_nothing: 1e-12,
        optimize: 0.0,
        form_connection: 0.0,
        break_connection: 0.0,
    }
}
pub const KINDS: [&str; 12] = [
    "mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node",
    "delete_node", "simplify", "randomize", "do_nothing", "optimize",
];
fn only(kind: &str) -> MutationWeights {
    let mut w = zero_weights();
    set_weight(&mut w, kind, 1.0);
    w
}

struct Counters {
    nid: u64,
    nb: u64,
}

fn next_gen(w: &World, m: &Member, stats: &RunningSearchStatistics, temp: f64, cur: usize, r: &mut Rng, c: &mut Counters, ev: &mut Evaluator<f64, D>) -> (Member, bool) {
    let (b, acc, _) = vh::next_generation(
        m,
        vh::NextGenerationCtx {
            rng: r,
            dataset: w.tagged(),
            temperature: temp,
            curmaxsize: cur,
            stats,
            options: &w.cfg.opts,
            evaluator: ev,
            next_id: &mut c.nid,
            next_birth: &mut c.nb,
            _ops: PhantomData::<Ops>,
        },
    );
    (b, acc)
}
fn cross(w: &World, a: &Member, b: &Member, cur: usize, r: &mut Rng, c: &mut Counters, ev: &mut Evaluator<f64, D>) -> (Member, Member, bool) {
    let (x, y, acc, _) = vh::crossover_generation(
        a,
        b,
        vh::CrossoverCtx {
            rng: r,
            dataset: w.tagged(),
            curmaxsize: cur,
            options: &w.cfg.opts,
            evaluator: ev,
            next_id: &mut c.nid,
            next_birth: &mut c.nb,
            _ops: PhantomData::<Ops>,
        },
    );
    (x, y, acc)
}
fn evolve(w: &World, pop: &mut Population<f64, Ops, D>, stats: &RunningSearchStatistics, temp: f64, cur: usize, r: &mut Rng, c: &mut Counters) {
    let mut ev = Evaluator::new(w.data.n_rows);
    vh::reg_evol_cycle(
        pop,
        vh::RegEvolCtx {
            rng: r,
            dataset: w.tagged(),
            temperature: temp,
            curmaxsize: cur,
            stats,
            options: &w.cfg.opts,
            evaluator: &mut ev,
            next_id: &mut c.nid,
            next_birth: &mut c.nb,
            _ops: PhantomData::<Ops>,
        },
    );
}

/// Options under which every attempted variation succeeds and is accepted.
pub fn permissive(c: &mut RunCfg) {
    let o = &mut c.opts;
    o.maxsize = 200;
    o.maxdepth = 200;
    o.op_constraints = Default::default();
    o.nested_constraints = Default::default();
    o.annealing = false;
    o.use_frequency = false;
    o.complexity_of_constants = 1;
    o.complexity_of_variables = 1;
    o.variable_complexities = None;
    o.operator_complexity_overrides.clear();
    o.operators = search::operators(&[("add", 2), ("sub", 2), ("neg", 1), ("max", 2), ("abs", 1), ("clamp", 3)]);
    o.loss = make_loss(LossKind::Mae);
    c.ref_loss = RefLoss::Mae;
}

/// A population of distinct members with the given birth order.
fn population(w: &World, r: &mut Rng, births: &[u64], size: usize) -> Vec<Member> {
    let mut seen = BTreeSet::new();
    let mut out: Vec<Member> = vec![];
    let mut ids: Vec<u64> = (0..births.len() as u64).map(|k| 3 * k + 1).collect();
    r.shuffle(&mut ids);
    while out.len() < births.len() {
        let sz = 1 + r.usize(0..size);
        let e = rnd_expr(r, &w.cfg, sz);
        let key = format!("{:?}{:?}", e.nodes, e.consts);
        if seen.insert(key) {
            let k = out.len();
            out.push(w.member(ids[k], births[k], e));
        }
    }
    out
}

fn c10(seed: u64, n: usize, scen: &[Vec<u64>]) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC10);
    for births in scen {
        for kind in ["mut", "cross"] {
            if kind == "cross" && births.len() < 2 {
                continue;
            }
            for acc in [true, false] {
                for skip in [true, false] {
                    let mut cfg = search::gen_cfg(seed, r.usize(0..1000));
                    permissive(&mut cfg);
                    let big = if r.bool() { births.len() } else { births.len() + r.usize(0..20) };
                    cfg.opts.tournament_selection_n = big;
                    cfg.opts.tournament_selection_p = *[1.0, 0.5].get(r.usize(0..2)).unwrap();
                    cfg.opts.skip_mutation_failures = skip;
                    cfg.opts.crossover_probability = if kind == "cross" { 1.0 } else { 0.0 };
                    cfg.opts.mutation_weights = only("do_nothing");
                    let w = World::new(cfg);
                    let gap = 1 + r.u64(0..4);
                    let b: Vec<u64> = births.iter().map(|b| b * gap).collect();
                    let pre = population(&w, &mut r, &b, 5);
                    let mut c = Counters { nid: 1000, nb: 1 + b.iter().max().unwrap() + r.u64(0..50) };
                    let (nid, nb) = (c.nid, c.nb);
                    let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
                    let mut pop = Population::new(pre.clone());
                    evolve(&w, &mut pop, &stats, 1.0, if acc { 200 } else { 0 }, &mut r, &mut c);
                    let mut k = Case::default();
                    pre.iter().chain(&pop.members).for_each(|m| k.add(m));
                    out.push(json!({"t": "ev", "ev": kind, "out": if acc {"acc"} else {"rej"}, "skip": skip, "pre": k.members(&pre),
                        "post": k.members(&pop.members), "nid": nid, "nid2": c.nid, "nb": nb, "nb2": c.nb}));
                }
            }
        }
    }
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 5000);
        let size = 2 + r.usize(0..14);
        let cross = r.u8(0..3) == 0;
        let mixed = r.bool();
        if !mixed {
            permissive(&mut cfg);
        }
        cfg.opts.maxsize = cfg.opts.maxsize.max(9);
        cfg.opts.tournament_selection_n = 1 + r.usize(0..size + 2);
        cfg.opts.crossover_probability = if mixed { 0.4 } else if cross { 1.0 } else { 0.0 };
        if !mixed {
            cfg.opts.mutation_weights = only(*["do_nothing", "randomize", "simplify"].get(r.usize(0..3)).unwrap());
        }
        cfg.opts.skip_mutation_failures = true;
        let tn = cfg.opts.tournament_selection_n;
        let w = World::new(cfg);
        let mut b: Vec<u64> = (1..=size as u64).map(|k| k * 5 + r.u64(0..5)).collect();
        r.shuffle(&mut b);
        let pre = population(&w, &mut r, &b, 7);
        let mut c = Counters { nid: 1000, nb: 200 };
        let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
        let mut pop = Population::new(pre.clone());
        let cur = w.cfg.opts.maxsize;
        let temp = r.f64();
        evolve(&w, &mut pop, &stats, temp, cur, &mut r, &mut c);
        let mut k = Case::default();
        pre.iter().chain(&pop.members).for_each(|m| k.add(m));
        out.push(json!({"t": "multi", "ev": if cross || mixed {"cross"} else {"mut"}, "must": !mixed, "tn": tn, "pre": k.members(&pre),
            "post": k.members(&pop.members), "nid": 1000, "nid2": c.nid, "nb": 200, "nb2": c.nb}));
    }
    out
}

fn tame(w: &World, m: &Member) -> bool {
    m.loss.is_finite() && m.loss < 1e12 && !w.cfg.y.is_empty()
}

fn c12(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC12);
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 9000);
        let easy = i % 3 == 0;
        let kind = KINDS[i % 12];
        if easy {
            permissive(&mut cfg);
        } else {
            cfg.opts.maxsize = cfg.opts.maxsize.max(3);
        }
        cfg.opts.mutation_weights = only(kind);
        cfg.opts.optimizer_probability = 1.0;
        cfg.opts.should_simplify = true;
        cfg.opts.should_optimize_constants = true;
        if r.bool() {
            cfg.opts.annealing = false;
            cfg.opts.use_frequency = false;
        }
        let cur = if r.bool() { cfg.opts.maxsize } else { 1 + r.usize(0..cfg.opts.maxsize.min(25)) };
        let w = World::new(cfg);
        let sz = 1 + r.usize(0..12);
        let e = rnd_expr(&mut r, &w.cfg, sz);
        let m = w.member(7, 3, e);
        let mut ev = Evaluator::new(w.data.n_rows);
        let mut c = Counters { nid: 100, nb: 50 };
        let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
        let temp = *[0.0, 0.3, 1.0].get(r.usize(0..3)).unwrap();
        let crossing = i % 4 == 1;
        let lim = limits_json(&w.cfg);
        let must0 = easy && cur == 200;
        if crossing {
            let sz2 = 1 + r.usize(0..9);
            let e2 = rnd_expr(&mut r, &w.cfg, sz2);
            let m2 = w.member(9, 4, e2);
            let (x, y, acc) = cross(&w, &m, &m2, cur, &mut r, &mut c, &mut ev);
            let mut k = Case::default();
            [&m, &m2, &x, &y].iter().for_each(|m| k.add(m));
            let fresh = x.id != y.id && x.birth != y.birth && [&x, &y].iter().all(|z| z.id.0 >= 100 && z.id.0 < c.nid && z.birth >= 50 && z.birth < c.nb)
                && x.parent == Some(m.id) && y.parent == Some(m2.id);
            out.push(json!({"t": "cross", "p": k.member(&m), "p2": k.member(&m2), "q": k.member(&x), "q2": k.member(&y), "acc": acc,
                "true": w.truthful(&x) && w.truthful(&y), "fresh": fresh, "must": must0, "cur": cur, "o": lim, "nf": w.cfg.nfeat(), "ops": ops_json(&w.cfg)}));
        } else {
            if !easy && !m.loss.is_finite() && r.u8(0..4) != 0 {
                continue;
            }
            let (b, acc) = next_gen(&w, &m, &stats, temp, cur, &mut r, &mut c, &mut ev);
            let mut k = Case::default();
            [&m, &b].iter().for_each(|m| k.add(m));
            let has = |f: &dyn Fn(&PNode) -> bool| m.expr.nodes.iter().any(|n| f(n));
            let nops = |n: &PNode| matches!(n, PNode::Op { .. });
            let possible = match kind {
                "mutate_constant" => has(&|n| matches!(n, PNode::Const { .. })),
                "mutate_operator" | "delete_node" => has(&nops),
                "swap_operands" => has(&|n| matches!(n, PNode::Op { arity: 2, .. })),
                "mutate_feature" | "rotate_tree" => false,
                _ => true,
            };
            // with everything allowed and total operators, a possible variation must come through
            let must = must0 && possible && tame(&w, &m) && !w.cfg.opts.annealing && !w.cfg.opts.use_frequency;
            let fresh = b.id.0 >= 100 && b.id.0 < c.nid && b.birth >= 50 && b.birth < c.nb && b.parent == Some(m.id);
            out.push(json!({"t": "mut", "kind": kind, "p": k.member(&m), "q": k.member(&b), "acc": acc, "true": w.truthful(&b), "fresh": fresh,
                "must": must, "cur": cur, "o": lim, "nf": w.cfg.nfeat(), "ops": ops_json(&w.cfg)}));
        }
    }
    // reachability: everything a kind can produce from a small tree turns up
    let trials = 8000;
    for i in 0..(n / 60).clamp(32, 160) {
        let kind = ["mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "delete_node", "insert_node", "add_node", "mutate_constant"][i % 8];
        let mut cfg = search::gen_cfg(seed, 77_000 + i);
        permissive(&mut cfg);
        let ops: &[(&str, u8)] = match kind {
            // (with three operands the tree is kept small: everything has to turn up)
            "insert_node" | "add_node" if i / 8 % 2 == 1 => &[("neg", 1), ("clamp", 3)],
            "insert_node" | "add_node" => &[("neg", 1), ("add", 2)],
            _ => &[("neg", 1), ("abs", 1), ("add", 2), ("max", 2), ("clamp", 3)],
        };
        cfg.opts.operators = search::operators(ops);
        cfg.opts.mutation_weights = only(kind);
        cfg.x = cfg.x.iter().map(|v| vec![v[0], v[v.len() - 1] + 1.0]).collect();
        cfg.opts.maxsize = 60;
        let w = World::new(cfg);
        let size = match kind {
            "insert_node" if i / 8 % 2 == 1 => 1 + r.usize(0..3),
            "add_node" if i / 8 % 2 == 1 => 1 + r.usize(0..2),
            "insert_node" | "add_node" => 1 + r.usize(0..5),
            _ => 3 + r.usize(0..6),
        };
        let mut e = rnd_expr(&mut r, &w.cfg, size);
        while kind != "add_node" && kind != "insert_node" && !e.nodes.iter().any(|n| matches!(n, PNode::Op { .. })) {
            e = rnd_expr(&mut r, &w.cfg, size);
        }
        if kind == "mutate_constant" {
            // up to five different constants, any of which may be the one perturbed
            let k = 1 + i / 8 % 5;
            let mut ns = vec![PNode::Var { feature: 1 }];
            (0..k).for_each(|j| ns.extend([PNode::Const { idx: j as u16 }, PNode::Op { arity: 2, op: op("add", 2).id }]));
            e = expr_of(ns, (0..k).map(|j| 1.5 + j as f64).collect());
        }
        let own = e.consts.clone();
        let zero = |e: &Expr| {
            if kind == "mutate_constant" {
                return against(e, &own);
            }
            Value::Array(
                e.nodes.iter().map(|n| match *n { PNode::Const { .. } => json!([1, 0, 0]), _ => search::node_json(n) }).collect(),
            )
        };
        let m = w.member(7, 3, e);
        let mut ev = Evaluator::new(w.data.n_rows);
        let mut c = Counters { nid: 100, nb: 50 };
        let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
        let mut seen: BTreeMap<String, Value> = BTreeMap::new();
        for _ in 0..trials {
            let (b, acc) = next_gen(&w, &m, &stats, 1.0, 60, &mut r, &mut c, &mut ev);
            let fallback = match kind {
                // nothing of this kind is possible: the member is kept
                "swap_operands" => !m.expr.nodes.iter().any(|n| matches!(n, PNode::Op { arity: 2, .. })),
                "mutate_feature" => !m.expr.nodes.iter().any(|n| matches!(n, PNode::Var { .. })),
                _ => false,
            };
            if acc && !fallback {
                let v = zero(&b.expr);
                seen.insert(v.to_string(), v);
            }
        }
        out.push(json!({"t": "reach", "kind": kind, "tree": zero(&m.expr), "seen": seen.into_values().collect::<Vec<_>>(), "nf": 2,
            "ops": ops_json(&w.cfg)}));
        if i % 7 == 0 {
            let e2 = rnd_expr(&mut r, &w.cfg, 5);
            let m2 = w.member(9, 4, e2);
            let mut seen: BTreeMap<String, Value> = BTreeMap::new();
            for _ in 0..trials {
                let (x, y, acc) = cross(&w, &m, &m2, 60, &mut r, &mut c, &mut ev);
                if acc {
                    let v = json!([zero(&x.expr), zero(&y.expr)]);
                    seen.insert(v.to_string(), v);
                }
            }
            out.push(json!({"t": "reachx", "tree": zero(&m.expr), "tree2": zero(&m2.expr), "seen": seen.into_values().collect::<Vec<_>>()}));
        }
    }
    out
}

fn c19(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC19);
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 19_000);
        let o = &mut cfg.opts;
        o.should_optimize_constants = r.u8(0..12) != 0;
        o.optimizer_iterations = *[0, 1, 2, 8, 30].get(r.usize(0..5)).unwrap();
        o.optimizer_f_calls_limit = *[0, 1, 2, 5, 20, 10_000].get(r.usize(0..6)).unwrap();
        o.optimizer_nrestarts = r.usize(0..4);
        o.optimizer_probability = *[0.0, 0.5, 1.0].get(r.usize(0..3)).unwrap();
        o.maxsize = o.maxsize.max(20);
        let w = World::new(cfg);
        if i % 5 != 4 {
            let sz = 1 + r.usize(0..12);
            let e = rnd_expr(&mut r, &w.cfg, sz);
            let mut m = w.member(7, 3, e);
            m.parent = Some(MemberId(2));
            if r.u8(0..6) == 0 {
                // start at an optimum found before
                for _ in 0..3 {
                    run_opt(&w, &mut m, &mut r, &mut 40, &mut Evaluator::new(w.data.n_rows));
                }
                m.birth = 3;
            }
            let before = m.clone();
            let mut nb = 50;
            let mut ev = Evaluator::new(w.data.n_rows);
            let improved = run_opt(&w, &mut m, &mut r, &mut nb, &mut ev);
            let mut k = Case::default();
            [&before, &m].iter().for_each(|m| k.add(m));
            let b = k.member(&before);
            let a = k.member(&m);
            out.push(json!({"t": "opt", "p": b, "q": a, "improved": improved, "nb": 50, "nb2": nb, "true": w.truthful(&m),
                "off": !w.cfg.opts.should_optimize_constants || before.expr.consts.is_empty()}));
        } else {
            let size = 1 + r.usize(0..6);
            let births: Vec<u64> = (1..=size as u64).collect();
            let pre = population(&w, &mut r, &births, 9);
            let mut pop = Population::new(pre.clone());
            let mut c = Counters { nid: 1000, nb: 200 };
            let mut ev = Evaluator::new(w.data.n_rows);
            let mut grad = GradContext::<f64, D>::new(w.data.n_rows);
            let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
            let mut ctx = vh::IterationCtx {
                rng: &mut r,
                full_dataset: w.tagged(),
                curmaxsize: w.cfg.opts.maxsize,
                stats: &stats,
                options: &w.cfg.opts,
                evaluator: &mut ev,
                grad_ctx: &mut grad,
                next_id: &mut c.nid,
                next_birth: &mut c.nb,
                _ops: PhantomData::<Ops>,
            };
            vh::optimize_and_simplify_population(&mut pop, &mut ctx, w.tagged());
            let ms: Vec<Value> = pre
                .iter()
                .zip(&pop.members)
                .map(|(a, b)| {
                    let same = a.expr.nodes == b.expr.nodes && a.expr.consts.iter().map(|v| v.to_bits()).eq(b.expr.consts.iter().map(|v| v.to_bits()));
                    // simplification may move the loss by rounding only
                    let wild = a.loss.is_infinite() || a.loss.abs() > 1e9 || a.loss.abs() < 1e-6;
                    json!({"id": a.id.0, "id2": b.id.0, "b": a.birth, "b2": b.birth, "same": same, "true": w.truthful(b),
                        "notworse": wild || b.loss <= a.loss * (1.0 + 1e-6) || ill(&w, a)})
                })
                .collect();
            out.push(json!({"t": "phase", "m": ms, "nid": 1000, "nid2": c.nid}));
        }
    }
    out
}

/// the loss of `m` moves visibly when its values are perturbed by rounding
fn ill(w: &World, m: &Member) -> bool {
    let mut lo = f64::INFINITY;
    let mut hi = f64::NEG_INFINITY;
    for eps in [-1e-12, 0.0, 1e-12] {
        let c: Vec<f64> = m.expr.consts.iter().map(|v| v * (1.0 + eps)).collect();
        let mut cfg = w.cfg.clone();
        for row in cfg.x.iter_mut() {
            for v in row.iter_mut() {
                *v *= 1.0 - eps;
            }
        }
        let l = cfg.truth(&m.expr.nodes, &c);
        lo = lo.min(l);
        hi = hi.max(l);
    }
    !(hi - lo < 1e-7 * hi.abs())
}

fn run_opt(w: &World, m: &mut Member, r: &mut Rng, nb: &mut u64, ev: &mut Evaluator<f64, D>) -> bool {
    let mut grad = GradContext::<f64, D>::new(w.data.n_rows);
    let (improved, _) = vh::optimize_constants(
        r,
        m,
        vh::OptimizeConstantsCtx { dataset: w.tagged(), options: &w.cfg.opts, evaluator: ev, grad_ctx: &mut grad, next_birth: nb },
    );
    improved
}

fn stats_with(maxsize: usize, counts: &[(usize, usize)]) -> RunningSearchStatistics {
    let mut s = RunningSearchStatistics::new(maxsize, 1_000_000);
    for (size, n) in counts {
        s.update_from_population(std::iter::repeat(*size).take(*n));
    }
    s.normalize();
    s
}

fn c21(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC21);
    let trials = 8000;
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 21_000);
        cfg.opts.maxsize = 12;
        let len = 1 + r.usize(0..7);
        let base = *[0i64, 0, 2, 4].get(r.usize(0..4)).unwrap();
        cfg.opts.tournament_selection_p = match base {
            0 => 1.0,
            2 => 0.5,
            _ => 0.75,
        };
        let len = if base == 4 { len.min(5) } else { len };
        cfg.opts.tournament_selection_n = 1 + r.usize(0..len + 3);
        cfg.opts.use_frequency_in_tournament = r.bool();
        cfg.opts.adaptive_parsimony_scaling = *[0.0, 1.0, 20.0, 1040.0].get(r.usize(0..4)).unwrap();
        let w = World::new(cfg);
        let births: Vec<u64> = (1..=len as u64).collect();
        let mut ms = population(&w, &mut r, &births, 6);
        for m in ms.iter_mut() {
            m.cost = *[0.5, 1.0, 2.0, 3.0, 7.0].get(r.usize(0..5)).unwrap() * (1.0 + if i % 3 == 0 { 0.0 } else { r.f64() });
            m.loss = r.f64(); // selection is by cost
            m.complexity = r.usize(0..14); // 0 and 13 lie outside the table
            if i % 4 == 1 && r.u8(0..4) == 0 {
                m.cost = f64::INFINITY;
            }
            if i % 5 == 2 && r.u8(0..3) == 0 {
                m.cost = 0.0; // a perfect equation
            }
        }
        let crowd = if r.u8(0..3) == 0 { r.usize(0..1000) } else { 0 }; // one complexity dominates
        if crowd > 0 {
            let c = ms[0].complexity;
            for m in ms.iter_mut() {
                if r.bool() {
                    m.complexity = c;
                }
            }
        }
        let counts: Vec<(usize, usize)> =
            (0..5).map(|_| (1 + r.usize(0..12), r.usize(0..40))).chain([(ms[0].complexity, crowd)]).collect();
        let stats = stats_with(12, &counts);
        let tot: f64 = 12.0 + counts.iter().filter(|c| c.0 >= 1 && c.0 <= 12).map(|c| c.1 as f64).sum::<f64>();
        // the logarithm of the adjusted cost: the factor exp(scaling * frequency) itself may overflow
        let adj: Vec<f64> = ms
            .iter()
            .map(|m| {
                if !w.cfg.opts.use_frequency_in_tournament {
                    return m.cost.ln();
                }
                let f = if m.complexity >= 1 && m.complexity <= 12 {
                    (1.0 + counts.iter().filter(|c| c.0 == m.complexity).map(|c| c.1 as f64).sum::<f64>()) / tot
                } else {
                    0.0
                };
                m.cost.ln() + w.cfg.opts.adaptive_parsimony_scaling * f
            })
            .collect();
        // adjusted costs that differ only by rounding are not told apart
        let mut sorted: Vec<f64> = adj.clone();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if sorted.windows(2).any(|p| p[0] != p[1] && p[1].is_finite() && (p[1] - p[0]) < 1e-9 * p[1].abs().max(1.0)) {
            continue;
        }
        sorted.dedup();
        let rank: Vec<usize> = adj.iter().map(|a| sorted.iter().position(|s| s == a).unwrap() + 1).collect();
        let pop = Population::new(ms.clone());
        let mut wins = vec![0usize; len];
        let mut intact = true;
        for _ in 0..trials {
            let m = vh::best_of_sample(&mut r, &pop, &stats, &w.cfg.opts);
            match ms.iter().position(|q| q.id == m.id) {
                Some(k) => {
                    wins[k] += 1;
                    let q = &ms[k];
                    intact &= q.expr.nodes == m.expr.nodes && q.expr.consts == m.expr.consts && q.cost == m.cost && q.loss == m.loss
                        && q.complexity == m.complexity && q.birth == m.birth && q.parent == m.parent;
                }
                None => intact = false,
            }
        }
        out.push(json!({"rank": rank, "n": w.cfg.opts.tournament_selection_n, "base": base, "wins": wins, "trials": trials, "intact": intact}));
    }
    out
}

fn c28(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC28);
    let trials = 8000usize;
    let ln2 = std::f64::consts::LN_2;
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 28_000);
        permissive(&mut cfg);
        let ms = 3 + [0usize, 0, 1, 5, 9][r.usize(0..5)];
        cfg.opts.maxsize = ms;
        cfg.opts.complexity_of_constants = 1;
        cfg.opts.parsimony = *[0.0, 0.01].get(r.usize(0..2)).unwrap();
        let anneal = r.u8(0..4) != 0;
        let usefreq = r.bool();
        cfg.opts.annealing = anneal;
        cfg.opts.use_frequency = usefreq;
        // three ways of producing an offspring of known cost
        let way = r.usize(0..3);
        let (nodes, kind) = match way {
            0 => (vec![PNode::Var { feature: 0 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: op("sub", 2).id }], "do_nothing"),
            1 => (vec![PNode::Var { feature: 0 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: op("add", 2).id }], "swap_operands"),
            _ => (vec![PNode::Var { feature: 0 }, PNode::Op { arity: 1, op: op("abs", 1).id }, PNode::Op { arity: 1, op: op("abs", 1).id }], "delete_node"),
        };
        let consts = if way < 2 { vec![0.5 + r.f64()] } else { vec![] };
        cfg.opts.mutation_weights = only(kind);
        let alpha = *[0.1, 1.0, 3.17, 1500.0].get(r.usize(0..4)).unwrap();
        let temp = *[0.25, 0.5, 1.0].get(r.usize(0..3)).unwrap();
        cfg.opts.alpha = alpha;
        let w = World::new(cfg);
        let mut m = w.member(7, 3, expr_of(nodes, consts));
        let new_size = if way == 2 { 2 } else { 3 };
        let mut ev = Evaluator::new(w.data.n_rows);
        let mut c = Counters { nid: 100, nb: 50 };
        let true_loss = m.loss;
        let child_cost = m.loss / w.cfg.norm() + w.cfg.opts.parsimony * new_size as f64;
        m.loss = true_loss * 0.5 + 0.123;
        let old_size = 1 + r.usize(0..ms);
        m.complexity = old_size;
        let (a, b) = (r.usize(0..12), r.usize(0..12));
        let stats = if old_size == new_size { stats_with(ms, &[(new_size, b)]) } else { stats_with(ms, &[(old_size, a), (new_size, b)]) };
        let (fo, fn_) = if old_size == new_size { (b + 1, b + 1) } else { (a + 1, b + 1) };
        // a parent may be larger than the limit in force (warm-up)
        let cur = if r.bool() { ms } else { new_size + r.usize(0..=ms - new_size) };
        let go = |m: &Member, temp: f64, r: &mut Rng, ev: &mut Evaluator<f64, D>, c: &mut Counters, w: &World| -> (usize, bool) {
            let mut obs = 0;
            let mut honest = true;
            for _ in 0..trials {
                let (q, acc) = next_gen(w, m, &stats, temp, cur, r, c, ev);
                if acc {
                    obs += 1;
                    honest &= refops::close_rel(q.loss, true_loss, 1e-9) && refops::close_rel(q.cost, child_cost, 1e-9) && q.complexity == new_size;
                } else {
                    honest &= q.loss == m.loss && q.cost == m.cost && q.complexity == m.complexity && q.expr.nodes == m.expr.nodes && q.expr.consts == m.expr.consts;
                }
            }
            (obs, honest)
        };
        {
            // every kind of variation: what comes out carries its own loss and cost, or its parent's
            let kind = KINDS[i % 12];
            let mut cfg = search::gen_cfg(seed, i + 28_500);
            if i % 3 == 0 {
                permissive(&mut cfg);
            }
            cfg.opts.mutation_weights = only(kind);
            cfg.opts.optimizer_probability = 1.0;
            cfg.opts.should_simplify = true;
            cfg.opts.should_optimize_constants = true;
            if r.bool() {
                cfg.opts.annealing = false;
                cfg.opts.use_frequency = false;
            }
            let w = World::new(cfg);
            let mut ev = Evaluator::new(w.data.n_rows);
            let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
            let mut evs = vec![];
            for _ in 0..12 {
                let sz = 2 + r.usize(0..9);
                let e = rnd_expr(&mut r, &w.cfg, sz);
                let m = w.member(7, 3, e);
                // simplification keeps the parent's loss, which its result shares up to rounding
                if !m.loss.is_finite() || (kind == "simplify" && !tame(&w, &m)) {
                    continue;
                }
                let (q, acc) = next_gen(&w, &m, &stats, *[0.0, 0.3, 1.0].get(r.usize(0..3)).unwrap(), w.cfg.opts.maxsize, &mut r, &mut c, &mut ev);
                let kept = q.loss == m.loss && q.cost == m.cost && q.complexity == m.complexity && q.expr.nodes == m.expr.nodes && q.expr.consts == m.expr.consts;
                evs.push(json!({"acc": acc, "own": w.truthful(&q), "kept": kept}));
            }
            out.push(json!({"t": "own", "kind": kind, "evs": evs}));
        }
        match i % 6 {
            0 | 1 | 2 => {
                let steps = r.i32(-3..5);
                m.cost = child_cost - steps as f64 * ln2 * temp * alpha;
                let (obs, honest) = go(&m, temp, &mut r, &mut ev, &mut c, &w);
                // an exactly even chance of one may be missed by rounding
                let even = anneal as i32 * steps == 0 && false;
                out.push(json!({"t": "acc", "anneal": anneal, "steps": steps, "usefreq": usefreq, "fo": fo, "fn": fn_, "trials": trials,
                    "obs": obs, "honest": honest, "even": even}));
            }
            3 => {
                // zero temperature: only the sign of the change counts
                let worse = r.bool();
                m.cost = if worse { child_cost - 0.01 * (1.0 + r.f64()) } else { child_cost + 0.01 * (1.0 + r.f64()) };
                if anneal {
                    let (obs, honest) = go(&m, 0.0, &mut r, &mut ev, &mut c, &w);
                    out.push(json!({"t": if worse {"never"} else {"always"}, "trials": trials, "obs": obs, "honest": honest}));
                }
                // a parent without a finite cost always gives way (to a feasible offspring of a size as rare)
                let mut p = m.clone();
                p.cost = f64::INFINITY;
                p.loss = f64::INFINITY;
                if anneal {
                    let (obs, honest) = go(&p, temp, &mut r, &mut ev, &mut c, &w);
                    out.push(json!({"t": "always", "trials": trials, "obs": obs, "honest": honest}));
                }
            }
            4 => {
                // an offspring that fails to evaluate is never accepted, whatever its parent
                let mut cfg = w.cfg.clone();
                cfg.opts.operators = search::operators(&[("log", 1), ("sqrt", 1), ("div", 2)]);
                cfg.opts.mutation_weights = only("do_nothing");
                cfg.x[0][0] = -3.0;
                let nodes = match r.usize(0..3) {
                    0 => vec![PNode::Var { feature: 0 }, PNode::Op { arity: 1, op: op("log", 1).id }],
                    1 => vec![PNode::Var { feature: 0 }, PNode::Op { arity: 1, op: op("sqrt", 1).id }],
                    _ => vec![PNode::Var { feature: 0 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: op("div", 2).id }],
                };
                let cs = if nodes.len() == 3 { vec![0.0] } else { vec![] };
                let w2 = World::new(cfg);
                let mut p = w2.member(7, 3, expr_of(nodes, cs));
                p.cost = *[1.0, 1e9, f64::INFINITY].get(r.usize(0..3)).unwrap();
                p.loss = p.cost;
                let (obs, honest) = go(&p, temp, &mut r, &mut ev, &mut c, &w2);
                out.push(json!({"t": "never", "trials": trials, "obs": obs, "honest": honest}));
            }
            _ => {
                // the whole temperature schedule: a member that is lucky never to be replaced
                let (ncyc, steps) = *[(1usize, 1i32), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2)].get(r.usize(0..7)).unwrap();
                let mut cfg = w.cfg.clone();
                cfg.opts.annealing = true;
                cfg.opts.use_frequency = false;
                cfg.opts.ncycles_per_iteration = ncyc;
                cfg.opts.tournament_selection_n = 3;
                cfg.opts.crossover_probability = 0.0;
                cfg.opts.skip_mutation_failures = true;
                cfg.opts.mutation_weights = only("do_nothing");
                cfg.opts.batching = false;
                let w2 = World::new(cfg);
                let mut p = w2.member(7, 3, expr_of(vec![PNode::Var { feature: 0 }], vec![]));
                p.cost -= steps as f64 * ln2 * alpha;
                let stats = RunningSearchStatistics::new(ms, 1000);
                let mut obs = 0;
                let mut grad = GradContext::<f64, D>::new(w2.data.n_rows);
                for _ in 0..trials {
                    let mut pop = Population::new(vec![p.clone()]);
                    let mut ctx = vh::IterationCtx {
                        rng: &mut r,
                        full_dataset: w2.tagged(),
                        curmaxsize: ms,
                        stats: &stats,
                        options: &w2.cfg.opts,
                        evaluator: &mut ev,
                        grad_ctx: &mut grad,
                        next_id: &mut c.nid,
                        next_birth: &mut c.nb,
                        _ops: PhantomData::<Ops>,
                    };
                    vh::s_r_cycle(&mut pop, &mut ctx, w2.tagged());
                    if pop.members[0].id == p.id {
                        obs += 1;
                    }
                }
                out.push(json!({"t": "sched", "n": ncyc, "steps": steps, "trials": trials, "obs": obs}));
            }
        }
    }
    out
}

/// The nodes of `e` with each constant written as the number of the equal constant of `parent`, or 0.
fn against(e: &Expr, parent: &[f64]) -> Value {
    Value::Array(
        e.nodes
            .iter()
            .map(|n| match *n {
                PNode::Const { idx } => {
                    let v = e.consts.get(idx as usize).copied().unwrap_or(f64::NAN);
                    json!([1, parent.iter().position(|p| p.to_bits() == v.to_bits()).map_or(0, |k| k + 1), 0])
                }
                _ => search::node_json(n),
            })
            .collect(),
    )
}

fn set_weight(w: &mut MutationWeights, kind: &str, v: f64) {
    *match kind {
        "mutate_constant" => &mut w.mutate_constant,
        "mutate_operator" => &mut w.mutate_operator,
        "mutate_feature" => &mut w.mutate_feature,
        "swap_operands" => &mut w.swap_operands,
        "rotate_tree" => &mut w.rotate_tree,
        "add_node" => &mut w.add_node,
        "insert_node" => &mut w.insert_node,
        "delete_node" => &mut w.delete_node,
        "simplify" => &mut w.simplify,
        "randomize" => &mut w.randomize,
        "do_nothing" => &mut w.do_nothing,
        _ => &mut w.optimize,
    } = v;
}

fn phase(w: &World, ms: &[Member], r: &mut Rng) -> Vec<Member> {
    let mut pop = Population::new(ms.to_vec());
    let mut c = Counters { nid: 1000, nb: 200 };
    let mut ev = Evaluator::new(w.data.n_rows);
    let mut grad = GradContext::<f64, D>::new(w.data.n_rows);
    let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
    let mut ctx = vh::IterationCtx {
        rng: r,
        full_dataset: w.tagged(),
        curmaxsize: w.cfg.opts.maxsize,
        stats: &stats,
        options: &w.cfg.opts,
        evaluator: &mut ev,
        grad_ctx: &mut grad,
        next_id: &mut c.nid,
        next_birth: &mut c.nb,
        _ops: PhantomData::<Ops>,
    };
    vh::optimize_and_simplify_population(&mut pop, &mut ctx, w.tagged());
    pop.members
}

/// How often each kind of change happens.
fn c31(seed: u64, n: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::with_seed(seed ^ 0xC31);
    for i in 0..n {
        let mut cfg = search::gen_cfg(seed, i + 31_000);
        permissive(&mut cfg);
        match i % 9 {
            0..=3 => {
                // the kind of a mutation follows the weights of the kinds that apply
                let trials = if i % 4 == 0 { 800 } else { 2000 };
                let o = &mut cfg.opts;
                o.should_simplify = r.u8(0..3) != 0;
                o.should_optimize_constants = r.u8(0..4) != 0;
                o.optimizer_probability = *[0.0, 0.5, 1.0, 1.0].get(r.usize(0..4)).unwrap();
                o.optimizer_iterations = 2;
                o.optimizer_nrestarts = 0;
                let mut ws = zero_weights();
                ws.do_nothing = 0.0;
                ws.form_connection = r.u8(0..3) as f64;
                ws.break_connection = r.u8(0..3) as f64;
                let mut wt: BTreeMap<&str, u64> = KINDS.iter().map(|k| (*k, 0)).collect();
                let share = *[3u8, 5, 8].get(r.usize(0..3)).unwrap();
                for k in KINDS {
                    if r.u8(0..10) < share && (k != "randomize" || i % 4 == 0) {
                        wt.insert(k, 1 + r.u64(0..4));
                    }
                }
                if r.u8(0..5) != 0 || i % 4 != 0 {
                    wt.insert("do_nothing", 1 + r.u64(0..3));
                } else {
                    wt.insert("randomize", 1 + r.u64(0..3));
                }
                let unit = *[1.0, 0.01, 30.0].get(r.usize(0..3)).unwrap();
                for (k, v) in &wt {
                    set_weight(&mut ws, k, *v as f64 * unit);
                }
                let rich = i % 27 == 11;
                let trials = if rich { 20_000 } else { trials };
                if rich {
                    // more constants than count
                    ws = zero_weights();
                    wt = KINDS.iter().map(|k| (*k, 0)).collect();
                    for k in ["mutate_constant", "do_nothing"] {
                        wt.insert(k, 1 + r.u64(0..3));
                        set_weight(&mut ws, k, wt[k] as f64);
                    }
                }
                o.mutation_weights = ws;
                let sz = if r.u8(0..4) == 0 { 1 } else { 2 + r.usize(0..9) };
                if sz == 1 {
                    cfg.x = cfg.x.iter().map(|v| vec![v[0], v[v.len() - 1] + 1.0]).collect();
                }
                let w = World::new(cfg);
                let mut e = rnd_expr(&mut r, &w.cfg, sz);
                if rich {
                    let k = 8 + r.usize(0..6);
                    let mut ns = vec![PNode::Const { idx: 0 }];
                    for j in 1..k {
                        ns.push(PNode::Const { idx: j as u16 });
                        ns.push(PNode::Op { arity: 2, op: op("add", 2).id });
                    }
                    e = expr_of(ns, (0..k).map(|_| r.f64() + 0.1).collect());
                }
                if !e.consts.iter().all(|c| *c != 0.0) {
                    continue;
                }
                let m = w.member(7, 3, e);
                let leaf = m.expr.nodes.len() == 1;
                let cur = if !leaf && r.u8(0..3) == 0 { m.complexity } else { m.complexity + 8 };
                let mut simp = m.expr.clone();
                let _ = dynamic_expressions::simplify_in_place(&mut simp, &Evaluator::<f64, D>::new(w.data.n_rows).eval_opts);
                let mut ev = Evaluator::new(w.data.n_rows);
                let mut c = Counters { nid: 100, nb: 50 };
                let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
                let temp = [1.0, 0.5, 0.1][r.usize(0..3)];
                let mut seen: BTreeMap<String, (Value, usize)> = BTreeMap::new();
                let mut rej = 0;
                for _ in 0..trials {
                    let (b, acc) = next_gen(&w, &m, &stats, temp, cur, &mut r, &mut c, &mut ev);
                    if acc {
                        let v = against(&b.expr, &m.expr.consts);
                        seen.entry(v.to_string()).or_insert((v, 0)).1 += 1;
                    } else {
                        rej += 1;
                    }
                }
                out.push(json!({"t": "kinds", "tree": against(&m.expr, &m.expr.consts), "simp": against(&simp, &m.expr.consts), "w": wt,
                    "nf": w.cfg.nfeat(), "cx": m.complexity, "cur": cur, "ops": ops_json(&w.cfg), "simplify": w.cfg.opts.should_simplify,
                    "optimize": w.cfg.opts.should_optimize_constants && w.cfg.opts.optimizer_probability > 0.0,
                    "trials": trials, "rej": rej, "seen": seen.into_values().map(|(u, n)| json!({"u": u, "n": n})).collect::<Vec<_>>()}));
            }
            4 => {
                // crossover or mutation
                let num = r.u64(0..5);
                cfg.opts.crossover_probability = num as f64 / 4.0;
                cfg.opts.tournament_selection_n = 9;
                cfg.opts.mutation_weights = only("do_nothing");
                let w = World::new(cfg);
                let pre = population(&w, &mut r, &[1, 2, 3, 4], 6);
                let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
                let trials = 2000;
                let temp = [1.0, 0.5, 0.1][r.usize(0..3)];
                let mut obs = 0;
                for _ in 0..trials {
                    let mut c = Counters { nid: 1000, nb: 50 };
                    let mut pop = Population::new(pre.clone());
                    evolve(&w, &mut pop, &stats, temp, 200, &mut r, &mut c);
                    obs += (pop.members.iter().filter(|m| m.id.0 >= 1000).count() == 2) as usize;
                }
                out.push(json!({"t": "often", "what": "crossover", "trials": trials, "obs": obs, "num": num, "den": 4}));
            }
            5 => {
                // re-optimisation at the end of a cycle: members that any optimisation improves
                let num = r.u64(0..5);
                let on = r.u8(0..4) != 0;
                cfg.opts.optimizer_probability = num as f64 / 4.0;
                cfg.opts.should_optimize_constants = on;
                cfg.opts.should_simplify = r.bool();
                cfg.opts.optimizer_iterations = 8;
                cfg.opts.optimizer_nrestarts = r.usize(0..2);
                cfg.opts.optimizer_f_calls_limit = 10_000;
                cfg.opts.loss = make_loss(LossKind::Mse);
                cfg.ref_loss = RefLoss::Mse;
                let w = World::new(cfg);
                let ms: Vec<Member> = (0..5)
                    .map(|k| {
                        let far = 500.0 + 50.0 * r.f64();
                        w.member(k + 1, k + 1, expr_of(vec![PNode::Var { feature: 0 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: op("add", 2).id }], vec![far]))
                    })
                    .collect();
                let rounds = 300;
                let mut obs = 0;
                for _ in 0..rounds {
                    let post = phase(&w, &ms, &mut r);
                    obs += ms.iter().zip(&post).filter(|(a, b)| a.expr.consts != b.expr.consts).count();
                }
                out.push(json!({"t": "often", "what": "re-optimisation", "trials": rounds * 5, "obs": obs, "num": if on { num } else { 0 }, "den": 4}));
            }
            6 => {
                // the phase with everything off, or with simplification only
                let simplify = r.bool();
                cfg.opts.should_simplify = simplify;
                let off = r.bool();
                cfg.opts.should_optimize_constants = off;
                cfg.opts.optimizer_probability = if off { 0.0 } else { 1.0 };
                let w = World::new(cfg);
                let births: Vec<u64> = (1..=6).collect();
                let ms = population(&w, &mut r, &births, 10);
                let post = phase(&w, &ms, &mut r);
                let same: Vec<bool> = ms
                    .iter()
                    .zip(&post)
                    .map(|(a, b)| {
                        let mut e = a.expr.clone();
                        if simplify {
                            let _ = dynamic_expressions::simplify_in_place(&mut e, &Evaluator::<f64, D>::new(w.data.n_rows).eval_opts);
                        }
                        let kept = e.nodes == a.expr.nodes && e.consts == a.expr.consts;
                        against(&e, &e.consts) == against(&b.expr, &e.consts) && b.expr.consts.len() == e.consts.len() && a.birth == b.birth
                            && (!kept || a.id == b.id || simplify)
                    })
                    .collect();
                out.push(json!({"t": "off", "same": same, "n": post.len()}));
            }
            8 => {
                // a fresh equation: its size, its leaves
                cfg.opts.mutation_weights = only("randomize");
                let w = World::new(cfg);
                let cur = if r.u8(0..4) == 0 { 20 + r.usize(0..21) } else { 1 + r.usize(0..12) };
                let m = w.member(7, 3, rnd_expr(&mut r, &w.cfg, 1));
                let nf = w.cfg.nfeat();
                let mut ev = Evaluator::new(w.data.n_rows);
                let mut c = Counters { nid: 100, nb: 50 };
                let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
                let trials = 2500;
                let (mut size, mut leaves, mut consts, mut feats) = (vec![0usize; 202], 0usize, 0usize, vec![0usize; nf]);
                for _ in 0..trials {
                    let (b, acc) = next_gen(&w, &m, &stats, 1.0, cur, &mut r, &mut c, &mut ev);
                    if !acc {
                        size[201] += 1;
                        continue;
                    }
                    size[b.expr.nodes.len().min(200)] += 1;
                    for nd in &b.expr.nodes {
                        match *nd {
                            PNode::Const { .. } => consts += 1,
                            PNode::Var { feature } => feats[feature as usize] += 1,
                            _ => continue,
                        }
                        leaves += 1;
                    }
                }
                out.push(json!({"t": "fresh", "trials": trials, "cur": cur, "size": size, "leaves": leaves, "consts": consts, "feats": feats}));
            }
            _ => {
                // how far a constant moves
                let p = r.u64(0..5);
                let pf = *[0.0, 0.129, 1.0, 4.0].get(r.usize(0..4)).unwrap();
                let temp = *[0.0, 0.5, 1.0].get(r.usize(0..3)).unwrap();
                cfg.opts.probability_negate_constant = p as f64 / 4.0;
                cfg.opts.perturbation_factor = pf;
                cfg.opts.mutation_weights = only("mutate_constant");
                let w = World::new(cfg);
                let c0 = (r.f64() + 0.1) * *[1.0, -1.0, 1e3, -1e-3].get(r.usize(0..4)).unwrap();
                let m = w.member(7, 3, expr_of(vec![PNode::Const { idx: 0 }], vec![c0]));
                let mut ev = Evaluator::new(w.data.n_rows);
                let mut c = Counters { nid: 100, nb: 50 };
                let stats = RunningSearchStatistics::new(w.cfg.opts.maxsize, 1000);
                let far = (pf * temp + 1.1f64).ln();
                let trials = 3000;
                let (mut kept, mut grew, mut inner, mut outside) = (0, 0, 0, 0);
                for _ in 0..trials {
                    let (b, acc) = next_gen(&w, &m, &stats, temp, 200, &mut r, &mut c, &mut ev);
                    let f = if acc && b.expr.consts.len() == 1 { b.expr.consts[0] / c0 } else { f64::NAN };
                    let l = f.abs().ln();
                    kept += (f > 0.0) as usize;
                    grew += (l > 0.0) as usize;
                    inner += (l.abs() <= far / 2.0) as usize;
                    outside += !(l.abs() <= far + 1e-9) as usize;
                }
                out.push(json!({"t": "scale", "trials": trials, "kept": kept, "grew": grew, "inner": inner, "outside": outside, "num": p, "den": 4}));
            }
        }
    }
    out
}

pub fn run(prop: &str, seed: u64, n: usize, scen: &[Vec<u64>]) -> Value {
    let _ = EvalOptions::default();
    let cases = match prop {
        "C10" => c10(seed, n, scen),
        "C12" => c12(seed, n),
        "C19" => c19(seed, n),
        "C21" => c21(seed, n),
        "C28" => c28(seed, n),
        "C31" => c31(seed, n),
        "C33" => crate::start::c33(seed, n),
        "C34" => crate::start::c34(seed, n),
        "C37" => crate::constopt::c37(seed, n, scen),
        _ => panic!("no such property"),
    };
    json!({ "cases": cases })
}
