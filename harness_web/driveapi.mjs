// Makes searches through the browser build's own interface and records every call and answer.
// usage: node driveapi.mjs WASM WORDS.json OUT.json    WORDS: {seed, words: [[[instance, op, arg], ...], ...], news: n}
import fs from "fs";
import { load } from "./glue.mjs";

const [wasm, wordsFile, outFile] = process.argv.slice(2);
const job = JSON.parse(fs.readFileSync(wordsFile, "utf8"));
let seed = (job.seed * 2654435761) >>> 0;
const rnd = () => { seed = (seed + 0x6d2b79f5) >>> 0; let t = seed; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
const int = (n) => Math.floor(rnd() * n);
const pick = (a) => a[int(a.length)];
const coin = (p = 0.5) => rnd() < p;
let api = load(wasm);
const attempt = (f) => {
  try { return { ok: true, v: f() }; } catch (e) {
    if (e instanceof WebAssembly.RuntimeError || /^glue/.test(e?.message ?? "")) { if (/^glue/.test(e.message ?? "")) { console.error(e.message); process.exit(2); } return { ok: false, trap: true, v: String(e) }; }
    return { ok: false, v: String(e) };
  }
};

// ---- the meaning of an equation, as printed
const FN = { abs: Math.abs, cos: Math.cos, sin: Math.sin, exp: Math.exp, log: Math.log, sqrt: Math.sqrt, max: Math.max, min: Math.min, neg: (x) => -x };
function parse(src) {
  const tok = src.match(/\d+(?:\.\d+)?(?:e[+-]?\d+)?|[A-Za-z_]\w*|[-+*/(),]|\S/g) ?? [];
  let p = 0;
  const bad = () => { throw new Error("parse " + src); };
  const expr = () => { let l = term(); while (tok[p] === "+" || tok[p] === "-") { const o = tok[p++]; l = [o, l, term()]; } return l; };
  const term = () => { let l = unary(); while (tok[p] === "*" || tok[p] === "/") { const o = tok[p++]; l = [o, l, unary()]; } return l; };
  const unary = () => (tok[p] === "-" ? (p++, ["neg", unary()]) : prim());
  const prim = () => {
    const t = tok[p++] ?? bad();
    if (t === "(") { const e = expr(); if (tok[p++] !== ")") bad(); return e; }
    if (/^\d/.test(t)) return Number(t);
    if (!/^[A-Za-z_]/.test(t)) bad();
    if (tok[p] !== "(") return t === "inf" ? Infinity : t === "NaN" ? NaN : t;
    p++;
    const a = [expr()];
    while (tok[p] === ",") { p++; a.push(expr()); }
    if (tok[p++] !== ")" || !FN[t]) bad();
    return [t, ...a];
  };
  const e = expr();
  if (p !== tok.length) bad();
  return e;
}
function value(e, env) { // [value, every part finite]
  if (typeof e === "number") return [e, Number.isFinite(e)];
  if (typeof e === "string") { if (!(e in env)) throw new Error("variable " + e); return [env[e], true]; }
  const a = e.slice(1).map((x) => value(x, env));
  const [x, y] = a.map((v) => v[0]);
  const r = e[0] === "+" ? x + y : e[0] === "-" ? x - y : e[0] === "*" ? x * y : e[0] === "/" ? x / y : FN[e[0]](...a.map((v) => v[0]));
  return [r, Number.isFinite(r) && a.every((v) => v[1])];
}
const near = (a, b, tol = 1e-9) => a === b || Math.abs(a - b) <= tol * Math.max(Math.abs(a), Math.abs(b), 1) || (Number.isNaN(a) && Number.isNaN(b));

// ---- random searches
const KEYS = [...new Map(api.default_search_options() instanceof Map ? api.default_search_options() : Object.entries(api.default_search_options()))];
function table(noVal) {
  const nc = 2 + int(3), nr = pick([1, 2, 5, 9, 16]);
  const names = Array.from({ length: nc }, (_, i) => ["p", "q", "r1", "s_", "t"][i]);
  const rows = Array.from({ length: nr }, () => Array.from({ length: nc }, () => pick([0, 1, -1, 2, 0.5, 3.25, -2.5, int(40) / 8])));
  const head = coin(0.7);
  const o = { has_headers: head };
  let y = nc - 1, w = -1;
  if (coin(0.4)) o.y_column = y = int(nc);
  if (nc > 2 && coin(0.4)) { w = pick([...Array(nc).keys()].filter((c) => c !== y)); o.weights_column = w; for (const r of rows) r[w] = pick([0.25, 0.5, 1, 2]); }
  let xs = [...Array(nc).keys()].filter((c) => c !== y && c !== w);
  if (coin(0.3)) { xs = xs.filter(() => coin(0.6)); if (!xs.length) xs = [[...Array(nc).keys()].filter((c) => c !== y && c !== w)[0]]; o.x_columns = coin() ? [...xs].reverse() : xs; }
  if (!noVal && coin(0.6)) o.validation_fraction = pick([0.2, 0.5, 0.9]);
  const csv = (head ? names.join(",") + "\n" : "") + rows.map((r) => r.join(",")).join("\n") + (coin() ? "\n" : "");
  return { csv, o, rows, y, w, xs, vars: xs.map((c, i) => (head ? names[c] : "x" + i)) };
}
function search() {
  const t = table(false);
  Object.assign(t.o, { niterations: 1 + int(3), populations: 1 + int(2), population_size: 5 + int(6), ncycles_per_iteration: 1 + int(12), maxsize: 5 + int(10),
    seed: int(1000), tournament_selection_n: 3, topn: 3 });
  if (coin(0.06)) Object.assign(t.o, { niterations: 40 + int(30), populations: 2, population_size: 5, ncycles_per_iteration: 1 });
  if (coin(0.3)) t.o.loss_kind = pick(["mae", "mse", "huber"]);
  if (coin(0.3)) t.o.batching = true;
  if (coin(0.3)) t.o.parsimony = 0.01;
  if (coin(0.3)) t.o.should_optimize_constants = false;
  t.ops = [["cos", "abs", "neg", "log"].filter(() => coin()), ["add", "sub", "mul", "div", "max"].filter(() => coin(0.7)), []];
  if (!t.ops[1].length) t.ops[1] = ["add"];
  return t;
}
const spelled = (t) => { // the same search, every option spelled out
  const full = {};
  for (const [k, v] of KEYS) full[k] = v;
  return { ...t, o: { ...full, ...t.o } };
};
const make = (t) => new api.WasmSearch(t.csv, t.o, ...t.ops);
const plain = (v, keys) => v !== null && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype && Object.keys(v).sort().join() === keys;
const SNAP = "best,cycles_completed,pareto_points,total_cycles,total_evals", SUM = "complexity,cost,equation,id,loss", PT = "complexity,cost,id,loss";
const MET = "corr,mae,max_abs_err,min_abs_err,mse,n,r2,rmse";
class Members {
  constructor() { this.eq = new Map(); this.pt = new Map(); this.ptOf = []; this.list = []; }
  point(m) { const k = [m.id, m.complexity, m.loss, m.cost].join("|"); if (!this.pt.has(k)) this.pt.set(k, this.pt.size + 1); return this.pt.get(k); }
  summary(m) {
    const p = this.point(m), k = p + "|" + m.equation;
    if (!this.eq.has(k)) { this.eq.set(k, this.eq.size + 1); this.ptOf.push(p); this.list.push(m); }
    return this.eq.get(k);
  }
}
const snapshot = (ms, s) => (plain(s, SNAP) && plain(s.best, SUM) && Array.isArray(s.pareto_points) && s.pareto_points.every((p) => plain(p, PT)) && [s.best, ...s.pareto_points].every((p) => typeof p.id === "string" && /^\d+$/.test(p.id))
  ? { ok: true, total: s.total_cycles, cycles: s.cycles_completed, evals: s.total_evals, best: ms.summary(s.best), front: s.pareto_points.map((p) => ms.point(p)) } : { ok: false });
const summaries = (ms, l) => (Array.isArray(l) && l.every((m) => plain(m, SUM)) ? { ok: true, eqs: l.map((m) => ms.summary(m)) } : { ok: false });

const cases = [];
for (const word of job.words) {
  const two = [search(), search()];
  const mode = int(3);
  if (mode === 0) two[1] = spelled(two[0]);
  const ms = new Members();
  const refs = [], splits = [];
  let bad = "";
  for (const t of two) {
    const made = attempt(() => { const s = make(t); s.set_pareto_k(4294967295); return s; });
    if (!made.ok) { bad = made.v; break; }
    const s = made.v, ref = [];
    for (let c = 0; ; c++) {
      const a = attempt(() => snapshot(ms, s.step(c === 0 ? 0 : 1))), b = attempt(() => summaries(ms, s.best_equations(4294967295)));
      if (!a.ok || !b.ok || !a.v.ok || !b.v.ok || a.v.cycles > 200) { bad = "reference: " + JSON.stringify([a.v, b.v]); break; }
      ref.push({ ...a.v, eqs: b.v.eqs });
      if (s.is_finished()) break;
    }
    if (bad) break;
    const split = attempt(() => s.get_split_indices());
    if (!split.ok || !plain(split.v, "train,val") || ![...split.v.train, ...split.v.val].every((r) => r in t.rows)) { bad = "split: " + JSON.stringify(split.v); break; }
    splits.push(split.v);
    refs.push(ref);
    s.free();
  }
  const calls = [];
  if (!bad) {
    const live = [];
    for (const t of two) { const made = attempt(() => make(t)); if (made.ok) live.push(made.v); else bad = made.v; }
    const at = [0, 0];
    for (const [i, op, a] of bad ? [] : word) {
      const t = two[i - 1], N = refs[i - 1].length - 1;
      const c = { i, op, a, id: 0, known: true };
      let out;
      if (op === "s") { out = attempt(() => snapshot(ms, live[i - 1].step(a))); if (out.ok) at[i - 1] = Math.min(at[i - 1] + a, N); }
      else if (op === "k") out = attempt(() => (live[i - 1].set_pareto_k(a), { ok: true }));
      else if (op === "b") out = attempt(() => summaries(ms, live[i - 1].best_equations(a)));
      else if (op === "f") out = attempt(() => ({ ok: true, fin: live[i - 1].is_finished() }));
      else if (op === "p") out = attempt(() => { const s = live[i - 1].get_split_indices(); return { ok: plain(s, "train,val"), same: JSON.stringify(s) === JSON.stringify(splits[i - 1]) }; });
      else if (op === "n") { out = attempt(() => { live[i - 1].free(); live[i - 1] = make(t); return { ok: true }; }); at[i - 1] = 0; }
      else { // t, v, o: evaluate on the training part, the validation part, or one that does not exist
        const which = op === "t" ? "train" : op === "v" ? "val" : pick(["", "Train", "test", " val", "all"]);
        const here = refs[i - 1][at[i - 1]];
        const eq = a === 0 ? here.best : a === 1 ? here.eqs[0] : a === 2 ? here.eqs[here.eqs.length - 1] : a === 3 ? pick(pick(refs[i - 1]).eqs) : undefined;
        const m = eq ? ms.list[eq - 1] : null; // a front may be empty
        const id = m ? m.id : a === 4 ? "18446744073709551615" : pick(["", "x", "1.5", "-1", "0x10", "18446744073709551616", "1e3"]);
        c.id = eq ?? 0;
        out = attempt(() => live[i - 1].evaluate_member(id, which));
        const rows = which === "train" ? splits[i - 1].train : splits[i - 1].val;
        let finite = true, want = [];
        if (m) {
          try {
            const e = parse(m.equation);
            want = rows.map((r) => value(e, Object.fromEntries(t.xs.map((col, q) => [t.vars[q], t.rows[r][col]]))));
            finite = want.every((v) => v[1]);
          } catch { want = rows.map(() => ["unreadable", true]); }
        }
        c.finite = finite;
        if (out.ok) {
          const r = out.v, w = rows.map((q) => (t.w < 0 ? 1 : t.rows[q][t.w])), sw = w.reduce((x, y) => x + y, 0);
          const shape = plain(r, "metrics,yhat") && plain(r.metrics, MET) && Array.isArray(r.yhat) && r.yhat.length === rows.length;
          const err = shape ? rows.map((q, j) => r.yhat[j] - t.rows[q][t.y]) : [];
          const mse = err.reduce((x, d, j) => x + w[j] * d * d, 0) / sw, mae = err.reduce((x, d, j) => x + w[j] * Math.abs(d), 0) / sw;
          const lossIs = (t.o.loss_kind ?? "mse") === "mse" ? mse : t.o.loss_kind === "mae" ? mae : null;
          out.v = { ok: shape, values: shape && m !== null && want.every((v, j) => typeof v[0] === "number" && near(v[0], r.yhat[j], 1e-6)), n: shape ? r.metrics.n : -1, rows: rows.length,
            metrics: shape && near(r.metrics.mse, mse) && near(r.metrics.mae, mae) && near(r.metrics.rmse, Math.sqrt(mse)) && near(r.metrics.max_abs_err, Math.max(...err.map(Math.abs))) && near(r.metrics.min_abs_err, Math.min(...err.map(Math.abs))),
            loss: m === null || which !== "train" || lossIs === null || near(lossIs, m.loss, 1e-6) };
        }
      }
      calls.push({ ...c, trap: !!out.trap, err: !out.ok, out: out.ok ? out.v : { ok: false } });
      if (out.trap) { api = load(wasm); break; }
    }
    if (!calls.some((c) => c.trap)) live.forEach((s) => s.free());
  } else if (/RuntimeError|unreachable/.test(bad)) api = load(wasm);
  cases.push({ kind: "run", bad, refs, ptOf: ms.ptOf, val: splits.map((s) => s.val.length), calls, opts: JSON.stringify(two.map((t) => t.o)), csv: two.map((t) => t.csv) });
}

// ---- what is accepted
const LOSSES = ["mse", "mae", "rmse", "huber", "logcosh", "lp", "quantile", "epsilon-insensitive", "epsilon_insensitive", "eps-insensitive", "eps_insensitive", " MSE "];
for (let n = 0; n < job.news; n++) {
  const t = table(true);
  Object.assign(t.o, { niterations: 1, populations: 1, population_size: 5, ncycles_per_iteration: 1 });
  t.ops = [["cos"], ["add"], []];
  const nc = t.rows[0].length;
  const f = { cols: t.rows[0].length, rows: t.rows.length, y: t.y, w: t.w, xs: t.xs, ragged: false, numeric: true, loss: true, ops: true, typed: true, spoilt: "" };
  t.o.loss_kind = pick(LOSSES);
  for (let q = int(3); q > 0; q--) {
    const z = int(11);
    if (z === 0) { f.rows = 0; t.csv = t.o.has_headers ? "p,q\n" : ""; }
    else if (z === 1) { t.o.y_column = f.y = pick([nc, nc + 3, int(nc)]); }
    else if (z === 2) { t.o.weights_column = f.w = pick([nc, f.y]); }
    else if (z === 3) { t.o.x_columns = f.xs = pick([[], [nc], [f.y], [0, f.y], [Math.max(f.w, 0)], [...Array(nc).keys()].filter((c) => c !== f.y && c !== f.w)]); }
    else if (z === 4 && f.rows > 1) { f.ragged = true; t.csv = t.csv.trimEnd() + ",7\n"; }
    else if (z === 5 && f.rows) { f.numeric = false; t.csv = t.csv.trimEnd().replace(/[^,\n]*$/, pick(["abc", "1..2", "0x1", ""])) + "\n"; }
    else if (z === 6) { f.loss = false; t.o.loss_kind = pick(["", "mean", "l2", "rms e"]); }
    else if (z === 7) { f.ops = false; t.ops[int(3)] = pick([["nope"], ["cos", "bogus"], ["add", ""]]); }
    else if (z === 8) { f.spoilt = pick(KEYS)[0]; }
    else if (z === 9) { f.typed = false; t.ops[int(3)] = pick(["cos", 5, [3], [["cos"]], { a: 1 }]); f.spoilt = f.spoilt; }
    else if (z === 10 && f.rows) { f.cols = 1; }
  }
  if (f.cols === 1) { t.csv = (t.o.has_headers ? "p\n" : "") + "1\n2\n"; t.o = { ...t.o, y_column: undefined, weights_column: undefined, x_columns: undefined }; f.y = 0; f.w = -1; f.xs = []; f.rows = 2; f.ragged = false; f.numeric = true; }
  if (f.cols > 1 && t.o.x_columns === undefined) f.xs = [...Array(nc).keys()].filter((c) => c !== f.y && c !== f.w);
  if (f.spoilt) { // a value of the wrong kind
    const v = new Map(KEYS).get(f.spoilt);
    const bad = typeof v === "number" ? pick(["12", "x", {}, [1], true]) : typeof v === "boolean" ? pick(["yes", 1, {}, []]) : typeof v === "string" ? pick([5, {}, true]) : f.spoilt === "x_columns" ? pick(["0", 3, [0.5], ["a"], [-1]]) : f.spoilt.endsWith("_column") ? pick(["0", 0.5, -1, [0]]) : pick([7, "w", { mutate_constant: "q" }]);
    t.o[f.spoilt] = bad;
    f.typed = false;
    f.bad = JSON.stringify(bad);
  } else if (f.typed && coin(0.1)) { // a number that a count cannot be
    const k = pick(["niterations", "populations", "population_size", "maxsize", "topn"]);
    t.o[k] = pick([1.5, -3, 5000000000]);
    f.typed = false;
    f.spoilt = k;
  }
  const r = attempt(() => { const s = make(t); s.free(); return 1; });
  if (r.trap) api = load(wasm);
  cases.push({ kind: "new", ...f, ok: r.ok, trap: !!r.trap, why: r.ok ? "" : r.v, csv: t.csv, opts: JSON.stringify(t.o), given: JSON.stringify(t.ops) });
}

// ---- the lists
const NAMES = "abs abs2 acos acosh asin asinh atan atanh cbrt cos cosh cot csc exp exp2 expm1 identity inv log log1p log2 log10 neg sec sign sin sinh sqrt tan tanh add atan2 div max min mul pow sub clamp fma relu sigmoid logistic erf gamma square cube mod floor ceil round less greater cond ifelse".split(" ");
const defaults = api.default_search_options(), core = api.default_core_options(), reg = api.builtin_operator_registry();
const kind = (v) => (v === null || v === undefined ? "none" : Array.isArray(v) ? "array" : v instanceof Map ? "map" : typeof v);
const OPTS = ["has_headers", "x_columns", "y_column", "weights_column", "validation_fraction", "loss_kind", "huber_delta", "lp_p", "quantile_tau", "epsilon_insensitive_eps"];
const small = { niterations: 2, populations: 1, population_size: 6, ncycles_per_iteration: 3 };
const csv = "u,v,w\n" + [1, 2, 3, 4, 5, 6, 7].map((i) => `${i},${(i * i) % 5},${i * 2 - ((i * i) % 5)}`).join("\n");
const walk = (o, ops) => { const r = attempt(() => { const s = new api.WasmSearch(csv, o, ...ops); const l = [s.step(0)]; while (!s.is_finished() && l.length < 200) l.push(s.step(1)); l.push(s.best_equations(99), s.get_split_indices()); s.free(); return JSON.stringify(l); }); if (r.trap) api = load(wasm); return r.ok ? r.v : "error " + r.v; };
const first = (o) => { const r = attempt(() => { const s = new api.WasmSearch(csv, o, ["cos"], ["add"], []); const q = JSON.stringify([s.step(0), s.get_split_indices()]); s.free(); return q; }); return r.ok ? r.v : "error " + r.v; };
const base = walk(small, [["cos"], ["add", "mul"], []]);
const spread = { ...defaults };
cases.push({
  kind: "lists",
  defaults: kind(defaults), core: kind(core),
  missing: [...OPTS, ...Object.keys(core)].filter((k) => !(k in spread)),
  agree: Object.keys(core).every((k) => JSON.stringify(core[k]) === JSON.stringify(spread[k])),
  weights: Object.keys(core.mutation_weights ?? {}).length,
  same: [{ ...defaults, ...small }, { ...defaults, ...core, ...small }, { ...core, ...small }, structuredClone({ ...defaults, ...small })].map((o) => walk(o, [["cos"], ["add", "mul"], []]) === base),
  none: [undefined, null].map((o) => first(o) === first({})),
  dup: reg.some((a, i) => reg.some((b, j) => i < j && a.name === b.name && a.arity === b.arity)),

  listed: [1, 2, 3].flatMap((a) => NAMES.filter((n) => { const ops = [[], [], []]; ops[a - 1] = [n]; return !walk({ ...small, niterations: 1 }, ops).startsWith("error") && !reg.some((o) => o.arity === a && o.name === n); })),
  shapes: reg.every((o) => plain(o, "arity,associative,commutative,complexity,display,infix,name")),
  usable: reg.map((o) => { const ops = [[], [], []]; ops[o.arity - 1] = [o.name]; return !walk({ ...small, niterations: 1 }, ops).startsWith("error"); }),
});
fs.writeFileSync(outFile, JSON.stringify({ cases }));
