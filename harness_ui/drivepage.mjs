// Replays schedules against the real browser page (web/ui/src/app behind the real worker client and the real worker).
// React, zustand, papaparse, plotly, the engine, timers and the clock are stand-ins; every click, edit, message delivery,
// timer and initialisation stage is one letter of the schedule.
import { readFileSync, writeFileSync } from "node:fs";
import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");

const [, , schedFile, outFile, uiDir = "/repo/web/ui"] = process.argv;

const STUBS = {
  react: "module.exports = __rt.react;",
  "react/jsx-runtime": "module.exports = __rt.react;",
  "react/jsx-dev-runtime": "module.exports = __rt.react;",
  "react-dom": "module.exports = __rt.dom;",
  "react-dom/client": "module.exports = __rt.dom;",
  zustand: "module.exports = __rt.zustand;",
  "zustand/react/shallow": "exports.useShallow = (f) => f;",
  "zustand/shallow": "exports.shallow = Object.is; exports.useShallow = (f) => f;",
  papaparse: "module.exports = __rt.papa;",
  "react-plotly.js": "module.exports = __rt.Plot;",
};
async function bundle(entry) {
  const r = await esbuild.build({
    entryPoints: [uiDir + "/src/" + entry], bundle: true, write: false, format: "iife", globalName: "__mod", jsx: "automatic",
    define: { "import.meta.url": '"file:///w/"', "process.env.NODE_ENV": '"production"' }, logLevel: "silent",
    plugins: [{ name: "stubs", setup(b) {
      b.onResolve({ filter: /symbolic_regression_wasm/ }, () => ({ path: "pkg", namespace: "stub" }));
      b.onResolve({ filter: /defaultCsv/ }, () => ({ path: "csv", namespace: "stub" }));
      b.onResolve({ filter: /\.css$/ }, () => ({ path: "css", namespace: "stub" }));
      b.onResolve({ filter: /^[^./]/ }, (a) => (STUBS[a.path] ? { path: a.path, namespace: "stub" } : undefined));
      b.onLoad({ filter: /.*/, namespace: "stub" }, (a) => ({ loader: "js", contents:
        a.path === "pkg" ? "const p = __rt.pkg;\nexport default p.default;\n" + ["builtin_operator_registry", "default_search_options", "default_core_options", "init_thread_pool", "WasmSearch"]
          .map((n) => `export const ${n} = p.${n};`).join("\n") : a.path === "csv" ? "exports.DEFAULT_CSV = __rt.csv0;" : a.path === "css" ? "" : STUBS[a.path] }));
    } }],
  });
  return r.outputFiles[0].text;
}
const PARAMS = ["self", "globalThis", "window", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "requestAnimationFrame",
  "performance", "Date", "console", "navigator", "postMessage", "addEventListener", "MessageChannel", "Worker", "crypto", "document", "localStorage", "__rt"];
let workerCode, pageCode;
try {
  workerCode = new Function(...PARAMS, await bundle("worker/srWorker.ts"));
  pageCode = new Function(...PARAMS, (await bundle("app/App.tsx")) + "\nreturn __mod;");
} catch (e) {
  console.log("BUNDLE " + e);
  process.exit(2);
}

// ---------------------------------------------------------------- a small React
const FRAG = Symbol("fragment");
const STRICT = Symbol("strict");
const changed = (a, b) => a === undefined || b === undefined || a.length !== b.length || a.some((v, i) => !Object.is(v, b[i]));
class Dom {
  constructor(strict) {
    this.dirty = true;
    this.cur = null;
    this.effects = [];
    this.dead = [];
    this.root = null;
    this.strict = strict;
    const dom = this;
    const next = (mk) => {
      const n = dom.cur;
      if (!n) throw new Error("hook outside a component");
      if (n.h === n.hooks.length) n.hooks.push(mk());
      return n.hooks[n.h++];
    };
    const useReducer = (red, arg, init) => {
      const h = next(() => ({ v: init ? init(arg) : arg }));
      h.red = red;
      h.set ??= (a) => { const v = h.red(h.v, a); if (!Object.is(v, h.v)) { h.v = v; dom.dirty = true; } };
      return [h.v, h.set];
    };
    const useState = (init) => {
      const h = next(() => ({ v: typeof init === "function" ? init() : init }));
      h.set ??= (a) => { const v = typeof a === "function" ? a(h.v) : a; if (!Object.is(v, h.v)) { h.v = v; dom.dirty = true; } };
      return [h.v, h.set];
    };
    const useMemo = (f, deps) => {
      const h = next(() => ({}));
      if (!("v" in h) || changed(h.deps, deps)) { h.v = f(); h.deps = deps; }
      return h.v;
    };
    const useEffect = (f, deps) => {
      const h = next(() => ({ effect: true, fresh: true }));
      if (h.fresh || changed(h.deps, deps)) h.pend = f;
      h.fresh = false;
      h.deps = deps;
    };
    const el = (type, props, key) => ({ el: true, type, props: props ?? {}, key: key ?? props?.key });
    const R = {
      Fragment: FRAG, StrictMode: STRICT, Suspense: FRAG,
      jsx: el, jsxs: el, jsxDEV: el,
      createElement: (type, props, ...kids) => el(type, { ...props, ...(kids.length ? { children: kids.length === 1 ? kids[0] : kids } : {}) }, props?.key),
      useState, useReducer, useMemo, useEffect, useLayoutEffect: useEffect, useInsertionEffect: useEffect,
      useCallback: (f, deps) => useMemo(() => f, deps),
      useRef: (v) => useMemo(() => ({ current: v }), []),
      useId: () => useMemo(() => "id", []),
      useSyncExternalStore: (sub, get) => { useEffect(() => sub(() => { dom.dirty = true; }), [sub]); return get(); },
      useDeferredValue: (v) => v, useTransition: () => [false, (f) => f()], startTransition: (f) => f(),
      useDebugValue() {}, useImperativeHandle() {},
      useContext: (c) => c.stack[c.stack.length - 1],
      createContext: (d) => { const c = { stack: [d] }; c.Provider = { provider: c }; return c; },
      createRef: () => ({ current: null }),
      memo: (t) => t,
      forwardRef: (f) => (p) => f(p, p.ref),
    };
    R.default = R;
    this.R = R;
  }
  drop(n) {
    if (!n) return;
    for (const k of n.kids ?? []) this.drop(k);
    if (n.hooks) this.dead.push(n);
  }
  list(old, els) {
    const byKey = new Map();
    (old ?? []).forEach((n, i) => byKey.set(n.key ?? "#" + i, n));
    const out = els.map((e, i) => {
      const k = e && e.el && e.key != null ? String(e.key) : "#" + i;
      const o = byKey.get(k);
      byKey.delete(k);
      const n = this.one(o, e);
      n.key = k;
      return n;
    });
    for (const o of byKey.values()) this.drop(o);
    return out;
  }
  one(old, e) {
    if (e === null || e === undefined || typeof e === "boolean") { this.drop(old); return { t: "none", kids: [] }; }
    if (typeof e === "string" || typeof e === "number") { this.drop(old); return { t: "text", text: String(e), kids: [] }; }
    if (Array.isArray(e)) {
      if (old && old.t !== "list") { this.drop(old); old = null; }
      return { t: "list", kids: this.list(old?.kids, e) };
    }
    if (!e.el) throw new Error("not renderable");
    const kidsOf = (c) => (Array.isArray(c) ? c : c === undefined ? [] : [c]);
    if (old && (old.t !== "node" || old.type !== e.type)) { this.drop(old); old = null; }
    const n = old ?? { t: "node", type: e.type, kids: [] };
    n.props = e.props;
    if (typeof e.type === "function") {
      n.hooks ??= [];
      n.h = 0;
      const before = this.cur;
      this.cur = n;
      const out = e.type(e.props);
      this.cur = before;
      if (n.h !== n.hooks.length) throw new Error("hooks changed");
      n.kids = this.list(n.kids, [out]);
      return n;
    }
    if (e.type?.provider) {
      e.type.provider.stack.push(e.props.value);
      n.kids = this.list(n.kids, kidsOf(e.props.children));
      e.type.provider.stack.pop();
      return n;
    }
    n.kids = this.list(n.kids, kidsOf(e.props.children));
    return n;
  }
  each(n, f) { if (!n) return; for (const k of n.kids) this.each(k, f); f(n); }
  pass() {
    this.dirty = false;
    this.dead = [];
    this.root = this.one(this.root, this.top);
    for (const n of this.dead) for (const h of n.hooks) if (h.effect) { h.cleanup?.(); h.cleanup = null; }
    const todo = [];
    this.each(this.root, (n) => { for (const h of n.hooks ?? []) if (h.pend) todo.push(h); });
    for (const h of todo) { h.cleanup?.(); h.cleanup = null; }
    const first = [];
    for (const h of todo) {
      const f = h.pend;
      h.pend = null;
      const c = f();
      h.cleanup = typeof c === "function" ? c : null;
      if (!h.ran) { h.ran = true; first.push([h, f]); }
    }
    if (this.strict) { // development mode: every first mount is done twice
      for (const [h] of first) { h.cleanup?.(); h.cleanup = null; }
      for (const [h, f] of first) { const c = f(); h.cleanup = typeof c === "function" ? c : null; }
    }
  }
  flush() {
    let n = 0;
    while (this.dirty) { if (++n > 60) throw new Error("render loop"); this.pass(); }
  }
  // the rendered page
  hosts(pred) { const out = []; this.each(this.root, (n) => { if (n.t === "node" && typeof n.type === "string" && pred(n)) out.push(n); }); return out; }
  id(t) { return this.hosts((n) => n.props["data-testid"] === t)[0]; }
  button(t) { return this.hosts((n) => n.type === "button" && text(n).trim() === t)[0]; }
}
const text = (n) => (n.t === "text" ? n.text : n.kids.map(text).join(""));
const texts = (n, out = []) => { if (n.t === "text") out.push(n.text); else for (const k of n.kids) texts(k, out); return out; };

// ---------------------------------------------------------------- data and defaults
const NROWS = 6;
function csvOf(v) {
  // variant v: 2 to 4 columns, with or without a header line; every cell is a different integer
  const cols = 2 + (v * 2 + 1) % 3;
  const head = v % 4 !== 3;
  const lines = [];
  if (head) lines.push(Array.from({ length: cols }, (_, j) => "c" + v + "_" + j).join(","));
  for (let r = 0; r < NROWS; r++) lines.push(Array.from({ length: cols }, (_, j) => v * 1000 + ((r * 5 + 3) % 7) * 10 * (j === 0 ? 1 : 0) + (j === 0 ? 0 : r * 10) + j).join(","));
  if (v % 5 === 4) lines.splice(2, 0, "");
  return lines.join(v % 2 ? "\r\n" : "\n") + "\n";
}
// what the engine makes of a CSV text
function engineRows(csv, headers) {
  const lines = csv.split(/\r?\n/).filter((l) => l !== "");
  const cells = lines.map((l) => l.split(",").map((s) => s.trim()));
  const data = headers ? cells.slice(1) : cells;
  for (const r of data) for (const s of r) if (!/^[-+]?\d+(\.\d+)?(e[-+]?\d+)?$/i.test(s)) throw new Error(`failed to parse "${s}" as f64`);
  if (data.length === 0) throw new Error("CSV had no data rows");
  return data.map((r) => r.map(Number));
}
// the engine's checks on the columns (web/wasm/src/lib.rs, judged by C23)
function columns(n, o) {
  const y = o.y_column ?? n - 1, w = o.weights_column;
  const xs = o.x_columns ?? Array.from({ length: n }, (_, i) => i).filter((c) => c !== y && c !== w);
  if (n < 2 || y >= n || (w != null && (w >= n || w === y)) || xs.length === 0 || xs.some((c) => c >= n || c === y || c === w)) throw new Error("columns");
}
const papa = {
  parse(csv, o = {}) {
    let lines = csv.split(/\r\n|\n|\r/);
    if (o.skipEmptyLines) lines = lines.filter((l) => l !== "");
    let data = lines.map((l) => l.split(","));
    if (o.dynamicTyping) data = data.map((r) => r.map((s) => (/^\s*-?\d+(\.\d+)?(e[-+]?\d+)?\s*$/i.test(s) ? Number(s) : s === "" ? null : s)));
    const errors = lines.some((l) => l.includes(",")) ? [] : [{ type: "Delimiter", message: "Unable to auto-detect delimiting character; defaulted to ','" }];
    return { data, errors, meta: {} };
  },
};
papa.default = papa;
const WEIGHTS = ["mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node", "delete_node", "simplify",
  "randomize", "do_nothing", "optimize", "form_connection", "break_connection"];
const coreDefaults = () => ({
  seed: 7, niterations: 100, populations: 2, population_size: 16, ncycles_per_iteration: 10, maxsize: 30, maxdepth: 29, warmup_maxsize_by: 0.5, parsimony: 0.25,
  adaptive_parsimony_scaling: 1040, crossover_probability: 0.0259, perturbation_factor: 0.129, probability_negate_constant: 0.00743, tournament_selection_n: 15,
  tournament_selection_p: 0.982, alpha: 3.17, optimizer_nrestarts: 3, optimizer_probability: 0.14, optimizer_iterations: 8, optimizer_f_calls_limit: 10000,
  fraction_replaced: 0.00036, fraction_replaced_hof: 0.0614, fraction_replaced_guesses: 0.001, topn: 12, use_frequency: true, use_frequency_in_tournament: true,
  skip_mutation_failures: true, annealing: true, should_optimize_constants: true, migration: true, hof_migration: true, use_baseline: true, progress: false,
  should_simplify: true, batching: false, mutation_weights: Object.fromEntries(WEIGHTS.map((w, i) => [w, 0.125 * (i + 1)])),
});
const REGISTRY = [["sin", 1], ["cos", 1], ["exp", 1], ["neg", 1], ["add", 2], ["sub", 2], ["mul", 2], ["div", 2], ["max", 2], ["fma", 3]]
  .map(([name, arity]) => ({ arity, name, display: name, infix: null, commutative: false, associative: false, complexity: 1 }));

class Rng {
  constructor(s) { this.s = (s * 2654435761 + 12345) >>> 0; }
  next(n) { this.s = (Math.imul(this.s, 1664525) + 1013904223) >>> 0; return (this.s >>> 8) % n; }
}
const PART = { train: 1, val: 2 };

class Sim {
  // cfg: total cycles, val rows, clock per step, throwAt, failInit, seed of the fronts, strict
  constructor(cfg) {
    this.cfg = cfg;
    this.now = 1000;
    this.gen = 0;
    this.engSteps = 0;
    this.posted = [];
    this.toPage = [];
    this.toWorker = [];
    this.w = null;
    this.clip = null;
    this.fault = null;
    this.nUuid = 0;
    this.csvText = csvOf(cfg.csv);
    const sim = this;
    const dom = (this.dom = new Dom(cfg.strict));
    const store = (init) => {
      let state;
      const subs = new Set();
      const api = {
        getState: () => state,
        setState: (p, replace) => {
          const nx = typeof p === "function" ? p(state) : p;
          if (Object.is(nx, state)) return;
          const old = state;
          state = replace ? nx : Object.assign({}, state, nx);
          dom.dirty = true;
          for (const f of subs) f(state, old);
        },
        subscribe: (f) => { subs.add(f); return () => subs.delete(f); },
      };
      api.getInitialState = () => api.first;
      state = init(api.setState, api.getState, api);
      api.first = state;
      return Object.assign((sel = (s) => s) => sel(state), api);
    };
    const create = (init) => (init ? store(init) : store);
    const Plot = (props) => ({ el: true, type: "plot", props: { p: props }, key: undefined });
    Plot.default = Plot;
    const pkg = {
      
      default: async () => ({}),
      builtin_operator_registry: async () => structuredClone(REGISTRY),
      default_search_options: async () => ({ has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: 0, loss_kind: "mse",
        huber_delta: 1.5, ...coreDefaults() }),
      default_core_options: async () => coreDefaults(),
    };
    const rt = { react: dom.R, dom: {}, zustand: { create, default: create }, papa, Plot, pkg, csv0: this.csvText };
    class WorkerStub {
      constructor() { this.onmessage = null; this.ls = []; sim.spawn(this); }
      postMessage(m) { if (this.alive) { const c = structuredClone(m); sim.posted.push(c); sim.toWorker.push(c); } }
      addEventListener(t, f) { if (t === "message") this.ls.push(f); }
      removeEventListener() {}
      terminate() { if (this.alive) { this.alive = false; sim.w = null; sim.toWorker = []; sim.toPage = []; } }
    }
    const scope = (extra) => {
      class FakeDate extends Date { static now() { return sim.now; } }
      const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
      const g = { setTimeout: (f) => { throw new Error("setTimeout"); }, clearTimeout() {}, setInterval: () => { throw new Error("setInterval"); }, clearInterval() {},
        setImmediate: undefined, requestAnimationFrame: undefined, performance: { now: () => sim.now }, Date: FakeDate, console: quiet,
        navigator: { hardwareConcurrency: 4, clipboard: { writeText: async (t) => { sim.clip = t; } } }, crossOriginIsolated: false, ...extra };
      g.self = g.globalThis = g.window = g;
      return g;
    };
    this.scope = scope;
    const page = scope({ Worker: WorkerStub, crypto: { randomUUID: () => "uuid-" + ++sim.nUuid }, document: {}, addEventListener() {} });
    const mod = pageCode(...PARAMS.map((p) => (p === "__rt" ? rt : page[p])));
    dom.top = dom.R.jsx(mod.App, {});
  }
  front(gen, cyc) {
    const r = new Rng(this.cfg.fs + gen * 31 + Math.floor(cyc / 10) * 7 + 3);
    const out = [];
    for (let c = 1; c <= 6; c += 1) if (r.next(5) < 2) out.push(c);
    if (out.length === 0) out.push(1 + r.next(6));
    return out.map((c) => {
      const id = 10 * c + r.next(2);
      return { id: String(id), complexity: c, loss: 100 - 10 * c - (id % 10), cost: 1, equation: "g" + gen + "i" + id };
    });
  }
  bestOf(gen, cyc) { const f = this.front(gen, cyc); return f[new Rng(this.cfg.fs + gen + cyc).next(f.length)]; }
  spawn(stub) {
    stub.alive = true;
    const sim = this;
    const w = { stub, timers: [], waits: [], nT: 0, listeners: [] };
    sim.w = w;
    class WasmSearch {
      constructor(csv, options, u, b, t) {
        const fail = sim.cfg.failInit;
        if (fail > 0 && sim.gen + 1 === fail) { sim.gen++; throw new Error("bad options"); }
        this.rows = engineRows(csv, options.has_headers);
        columns(this.rows[0].length, options);
        this.gen = ++sim.gen;
        this.cyc = 0;
        w.cur = this;
        const n = this.rows.length;
        const r = new Rng(sim.cfg.fs + 17 * this.gen);
        const all = Array.from({ length: n }, (_, i) => i);
        for (let i = n - 1; i > 0; i--) { const j = r.next(i + 1); [all[i], all[j]] = [all[j], all[i]]; }
        const nv = Math.min(sim.cfg.val, n - 1);
        this.split = { train: all.slice(nv), val: all.slice(0, nv) };
      }
      set_pareto_k() {}
      get_split_indices() { return structuredClone(this.split); }
      is_finished() { return this.cyc >= sim.cfg.total; }
      snap() {
        const f = sim.front(this.gen, this.cyc);
        return { total_cycles: sim.cfg.total, cycles_completed: this.cyc, total_evals: this.gen * 1000000 + this.cyc * (7 + (this.cyc % 3)),
          best: sim.bestOf(this.gen, this.cyc), pareto_points: f.map(({ equation, ...p }) => p) };
      }
      step(n) {
        if (n > 0) {
          sim.engSteps++;
          if (sim.engSteps === sim.cfg.throwAt) throw new Error("boom");
          this.cyc = Math.min(sim.cfg.total, this.cyc + n);
        }
        return this.snap();
      }
      best_equations() { return sim.front(this.gen, this.cyc); }
      evaluate_member(id, which) {
        if (which === "val" && this.split.val.length === 0) throw new Error("no validation dataset");
        if (!sim.front(this.gen, this.cyc).some((m) => m.id === id)) throw new Error("member not found");
        const code = this.gen * 10000 + Number(id) * 10 + PART[which];
        return { metrics: { n: code, mse: 1, mae: 2, rmse: 3, r2: 4, corr: 5, min_abs_err: 6, max_abs_err: 7 }, yhat: this.split[which].map((_, i) => code * 10 + i) };
      }
      free() {}
    }
    const setTimeout_ = (fn, ms = 0, ...a) => { const id = ++w.nT; w.timers.push({ id, fn: () => fn(...a), at: Number(ms) || 0 }); return id; };
    class Channel {
      constructor() {
        const mk = (o) => ({ onmessage: null, start() {}, close() {}, postMessage: (d) => setTimeout_(() => o().onmessage?.({ data: d })), addEventListener(_, f) { this.onmessage = f; } });
        this.port1 = mk(() => this.port2);
        this.port2 = mk(() => this.port1);
      }
    }
    const rt = { pkg: {  default: () => new Promise((res) => w.waits.push(() => res({ memory: {} }))), init_thread_pool: async () => {}, WasmSearch } };
    const g = sim.scope({
      setTimeout: setTimeout_, clearTimeout: (id) => { w.timers = w.timers.filter((t) => t.id !== id); }, setImmediate: (f) => setTimeout_(f),
      requestAnimationFrame: (f) => setTimeout_(f), MessageChannel: Channel,
      postMessage: (m) => { if (stub.alive) sim.toPage.push({ m: structuredClone(m), g: w.cur?.gen ?? 0, rows: w.cur?.rows ?? [] }); },
      addEventListener: (t, f) => { if (t === "message") w.listeners.push(f); }, onmessage: null,
    });
    workerCode(...PARAMS.map((p) => (p === "__rt" ? rt : g[p])));
    w.deliver = (m) => {
      const e = { data: m };
      if (typeof g.onmessage === "function") g.onmessage(e);
      for (const f of w.listeners) f(e);
    };
  }
  // ------------------------------------------------------------ what is on the page
  view() {
    const d = this.dom;
    const num = (s) => { const m = /^g(\d+)i(\d+)$/.exec(s); return m ? [Number(m[1]), Number(m[2])] : [-1, -1]; };
    const tabs = d.hosts((n) => n.type === "button" && /(^|\s)tab(\s|$)/.test(n.props.className ?? "") && /active/.test(n.props.className ?? "")).map((n) => text(n).trim());
    const v = { tab: tabs.length === 1 ? tabs[0] : "?" };
    const run = d.id("search-status");
    v.run = Boolean(run);
    if (run) {
      v.status = text(run).trim();
      const all = text(d.root);
      const pr = /cycles (\d+)\/(\d+)[^]*?evals=\s*(\d+)(?:,\s*([-+\w.]+)\s*eval\/s)?/.exec(all);
      v.snap = pr ? [Math.floor(Number(pr[3]) / 1000000), Number(pr[1]), Number(pr[2]), Number(pr[3]) % 1000000] : [];
      v.rate = pr && pr[4] !== undefined ? (Number.isFinite(Number(pr[4])) ? Math.round(Number(pr[4]) * 1000) : -2) : -1;
      v.err = d.hosts((n) => /error/i.test(n.props.className ?? "")).map((n) => text(n)).join("") !== "";
      const rows = d.hosts((n) => String(n.props["data-testid"] ?? "").startsWith("solution-row-"));
      v.rows = rows.map((n) => {
        const id = Number(n.props["data-testid"].slice(13));
        const eq = num(texts(n).find((t) => /^g\d+i\d+$/.test(t)) ?? "");
        const loss = Number(texts(n).find((t) => /e[-+]\d+$/.test(t)) ?? NaN);
        return [eq[0], eq[1] === id ? id : -1, Number.isFinite(loss) ? Math.round(loss) : -1, /selected/i.test(n.props.className ?? "") ? 1 : 0];
      });
      const eq = d.id("selected-equation");
      v.eq = eq ? num(text(eq).trim()) : [];
      v.cx = eq ? Number(/complexity\s+(\d+)/.exec(all)?.[1] ?? -1) : -1;
      const tt = texts(d.root);
      const metric = (from) => {
        for (let i = from + 1; i < tt.length; i++) {
          if (tt[i] === "n") { const n = Number(tt[i + 1]); return [Math.floor(n / 10000), Math.floor(n / 10) % 1000, n % 10]; }
          if (/No metrics yet/.test(tt[i]) || tt[i] === "Train" || tt[i] === "Validation") return [];
        }
        return [];
      };
      const iT = tt.indexOf("Train"), iV = tt.indexOf("Validation");
      v.train = iT >= 0 ? metric(iT) : [];
      v.hasVal = iV >= 0;
      const lab = (t) => String(t).toLowerCase().replace(/[^a-z]/g, "");
      v.mets = [];
      for (const r of d.hosts((n) => n.type === "tr")) {
        const c = texts(r).map((t) => t.trim()).filter((t) => t);
        if (c.length === 2 && ["mse", "mae", "rmse", "r", "corr", "minerr", "maxerr"].includes(lab(c[0]))) v.mets.push([lab(c[0]), Number.isFinite(Number(c[1])) ? Math.round(Number(c[1])) : -1]);
      }
      v.ls = eq ? Math.round(Number(/loss\s+(\d\.\d+e[-+]\d+)/.exec(all)?.[1] ?? -1)) : -1;
      v.val = iV >= 0 ? metric(iV) : [];
      const ints = (a) => (a ?? []).map((x) => (Number.isFinite(x) ? x : -1));
      v.pareto = [];
      v.fit = { mode: "none", tx: [], ty: [], vx: [], vy: [], mx: [], my: [], wx: [], wy: [] };
      for (const n of d.hosts((h) => h.type === "plot")) {
        const p = n.props.p;
        const title = p.layout?.xaxis?.title?.text ?? p.layout?.xaxis?.title;
        if (title === "complexity") {
          const q = p.data[0];
          const sz = q.marker?.size ?? [];
          const small = Math.min(...sz);
          v.pareto = q.x.map((x, i) => [Number(q.text?.[i] ?? -1), x, q.y[i], sz[i] > small || (q.x.length === 1 && sz[i] >= 10) ? 1 : 0]);
        } else {
          const find = (re, md) => p.data.find((t) => re.test(t.name ?? "") && (t.mode ?? "") === md) ?? { x: [], y: [] };
          if (p.data.some((t) => t.mode === "lines")) {
            const a = find(/train/, "markers"), b = find(/val/, "markers"), c = find(/train/, "lines"), e = find(/val/, "lines");
            v.fit = { mode: "curve", tx: ints(a.x), ty: ints(a.y), vx: ints(b.x), vy: ints(b.y), mx: ints(c.x), my: ints(c.y), wx: ints(e.x), wy: ints(e.y) };
          } else {
            const a = find(/train/, "markers"), b = find(/val/, "markers");
            v.fit = { mode: "parity", tx: ints(a.x), ty: ints(a.y), vx: ints(b.x), vy: ints(b.y), mx: [], my: [], wx: [], wy: [] };
          }
        }
      }
      const on = (n) => Boolean(n && !n.props.disabled);
      v.on = { init: on(d.id("search-init")), start: on(d.id("search-start")), pause: on(d.button("Pause")), reset: on(d.button("Reset")), iters: on(d.id("opt-niterations")) };
      v.iters = String(d.id("opt-niterations")?.props.value ?? "");
    }
    return v;
  }
  // the forms of the two editing panes: label -> value
  forms() {
    const d = this.dom;
    const out = [];
    for (const l of d.hosts((n) => n.type === "label")) {
      const inp = [];
      d.each(l, (n) => { if (n.t === "node" && ["input", "select", "textarea"].includes(n.type)) inp.push(n); });
      if (inp.length !== 1) continue;
      const n = inp[0];
      const labels = [];
      d.each(l, (h) => { if (h.t === "node" && (h.props.className ?? "") === "label") labels.push(text(h).trim()); });
      const isBox = n.props.type === "checkbox";
      const name = labels[0] ?? texts(l).join("").trim();
      out.push({ name, n, box: isBox, value: isBox ? Boolean(n.props.checked) : n.props.value, off: Boolean(n.props.disabled) });
    }
    return out;
  }
}
const flat = (o) => {
  const out = {};
  for (const [k, v] of Object.entries(o)) {
    if (k === "mutation_weights") for (const [a, b] of Object.entries(v)) out["mw." + a] = String(b);
    else out[k] = Array.isArray(v) ? v.join(" ") : String(v);
  }
  return out;
};
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r)); };

async function runOne(cfg, word) {
  const s = new Sim(cfg);
  const d = s.dom;
  const steps = [];
  const ev = (target = {}) => ({ target, currentTarget: target, preventDefault() {}, stopPropagation() {}, key: "" });
  let nEdit = 0;
  const csvIds = new Map([[s.csvText, cfg.csv]]);
  const dataView = () => {
    if (!d.hosts((n) => n.props["data-testid"] === "csv-dropzone").length) return { on: false };
    const fs = s.forms();
    const get = (re) => fs.find((f) => re.test(f.name));
    const area = d.hosts((n) => n.type === "textarea")[0];
    const y = get(/^y column/), w = get(/^weights column/), vf = get(/^validation fraction/);
    const boxes = fs.filter((f) => f.box && /^\d+: /.test(f.name));
    const tables = d.hosts((n) => n.type === "table");
    const prev = tables[0] && y ? d.hosts((n) => n.type === "th").slice(0, 99).map((n) => text(n)) : [];
    const body = [];
    if (tables[0] && y) d.each(tables[0], (n) => { if (n.t === "node" && n.type === "tr") { const c = []; d.each(n, (m) => { if (m.t === "node" && m.type === "td") c.push(Math.round(Number(text(m)))); }); if (c.length) body.push(c); } });
    return { on: true, csv: csvIds.get(area?.props.value) ?? -1, head: Boolean(get(/^has header row/)?.value), parsed: Boolean(y), y: y ? Number(y.value) : -1, w: w && w.value !== "" ? Number(w.value) : -1,
      vf: vf ? String(vf.value) : "", x: boxes.filter((b) => b.value).map((b) => Number(b.name.split(":")[0])), off: boxes.filter((b) => b.off).map((b) => Number(b.name.split(":")[0])),
      ncols: boxes.length, rows: body };
  };
  const confView = () => {
    const fs = s.forms().filter((f) => f.name !== "iterations");
    if (!fs.some((f) => f.name === "maxsize")) return { on: false };
    const ops = {}, o = {};
    for (const f of fs) {
      const nm = f.name.split(" ")[0];
      if (REGISTRY.some((r) => r.name === nm)) ops[nm] = f.value;
      else o[(WEIGHTS.includes(nm) ? "mw." : "") + nm] = String(f.value);
    }
    return { on: true, ops: Object.keys(ops).filter((k) => ops[k]), listed: Object.keys(ops), o };
  };
  const take = (a, x = {}) => {
    const posts = s.posted.map((m) => (m.type === "init"
      ? { t: "init", id: -1, part: "", rid: "", csv: csvIds.get(m.csvText) ?? -1, o: flat(m.options), ops: [m.unary, m.binary, m.ternary].map((l) => [...l]),
        head: m.options.has_headers, y: m.options.y_column ?? -1, wc: m.options.weights_column ?? -1, xs: m.options.x_columns ? [...m.options.x_columns] : [-1] }
      : { t: m.type, csv: -1, id: m.type === "evaluate" ? Number(m.memberId) : -1, part: m.which ?? "", rid: m.requestId ?? "" }));
    const full = { a, id: -1, cx: -1, ok: true, name: "", value: "", m: { t: "" }, ...x, now: s.now, posts, view: s.view(), data: dataView(), conf: confView() };
    if (mode === "page") { delete full.data; full.conf = { on: full.conf.on, ops: full.conf.ops ?? [] }; for (const p of posts) { delete p.o; delete p.ops; } }
    else full.view = { run: full.view.run, iters: full.view.iters };
    steps.push(full);
    s.posted = [];
  };
  const describe = (m, q) => {
    if (m.type === "ready") return { t: "ready", g: q.g, train: m.split.train, val: m.split.val, rows: q.rows };
    if (m.type === "snapshot") return { t: "snapshot", g: Math.floor(m.snap.total_evals / 1000000), c: m.snap.cycles_completed, n: m.snap.total_cycles, e: m.snap.total_evals % 1000000,
      best: Number(m.snap.best.id), bcx: m.snap.best.complexity, pts: m.snap.pareto_points.map((p) => [Number(p.id), p.complexity, p.loss]) };
    if (m.type === "front_update") return { t: "front", f: m.front.map((e) => [Number(e.equation.slice(1).split("i")[0]), Number(e.id), e.complexity, e.loss]) };
    if (m.type === "eval_result") { const n = m.result.metrics.n; return { t: "eval", rid: m.requestId, g: Math.floor(n / 10000), id: Math.floor(n / 10) % 1000, part: n % 10 === 1 ? "train" : "val" }; }
    if (m.type === "error") return { t: "error", soft: /member not found/.test(m.error) };
    return { t: m.type };
  };
  const click = (n) => { if (!n || n.props.disabled || typeof n.props.onClick !== "function") return false; n.props.onClick(ev()); return true; };
  const setForm = (f, value) => {
    if (!f || f.off) return false;
    f.n.props.onChange(ev(f.box ? { checked: !f.value, value: "on", files: [] } : { value: String(value), files: [] }));
    return true;
  };
  const act = async (tok) => { // a letter, with an argument where the schedule chooses it
    const ch = tok[0], arg = tok.length > 1 ? Number(tok.slice(1)) : null;
    s.now += cfg.clock;
    let a = null, x = {};
    const tab = { D: "Data", C: "Configure", U: "Run" }[ch];
    if (tab) { if (click(d.button(tab))) { a = "tab"; x = { name: tab }; } }
    else if (ch === "I") { if (click(d.id("search-init"))) a = "init"; }
    else if (ch === "S") { if (click(d.id("search-start"))) a = "start"; }
    else if (ch === "P") { if (click(d.button("Pause"))) a = "pause"; }
    else if (ch === "X") { if (click(d.button("Reset"))) a = "reset"; }
    else if (ch === "c") { s.clip = null; click(d.button("More")) || click(d.button("Hide")); if (click(d.button("Copy"))) { a = "copy"; const m = /^g(\d+)i(\d+)$/.exec(s.clip ?? ""); x = { id: m ? Number(m[2]) : -1, cx: m ? Number(m[1]) : -1 }; } }
    else if ("1234".includes(ch)) {
      const r = d.hosts((n) => String(n.props["data-testid"] ?? "").startsWith("solution-row-"));
      const n = r[Number(ch) - 1];
      if (n) { x = { id: Number(n.props["data-testid"].slice(13)) }; if (click(n)) a = "row"; }
    } else if ("abz".includes(ch)) {
      const p = d.hosts((n) => n.type === "plot").map((n) => n.props.p).find((q) => typeof q.onClick === "function");
      const i = ch === "a" ? 0 : ch === "b" ? 1 : (p?.data[0].x.length ?? 0) - 1;
      if (p && i < p.data[0].x.length) { x = { id: Number(p.data[0].text[i]), cx: p.data[0].x[i] }; p.onClick({ points: [{ pointIndex: i, pointNumber: i }] }); a = "point"; }
    } else if (ch === "w") { if (s.toWorker.length) { const m = s.toWorker.shift(); x = { name: m.type }; s.w.deliver(m); a = "towork"; } }
    else if (ch === "p") {
      if (s.toPage.length) {
        const q = s.toPage.shift();
        const m = q.m;
        x = { m: describe(m, q) };
        const st = s.w.stub;
        st.onmessage?.({ data: m });
        for (const f of st.ls) f({ data: m });
        a = "topage";
      }
    } else if (ch === "F") {
      const w = s.w;
      if (w?.timers.length) { let j = 0; w.timers.forEach((q, i) => { if (q.at < w.timers[j].at) j = i; }); const [t] = w.timers.splice(j, 1); t.fn(); a = "work"; }
    } else if (ch === "R") { if (s.w?.waits.length) { s.w.waits.shift()(); a = "work"; } }
    else if (ch === "e" || ch === "f") { // the text is typed, or a file is dropped
      nEdit++;
      const v = arg ?? (cfg.csv + nEdit * 3 + cfg.fs) % 12;
      const t = csvOf(v);
      if (ch === "e") {
        const ar = d.hosts((n) => n.type === "textarea")[0];
        if (ar) { csvIds.set(t, v); ar.props.onChange(ev({ value: t })); a = "text"; x = { id: v }; }
      } else {
        const dz = d.id("csv-dropzone");
        if (dz) { csvIds.set(t, v); dz.props.onDrop({ ...ev(), dataTransfer: { files: [{ name: "f.csv", text: async () => t }] } }); a = "file"; x = { id: v }; }
      }
    } else if (ch === "q") { if (click(d.id("parse-preview"))) a = "parse"; }
    else if (ch === "h") { const f = s.forms().find((q) => /^has header row/.test(q.name)); if (f && setForm(f)) a = "head"; }
    else if (ch === "y" || ch === "W") {
      const f = s.forms().find((q) => (ch === "y" ? /^y column/ : /^weights column/).test(q.name));
      if (f) {
        const opts = [];
        d.each(f.n, (n) => { if (n.t === "node" && n.type === "option" && !n.props.disabled) opts.push(String(n.props.value)); });
        nEdit++;
        const v = arg === null ? opts[(nEdit * 7 + cfg.fs) % opts.length] : opts.find((q) => q === (arg < 0 ? "" : String(arg)));
        if (v !== undefined && setForm(f, v)) { a = ch === "y" ? "ycol" : "wcol"; x = { id: v === "" ? -1 : Number(v) }; }
      }
    } else if (ch === "x") {
      const fs = s.forms().filter((q) => q.box && /^\d+: /.test(q.name) && !q.off);
      nEdit++;
      const f = arg === null ? fs[(nEdit * 5 + cfg.fs) % Math.max(1, fs.length)] : fs.find((q) => q.name.startsWith(arg + ":"));
      if (f && setForm(f)) { a = "xcol"; x = { id: Number(f.name.split(":")[0]) }; }
    } else if (ch === "n" || ch === "o") { // edit a field of the pane; toggle an operator
      const fs = s.forms().filter((q) => !q.off && (ch === "o") === (q.box && REGISTRY.some((r) => r.name === q.name.split(" ")[0])) && !/^\d+: |^has header|column|^$/.test(q.name));
      if (fs.length) {
        nEdit++;
        const f = fs[(nEdit * 11 + cfg.fs * 3) % fs.length];
        let nm = f.name.split(" ")[0];
        if (ch === "n") nm = nm === "iterations" ? "niterations" : nm === "validation" ? "validation_fraction" : (WEIGHTS.includes(nm) ? "mw." : "") + nm;
        let v = f.box ? String(!f.value) : String(2 + ((nEdit * 13 + cfg.fs) % 50) / (nm === "niterations" || nEdit % 2 ? 1 : 64));
        if (nm === "loss_kind") v = ["mse", "mae", "rmse", "huber"][nEdit % 4];
        if (setForm(f, v)) { a = ch === "n" ? "field" : "op"; x = { name: nm, value: v }; }
      }
    }
    if (!a) return false;
    await settle();
    try { d.flush(); } catch (e) { s.fault = String(e); }
    await settle();
    try { d.flush(); } catch (e) { s.fault = String(e); }
    take(a, x);
    return true;
  };
  let dead = false;
  try {
    d.flush();
    await settle();
    d.flush();
    take("load");
    for (const ch of [...(cfg.warm ?? ""), ...word]) { if (s.fault) break; await act(ch); }
    const busy = () => s.toPage.length || s.toWorker.length || s.w?.timers.length || s.w?.waits.length;
    let n = 0;
    while (!s.fault && busy() && n < 400) { await act(s.toPage.length ? "p" : s.toWorker.length ? "w" : s.w.waits.length ? "R" : "F"); n++; }
    dead = Boolean(busy());
  } catch (e) { s.fault = String(e && e.stack); }
  return { cfg, word, steps, fault: s.fault ?? "", left: dead };
}
process.on("unhandledRejection", () => {});
const { mode, scheds } = JSON.parse(readFileSync(schedFile, "utf8"));
const out = [];
const B = 64;
for (let i = 0; i < scheds.length; i += B) out.push(...await Promise.all(scheds.slice(i, i + B).map((q) => runOne(q.cfg, q.word))));
const tables = Array.from({ length: 12 }, (_, v) => csvOf(v).split(/\r?\n/).filter((l) => l !== "").map((l) => (/^[\d,]+$/.test(l) ? l.split(",").map(Number) : [])));
writeFileSync(outFile, JSON.stringify({ tables, registry: REGISTRY.map(({ name, arity }) => ({ name, arity })), defaults: flat({ has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: 0, loss_kind: "mse", huber_delta: 1.5, ...coreDefaults() }), runs: out }));
