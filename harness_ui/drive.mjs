// Replays schedules against the real browser worker (web/ui/src/worker/srWorker.ts behind srWorkerClient.ts).
// The engine, timers, clock and the asynchronous initialisation are stand-ins driven by the schedule.
import { readFileSync, writeFileSync } from "node:fs";
import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");

const [, , schedFile, outFile, uiDir = "/repo/web/ui"] = process.argv;

async function bundle(entry) {
  const r = await esbuild.build({
    entryPoints: [uiDir + "/src/worker/" + entry], bundle: true, write: false, format: "iife", globalName: "__mod",
    define: { "import.meta.url": '"file:///w/"' }, logLevel: "silent",
    plugins: [{ name: "pkg", setup(b) {
      b.onResolve({ filter: /symbolic_regression_wasm/ }, () => ({ path: "pkg", namespace: "pkg" }));
      b.onLoad({ filter: /.*/, namespace: "pkg" }, () => ({ loader: "js", contents:
        "export default (...a) => __pkg.init(...a);\nexport const init_thread_pool = (...a) => __pkg.pool(...a);\n" +
        "export const WasmSearch = __pkg.WasmSearch;\nexport const initSync = () => { throw new Error('initSync'); };" }));
    } }],
  });
  return r.outputFiles[0].text;
}
const PARAMS = ["self", "globalThis", "window", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "requestAnimationFrame",
  "performance", "Date", "console", "navigator", "postMessage", "addEventListener", "MessageChannel", "Worker", "__pkg"];
let workerCode, clientCode;
try {
  workerCode = new Function(...PARAMS, await bundle("srWorker.ts"));
  clientCode = new Function(...PARAMS, (await bundle("srWorkerClient.ts")) + "\nreturn __mod;");
} catch (e) {
  console.log("BUNDLE " + e);
  process.exit(2);
}

class Sim {
  constructor(cfg) {
    this.cfg = cfg;          // total, throwAt (call number of a real step, 0 = never), throwFront, failInit, pool, clock
    this.ev = [];
    this.now = 1000;
    this.timers = [];        // pending {id, fn, at, seq}
    this.nTimers = 0;
    this.waits = [];         // pending promises of initialisations
    this.gen = 0;
    this.steps = 0;
    this.fronts = 0;
    this.initNo = 0;
    this.current = null;
    const sim = this;
    class WasmSearch {
      constructor(csv, options, u, b, t) {
        if (sim.cfg.failInit === 3) throw new Error("bad options");
        this.gen = ++sim.gen;
        this.cyc = 0;
        this.pk = 250;
        this.args = [csv, options, u, b, t];
        this.freed = false;
        sim.current = this;
        sim.put("new", this.gen, options?.x ?? 0, csv === "a,b" && u?.[0] === "u" && b?.[0] === "b" && t?.length === 0 ? 1 : 0);
      }
      set_pareto_k(k) { this.pk = k; }
      get_split_indices() { return { train: [this.gen], val: [] }; }
      is_finished() { return this.cyc >= sim.cfg.total; }
      step(n) {
        if (!Number.isInteger(n) || n < 0) throw new Error("step count");
        if (n > 0) {
          sim.steps++;
          if (sim.steps === sim.cfg.throwAt) { sim.put("throw", this.gen, 0, 0); throw new Error("boom"); }
          const before = this.cyc;
          this.cyc = Math.min(sim.cfg.total, this.cyc + n);
          sim.put("adv", this.gen, this.cyc - before, this.cyc);
        }
        return { gen: this.gen, cycles_completed: this.cyc, total_cycles: sim.cfg.total };
      }
      best_equations(k) {
        sim.fronts++;
        if (sim.fronts === sim.cfg.throwFront) { sim.put("throw", this.gen, 0, 0); throw new Error("front"); }
        return [{ gen: this.gen, cyc: this.cyc }];
      }
      evaluate_member(id, which) {
        if (id === "missing") { sim.put("throw", this.gen, 0, 0); throw new Error("member not found"); }
        return { gen: this.gen, id, which };
      }
      free() { this.freed = true; }
    }
    const wait = (stage, ok) => new Promise((res, rej) => {
      sim.waits.push({ no: sim.handling, go: () => (ok ? res(stage === 1 ? { memory: { buffer: new SharedArrayBuffer(8) } } : undefined) : rej(new Error("init failed"))) });
      sim.put("wait", sim.handling, stage, 0);
    });
    const pkg = {
      init: () => wait(1, sim.cfg.failInit !== 1),
      pool: () => wait(2, sim.cfg.failInit !== 2),
      WasmSearch,
    };
    const setTimeout_ = (fn, ms = 0, ...a) => {
      const id = ++sim.nTimers;
      sim.timers.push({ id, fn: () => fn(...a), at: Number(ms) || 0 });
      sim.put("timer", id, 0, 0);
      return id;
    };
    const clearTimeout_ = (id) => { sim.timers = sim.timers.filter((t) => t.id !== id); };
    class Channel {
      constructor() {
        const mk = (other) => ({ onmessage: null, start() {}, close() {}, postMessage: (d) => setTimeout_(() => other().onmessage?.({ data: d })),
          addEventListener(_, f) { this.onmessage = f; } });
        this.port1 = mk(() => this.port2);
        this.port2 = mk(() => this.port1);
      }
    }
    const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
    const perf = { now: () => sim.now };
    class FakeDate extends Date { static now() { return sim.now; } }
    const scope = (extra) => {
      const g = { setTimeout: setTimeout_, clearTimeout: clearTimeout_, setInterval: () => { throw new Error("setInterval"); }, clearInterval() {},
        setImmediate: (f) => setTimeout_(f), requestAnimationFrame: (f) => setTimeout_(f), performance: perf, Date: FakeDate, console: quiet,
        navigator: { hardwareConcurrency: 4 }, crossOriginIsolated: cfg.pool, MessageChannel: Channel, ...extra };
      g.self = g.globalThis = g.window = g;
      return g;
    };
    // the worker side
    const listeners = [];
    const w = scope({ postMessage: (m) => sim.fromWorker(structuredClone(m)), addEventListener: (t, f) => t === "message" && listeners.push(f), onmessage: null });
    workerCode(...PARAMS.map((p) => (p === "__pkg" ? pkg : w[p])));
    this.deliver = (m) => {
      const e = { data: structuredClone(m) };
      if (typeof w.onmessage === "function") w.onmessage(e);
      for (const f of listeners) f(e);
    };
    // the page side
    let self_;
    class WorkerStub {
      constructor() { self_ = this; this.onmessage = null; this.ls = []; }
      postMessage(m) { sim.outbox = structuredClone(m); }
      addEventListener(t, f) { if (t === "message") this.ls.push(f); }
      terminate() {}
    }
    const page = scope({ Worker: WorkerStub });
    const mod = clientCode(...PARAMS.map((p) => (p === "__pkg" ? pkg : page[p])));
    this.client = new mod.SrWorkerClient();
    this.fromWorker = (m) => {
      this.raw = m.type;
      const before = this.ev.length;
      self_.onmessage?.({ data: m });
      for (const f of self_.ls) f({ data: m });
      if (this.ev.length === before) this.post("lost:" + m.type, 0, 0);
    };
    this.client.setHandlers({
      onReady: (s) => this.post("ready", s?.train?.[0] ?? -1, 0),
      onSnapshot: (s) => this.post("snapshot", s?.gen ?? -1, s?.cycles_completed ?? -1),
      onFrontUpdate: (f) => this.post("front", f?.[0]?.gen ?? -1, f?.[0]?.cyc ?? -1),
      onEvalResult: (id, r) => this.post("eval", r?.gen ?? -1, Number(id) || -1, r?.id + ":" + r?.which),
      onDone: () => this.post("done", 0, 0),
      onPaused: () => this.post("paused", 0, 0),
      onResetDone: () => this.post("reset_done", 0, 0),
      onError: (e) => this.post("error", 0, 0, String(e)),
    });
  }
  put(k, a, b, c) { this.ev.push({ k, a, b, c }); }
  post(k, a, b, note = "") {
    const cur = this.current;
    this.ev.push({ k: "post", t: k, a, b, g: cur ? cur.gen : 0, c: cur ? cur.cyc : 0, note });
  }
}
const settle = async () => { for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r)); };
let rejections = 0;
process.on("unhandledRejection", () => { rejections++; });

async function runOne(cfg, word) {
  const s = new Sim(cfg);
  const steps = [];
  const take = (a, t, x = {}) => { steps.push({ a, t, ev: s.ev, ...x }); s.ev = []; };
  let req = 100;
  const act = async (ch) => {
    s.now += cfg.clock;
    let a = null, t = 0, x = {};
    if (ch === "F") {
      if (!s.timers.length) return;
      let j = 0;
      s.timers.forEach((q, i) => { if (q.at < s.timers[j].at) j = i; });
      const [tm] = s.timers.splice(j, 1);
      [a, t] = ["fire", tm.id];
      s.handling = 0;
      tm.fn();
    } else if (ch === "R") {
      if (!s.waits.length) return;
      const p = s.waits.shift();
      [a, t] = ["resolve", p.no];
      s.handling = p.no;
      p.go();
    } else {
      s.handling = 0;
      s.outbox = null;
      if (ch === "I") { a = "init"; t = s.handling = ++s.initNo; s.client.init({ csvText: "a,b", options: { x: t }, unary: ["u"], binary: ["b"], ternary: [] }); }
      else if (ch === "S") { a = "start"; s.client.start(); }
      else if (ch === "P") { a = "pause"; s.client.pause(); }
      else if (ch === "X") { a = "reset"; s.client.reset(); }
      else if (ch === "T") { a = "step"; t = cfg.stepBy; s.client.step(cfg.stepBy); }
      else if (ch === "E" || ch === "M") { a = "eval"; t = ++req; x = { miss: ch === "M" }; s.client.evaluate(String(req), ch === "M" ? "missing" : "7", "val"); }
      if (s.outbox) s.deliver(s.outbox); else a = "lost-" + a;
    }
    await settle();
    take(a, t, x);
  };
  take("load", 0);
  for (const ch of word) await act(ch);
  let n = 0;
  while ((s.timers.length || s.waits.length) && n < cfg.total + 60) { await act(s.waits.length ? "R" : "F"); n++; }
  return { cfg, word, steps, left: s.timers.length + s.waits.length, args: s.current ? JSON.stringify(s.current.args.slice(0, 1).concat(s.current.args.slice(2))) : "" , rejections };
}

const scheds = JSON.parse(readFileSync(schedFile, "utf8"));
const out = [];
const B = 64; // independent runs proceed together
for (let i = 0; i < scheds.length; i += B) {
  out.push(...await Promise.all(scheds.slice(i, i + B).map((q) => runOne(q.cfg, q.word))));
}
writeFileSync(outFile, JSON.stringify({ runs: out }));
