// Runs the browser build (wasm32, as rustc leaves it) under node: what the wasm-bindgen tool would generate, done by
// interpretation.  Values live in a slab; conversions are read off the descriptors the module announces at run time.
import fs from "fs";

const TY = Object.fromEntries(["I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "I64_AS_F64", "U64_AS_F64", "I128", "U128", "F32", "F64",
  "BOOLEAN", "FUNCTION", "CLOSURE", "CACHED_STRING", "STRING", "REF", "REFMUT", "LONGREF", "SLICE", "VECTOR", "EXTERNREF"].map((n, i) => [n, i]));

export function load(file) {
  const module = new WebAssembly.Module(fs.readFileSync(file));
  const tags = WebAssembly.Module.customSections(module, "__wasm_bindgen_unstable").map((b) => Buffer.from(b).toString("latin1")).join("");
  const memory = new WebAssembly.Memory({ initial: 64, maximum: 16384, shared: true });
  const grown = () => new DataView(memory.buffer);
  const slab = [undefined, null, true, false], free = [];
  const BASE = 1024;
  const get = (i) => slab[i - BASE];
  const put = (v) => {
    if (v === undefined) return BASE;
    if (v === null) return BASE + 1;
    if (v === true) return BASE + 2;
    if (v === false) return BASE + 3;
    const at = free.length ? free.pop() : slab.length;
    slab[at] = v;
    return BASE + at;
  };
  const drop = (i) => { if (i >= BASE + 4) { slab[i - BASE] = undefined; free.push(i - BASE); } };
  const text = (p, n) => Buffer.from(new Uint8Array(memory.buffer, p >>> 0, n)).toString("utf8");
  let ex;
  const give = (s) => { // a string, owned by the module
    const b = Buffer.from(s, "utf8");
    const p = ex.__wbindgen_malloc(b.length, 1) >>> 0;
    new Uint8Array(memory.buffer, p, b.length).set(b);
    return [p, b.length];
  };
  const giveTo = (ret, s) => {
    const [p, n] = s === undefined ? [0, 0] : give(s);
    const d = grown();
    d.setUint32(ret, p, true);
    d.setUint32(ret + 4, n, true);
  };
  const guard = (f) => (...a) => { try { return f(...a); } catch (e) { ex.__wbindgen_exn_store(put(e)); } };
  let desc = [];
  const cast = (func, prims) => {
    const d = desc;
    desc = [];
    const v = grown();
    let q = 4;
    let from = d[q++];
    while (from === TY.REF || from === TY.LONGREF) from = d[q++];
    let out;
    const w = [v.getUint32(prims, true), v.getUint32(prims + 4, true)];
    if (from === TY.STRING || from === TY.CACHED_STRING) out = text(w[0], w[1]);
    else if (from === TY.F64) out = v.getFloat64(prims, true);
    else if (from === TY.I64) out = v.getBigInt64(prims, true);
    else if (from === TY.U64) out = v.getBigUint64(prims, true);
    else if (from === TY.I32 || from === TY.I16 || from === TY.I8) out = w[0] | 0;
    else if (from === TY.U32 || from === TY.U16 || from === TY.U8) out = w[0];
    else throw new Error("glue: conversion from type " + from + " (" + d.join(",") + ")");
    const ret = ex.__wbindgen_malloc(16, 8) >>> 0;
    grown().setUint32(ret, put(out), true);
    return ret;
  };
  const dbg = (v) => typeof v === "string" ? JSON.stringify(v) : String(v);
  const T = {
    __wbindgen_object_drop_ref: drop,
    __wbindgen_object_clone_ref: (i) => put(get(i)),
    __wbindgen_describe: (v) => { desc.push(v); },
    __wbindgen_describe_generic_import: cast,
    __wbindgen_externref_statics_end: () => BASE + 4,
    __wbindgen_is_undefined: (i) => +(get(i) === undefined),
    __wbindgen_is_null: (i) => +(get(i) === null),
    __wbindgen_is_object: (i) => +(typeof get(i) === "object" && get(i) !== null),
    __wbindgen_is_function: (i) => +(typeof get(i) === "function"),
    __wbindgen_is_string: (i) => +(typeof get(i) === "string"),
    __wbindgen_is_bigint: (i) => +(typeof get(i) === "bigint"),
    __wbindgen_in: (p, o) => +(get(p) in get(o)),
    __wbindgen_jsval_eq: (a, b) => +(get(a) === get(b)),
    __wbindgen_jsval_loose_eq: (a, b) => +(get(a) == get(b)),
    __wbindgen_boolean_get: (i) => (typeof get(i) === "boolean" ? +get(i) : 0xffffff),
    __wbindgen_number_get: (r, i) => {
      const x = get(i), d = grown();
      d.setFloat64(r + 8, typeof x === "number" ? x : 0, true);
      d.setUint32(r, +(typeof x === "number"), true);
    },
    __wbindgen_bigint_get_as_i64: (r, i) => {
      const x = get(i), d = grown();
      d.setBigInt64(r + 8, typeof x === "bigint" ? x : 0n, true);
      d.setUint32(r, +(typeof x === "bigint"), true);
    },
    __wbindgen_string_get: (r, i) => giveTo(r, typeof get(i) === "string" ? get(i) : undefined),
    __wbindgen_debug_string: (r, i) => giveTo(r, dbg(get(i))),
    __wbindgen_throw: (p, n) => { throw new Error(text(p, n)); },
    __wbindgen_rethrow: (i) => { throw get(i); },
    __wbindgen_memory: () => put(memory),
    __wbindgen_module: () => put(module),
    Number: (i) => Number(get(i)),
    String: (r, i) => giveTo(r, String(get(i))),
    Error: (p, n) => put(new Error(text(p, n))),
    "isArray@Array": (i) => +Array.isArray(get(i)),
    "new@Array": () => put([]),
    "get@Array": (a, i) => put(get(a)[i]),
    "get_unchecked@Array": (a, i) => put(get(a)[i]),
    "set@Array": (a, i, v) => { get(a)[i >>> 0] = get(v); },
    "length@Array": (a) => get(a).length,
    "new@Object": () => put({}),
    "entries@Object": (o) => put(Object.entries(get(o))),
    "new@Map": () => put(new Map()),
    "set@Map": (m, k, v) => put(get(m).set(get(k), get(v))),
    "instanceof_Map": (i) => +(get(i) instanceof Map),
    "instanceof_ArrayBuffer": (i) => +(get(i) instanceof ArrayBuffer),
    "instanceof_Uint8Array": (i) => +(get(i) instanceof Uint8Array),
    "isSafeInteger@Number": (i) => +Number.isSafeInteger(get(i)),
    "iterator@Symbol": () => put(Symbol.iterator),
    "get@Reflect": guard((o, k) => put(Reflect.get(get(o), get(k)))),
    "set@ObjectExt": (o, k, v) => { get(o)[get(k)] = get(v); },
    "get_with_ref_key@ObjectExt": (o, k) => put(get(o)[get(k)]),
    "call@Function": guard((f, c, ...a) => put(get(f).call(get(c), ...a.map(get)))),
    "next@MaybeIterator": (i) => put(get(i).next),
    "next@Iterator": guard((i) => put(get(i).next())),
    "done@IteratorNext": (i) => +get(i).done,
    "value@IteratorNext": (i) => put(get(i).value),
  };
  const imports = { env: { memory } };
  for (const { module: m, name, kind } of WebAssembly.Module.imports(module)) {
    if (kind !== "function") continue;
    const base = name.replace(/^__wbg_(.*)_[0-9a-f]{16}$/, "$1");
    const at = tags.indexOf(name);
    const next = /^[^\x20-\x7e]*([\x20-\x7e]+)/.exec(tags.slice(at + name.length, at + name.length + 60));
    const before = /([\x20-\x7e]+)[^\x20-\x7e]+.?$/.exec(tags.slice(Math.max(0, at - 60), at));
    const keys = [base, ...(next ? [base + "@" + next[1]] : []), ...(before ? [base + "@" + before[1]] : [])];
    const f = keys.map((k) => (Object.hasOwn(T, k) ? T[k] : undefined)).find(Boolean);
    (imports[m] ??= {})[name] = f ?? (() => { throw new Error("glue: no " + keys.join(" / ")); });
  }
  const inst = new WebAssembly.Instance(module, imports);
  ex = inst.exports;
  const fn = (n) => { const k = Object.keys(ex).find((e) => e.replace(/_[0-9a-f]{16}$/, "") === n); if (!k) throw new Error("glue: no export " + n); return ex[k]; };
  const ret = (f) => { // Result<_, JsValue>
    const r = ex.__wbindgen_malloc(16, 8) >>> 0;
    f(r);
    const d = grown();
    const [v, err, bad] = [0, 4, 8].map((o) => d.getUint32(r + o, true));
    ex.__wbindgen_free(r, 16, 8);
    if (bad) { const e = get(err); drop(err); throw e; }
    return v;
  };
  const value = (f) => { const i = ret(f), v = get(i); drop(i); return v; };
  class WasmSearch {
    constructor(csv, opts, un, bin, ter) {
      const [p, n] = give(csv);
      this.p = ret((r) => fn("wasmsearch_new")(r, p, n, put(opts), put(un), put(bin), put(ter)));
    }
    set_pareto_k(k) { fn("wasmsearch_set_pareto_k")(this.p, k); }
    get_split_indices() { return value((r) => fn("wasmsearch_get_split_indices")(r, this.p)); }
    is_finished() { return fn("wasmsearch_is_finished")(this.p) !== 0; }
    step(n) { return value((r) => fn("wasmsearch_step")(r, this.p, n)); }
    best_equations(k) { return value((r) => fn("wasmsearch_best_equations")(r, this.p, k)); }
    evaluate_member(id, which) { const a = give(id), b = give(which); return value((r) => fn("wasmsearch_evaluate_member")(r, this.p, ...a, ...b)); }
    free() { fn("__wbg_wasmsearch_free")(this.p, 0); }
  }
  const plain = (n) => () => value((r) => fn(n)(r));
  return { WasmSearch, slab, builtin_operator_registry: plain("builtin_operator_registry"), default_search_options: plain("default_search_options"),
    default_core_options: plain("default_core_options") };
}
