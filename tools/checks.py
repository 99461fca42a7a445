"""What each property's check runs. Filled in by check.py: TIER, SEED, ROOT, SPEC, Violation, ToolError."""
import json
import os
import random
from concurrent.futures import ThreadPoolExecutor
import re

TIER, SEED, ROOT, SPEC = "quick", 1, "", ""
Violation = ToolError = Exception


def q(quick, thorough):
    return quick if TIER == "quick" else thorough


def search_traces(c, prop, n=None, kind="search", stage=None):
    """Record real searches and validate every event against SearchTrace.tla (conjuncts of `prop`)."""
    stage = stage or kind
    n = n or q(300, 3000)
    out = c.harness(stage, [kind, "--n", n], timeout=700)
    d = json.load(open(out))
    runs = d["runs"]
    c.cov["evaluations"] += sum(len(r["ev"]) for r in runs)
    c.cov["distinct_nontrivial"] += len({json.dumps(r["ev"][-2:]) for r in runs if len(r["ev"]) > 6})
    for r in runs[:2]:
        c.sample({"cfg": r["cfg"], "events": [e["t"] for e in r["ev"]][:20]})
    c.tlc(stage + "_trace", "SearchTrace", {"PROP": '"%s"' % prop}, trace=out, init="TraceInit", nxt="TraceNext",
          invariants=["Holds", "Consumed"], post="Accepted", alias="Alias", count_traces=len(runs))
    return out


MODEL_SHAPES = [(1, 2, 1), (2, 2, 1), (2, 2, 2), (3, 1, 3), (3, 2, 2), (4, 1, 2), (3, 2, 3), (4, 1, 4), (5, 1, 2), (2, 3, 2)]


def schedules(c, shapes):
    """Every completion order of the design model for each (populations, iterations, workers)."""
    words = []
    for np, ni, w in shapes:
        st = "orders_%d_%d_%d" % (np, ni, w)
        out = c.tlc(st, "Search", {"NPops": np, "NIter": ni, "Workers": w, "CRASH": "FALSE", "DATA": "FALSE", "EMIT": "TRUE",
                                   "MaxSize": 3, "Warm": 0, "TopN": 1}, spec_formula="Spec", invariants=["Emit", "Cycles"],
                    constraint=None, workers=1)
        ws = {tuple(int(x) for x in m.split(",")) for m in re.findall(r'<<"SCHED",<<(.*?)>>>>', re.sub(r"\s+", "", out))}
        if not ws:
            raise ToolError("no schedules for " + st)
        words += [{"npops": np, "niter": ni, "workers": w, "choices": list(x)} for x in sorted(ws)]
    return words


def by_threads(words):
    t = {}
    for w in words:
        t.setdefault(w["workers"], []).append(w)
    return sorted(t.items())


def pick(words, n):
    """`n` of the schedules: all of them (each on different searches where there are fewer), or a sample."""
    r = random.Random(SEED)
    return [dict(w) for w in (words * (n // len(words)) + r.sample(words, n % len(words)))]


def search_model(c, data=True):
    """The design model itself: all completion orders, panics, and what applying results does to the data."""
    base = {"CRASH": "TRUE", "DATA": "FALSE", "EMIT": "FALSE", "MaxSize": 3, "Warm": 5000, "TopN": 1}
    ctl = ["Cycles", "FaultSurfaces", "NoFalseFault"]
    for np, ni, w in q([(3, 2, 3), (4, 1, 2)], [(3, 3, 3), (4, 2, 3), (4, 2, 4)]):
        c.tlc("control_%d_%d_%d" % (np, ni, w), "Search", dict(base, NPops=np, NIter=ni, Workers=w), spec_formula="Spec",
              invariants=ctl, properties=["Ends"])
    if not data:
        return
    inv = ["Cycles", "HallBest", "BestIsBest", "IdsDenote", "FrontRight"]
    for np, ni, w in q([(2, 1, 2), (1, 3, 1)], [(2, 1, 2), (1, 4, 1), (3, 1, 1)]):
        c.tlc("data_%d_%d_%d" % (np, ni, w), "Search", dict(base, CRASH="FALSE", DATA="TRUE", NPops=np, NIter=ni, Workers=w),
              spec_formula="Spec", invariants=inv, properties=["Accepted", "Monotone"])
    for np, ni, w in [(3, 3, 3), (2, 4, 2)]:
        c.tlc("data_sim_%d" % np, "Search", dict(base, CRASH="FALSE", DATA="TRUE", NPops=np, NIter=ni, Workers=w),
              spec_formula="Spec", invariants=inv, properties=["Monotone"],
              extra=["-simulate", "num=%d" % q(1500, 30000), "-depth", "80", "-seed", str(SEED)])


def forced(c, prop, n):
    """Generated schedules forced onto real searches, judged event by event."""
    words = pick(schedules(c, MODEL_SHAPES[:q(8, 10)]), n)
    for t, ws in by_threads(words):
        f = os.path.join(c.work, "words_%d.json" % t)
        json.dump(ws, open(f, "w"))
        out = c.harness("sched_%d" % t, ["sched", "--threads", t, "--gen", f], timeout=700)
        runs = json.load(open(out))["runs"]
        c.cov["evaluations"] += sum(len(r["ev"]) for r in runs)
        c.cov["distinct_nontrivial"] += len(ws)
        c.cov["forced_schedules"] = c.cov.get("forced_schedules", 0) + sum(r["forced"] for r in runs)
        c.tlc("sched_trace_%d" % t, "SearchTrace", {"PROP": '"%s"' % prop}, trace=out, init="TraceInit", nxt="TraceNext",
              invariants=["Holds", "Consumed"], post="Accepted", alias="Alias", count_traces=len(runs))


def cycles(c):
    search_model(c, data=False)
    search_traces(c, "C06")
    forced(c, "C06", q(500, 5000))


def answers(c):
    """C07: pool model, then its scenarios in the real code under a watchdog."""
    good = {"INPLACE": "TRUE", "YIELD": "TRUE", "CATCH": "TRUE", "EMIT": "FALSE"}
    for t, k, p, i in q([(2, 2, 2, 2), (3, 2, 2, 1), (2, 3, 1, 1)], [(3, 2, 2, 2), (3, 2, 3, 1), (3, 3, 1, 1), (2, 3, 2, 1)]):
        c.tlc("pool_%d_%d_%d_%d" % (t, k, p, i), "Pool", dict(good, MaxThreads=t, MaxSearches=k, MaxPops=p, MaxIter=i),
              spec_formula="Spec", invariants=["Answers"], properties=["Terminates"] if t * k <= 4 else [], deadlock=True)
    search_model(c, data=False)
    out = c.tlc("scenarios", "Pool", dict(good, EMIT="TRUE", MaxThreads=3, MaxSearches=3, MaxPops=3, MaxIter=2),
                init="Init", nxt="Stop", invariants=["Emit"], workers=1)
    scens = []
    for m in re.finditer(r'<<"SCEN",(\d+),<<(.*?)>>,(\d+),(\d+),(\d+)>>', re.sub(r"\s+", "", out)):
        scens.append({"T": int(m[1]), "where": m[2].replace('"', "").split(","), "pops": int(m[3]), "iter": int(m[4]), "crash": int(m[5])})
    if len(scens) < 300:
        raise ToolError("scenario generation failed: %d" % len(scens))
    rng = random.Random(SEED)
    for _ in range(q(60, 600)):   # larger than the model checks
        t = rng.choice([2, 3, 4, 6])
        w = sorted(rng.choice(["in", "out", "eng"]) for _ in range(rng.choice([1, 2, 4, 6])))
        p, i = rng.choice([1, 2, 4, 6]), rng.choice([0, 1, 3])
        scens.append({"T": t, "where": w, "pops": p, "iter": i, "crash": rng.randrange(0, p * i + 1)})
    t = {}
    for x in scens:
        t.setdefault(x["T"], []).append(x)
    for T, xs in sorted(t.items()):
        f = os.path.join(c.work, "scen_%d.json" % T)
        json.dump(xs, open(f, "w"))
        out = c.harness("pool_%d" % T, ["pool", "--threads", T, "--gen", f, "--n", q(2, 12)], timeout=800)
        runs = json.load(open(out))["runs"]
        c.cov["evaluations"] += sum(len(r["out"]) for r in runs)
        c.cov["distinct_nontrivial"] += len({json.dumps(r["sc"]) for r in runs})
        c.cov["faults_injected"] = c.cov.get("faults_injected", 0) + sum(o["fired"] for r in runs for o in r["out"])
        for r in runs[-1:]:
            c.sample(r)
        c.tlc("pool_trace_%d" % T, "PoolTrace", {}, trace=out, init="Init", nxt="Next", invariants=["Holds"], alias="Alias",
              count_traces=len(runs))


def same(c):
    """C08: runs that must agree, in lock step."""
    words = pick(schedules(c, MODEL_SHAPES[1:q(8, 10)]), q(300, 4000))
    plans = by_threads(words)
    rng = random.Random(SEED)
    steps = []
    for np, ni in q([(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (1, 4), (4, 2), (2, 0)],
                    [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (1, 4), (4, 2), (2, 0), (5, 2), (3, 4), (2, 6)]):
        total = np * ni
        chunks = [[2, 1]]
        if total:
            sizes = "{0, 1, 2, 3, %d}" % (total + 2)
            out = c.tlc("steps_%d_%d" % (np, ni), "Stepper", {"Total": total, "Sizes": sizes, "MaxCalls": q(4, 5)}, spec_formula="Spec",
                        invariants=["Counted", "Emit"], workers=1)
            chunks = [[int(x) for x in m.split(",")] for m in re.findall(r'<<"STEPS",<<(.*?)>>>>', re.sub(r"\s+", "", out))]
        rng.shuffle(chunks)
        for k in range(0, min(len(chunks), q(60, 400)), 6):
            steps.append({"npops": np, "niter": ni, "chunks": chunks[k:k + 6]})
    plans = [(t, ws + [dict(x) for x in steps if (t == 1 or rng.random() < 0.15)]) for t, ws in [(1, [])] * (plans[0][0] != 1) + plans]
    for t, ws in plans:
        f = os.path.join(c.work, "pairs_%d.json" % t)
        json.dump(ws, open(f, "w"))
        out = c.harness("pairs_%d" % t, ["pairs", "--threads", t, "--gen", f], timeout=800)
        gs = json.load(open(out))["groups"]
        c.cov["evaluations"] += sum(len(l["ev"]) for g in gs for l in g["logs"])
        c.cov["distinct_nontrivial"] += len([g for g in gs if len(g["logs"][0]["ev"]) > 4])
        c.cov["forced_schedules"] = c.cov.get("forced_schedules", 0) + sum(l["forced"] for g in gs for l in g["logs"] if g["kind"] == "order")
        for g in gs[:1]:
            c.sample({"name": g["name"], "kind": g["kind"], "runs": [l["src"] for l in g["logs"]]})
        c.tlc("pairs_trace_%d" % t, "RunPairs", {}, trace=out, invariants=["Holds"], post="Accepted", alias="Alias",
              count_traces=sum(len(g["logs"]) for g in gs))


def simple(prop):
    def f(c):
        search_traces(c, prop)
    return f


def expr_gen(c, max_nodes):
    """TLC enumerates every postfix expression over a small alphabet; returns a file for the harness."""
    out = c.tlc("gen", "ExprGen", {"MaxNodes": max_nodes}, invariants=["Emit", "DepthOk"], workers=1)
    ex = []
    for m in re.finditer(r'<<"EXPR", (<<.*?>>)>>\n', out):
        ex.append([[int(a), int(b), w.strip('"')] for a, b, w in re.findall(r'<<(\d+), (\d+), ("\w+"|\d+)>>', m.group(1))])
    if len(ex) < 100:
        raise ToolError("expression generation failed")
    p = os.path.join(c.work, "gen_exprs.json")
    json.dump(ex, open(p, "w"))
    c.cov["evaluations"] += len(ex)
    return p, len(ex)


def exprs(prop, nq, nt, gq=5, gt=6, use_gen=True):
    def f(c):
        args = ["expr", "--prop", prop, "--n", q(nq, nt)]
        if use_gen:
            p, _ = expr_gen(c, q(gq, gt))
            args += ["--gen", p]
        out = c.harness("expr", args, timeout=800)
        d = json.load(open(out))
        n = len(d["cases"])
        c.cov["evaluations"] += n
        c.cov["distinct_nontrivial"] += len({json.dumps(x.get("n") or x.get("seq") or x.get("parts")) for x in d["cases"]
                                             if len(x.get("n") or x.get("seq") or x.get("parts")) > 1})
        for x in d["cases"][-2:] + d["cases"][:1]:
            c.sample(x if len(json.dumps(x)) < 3000 else {"n": x.get("n")})
        c.tlc("expr_cases", "ExprCases", {"PROP": '"%s"' % prop}, trace=out, init="TraceInit", nxt="TraceNext",
              invariants=["Holds"], alias="Alias", count_traces=n)
    return f


def tree(c):
    """C39: all node sequences of two alphabets up to a length, the model's theorems about them, and the real answers."""
    words = []
    for kind, n in (("shapes", q(5, 6)), ("slots", q(5, 6))):
        out = c.tlc(kind, "Tree", {"MaxLen": n, "KIND": '"%s"' % kind, "EMIT": "TRUE"}, spec_formula="Spec", workers=1,
                    invariants=["Grammar", "Slices", "Twice", "Slots", "Emit"])
        got = re.findall(r'<<"TREE",(<<.*?>>|<<>>)>>(?=<<"TREE"|[^<>]|$)', re.sub(r"\s+", "", out))
        words += [[[int(a), int(b)] for a, b in re.findall(r"<<(\d),(\d),0>>", w)] for w in got]
        if len(got) != sum(5 ** j for j in range(n + 1)):
            raise ToolError("sequence generation failed: %d" % len(got))
    p = os.path.join(c.work, "words.json")
    json.dump(words, open(p, "w"))
    out = c.harness("tree", ["tree", "--n", q(3000, 30000), "--gen", p], timeout=800)
    cases = json.load(open(out))["cases"]
    c.cov["evaluations"] += len(cases)
    c.cov["distinct_nontrivial"] += len({json.dumps(x["n"]) for x in cases if len(x["n"]) > 1})
    for x in cases[-2:]:
        c.sample(x)
    c.tlc("tree_cases", "TreeCases", {}, trace=out, init="TraceInit", nxt="TraceNext", invariants=["Holds"], alias="Alias", count_traces=len(cases))


def opsets(c):
    """C40: TLC writes declarations of operator sets, they are compiled, and what the sets answer is judged by their declarations."""
    import genops
    decls = os.path.join(c.work, "decls.json")
    consts = {"SALT": SEED % 1000}
    c.tlc("model", "Ops", dict(consts, MaxAsked=q(2, 3), EMIT="TRUE"), spec_formula="Spec", invariants=["Distinct", "Reachable", "Slopes"],
          env={"DECLS": decls})
    text = genops.render(json.load(open(decls))["sets"])
    gen = os.path.join(ROOT, "harness_ops/src/gen.rs")
    if not os.path.exists(gen) or open(gen).read() != text:
        open(gen, "w").write(text)
    try:
        build("harness_ops")
    except ToolError as e:
        # is it the declarations that are refused, or does nothing compile at all?
        build("harness_ops", ["--features", "plain", "--target-dir", "target/plain"])
        raise Violation("declare", "legal declarations of operators are refused: " + str(e)[-600:], c.replay("declare", {"what": str(e)}))
    c.built.add("harness_ops")
    out = c.harness("ops", ["--n", q(300, 3000), "--gen", decls], crate="harness_ops", timeout=800)
    cases = json.load(open(out))["cases"]
    c.cov["evaluations"] += len(cases)
    c.cov["distinct_nontrivial"] += len({json.dumps(x) for x in cases if x["t"] != "token" and not (x["t"] == "choice" and x["r"] == "empty")})
    for t in ("tree", "choice", "search"):
        c.sample(next((x for x in cases if x["t"] == t and len(json.dumps(x)) < 3000), {"t": t}))
    c.tlc("ops_cases", "OpsCases", consts, trace=out, init="TraceInit", nxt="TraceNext", invariants=["Holds"], alias="Alias", count_traces=len(cases))


def evolve(prop, nq, nt):
    def f(c):
        args = ["evolve", "--prop", prop, "--n", q(nq, nt or nq)]
        if prop == "C10":
            scen = []
            # the design model, then every birth order of up to five members as scenarios for the real code
            c.tlc("model", "Evolve", {"N": q(4, 5), "MaxEvents": q(4, 5), "SCENARIOS": "FALSE"}, spec_formula="Spec",
                  invariants=["SizeKept", "Unique", "CountersAhead", "Ageing"], properties=["StepOK"])
            for m in range(1, 6):
                out = c.tlc("scen%d" % m, "Evolve", {"N": m, "MaxEvents": 0, "SCENARIOS": "TRUE"}, invariants=["Emit"], workers=1)
                scen += [[int(x) for x in s.split(",")] for s in re.findall(r'<<"SCEN", <<(.*?)>>>>', out)]
            if len(scen) != 153:
                raise ToolError("scenario generation failed: %d" % len(scen))
            p = os.path.join(c.work, "scen.json")
            json.dump(scen, open(p, "w"))
            args += ["--gen", p]
        out = c.harness("evolve", args, timeout=800)
        d = json.load(open(out))
        n = len(d["cases"])
        c.cov["evaluations"] += sum(x.get("trials", 1) for x in d["cases"])
        c.cov["distinct_nontrivial"] += len({json.dumps(x) for x in d["cases"]})
        for x in d["cases"][-2:] + d["cases"][:1]:
            c.sample(x if len(json.dumps(x)) < 3000 else {"t": x.get("t")})
        c.tlc("evolve_cases", "EvolveCases", {"PROP": '"%s"' % prop}, trace=out, init="TraceInit", nxt="TraceNext",
              invariants=["Holds"], alias="Alias", count_traces=n)
    return f


def often(c):
    """C31: searches with nearly everything switched off, then frequencies of every kind of change."""
    search_traces(c, "C31", n=q(240, 2400), kind="frozen")
    evolve("C31", q(320, 3200), 0)(c)


def counted(c):
    """C33: the evaluation counter in recorded searches, then against the calls of the loss."""
    search_traces(c, "C33")
    evolve("C33", q(200, 2000), 0)(c)


def data_cases(c, prop, n):
    """Direct drives of the real code (harness subcommand `data`), judged by DataCases.tla."""
    out = c.harness("data", ["data", "--prop", prop, "--n", n], timeout=800)
    d = json.load(open(out))
    n = len(d["cases"])
    c.cov["evaluations"] += n
    c.cov["distinct_nontrivial"] += len({json.dumps(x) for x in d["cases"]})
    for x in d["cases"][-2:] + d["cases"][:1]:
        c.sample(x if len(json.dumps(x)) < 3000 else {"t": x.get("t")})
    c.tlc("data_cases", "DataCases", {"PROP": '"%s"' % prop}, trace=out, init="TraceInit", nxt="TraceNext",
          invariants=["Holds"], alias="Alias", count_traces=n)


def data(prop, nq, nt, traces=False):
    def f(c):
        if traces:
            search_traces(c, prop)
        data_cases(c, prop, q(nq, nt))
    return f


def table(prop, nq, nt, traces=False):
    """The browser front end (web/wasm), driven natively and judged by TableCases.tla."""
    def f(c):
        if traces:
            search_traces(c, prop)
        out = c.harness("table", ["--prop", prop, "--n", q(nq, nt)], crate="harness_wasm", timeout=800)
        d = json.load(open(out))
        n = len(d["cases"])
        c.cov["evaluations"] += sum(len(x.get("steps", [1])) for x in d["cases"])
        c.cov["distinct_nontrivial"] += len({json.dumps(x) for x in d["cases"]})
        for x in d["cases"][:3]:
            c.sample(x if len(json.dumps(x)) < 3000 else {"t": x.get("t")})
        c.tlc("table_cases", "TableCases", {"PROP": '"%s"' % prop}, trace=out, init="TraceInit", nxt="TraceNext",
              invariants=["Holds"], alias="Alias", count_traces=n)
    return f


def worker(c):
    """Design model of the browser worker, then its schedules replayed in the real worker under node."""
    base = {"Total": 5, "Chunk": 2, "StepBy": 1, "MaxLen": 99, "Throws": "TRUE", "GUARD": "TRUE", "RGUARD": "TRUE", "IGUARD": "TRUE",
            "EMIT": "FALSE", "WARM": "FALSE", "Cmds": '{"S","P","X","I","T","E"}'}
    c.tlc("model", "Worker", base, spec_formula="Spec", invariants=["Judged", "OneLoop", "MonitorAgrees"],
          properties=["Terminates"], constraint="Bounded")
    words = set()
    emit = dict(base, Throws="FALSE", EMIT="TRUE", Total=25, Chunk=10, StepBy=3)

    def collect(stage, consts, **kw):
        out = c.tlc(stage, "Worker", consts, spec_formula="Spec", invariants=["Emit", "Judged"], workers=1, **kw)
        new = {"".join(re.findall(r'"(\w)"', w)) for w in re.findall(r'<<"WORD",<<(.*?)>>>>', re.sub(r"\s+", "", out))}
        if len(new) < 300:
            raise ToolError("schedule generation failed: %d" % len(new))
        words.update(new)
        return len(new)
    collect("cold", dict(emit, MaxLen=q(5, 6)))
    collect("warm", dict(emit, MaxLen=q(9, 10), WARM="TRUE", Cmds='{"S","P","X","I","T"}'))
    collect("long", dict(emit, MaxLen=24, WARM="TRUE"), extra=["-simulate", "num=%d" % q(1500, 12000), "-depth", "25", "-seed", str(SEED)])
    words = sorted(words)
    rng = random.Random(SEED)
    scheds = []
    for n, w in enumerate(words):
        cfg = {"total": (25, 4, 40)[n % 3], "throwAt": 0, "throwFront": 0, "failInit": 0, "pool": n % 2 == 0,
               "clock": (130, 0, 300, 1)[n % 4], "stepBy": 3}
        scheds.append({"cfg": cfg, "word": w})
        if n % 4 == 0 and w.count("I") == 1 and "S" in w:   # failures of the engine, at every turn in time
            scheds.append({"cfg": dict(cfg, total=40, throwAt=1 + rng.randrange(4)), "word": w})
            scheds.append({"cfg": dict(cfg, total=40, clock=300, throwFront=1 + rng.randrange(4)), "word": w})
        if n % 9 == 0 and w.count("I") == 1:
            scheds.append({"cfg": dict(cfg, failInit=1 + rng.randrange(3), pool=True), "word": w})
        if n % 5 == 0 and "E" in w:
            scheds.append({"cfg": cfg, "word": w.replace("E", "M")})
    sf = os.path.join(c.work, "schedules.json")
    json.dump(scheds, open(sf, "w"))
    out = c.node("worker", ["harness_ui/drive.mjs", sf])
    d = json.load(open(out))
    runs = d["runs"]
    c.cov["evaluations"] += sum(len(r["steps"]) for r in runs)
    c.cov["distinct_nontrivial"] += len({json.dumps([r["word"], r["cfg"]]) for r in runs if len(r["steps"]) > 3})
    for r in runs[-2:]:
        c.sample({"word": r["word"], "cfg": r["cfg"]})
    c.tlc("worker_trace", "WorkerTrace", {}, trace=out, init="TraceInit", nxt="TraceNext", invariants=["Holds"], alias="Alias",
          count_traces=len(runs))


UI_WARM = ["U", "UIwRp", "UIwRpSwppFpp", "eUIwRpSwpp", "qeUIwRpSwpp1wpwp", "qhUIwRpSwpp1wpwp", "DqfqUIwRpSwpp1wpwp",
           "qxxUIwRpSwpp1wpwp", "qyxUIwRpSwpp1wpwp", "fxUIwRpSwpp1wpwpwp"]


def ui_cfg(rng, **kw):
    return dict({"total": rng.choice([25, 4, 40]), "val": rng.choice([0, 2, 2, 1]), "clock": rng.choice([130, 300, 0, 260, 1]),
                 "throwAt": rng.choice([0, 0, 0, 0, 2]), "failInit": rng.choice([0, 0, 0, 0, 1, 2]), "fs": rng.randrange(50),
                 "strict": rng.random() < .2, "csv": rng.choice([0, 1, 2, 5, 6]), "warm": rng.choice(UI_WARM)}, **kw)


def ui_random(rng, letters, n):
    return [{"cfg": ui_cfg(rng), "word": "".join(rng.choice(letters) for _ in range(rng.choice([8, 20, 40])))} for _ in range(n)]


def ui_emit(c, stage, spec, consts, least, pat, most=10**9, **kw):
    out = c.tlc(stage, spec, consts, invariants=["Judged", "Emit"], workers=1, **kw)
    got = sorted(set(re.findall(r'<<"WORD",<<(.*?)>>>>(?!>)', re.sub(r"\s+", "", out))))
    if len(got) < least:
        raise ToolError("schedule generation failed: %d" % len(got))
    if len(got) > most:   # a simulation reports the siblings of each state too
        got = sorted(random.Random(SEED).sample(got, most))
    return [re.findall(pat, w) for w in got]


def ui_replay(c, stage, spec, mode, scheds, chunk=6000):
    for a in range(0, len(scheds), chunk):
        sf = os.path.join(c.work, "schedules_%s_%d.json" % (stage, a // chunk))
        json.dump({"mode": mode, "scheds": scheds[a:a + chunk]}, open(sf, "w"))
        out = c.node("%s_%d" % (stage, a // chunk), ["harness_ui/drivepage.mjs", sf])
        runs = json.load(open(out))["runs"]
        c.cov["evaluations"] += sum(len(r["steps"]) for r in runs)
        c.cov["distinct_nontrivial"] += len({json.dumps([r["word"], r["cfg"]]) for r in runs if len(r["steps"]) > 3})
        for r in runs[-1:]:
            c.sample({"word": r["word"], "cfg": r["cfg"]})
        c.tlc("%s_trace_%d" % (stage, a // chunk), spec, {}, trace=out, init="TraceInit", nxt="TraceNext", invariants=["Holds"],
              alias="Alias", count_traces=len(runs))


def page(c):
    """Design model of the Run pane and the worker, then its schedules replayed on the real page and the real worker."""
    base = {"Total": 2, "MaxLen": 99, "MaxGen": 2, "MaxQ": 3, "CLEAR": "TRUE", "IDLE": "TRUE", "FOLLOW": "TRUE", "EMIT": "FALSE",
            "WARM": 0, "HASVAL": "TRUE", "Use": '{"tab","pause","reset","row","point"}'}
    inv = dict(invariants=["Judged", "OneSearch", "Settled", "AgreesWithMonitor"], constraint="Bounded", view="Plain")
    c.tlc("model", "Page", base, **inv)
    if TIER == "thorough":
        c.tlc("model_deep", "Page", dict(base, MaxQ=4, HASVAL="FALSE"), **inv)
        c.tlc("model_val", "Page", dict(base, MaxQ=4, Total=1), **inv)
    emit = dict(base, Total=25, MaxQ=99, MaxGen=9, EMIT="TRUE")
    words = ui_emit(c, "cold", "Page", dict(emit, MaxLen=q(7, 8)), 300, r'"(\w)"')
    words += ui_emit(c, "warm", "Page", dict(emit, MaxLen=q(11, 12), WARM=7), 300, r'"(\w)"')
    words += ui_emit(c, "long", "Page", dict(emit, MaxLen=45, WARM=7), 300, r'"(\w)"', q(500, 5000),
                     extra=["-simulate", "num=%d" % q(300, 3000), "-depth", "46", "-seed", str(SEED)])
    rng = random.Random(SEED)
    scheds = [{"cfg": ui_cfg(rng, total=(25, 4, 40)[n % 3], warm="", throwAt=0, failInit=0), "word": w} for n, w in enumerate(words)]
    scheds += ui_random(rng, "IwRpSwFpwFpF12abz3PXwpFcDUpwpwFDqexyfhWnUoC", q(1200, 12000))
    ui_replay(c, "page", "PageTrace", "page", scheds)


def forms(c):
    """Design model of the Data pane's store, then its edits (and random ones of every form) made on the real page."""
    sf = os.path.join(c.work, "none.json")
    json.dump({"mode": "forms", "scheds": []}, open(sf, "w"))
    facts = c.node("facts", ["harness_ui/drivepage.mjs", sf])
    base = {"Texts": "{0,1,2,3}", "MaxLen": 99, "DROP": "TRUE", "FIT": "TRUE", "SHOW": "TRUE", "EMIT": "FALSE"}
    c.tlc("model", "Form", base, trace=facts, invariants=["Judged", "Fresh"])
    emit = dict(base, Texts="{0,1,3}", EMIT="TRUE")
    pat = r'<<"(\w?)",(-?\d+)>>'
    words = ui_emit(c, "all", "Form", dict(emit, MaxLen=4), 2000, pat, trace=facts)
    words += ui_emit(c, "long", "Form", dict(emit, Texts="{0,1,2,3,7,11}", MaxLen=16), 200, pat, q(600, 8000), trace=facts,
                     extra=["-simulate", "num=%d" % q(150, 2000), "-depth", "17", "-seed", str(SEED)])
    rng = random.Random(SEED)
    scheds = []
    for w in words:
        toks = []
        for ch, v in w[1:]:
            toks += ["U", "I", "w", "w", "R", "p", "p", "D"] if ch == "I" else [ch] if ch in "hq" else [ch + v]
        scheds.append({"cfg": ui_cfg(rng, warm="D", csv=int(w[0][1])), "word": toks + ["U", "I"]})
    scheds += ui_random(rng, "DqexyWfhnUoCIwRpSnnnooX", q(1500, 15000))
    ui_replay(c, "forms", "FormTrace", "forms", scheds)


def api(c):
    """Design model of the browser interface, then its call sequences made through the real wasm32 build."""
    wasm = build_web()
    base = {"Total": 3, "MaxLen": 99, "TAIL": "TRUE", "OWN": "TRUE", "STOP": "TRUE", "EMIT": "FALSE", "Steps": "{0,1,2,100}", "Keeps": "{0,1,2,250}"}
    c.tlc("model", "Api", base, invariants=["Judged"])
    emit = dict(base, EMIT="TRUE", Steps="{0,1,7,2000000000}", Keeps="{0,1,2,250}")
    pat = r'<<(\d),"(\w)",(\d+)>>'
    words = ui_emit(c, "all", "Api", dict(emit, MaxLen=3, Steps="{0,1,7}", Keeps="{0,2}"), 2000, pat)
    words = random.Random(SEED).sample(words, min(len(words), q(1500, 20000)))
    words += ui_emit(c, "long", "Api", dict(emit, MaxLen=24), 200, pat, q(900, 12000),
                     extra=["-simulate", "num=%d" % q(150, 2000), "-depth", "25", "-seed", str(SEED)])
    jobs = []
    chunk = q(max(1, -(-len(words) // 7)), 1500)
    for n in range(0, len(words), chunk):
        wf = os.path.join(c.work, "words_%d.json" % (n // chunk))
        json.dump({"seed": SEED * 1000 + n // chunk, "words": [[[int(i), op, int(a)] for i, op, a in w] for w in words[n:n + chunk]], "news": q(150, 1000)},
                  open(wf, "w"))
        jobs.append(("api_%d" % (n // chunk), wf))
    with ThreadPoolExecutor(7) as pool:
        outs = list(pool.map(lambda j: c.node(j[0], ["harness_web/driveapi.mjs", wasm, j[1]]), jobs))
    for a in range(0, len(outs), 7):
        cases = [r for o in outs[a:a + 7] for r in json.load(open(o))["cases"]]
        runs = [r for r in cases if r["kind"] == "run"]
        c.cov["evaluations"] += sum(len(r["calls"]) for r in runs)
        c.cov["distinct_nontrivial"] += len({r["opts"] + json.dumps(r["csv"]) for r in runs if r["refs"] and len(r["refs"][0]) > 1})
        c.sample({"opts": runs[-1]["opts"], "calls": [[x["i"], x["op"], x["a"]] for x in runs[-1]["calls"]]})
        tr = os.path.join(c.work, "calls_%d.json" % (a // 7))
        json.dump({"cases": cases}, open(tr, "w"))
        c.tlc("api_trace_%d" % (a // 7), "ApiTrace", {}, trace=tr, init="TraceInit", nxt="TraceNext", invariants=["Holds"],
              alias="Alias", count_traces=len(cases))


def optimise(c):
    """C37: design model of constant optimisation, its faults injected into the real one, and exact least squares."""
    base = {"V": 3, "Starts": 2, "Limit": 6, "Iters": 2, "MaxFaults": 2, "MaxLen": 99, "KEEP": "TRUE", "EMIT": "FALSE"}
    c.tlc("model", "Optimise", base, spec_formula="Spec", invariants=["Keeps", "Budget"], properties=["Ends"])
    emit = dict(base, EMIT="TRUE", V=3, Starts=3, Limit=99, Iters=4, MaxLen=q(8, 10), MaxFaults=q(2, 3))
    words = ui_emit(c, "faults", "Optimise", emit, 30, r'"(\w)"')
    code = {"o": 0, "x": 1, "g": 2}
    words = [[code[x] for x in w] for w in words]
    rng = random.Random(SEED)
    many = [rng.choice(words) for _ in range(q(2500, 30000))]
    many += [[0] * rng.randrange(40) + rng.choice(words) for _ in range(q(1500, 15000))] + [[] for _ in range(q(1500, 15000))]
    p = os.path.join(c.work, "faults.json")
    json.dump(words + many, open(p, "w"))
    out = c.harness("constopt", ["evolve", "--prop", "C37", "--n", q(1500, 15000), "--gen", p], timeout=800)
    cases = json.load(open(out))["cases"]
    c.cov["evaluations"] += len(cases)
    c.cov["distinct_nontrivial"] += len({json.dumps(x) for x in cases if x["t"] != "restart"})
    for t in ("kept", "quad", "restart", "begin"):
        c.sample([x for x in cases if x["t"] == t][-1])
    c.tlc("opt_cases", "OptCases", {}, trace=out, init="TraceInit", nxt="TraceNext", invariants=["Holds"], alias="Alias", count_traces=len(cases))


def terminal(c):
    """C38: design model of the progress display; real searches on pseudo-terminals, what stands there read back."""
    base = {"N": 6, "Gap": 2, "FORCE": "TRUE", "EMIT": "FALSE"}
    c.tlc("model", "Terminal", base, spec_formula="Spec", invariants=["Current", "Behind", "Fresh"], properties=["Forward"])
    words = ui_emit(c, "paces", "Terminal", dict(base, N=q(3, 4), EMIT="TRUE"), 8, r"(\d)")
    p = os.path.join(c.work, "paces.json")
    json.dump([[int(x) for x in w] for w in words], open(p, "w"))
    out = c.terminals("screens", ["--n", q(60, 500), "--gen", p], q([80, 81, 100, 240], [80, 81, 83, 97, 100, 132, 240, 400]), timeout=800)
    runs = json.load(open(out))["runs"]
    c.cov["evaluations"] += sum(len(r["shots"]) for r in runs)
    c.cov["distinct_nontrivial"] += len({json.dumps(s["rows"]) for r in runs for s in r["shots"] if len(s["rows"]) > 1})
    for r in runs[-2:]:
        c.sample({"id": r["id"], "screen": ["".join(map(chr, x)) for x in r["shots"][-1]["rows"]][:4]})
    c.tlc("screens_trace", "TermCases", {}, trace=out, init="TraceInit", nxt="TraceNext", invariants=["Holds"], alias="Alias", count_traces=len(runs))


MC = "model_checking"
R_SEARCH = ("each recorded search is one trace (random options, operators, limits, data, worker counts); "
            "non-trivial: more than one cycle, distinct final state")
A_SEARCH = ["member identity and loss/cost values are compared through order-preserving ranks",
            "the event sink (cfg sr_verif) reports the orchestrator's state faithfully"]

TABLE = {}
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C09", "C11", "C20", "C24"]:
    TABLE[p] = (simple(p), MC, R_SEARCH, A_SEARCH)

R_EXPR = ("each case is one expression with data run through the real code; expressions are all postfix trees TLC "
          "enumerates from ExprGen.tla up to a size, plus random larger ones; non-trivial: more than one node, distinct tree")
A_EXPR = ["elementary operators (sin, pow, ...) are those of the Rust standard library; the spec composes them through a table",
          "ill-conditioned rows, where a relative perturbation of 1e-14 per operator moves the result visibly, are not judged"]
for p, nq, nt in [("C13", 20000, 150000), ("C14", 4000, 30000), ("C15", 4000, 25000), ("C16", 4000, 30000),
                  ("C17", 4000, 25000), ("C18", 10000, 80000)]:
    TABLE[p] = (exprs(p, nq, nt), MC, R_EXPR, A_EXPR)
TABLE["C26"] = (exprs("C26", 12000, 100000, use_gen=False), MC, R_EXPR, A_EXPR[:1])

R_EV = ("each case is one evolution event (or a batch of repeated events) run through the real code; inputs come from scenarios "
        "TLC enumerates and from random options, data and trees; non-trivial: distinct case")
A_EV = ["losses and costs are compared through order-preserving ranks",
        "frequencies are judged within six standard deviations of the exact rational chance"]
for p, nq, nt in [("C10", 3000, 30000), ("C12", 6000, 60000), ("C19", 3000, 30000), ("C21", 300, 3000), ("C28", 300, 3000)]:
    TABLE[p] = (evolve(p, nq, nt), MC, R_EV, A_EV)

TABLE["C33"] = (counted, MC, R_SEARCH + "; " + R_EV, A_SEARCH[1:] + ["the loss is asked once per evaluation of an equation that is defined on every row"])
TABLE["C34"] = (evolve("C34", 300, 3000), MC, R_EV, A_EV[1:])
TABLE["C31"] = (often, MC, R_SEARCH + "; " + R_EV, A_SEARCH[:1] + A_EV[1:])

R_DATA = ("each case is one call (or short sequence of calls) of the real code on generated or enumerated inputs, next to recorded "
          "searches where the property speaks about searches; non-trivial: distinct case")
A_DATA = ["floating-point results are compared with the specification's integers after scaling (relative 1e-9, 2e-5 for f32)"]
for p, nq, nt, tr in [("C29", 6000, 60000, False), ("C22", 1200, 8000, False), ("C25", 2400, 20000, True), ("C20", 2000, 15000, True),
                      ("C09", 2400, 20000, True), ("C03", 0, 20000, True), ("C01", 300, 2000, True), ("C11", 6000, 40000, True)]:
    TABLE[p] = (data(p, nq, nt, tr), MC, R_DATA if not tr else R_SEARCH + "; " + R_DATA, A_SEARCH * tr + A_DATA)

R_TABLE = ("each case is one call of the browser front end on a generated table, split, prediction, option set or search; "
           "non-trivial: distinct case")
A_TABLE = ["the front end runs natively; the JavaScript value conversions of wasm-bindgen are outside",
           "scores are compared as exact integers after scaling (relative 1e-9)"]
TABLE["C23"] = (table("C23", 3000, 30000), MC, R_TABLE, A_TABLE)
TABLE["C24"] = (table("C24", 60, 600, True), MC, R_SEARCH + "; " + R_TABLE, A_SEARCH + A_TABLE[:1])
TABLE["C27"] = (worker, MC, "each case is one schedule of commands, timers and initialisation stages that TLC generates from Worker.tla, "
                "run in the real worker under node; non-trivial: more than three steps, distinct schedule and configuration",
                ["the engine, timers, clock and wasm initialisation are stand-ins driven by the schedule",
                 "a browser runs one task at a time and promise reactions before the next task"])
A_UI = ["the engine, clock, timers, React, zustand, Papa Parse and the plot widget are small stand-ins driven by the schedule",
        "a browser runs one task at a time and promise reactions before the next task"]
TABLE["C32"] = (page, MC, "each case is one schedule of clicks, message deliveries and worker turns, from Page.tla or random, run on the real page "
                "and the real worker; non-trivial: more than three steps, distinct schedule and configuration", A_UI)
TABLE["C35"] = (forms, MC, "each case is one sequence of edits, from Form.tla (all of four edits, random longer ones) or random over all forms, made on "
                "the real page; non-trivial: more than three steps, distinct schedule and configuration", A_UI)
TABLE["C40"] = (opsets, MC, "each case is one question to an operator set compiled from a declaration of OpsDefs.tla: its contents, a token, a selection, "
                "an operator at a point, a random expression (values, derivatives, printed forms, simplification), a search; non-trivial: distinct, "
                "tokens and empty selections aside", [])
TABLE["C39"] = (tree, MC, "each case is one sequence of nodes, well formed or not: all up to a length over two alphabets (Tree.tla), and random "
                "larger trees, some broken at one node; non-trivial: more than one node, distinct", [])
TABLE["C38"] = (terminal, MC, "each run is one search on a pseudo-terminal (random data, names, options, widths; paces from the model), "
                "its screens read back; non-trivial: distinct table of more than one row",
                ["the terminal follows the escape sequences tools/terminal.py knows (cursor, erase, wrapping, double width)"])
TABLE["C37"] = (optimise, MC, "each case is one optimisation of the constants of one equation: with faults injected where the model injects them, on a convex "
                "quadratic, or at a stationary point; non-trivial: distinct case", ["losses are compared in floating point (relative 1e-3) where the property says at least as good"])
TABLE["C36"] = (api, MC, "each case is one sequence of calls on two searches made through the real wasm32 module under node (from Api.tla), one attempt to "
                "create a search, or the lists of operators and options; non-trivial: more than one cycle, distinct search",
                ["glue.mjs converts values as wasm-bindgen's own generated code does", "node's engine runs the module with one thread"])
TABLE["C30"] = (table("C30", 1500, 15000), MC, R_TABLE, A_TABLE[:1])

R_SCHED = ("each case is one completion order, chunking or pool scenario that TLC generates from the design model, run in the real "
           "orchestrator; non-trivial: distinct schedule or scenario")
TABLE["C06"] = (cycles, MC, R_SEARCH + "; " + R_SCHED, A_SEARCH + ["completion orders are forced by holding back task ends in the event sink"])
TABLE["C07"] = (answers, MC, R_SCHED, ["a search without an answer after 40 s, on inputs that take milliseconds, hangs",
                                       "faults are panics in the loss, in its gradient, or at the start or end of a task"])
TABLE["C08"] = (same, MC, R_SCHED, A_SEARCH)

DEFAULT_NOTE = ("Every recorded execution is a behaviour of the TLA+ specification; assurance extends to the executions "
                "explored, which are generated from VERIF_SEED.")
NOTE = {}
TECH = {}
NA = {}
