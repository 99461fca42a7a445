#!/usr/bin/env python3
"""Run the check of one property: python3 check.py Cxx [--tier quick|thorough]

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
SPEC = os.path.join(ROOT, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-12-19", CARGO_NET_OFFLINE="true",
           HOME=os.environ.get("HOME", "/root"),
           PATH=os.environ.get("PATH", "") + ":/root/.cargo/bin", RUSTFLAGS="--cfg sr_verif")
ENV.pop("CARGO_TARGET_DIR", None)


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, stage, text, replay):
        super().__init__(text)
        self.stage, self.text, self.replay = stage, text, replay


def log(*a):
    print(*a, flush=True)


def build(crate, args=()):
    d = os.path.join(ROOT, crate)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + list(args), cwd=d, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (crate, r.stdout[-6000:]))


def build_web():
    """The browser build of /repo's web crate; returns the path of the wasm32 module."""
    d = os.path.join(ROOT, "harness_web")
    r = subprocess.run(["./build.sh"], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("building harness_web failed:\n%s" % r.stdout[-6000:])
    return os.path.join(d, "target/wasm32-unknown-unknown/release/srverif_web.wasm")


BINS = {"harness": "harness/target/debug/srverif", "harness_wasm": "harness_wasm/target/debug/srverif_wasm",
        "harness_term": "harness_term/target/debug/srverif_term", "harness_ops": "harness_ops/target/debug/srverif_ops"}


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(ROOT, "work", prop)
        os.makedirs(self.work, exist_ok=True)
        for f in os.listdir(self.work):
            p = os.path.join(self.work, f)
            if os.path.isfile(p):
                os.unlink(p)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "samples": [], "stages": []}
        self.built = set()

    # -- run the harness; returns the path of its output
    def harness(self, stage, args, crate="harness", timeout=600, ok=(0,)):
        if crate not in self.built:
            build(crate)
            self.built.add(crate)
        out = os.path.join(self.work, stage + ".json")
        cmd = [os.path.join(ROOT, BINS[crate])] + [str(a) for a in args] + ["--seed", str(SEED), "--out", out]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation(stage, "the code under test did not finish within %d s" % timeout,
                            self.replay(stage, {"cmd": cmd, "what": "timeout"}))
        if r.returncode == 3 or "HANG" in r.stdout:
            raise Violation(stage, "the code under test hangs: " + r.stdout.strip()[-300:],
                            self.replay(stage, {"cmd": cmd, "what": r.stdout[-2000:]}))
        if r.returncode == 2:
            raise ToolError("harness: " + (r.stderr + r.stdout)[-3000:])
        if r.returncode not in ok:
            raise Violation(stage, "the code under test crashed (status %d): %s" % (r.returncode, (r.stdout + r.stderr)[-400:].strip()),
                            self.replay(stage, {"cmd": cmd, "status": r.returncode, "stdout": r.stdout[-4000:], "stderr": r.stderr[-4000:]}))
        self.cov["stages"].append({"stage": stage, "harness": " ".join(map(str, args)), "wall_s": round(time.time() - t, 2)})
        return out

    # -- run a node script; returns the path of its output
    def node(self, stage, args, timeout=600):
        out = os.path.join(self.work, stage + ".json")
        cmd = ["node"] + [os.path.join(ROOT, args[0])] + [str(a) for a in args[1:]] + [out]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation(stage, "the code under test did not finish within %d s" % timeout,
                            self.replay(stage, {"cmd": cmd, "what": "timeout"}))
        if r.returncode != 0:
            raise ToolError("node: " + (r.stdout + r.stderr)[-3000:])
        self.cov["stages"].append({"stage": stage, "node": " ".join(map(str, args)), "wall_s": round(time.time() - t, 2)})
        return out

    # -- run a harness on pseudo-terminals of several widths; returns what stood on them, run by run
    def terminals(self, stage, args, widths, crate="harness_term", timeout=600):
        import terminal
        build(crate)
        t = time.time()

        def one(w):
            out = os.path.join(self.work, "%s_%d.json" % (stage, w))
            cmd = [os.path.join(ROOT, BINS[crate])] + [str(a) for a in args] + ["--seed", str(SEED * 1000 + w), "--part", str(widths.index(w)),
                   "--parts", str(len(widths)), "--out", out]
            rc, raw, shots = terminal.run(cmd, w, timeout, ENV)
            if rc != 0:
                raise Violation(stage, "the code under test %s: %s" % ("hangs" if rc is None else "crashed (status %d)" % rc, ascii(raw[-300:])),
                                self.replay(stage, {"cmd": cmd, "cols": w, "status": rc}))
            runs = json.load(open(out))["runs"]
            for i, r in enumerate(runs):
                r["id"], r["shots"] = "%d/%d" % (w, i), []
            i = 0
            for what, k, lines, styled in shots:
                runs[i]["shots"].append(dict(terminal.read(lines), styled=styled, at=k if what == "STEP" else 0))
                i += what == "END"
            return runs
        with ThreadPoolExecutor(len(widths)) as ex:
            runs = [r for rs in ex.map(one, widths) for r in rs]
        out = os.path.join(self.work, stage + ".json")
        json.dump({"runs": runs}, open(out, "w"))
        self.cov["stages"].append({"stage": stage, "terminals": widths, "wall_s": round(time.time() - t, 2)})
        return out

    def replay(self, stage, obj):
        p = os.path.join(self.work, "replay_%s.json" % stage)
        with open(p, "w") as f:
            json.dump(dict(obj, property=self.prop, seed=SEED, tier=TIER), f, indent=1)
        return p

    # -- run TLC on a spec; `consts` are written into the cfg
    def tlc(self, stage, spec, consts=None, trace=None, init="Init", nxt="Next", spec_formula=None, invariants=(),
            properties=(), post=None, alias=None, deadlock=False, workers=8, timeout=780, extra=(), constraint=None,
            env=None, count_traces=0, cfg_lines=(), expect_violation=False, view=None):
        cfg = os.path.join(self.work, stage + ".cfg")
        with open(cfg, "w") as f:
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s = %s\n" % (k, v))
            if spec_formula:
                f.write("SPECIFICATION %s\n" % spec_formula)
            else:
                f.write("INIT %s\nNEXT %s\n" % (init, nxt))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            if view:
                f.write("VIEW %s\n" % view)
            if post:
                f.write("POSTCONDITION %s\n" % post)
            if alias:
                f.write("ALIAS %s\n" % alias)
            for ln in cfg_lines:
                f.write(ln + "\n")
            f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xss64m -Xmx12g"
        if trace:
            e["TRACE_FILE"] = trace
        meta = os.path.join(self.work, "states_" + stage)
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [os.path.join(SPEC, spec + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on stage " + stage)
        finally:
            subprocess.run(["rm", "-rf", meta])
        out = r.stdout
        outp = os.path.join(self.work, stage + ".out")
        with open(outp, "w") as f:
            f.write(out)
        gen = re.search(r"(\d+) states generated[^,]*, (\d+) distinct states found", out)
        g, d = (int(gen.group(1)), int(gen.group(2))) if gen else (0, 0)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["traces_validated_against_impl"] += count_traces
        self.cov["stages"].append({"stage": stage, "spec": spec, "states": d, "transitions": g, "wall_s": round(time.time() - t, 2)})
        if "Model checking completed. No error has been found." in out or (r.returncode == 0 and "Error:" not in out):
            return out
        bad = ("Parsing or semantic analysis failed" in out or "OutOfMemoryError" in out or "Could not find" in out
               or "TLC threw an unexpected exception" in out and not trace or "StackOverflowError" in out
               or "Configuration" in out and "Error" in out and not gen and not trace)
        m = re.search(r"Error: (.*)", out)
        what = m.group(1).strip() if m else "TLC failed"
        if bad or not m:
            raise ToolError("TLC on %s: %s\n%s" % (stage, what, out[-3000:]))
        tail = out[out.index("Error:"):][:6000]
        raise Violation(stage, "%s: %s" % (spec, what) + self.summary(tail),
                        self.replay(stage, {"spec": spec, "cfg": cfg, "trace": trace, "tlc": tail,
                                            "rerun": ("TRACE_FILE=%s " % trace if trace else "") + " ".join(cmd)}))

    @staticmethod
    def summary(tail):
        blocks = re.split(r"State \d+:", tail)
        if len(blocks) > 1:
            return " | " + re.sub(r"\s+", " ", blocks[-1])[:500]
        return ""

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)


def main():
    prop = sys.argv[1]
    global TIER
    if "--tier" in sys.argv:
        TIER = sys.argv[sys.argv.index("--tier") + 1]
    import checks
    checks.TIER, checks.SEED, checks.ROOT, checks.SPEC = TIER, SEED, ROOT, SPEC
    checks.Violation, checks.ToolError, checks.build_web, checks.build = Violation, ToolError, build_web, build
    t0 = time.time()
    c = Check(prop)
    fn, level, rule, assumptions = checks.TABLE[prop]
    viol = []
    status = 0
    try:
        fn(c)
    except Violation as v:
        viol.append(v)
    except ToolError as e:
        log("TOOL-ERROR", str(e))
        status = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        status = 2
    known = []
    kf = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    cov = c.cov
    if level != "model_checking":
        cov.pop("traces_validated_against_impl", None) if not cov.get("traces_validated_against_impl") else None
    cov["rule"] = rule
    if not cov["samples"]:
        cov["samples"] = ["(none recorded)"]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in viol:
        log("stage %s: %s" % (v.stage, v.text))
        log("VIOLATION property=%s replay=%s" % (prop, v.replay))
        status = 1
    log("%s %s: %s in %.1fs (%d states, %d transitions, %d traces)" % (
        prop, TIER, {0: "ok", 1: "VIOLATED", 2: "TOOL ERROR"}[status], time.time() - t0, cov["states"], cov["transitions"],
        cov.get("traces_validated_against_impl", 0)))
    sys.exit(status)


if __name__ == "__main__":
    main()
