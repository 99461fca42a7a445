"""Renders the operator sets of spec/OpsDefs.tla (as TLC writes them) into Rust declarations."""


def num(n):
    return "%d.0" % n if n >= 0 else "(-%d.0)" % -n


def value(o, args):
    s = num(o["b"])
    for w, a in zip(o["w"], args):
        s += " + %s * %s" % (num(w), a)
    return s + " + %s * (%s)" % (num(o["p"]), " * ".join(args))


def partial(o, args, idx):
    if idx is None:
        return num(o["w"][0] + o["p"])
    arms = []
    for j in range(len(args)):
        rest = [a for q, a in enumerate(args) if q != j]
        arms.append("%d => %s + %s" % (j, num(o["w"][j]), " * ".join([num(o["p"])] + rest)))
    return "match %s { %s, _ => panic!(\"no such argument\") }" % (idx, ", ".join(arms))


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v) if isinstance(v, int) else '"%s"' % v


META = ["display", "infix", "commutative", "associative", "complexity"]


def legacy_op(o, ty):
    n = len(o["w"])
    args = ["args[%d]" % j for j in range(n)]
    fields = ["%s: %s," % (f, lit(o[f][0])) for f in META if o[f]]
    if o["order"] % 3 == 1:
        fields.append("eval: |args: &[%s; %d]| %s," % (ty, n, value(o, args)))
        fields.append("partial: |args: &[%s; %d], which: usize| %s," % (ty, n, partial(o, args, "which")))
    else:
        fields.append("eval(args) { %s }," % value(o, args))
        fields.append("partial(args, which) { %s }," % partial(o, args, "which"))
    k = o["order"] % len(fields)
    fields = fields[k:] + fields[:k]
    if (o["order"] // 7) % 2:
        fields.reverse()
    return "%s { %s }" % (o["name"], " ".join(fields))


def dsl_op(o, ty):
    n = len(o["w"])
    args = ["a%d" % j for j in range(n)]
    fields = ["%s: %s," % (f, lit(o[f][0])) for f in META if o[f]]
    pat = "[%s%s]" % (", ".join(args), "," if o["order"] % 5 == 0 else "")
    fields.append("eval: |%s| %s," % (pat, value(o, args)))
    if n == 1 and o["order"] % 2:
        fields.append("partial: |[_]| %s" % partial(o, args, None))
    else:
        fields.append("partial: |%s, which| %s%s" % (pat, partial(o, args, "which"), "," if o["order"] % 3 else ""))
    return "%s { %s }" % (o["name"], " ".join(fields))


def render(sets):
    out = ["// Written by tools/genops.py from spec/OpsDefs.tla.", "#![allow(unused, clippy::all)]"]
    for s in sets:
        n, ty = s["name"], s["ty"]
        if s["syntax"] == "opset":
            gs = " ".join("(%d, %sIds%d) { %s, }" % (g["arity"], n, g["arity"], ", ".join(o["mark"] for o in g["ops"])) for g in s["groups"])
            out.append("dynamic_expressions::opset! { pub struct %s<%s>; ops { %s } }" % (n, ty, gs))
        elif s["syntax"] == "legacy":
            gs = "\n    ".join("%d { %s }" % (g["arity"], "\n      ".join(legacy_op(o, ty) for o in g["ops"])) for g in s["groups"])
            out.append("symbolic_regression::custom_opset! { pub struct %s<%s> {\n    %s } }" % (n, ty, gs))
        else:
            gs = ",\n    ".join("%d => { %s }" % (g["arity"], ",\n      ".join(dsl_op(o, ty) for o in g["ops"])) for g in s["groups"])
            out.append("symbolic_regression::custom_opset! { pub struct %s<T = %s>;\n    %s }" % (n, ty, gs))
    out.append("pub fn all(c: &mut crate::Ctx) {")
    for s in sets:
        pre = "dynamic_expressions::operator_enum::builtin::" if s["syntax"] == "opset" else s["name"]
        ms = ", ".join("crate::entry::<%s, %s, %s%s, %d>(\"%s\")" % (s["ty"], s["name"], pre, o["mark"], g["arity"], o["mark"])
                       for g in s["groups"] for o in g["ops"])
        out.append("    crate::dump_%s::<%s>(c, \"%s\", vec![%s]);" % (s["ty"], s["name"], s["name"], ms))
        if s["ty"] == "f64":
            out.append("    crate::search::<%s>(c, \"%s\");" % (s["name"], s["name"]))
        marks = {}
        for g in s["groups"]:
            marks.setdefault(g["arity"], []).extend(pre + o["mark"] for o in g["ops"])
        out.append("    { let o = symbolic_regression::sr_ops!(%s, D = 4; %s); crate::built(c, \"%s\", o, &[%s]); }" % (
            s["name"], ", ".join("%d => (%s)" % (a, ", ".join(reversed(m))) for a, m in sorted(marks.items())), s["name"],
            ", ".join("(%d, %d)" % (a, j) for a, m in sorted(marks.items()) for j in reversed(range(len(m))))))
    out.append("}")
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import json
    import sys
    open(sys.argv[2], "w").write(render(json.load(open(sys.argv[1]))["sets"]))
