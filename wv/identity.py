"""Identity of variables and expressions (Identity.tla)."""
import random
from . import prog, base
from .base import tlc, pool
from .compound import FORM, CONSTS
from .prog import nums, flat

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
  MaxPool = 34
  MaxNodes = 13
INVARIANTS Equivalence Congruent Absent Distinct Emit
"""
DFORM = {"dmul": "(%s * %s)", "muld": "(%s * %s)", "dadd": "(%s + %s)", "addd": "(%s + %s)", "dsub": "(%s - %s)",
         "subd": "(%s - %s)", "dprod": "(%s * %s)", "prodd": "(%s * %s)"}
BINARY = {"add", "sub", "scale", "prod", "dot", "rot", "trf", "comp", "kmul", "mulk"} | set(DFORM)
MAPS = {3: ("F3<wave::Translation<MapV3>>", "MapV3", 3, "LV"), 4: ("F3<wave::Translation<MapV3>>", "MapV3", 3, "LV"),
        7: ("F2<wave::MatrixRotation<Map33>>", "Map33", 9, "LR"), 8: ("F2<wave::MatrixRotation<Map33>>", "Map33", 9, "LR")}
DIM = {"V": 3, "P": 3, "W": 3, "R": 3, "T": 6, "S": 1, "D": 1}


def program(pid, b, rng):
    hist = b["hist"]
    vals = hist[0]["vals"]
    nv = len(vals)
    out, descr, names, kind, plain, ctypes, types = [], [], [], [], [], [], []
    ops = [None] * nv
    for i, v in enumerate(vals, 1):
        k = v["k"]
        if i % 2:
            t = {"R": rng.choice(["LR", "LQ", "LA"]), "T": rng.choice(["LT", "LU"])}.get(k, "L" + k)
        if k == "D":
            out.append("double x%d = %d;" % (i, v["v"][0]))
        elif i in MAPS:
            mt, m, n, pt = MAPS[i]
            if i % 2:
                out.append("double m%d[%d] = {};" % (i, n))
            out.append("%s x%d{%s{m%d}};" % (mt, i, m, i if i % 2 else i - 1))
            out.append("x%d = temp<%s>(%s);" % (i, pt, nums(flat(v["v"]))))
        else:
            out.append("%s x%d = temp<%s>(%s);" % (t, i, t, nums(flat(v["v"]))))
        names.append("x%d" % i)
        kind.append(k)
        plain.append(MAPS[i][3] if i in MAPS else t)
        ctypes.append("double" if k == "D" else MAPS[i][0] if i in MAPS else t)
        types.append({ctypes[-1]})

    def place(i, p):
        s, node = names[i - 1], i
        o = ops[i - 1]
        for x in p:
            # o: (operation, operands as indices of entries or None)
            if o[0] in BINARY:
                s += ".lhs()" if x == 1 else ".rhs()"
            else:
                s += ".rhs()"
            ch = o[1][x - 1]
            o = ops[ch - 1] if ch else None
        return s
    for step, h in enumerate(hist[1:], 1):
        c = h["c"]
        if c == "op":
            args = []
            for x in h["a"]:
                n = names[x["i"] - 1]
                if x["how"] == "copy":
                    n = "%s{%s}" % (plain[x["i"] - 1], n) if x["i"] in MAPS else "copy(%s)" % n
                args.append(n)
            o = h["o"]
            if o == "kmul":
                e = "(%s * %s)" % (CONSTS[h["n"] - 1], args[0])
            elif o == "mulk":
                e = "(%s * %s)" % (args[0], CONSTS[h["n"] - 1])
            else:
                e = (DFORM.get(o) or FORM[o]) % tuple(args)
            idx = [x["i"] for x in h["a"]]
            ts = [{plain[x["i"] - 1]} if x["how"] == "copy" and x["i"] <= nv else types[x["i"] - 1] for x in h["a"]]
            types.append(None if None in ts else set().union(*ts) | ({"LS"} if o in ("kmul", "mulk") else set()))
            ops.append((o, {"kmul": [None] + idx, "mulk": idx + [None]}.get(o, idx)))
        elif c == "copy":
            e = names[h["i"] - 1]
            types.append(types[h["i"] - 1])
            ops.append(ops[h["i"] - 1])
        elif c == "proxy":
            e = "wave::makeProxy(copy(%s))" % names[h["i"] - 1]
            ops.append(None)
            types.append(None)
        elif c == "set":
            i = h["i"]
            if kind[i - 1] == "D":
                out.append("x%d = %d;" % (i, h["v"][0]))
            else:
                out.append("x%d = temp<%s>(%s);" % (i, plain[i - 1], nums(flat(h["v"]))))
            descr.append("x%d = %s" % (i, flat(h["v"])))
            continue
        elif c == "same":
            p, q = place(h["i"], h["p"]), place(h["j"], h["q"])
            out.append('ckb(%d, "isSame(%s, %s)", wave::isSame(%s, %s), %s);' % (step, p, q, p, q, "true" if h["r"] else "false"))
            descr.append("isSame(%s, %s)" % (p, q))
            continue
        elif c == "diff":
            diff(out, step, h, names, kind, nv, rng, place, ctypes, types[h["i"] - 1])
            descr.append("differentiate %s" % names[h["i"] - 1])
            continue
        x = "e%d" % (len(names) + 1)
        out.append("%sauto %s = %s;" % (rng.choice(["", "const "]), x, e))
        names.append(x)
        kind.append(h["k"])
        plain.append(None)
        descr.append("%s = %s" % (x, e))
    return prog.Prog(pid, "\n".join(out) + "\n", "; ".join(descr))


def diff(out, step, h, names, kind, nv, rng, place, ctypes, types):
    """types: the C++ types of the leaves in the expression, or nothing if that is not known at compile time"""
    e = names[h["i"] - 1]
    v = flat(h["v"])
    js = h["js"]
    rows = DIM[h["k"]]
    occ = [m for m in range(nv) if h["occ"][m]]
    near = sorted({m ^ 1 for m in occ} - set(occ))
    rest = [m for m in range(nv) if m not in occ and m not in near]
    some = occ + near + rng.sample(rest, min(1, len(rest)))
    big = 1 + max([abs(x) for x in v] + [abs(x) for j in js for r in j for x in r])
    out.append("{ ck(%d, \"value of %s\", column(%s.eval()), %d, %s);" % (step, e, e, len(v), nums(v)))

    def one(t, j, tag):
        out.append('ck(%d, "%s of %s by %s", dense(%s), %d, %s);' % (step, "Jacobian", e, t, tag % {"e": e, "t": t}, rows, nums(flat(j))))
    for m in some:
        x = names[m]
        leaf = kind[m] != "D"
        if types is None or ctypes[m] in types:
            one(x, js[m], "%(e)s.jacobian(%(t)s)" if leaf and rng.random() < .5 else "wave::internal::evaluateJacobian(%(e)s, %(t)s)")
        one(x, js[m], "wave::internal::evaluateDynamicJacobian(%(e)s, %(t)s)")
    for m in rng.sample(occ, min(1, len(occ))) + rng.sample(near, min(1, len(near))):
        out.append('ck(%d, "numerical Jacobian of %s by %s", dense(wave::evaluateNumericalJacobian(%s, %s)), %d, %s, %g);' % (
            step, e, names[m], e, names[m], rows, nums(flat(js[m])), 1e-6 * big))
    out.append("const auto r = wave::internal::evaluateWithDynamicReverseJacobians(%s);" % e)
    for m in range(nv):
        out.append('ckb(%d, "%s occurs in %s", r.second.count(&%s) != 0, %s);' % (step, names[m], e, names[m], "true" if m in occ else "false"))
        if m in occ:
            out.append('if (r.second.count(&%s)) ck(%d, "reverse Jacobian of %s by %s", dense(r.second.at(&%s)), %d, %s);' % (
                names[m], step, e, names[m], names[m], rows, nums(flat(js[m]))))
    sel = rng.sample(some, min(len(some), 3))
    if all(kind[m] != "D" and (types is None or ctypes[m] in types) for m in sel):
        out.append("{ const auto q = %s.evalWithJacobians(%s);" % (e, ", ".join(names[m] for m in sel)))
        for n, m in enumerate(sel, 1):
            out.append('ck(%d, "evalWithJacobians of %s by %s", dense(std::get<%d>(q)), %d, %s);' % (
                step, e, names[m], n, rows, nums(flat(js[m]))))
        out.append("}")
    if h["p"]:
        t = place(h["i"], h["p"])
        one(t, js[nv], "%(e)s.jacobian(%(t)s)")
        one(t, js[nv], "wave::internal::evaluateDynamicJacobian(%(e)s, %(t)s)")
        out.append('ck(%d, "reverse Jacobian of %s by %s", dense(r.second.at(&%s)), %d, %s);' % (
            step, e, t, t, rows, nums(flat(js[nv]))))
    out.append("}")


def features(b):
    ks, made = set(), {}
    hist = b["hist"]
    nv = len(hist[0]["vals"])
    n = nv
    for h in hist[1:]:
        if h["c"] in ("op", "copy", "proxy"):
            n += 1
            made[n] = (h.get("o") or h["c"], h["k"])
            if h["c"] == "op":
                ks |= {("in", h["o"], h["k"], x["how"], x["i"] > nv and made.get(x["i"], ("x",))[0]) for x in h["a"]}
        elif h["c"] == "same":
            ks |= {("same", h["o"], h["r"], len(h["p"]) > 0, len(h["q"]) > 0)}
        elif h["c"] == "diff":
            o = made.get(h["i"])
            occ = [m for m in range(nv) if h["occ"][m]]
            ks |= {("diff", o, m) for m in occ} | {("twins", o, sum(m ^ 1 in occ for m in occ)), ("own", o, len(h["p"]))}
    return ks


def run(chk, traces, use, steps, per_tu=2):
    rng = random.Random(chk.seed)
    base.warm(chk, "prog.hpp", ["-O1"], ["-O1", "-DWV_FRAMED"])
    sims = [pool.submit(tlc, chk, "Identity", CFG % steps, simulate=traces // 6, depth=12 * steps,
                        seed=chk.seed * 7 + i, tag="Identity%d" % i) for i in range(6)]
    bs = [r for s in sims for r in s.result()[0]]
    chk.notes["behaviours_generated"] = len(bs)
    kk = [(b, features(b)) for b in bs]
    ps, seen = [], {}
    while kk and len(ps) < use:
        n = max(range(len(kk)), key=lambda i: sum(1.0 / (1 + 3 * seen.get(k, 0)) for k in kk[i][1]))
        b, ks = kk.pop(n)
        ps.append(program(len(ps) + 1, b, rng))
        for k in ks:
            seen[k] = seen.get(k, 0) + 1
    chk.notes["distinct_features"] = len(seen)
    half = [ps[0::2], ps[1::2]]
    base.parallel(lambda: prog.run(chk, "prog.hpp", half[0], ["-O1"], per_tu, "id", "identity"),
                  lambda: prog.run(chk, "prog.hpp", half[1], ["-O1", "-DWV_FRAMED"], per_tu, "if", "identity (framed)"))
