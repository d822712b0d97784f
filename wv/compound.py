"""Compounds (Compound.tla)."""
import random
from . import base, prog
from .base import tlc, pool
from .prog import nums, flat

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
  MaxPool = 15
  MaxObjs = 4
INVARIANTS TypeOK Rows Emit
"""
CONSTS = ["2.0", "-1.0", "3.0"]
FORM = {"neg": "(-%s)", "sqn": "%s.squaredNorm()", "inv": "inverse(%s)", "rotof": "%s.rotation()",
        "transof": "%s.translation()", "add": "(%s + %s)", "sub": "(%s - %s)", "scale": "(%s * %s)",
        "prod": "(%s * %s)", "dot": "dot(%s, %s)", "rot": "(%s * %s)", "trf": "(%s * %s)", "comp": "(%s * %s)"}
PACK = "wave::internal::makeCompound<wv::Pack>(%s)"


def form(h, a):
    return ("(" + CONSTS[h["n"] - 1] + " * %s)" if h["o"] == "kmul" else FORM[h["o"]]) % tuple(a)


def program(pid, b, rng):
    kinds = [v["k"] for v in b["vals"]]
    nv = len(kinds)
    names = ["x%d" % (i + 1) for i in range(nv)]
    inline = [None] * nv
    real = [True] * nv          # whether the entry is a variable of the program
    out, descr = [], []
    for x, v in zip(names, b["vals"]):
        out.append("L%s %s = temp<L%s>(%s);" % (v["k"], x, v["k"], nums(flat(v["v"]))))
    objs = []

    def arg(i):
        """An entry: by name, or written out (and so held by value)"""
        if inline[i - 1] is None or rng.random() < 0.5:
            return names[i - 1]
        return inline[i - 1]

    def ctype(ks):
        return "Pack<%s>" % ", ".join("L" + k for k in ks)

    def keep(h, step, e):
        what, o = h["kp"]
        if what == "new":
            out.append("%s o%d{%s};" % (ctype(h["ks"]), o, e))
            objs.append(h["ks"])
        elif what == "assign":
            out.append("o%d = %s;" % (o, e))
        if what != "no":
            see(step, "o%d" % o, h["vs"])
        descr.append(("o%d %s " % (o, ":=" if what != "no" else "") if what != "no" else "") + e)

    def see(step, e, vs):
        for m, v in enumerate(vs):
            out.append('ck(%d, "element %d of %s", column(%s.get<%d>()), %d, %s);' % (
                step, m, e.replace('"', "'"), e, m, len(v), nums(v)))
    cur = {}
    for step, h in enumerate(b["hist"], 1):
        c = h["c"]
        if c == "op":
            e = form(h, [arg(i) for i in h["a"]])
            full = form(h, [names[i - 1] if real[i - 1] else (inline[i - 1] or names[i - 1]) for i in h["a"]])
            x = "e%d" % (len(names) + 1)
            out.append("auto %s = %s;" % (x, e))
            names.append(x)
            inline.append(full)
            real.append(False)
            descr.append("%s = %s" % (x, e))
        elif c == "take":
            x = "e%d" % (len(names) + 1)
            out.append("L%s %s{o%d.get<%d>()};" % (h["k"], x, h["o"], h["m"] - 1))
            names.append(x)
            inline.append("L%s{%s}" % (h["k"], x))
            real.append(False)
            descr.append("%s = element %d of o%d" % (x, h["m"], h["o"]))
        elif c == "pack":
            e = PACK % ", ".join(arg(i) for i in h["a"])
            out.append("{ auto e = %s;" % e)
            out.append("auto v = eval(e);")
            see(step, "v", h["vs"])
            rows = sum(len(v) for v in h["vs"])
            big = 1 + max(abs(x) for v in h["vs"] for x in v) + max([abs(x) for j in h["js"] for r in j for x in r] + [0])
            occ = [t for t in range(nv) if h["js"][t]]
            rest = [t for t in range(nv) if not h["js"][t]]
            rng.shuffle(rest)
            for t in occ + rest[:2]:
                j = nums(flat(h["js"][t]))
                out.append('ck(%d, "jacobian(x%d)", dense(e.jacobian(x%d)), %d, %s);' % (step, t + 1, t + 1, rows, j))
            for t in range(nv):
                j = nums(flat(h["js"][t]))
                out.append('ck(%d, "dynamic Jacobian x%d", wave::internal::evaluateDynamicJacobian(e, x%d), %d, %s);' % (
                    step, t + 1, t + 1, rows, j))
            for t in rng.sample(occ, min(len(occ), 2)) + rest[:1]:
                out.append('ck(%d, "numerical Jacobian x%d", dense(wave::evaluateNumericalJacobian(e, x%d)), %d, %s, %g);' % (
                    step, t + 1, t + 1, rows, nums(flat(h["js"][t])), 1e-6 * big))
            sel = rng.sample(range(nv), rng.choice([2, 3]))
            out.append("{ auto r = e.evalWithJacobians(%s); auto u = std::get<0>(r);" % ", ".join("x%d" % (t + 1) for t in sel))
            see(step, "u", h["vs"])
            for n, t in enumerate(sel):
                out.append('ck(%d, "evalWithJacobians x%d", dense(std::get<%d>(r)), %d, %s);' % (
                    step, t + 1, n + 1, rows, nums(flat(h["js"][t]))))
            out.append("}")
            w = PACK % ", ".join("eval(%s)" % arg(i) for i in h["a"])
            out.append('ckb(%d, "isApprox", eval(e).isApprox(eval(%s), 1e-9), true);' % (step, w))
            out.append("}")
            keep(h, step, e if rng.random() < 0.5 else PACK % ", ".join(arg(i) for i in h["a"]))
        elif c == "pm":
            e = "(o%d %s o%d)" % (h["a"][0], "+" if h["s"] == 1 else "-", h["a"][1])
            out.append("{ auto v = eval(%s);" % e)
            see(step, "v", h["vs"])
            out.append("}")
            keep(h, step, e)
        elif c == "pp":
            p = PACK % ", ".join(arg(i) for i in h["a"])
            o = "o%d" % h["o"] if rng.random() < 0.6 else "copy(o%d)" % h["o"]
            e = "(%s %s %s)" % (p if h["first"] else o, "+" if h["s"] == 1 else "-", o if h["first"] else p)
            out.append("{ auto v = eval(%s);" % e)
            see(step, "v", h["vs"])
            out.append("}")
            keep(h, step, e)
        elif c == "set":
            out.append("o%d.get<%d>() = %s;" % (h["o"], h["m"] - 1, arg(h["i"])))
            descr.append(out[-1])
        elif c == "copy":
            o, p, t = h["o"], h["p"], ctype(objs[h["p"] - 1])
            out.append({"copy": "o%d = o%d;" % (o, p), "move": "{ auto t = o%d; o%d = std::move(t); }" % (p, o),
                        "build": "{ const %s t{o%d}; %s u{copy(t)}; o%d = %s{std::move(u)}; }" % (t, p, t, o, t)}[h["how"]])
            descr.append(out[-1])
        elif c == "swap":
            idx = list(range(h["len"]))
            idx[h["m"] - 1], idx[h["n"] - 1] = idx[h["n"] - 1], idx[h["m"] - 1]
            out.append("o%d = %s;" % (h["o"], PACK % ", ".join("o%d.get<%d>()" % (h["o"], m) for m in idx)))
            descr.append(out[-1])
        elif c == "cmp":
            out.append('ckb(%d, "o%d.isApprox(o%d)", o%d.isApprox(o%d, 1e-9), %s);' % (
                step, h["o"], h["p"], h["o"], h["p"], "true" if h["r"] else "false"))
    for m, o in enumerate(b["obj"], 1):
        see(99, "o%d" % m, o["vs"])
    return prog.Prog(pid, "\n".join(out) + "\n", "; ".join(descr))


def score(b):
    h = b["hist"]
    return sum({"pack": 3, "pm": 2, "pp": 2, "swap": 3, "copy": 1, "set": 1, "cmp": 1}.get(x["c"], 0) for x in h) + \
        sum(len(set(x["ks"])) for x in h if x["c"] == "pack") + len(b["obj"])


def run(chk, traces, use, steps, per_tu=3):
    rng = random.Random(chk.seed)
    base.warm(chk, "pack.hpp", ["-O1"], ["-O1", "-DWV_FRAMED"])
    sims = [pool.submit(tlc, chk, "Compound", CFG % steps, simulate=traces // 6, depth=8 * steps + 20,
                        seed=chk.seed * 7 + i, tag="Compound%d" % i) for i in range(6)]
    bs = [r for s in sims for r in s.result()[0]]
    bs.sort(key=lambda b: -score(b))
    ps = [program(i + 1, b, rng) for i, b in enumerate(bs[:use])]
    chk.notes["behaviours_generated"] = len(bs)
    half = [ps[0::2], ps[1::2]]

    base.parallel(lambda: prog.run(chk, "pack.hpp", half[0], ["-O1"], per_tu, "cu", "compounds"),
                  lambda: prog.run(chk, "pack.hpp", half[1], ["-O1", "-DWV_FRAMED"], per_tu, "cf", "compounds (framed)"))
