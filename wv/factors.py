"""Factors (Factors.tla)."""
import random
from . import prog, base
from .base import tlc, pool
from .compound import form
from .prog import nums, flat

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
INVARIANTS Shapes Sound Emit
"""
BASE = {"V": "TranslationBase", "P": "PointBase", "W": "RelativeRotationBase", "X": "TwistBase", "R": "RotationBase",
        "T": "RigidTransformBase"}
# types of parameter objects; the variables store the first
TYPES = {"V": ["LV", "LV", "F3<wave::Translation<MapV3>>"], "P": ["LP", "LP", "F2<wave::Point<MapV3>>"],
         "W": ["LW", "LW", "F3<wave::RelativeRotation<MapV3>>"], "X": ["LX", "LX", "F3<wave::Twist<MapV6>>"],
         "R": ["LR", "LQ", "LA", "F2<wave::MatrixRotation<Map33>>"], "T": ["LT", "LT", "LU", "F2<wave::MatrixRigidTransform<Map44>>"]}
SIZE = {"V": 3, "P": 3, "W": 3, "X": 6, "R": 9, "T": 16}
MAPS = {"V": "MapV3", "P": "MapV3", "W": "MapV3", "X": "MapV6", "R": "Map33", "T": "Map44"}
COND = "%s"


def functor(name, h, rng):
    """Source of a measurement functor"""
    np = len(h["ps"])
    names = ["p%d.derived()" % (i + 1) for i in range(np)]
    for b in h["body"]:
        if b["o"] == "lit":
            names.append("temp<LV>(%s)" % nums([[1, 2, 3], [-2, 0, 1], [0, 0, 4]][b["n"] - 1]))
        else:
            names.append(form(b, [names[i - 1] for i in b["a"]]))
    outs = [names[i - 1] for i in h["outs"]]
    if max(len(o) for o in outs) > 600:
        return None
    e = outs[0] if len(outs) == 1 else "wave::internal::makeCompound<wv::Pack>(%s)" % ", ".join(outs)
    ts = ", ".join("typename T%d" % (i + 1) for i in range(np))
    ps = ", ".join("const wave::%s<T%d> &p%d" % (BASE[k], i + 1, i + 1) for i, k in enumerate(h["ps"]))
    return "struct %s {\n    template <%s>\n    auto operator()(%s) const {\n        return %s;\n    }\n};\n" % (name, ts, ps, e), e


def program(pid, b, rng):
    out, descr, pre = [], [], []
    init = b["hist"][0]
    var, par = [dict(v) for v in init["var"]], [dict(v) for v in init["par"]]
    kinds = {}
    for i, v in enumerate(var, 1):
        out.append("auto v%d = std::make_shared<wave::FactorVariable<%s>>();" % (i, TYPES[v["k"]][0]))
        out.append("v%d->value() = temp<%s>(%s);" % (i, TYPES[v["k"]][0], nums(flat(v["v"]))))
    for i, p in enumerate(par, 1):
        t = rng.choice(TYPES[p["k"]])
        k = p["k"]
        if "Map" in t:
            out.append("double m%d[%d] = {}; %s q%d{%s{m%d}};" % (i, SIZE[k], t, i, MAPS[k], i))
            out.append("q%d = temp<%s>(%s);" % (i, TYPES[k][0], nums(flat(p["v"]))))
            kinds[i] = TYPES[k][0]
        else:
            out.append("%s q%d = temp<%s>(%s);" % (t, i, t, nums(flat(p["v"]))))
            kinds[i] = t

    def stored(step, i):
        """The values of variable i, as they are seen through it"""
        v = var[i - 1]
        out.append('stored(%d, "v%d", *v%d, %s);' % (step, i, i, nums(flat(v["v"]))))
    facs = {}
    for step, h in enumerate(b["hist"][1:], 1):
        c = h["c"]
        if c == "fun":
            r = functor("Fun%d_%d" % (pid, h["f"]), h, rng)
            if r is None:
                return None
            pre.append(r[0])
            descr.append("functor %d(%s): %s" % (h["f"], ", ".join(h["ps"]), r[1]))
        elif c == "fac":
            n = len(facs) + 1
            facs[n] = h
            ks = h["ks"]
            leaf = "L" + ks[0] if len(ks) == 1 else "Pack<%s>" % ", ".join("L" + k for k in ks)
            zs = ["temp<L%s>(%s)" % (k, nums(z)) for k, z in zip(ks, h["z"])]
            z = zs[0] if len(ks) == 1 else "%s{wave::internal::makeCompound<wv::Pack>(%s)}" % (leaf, ", ".join(zs))
            dim = len(h["std"])
            if h["full"]:
                noise = "wave::FullNoise<%s>::FromCovariance(Eigen::Matrix<double, %d, %d>(filled(%d, %d, %s)))" % (
                    leaf, dim, dim, dim, dim, nums(flat(h["cov"])))
            else:
                noise = "wave::DiagonalNoise<%s>::FromStdDev(Eigen::Matrix<double, %d, 1>(filled(%d, 1, %s)))" % (
                    leaf, dim, dim, nums(h["std"]))
            out.append("const auto u%d = wave::Uncertain<%s, wave::%sNoise>{%s, %s};" % (
                n, leaf, "Full" if h["full"] else "Diagonal", z, noise))
            out.append("const auto g%d = wave::makeFactor<Fun%d_%d>(u%d, %s);" % (n, pid, h["f"], n, ", ".join("v%d" % i for i in h["vs"])))
            out.append("const auto f%d = g%d;" % (n, n) if rng.random() < 0.3 else "const auto &f%d = g%d;" % (n, n))
            out.append('listed(%d, "factor %d", f%d, {%s});' % (step, n, n, ", ".join("v%d.get()" % i for i in h["vs"])))
            descr.append("factor %d of functor %d, variables %s, measured %s, %s %s" % (
                n, h["f"], h["vs"], h["z"], "covariance" if h["full"] else "stddev", h["cov"] if h["full"] else h["std"]))
        elif c == "set":
            v = var[h["i"] - 1]
            v["v"] = h["v"]
            t = TYPES[v["k"]][0]
            if v["k"] in "VPWX" and rng.random() < 0.5:
                out.append("{ const Nums x%s; for (std::size_t i = 0; i < x.size(); ++i) v%d->data()[i] = x[i]; }" % (nums(flat(h["v"])), h["i"]))
            else:
                out.append("v%d->value() = temp<%s>(%s);" % (h["i"], t, nums(flat(h["v"]))))
            descr.append("v%d = %s" % (h["i"], h["v"]))
        elif c == "setpar":
            par[h["i"] - 1]["v"] = h["v"]
            out.append("q%d = temp<%s>(%s);" % (h["i"], kinds[h["i"]], nums(flat(h["v"]))))
            descr.append("q%d = %s" % (h["i"], h["v"]))
        elif c == "eval":
            f = h["fa"]
            args = ["v%d->value()" % i for i in h["vs"]] if h["at"] == "stored" else ["q%d" % i for i in h["a"]]
            d = h["d"]
            n = len(d)
            exact = [x / s for x, s in zip(d, h["std"])]
            out.append("{ const auto r = f%d.evaluate(%s);" % (f, ", ".join(args)))
            out.append("const auto t = f%d.evaluateWithJacobians(%s);" % (f, ", ".join(args)))
            for x in ["r", "std::get<0>(t)"]:
                if h["full"]:
                    out.append('residual(%d, "%s of factor %d", %s, u%d.noise, %s, %r);' % (step, x, f, x, f, nums(d), h["w16"] / 16))
                else:
                    out.append('ck(%d, "%s of factor %d", dense(%s), %d, %s);' % (step, x, f, x, n, nums(exact)))
            for m, j in enumerate(h["js"]):
                out.append('ck(%d, "Jacobian %d of factor %d", dense(std::get<%d>(t)), %d, %s);' % (step, m + 1, f, m + 1, n, nums(flat(j))))
            out.append("}")
            for i in h["vs"]:
                stored(step, i)
            for i in h["a"]:
                out.append('ck(%d, "q%d", column(q%d), %d, %s);' % (
                    step, i, i, len(flat(par[i - 1]["v"])), nums(flat(par[i - 1]["v"]))))
            descr.append("evaluate factor %d at %s" % (f, ", ".join(args)))
    for i in range(1, len(var) + 1):
        stored(99, i)
    return prog.Prog(pid, "\n".join(out) + "\n", "; ".join(descr), "".join(pre))


def run(chk, traces, use, steps, per_tu=2):
    rng = random.Random(chk.seed)
    base.warm(chk, "factor.hpp", ["-O1"], ["-O1", "-DWV_FRAMED"])
    sims = [pool.submit(tlc, chk, "Factors", CFG % steps, simulate=traces // 6, depth=60 * steps,
                        seed=chk.seed * 7 + i, tag="Factors%d" % i) for i in range(6)]
    bs = [r for s in sims for r in s.result()[0]]
    chk.notes["behaviours_generated"] = len(bs)

    def keys(b):
        fs, gs, ks = {}, {}, set()
        for h in b["hist"]:
            if h["c"] == "fun":
                fs[h["f"]] = h
            elif h["c"] == "fac":
                gs[len(gs) + 1] = h
            elif h["c"] == "eval":
                g = gs[h["fa"]]
                f = fs[g["f"]]
                np = len(f["ps"])
                todo, used = list(f["outs"]), set()
                while todo:
                    i = todo.pop()
                    if i > np and i not in used:
                        todo += f["body"][i - np - 1]["a"]
                    used.add(i)
                ops = [(f["body"][i - np - 1]["o"],) + tuple(f["es"][x - 1] for x in f["body"][i - np - 1]["a"]) for i in used if i > np]
                ks |= {("op",) + o for o in ops} | {("ops", len(set(ops)), np), ("out", tuple(g["ks"]), g["full"]),
                       ("ps", tuple(f["ps"]), h["at"]), ("shared", len(g["vs"]) - len(set(g["vs"]))),
                       ("n", np, sum(i <= np for i in used), len(f["outs"]))}
                ks |= {("op2", o, q) for o in ops for q in ops if o < q}
        return ks
    kk = [(b, keys(b)) for b in bs]
    ps, seen = [], {}
    while kk and len(ps) < use:
        n = max(range(len(kk)), key=lambda i: sum(1.0 / (1 + 3 * seen.get(k, 0)) for k in kk[i][1]))
        b, ks = kk.pop(n)
        p = program(len(ps) + 1, b, rng)
        if p:
            ps.append(p)
            for k in ks:
                seen[k] = seen.get(k, 0) + 1
    chk.notes["distinct_features"] = len(seen)
    half = [ps[0::2], ps[1::2]]
    base.parallel(lambda: prog.run(chk, "factor.hpp", half[0], ["-O1"], per_tu, "fa", "factors"),
                  lambda: prog.run(chk, "factor.hpp", half[1], ["-O1", "-DWV_FRAMED"], per_tu, "ff", "factors (framed)"))
