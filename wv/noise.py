"""Noise models (NoiseRun.tla)."""
import random
from . import base, prog
from .base import tlc, pool
from .prog import nums, flat

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
INVARIANTS Sound Diagonals Emit
"""
F3 = "wave::%s<Eigen::Matrix<float, %d, 1>>"
LEAVES = {1: ["LS"], 2: ["Pack<LS, LS>"], 3: ["LV", "LP", "LW", "LR", "LQ", "LA", "Pack<LS, LS, LS>", F3 % ("Translation", 3)],
          4: ["Pack<LS, LV>", "Pack<LW, LS>"], 6: ["LX", "LT", "LU", "Pack<LV, LW>", F3 % ("Twist", 6)],
          7: ["Pack<LX, LS>", "Pack<LV, LS, LP>"], 9: ["Pack<LV, LX>", "Pack<LX, LW>"]}


def program(pid, b, rng):
    out, descr, leaves, isfull, info = [], [], [], [], []
    seen = []

    def see(step, n):
        h, scale, leaf = info[n]
        x = "n%d" % (n + 1)
        tol = 1e-3 if "float" in leaf else 1e-9
        out.append('noise(%d, "%s", %s, %d, %s, %s, %r, %g);' % (step, x, x, h["s"], nums(flat(h["cov"])), nums(flat(h["inv16"])), scale, tol))
    for step, h in enumerate(b, 1):
        x = "n%d" % (len(leaves) + 1)
        if h["c"] == "build":
            scale = rng.choice([1.0, 1.0, 0.25, 2.0, 1e-3, 30.0])
            leaf = rng.choice(LEAVES[h["s"]])
            n, t = h["s"], "float" if "float" in leaf else "double"
            if t == "float":
                scale = 1.0
            std = [s * scale for s in h["std"]]
            if h["how"] == "full":
                m = "Eigen::Matrix<%s, %d, %d>" % (t, n, n)
                out.append("%s c%d = filled(%d, %d, %s).cast<%s>();" % (m, step, n, n, nums([v * scale * scale for v in flat(h["cov"])]), t))
                c = "c%d" % step
                form = rng.choice(["{c}", "{c}", "{m}{{{c}}}", "({c} + {c}) / 2", "{c}.transpose()", "({m}::Identity() * {c})",
                                   "wave::BlockMatrix<{l}, {l}>{{{c}}}", "copy({c})", "({c} * 1)"]).format(c=c, m=m, l=leaf)
                if h["diag"] and rng.random() < 0.3:
                    form = "%s{c%d.diagonal().asDiagonal()}" % (m, step)
                text = "wave::FullNoise<%s>::FromCovariance(%s)" % (leaf, form)
                isfull.append(True)
            else:
                v = "Eigen::Matrix<%s, %d, 1>" % (t, n)
                if h["how"] == "params" and n <= 4:
                    ps = ["%d" % s if s == int(s) and rng.random() < 0.2 else ("%rf" if t == "float" else "%r") % s for s in std]
                    a = ", ".join(ps)
                else:
                    out.append("%s s%d = filled(%d, 1, %s).cast<%s>();" % (v, step, n, nums(std), t))
                    a = rng.choice(["s%d", "s%d", "copy(s%d)", "2 * s%d / 2", "s%d.cwiseProduct(s%d).cwiseQuotient(s%d)",
                                    "(s%d + s%d) / 2", "1 * s%d", "s%d.transpose().transpose()", "once(s%d)"])
                    a = a.replace("%d", str(step))
                text = "wave::DiagonalNoise<%s>::FromStdDev(%s)" % (leaf, a)
                isfull.append(False)
            leaves.append(leaf)
            info.append((h, scale, leaf))
            out.append("const auto %s = %s;" % (x, text))
            t1 = text
            if rng.random() < 0.5:
                out.append('ck(%d, "covariance of temporary", dense(%s.covariance()), %d, %s, %g);' % (
                    step, t1, n, nums([v * scale * scale for v in flat(h["cov"])]), (1e-3 if t == "float" else 1e-9) * max(1, scale * scale)))
            descr.append(out[-1] if not out[-1].startswith("ck") else text)
            # the two models of the same diagonal covariance agree
            if h["diag"]:
                o = ("wave::DiagonalNoise<%s>::FromStdDev(filled(%d, 1, %s).cast<%s>())" % (leaf, n, nums(std), t)) if isfull[-1] else \
                    "wave::FullNoise<%s>::FromCovariance(%s)" % (leaf, "Eigen::Matrix<%s, %d, %d>(filled(%d, %d, %s).cast<%s>())" % (
                        t, n, n, n, n, nums([v * scale * scale for v in flat(h["cov"])]), t))
                out.append('{ const auto other = %s; agree(%d, "%s and the other model", %s, other, %g); }' % (
                    o, step, x, x, 1e-3 if t == "float" else 1e-9))
        else:
            m = h["m"]
            y = "n%d" % m
            leaf = leaves[m - 1]
            model = "FullNoise" if isfull[m - 1] else "DiagonalNoise"
            out.append({"copy": "const auto {x} = {y};", "move": "auto t{s} = {y}; const auto {x} = std::move(t{s});",
                        "uncertain": "const auto u{s} = wave::Uncertain<{l}, wave::{m}>{{{l}{{}}, {y}}}; const auto {x} = u{s}.noise;",
                        "heap": "const std::unique_ptr<wave::{m}<{l}>> p{s}{{new wave::{m}<{l}>({y})}}; const auto &{x} = *p{s};",
                        }[h["how"]].format(x=x, y=y, s=step, l=leaf, m=model))
            descr.append(out[-1])
            leaves.append(leaf)
            isfull.append(isfull[m - 1])
            info.append(info[m - 1])
        see(step, len(leaves) - 1)
    for n in range(len(leaves)):
        see(99, n)
    return prog.Prog(pid, "\n".join(out) + "\n", "; ".join(descr))


def run(chk, traces, use, steps, per_tu=3):
    rng = random.Random(chk.seed)
    base.warm(chk, "noise.hpp", ["-O1"], ["-O1", "-DWV_FRAMED"])
    sims = [pool.submit(tlc, chk, "NoiseRun", CFG % steps, simulate=traces // 6, depth=60 * steps,
                        seed=chk.seed * 7 + i, tag="Noise%d" % i) for i in range(6)]
    bs = [r for s in sims for r in s.result()[0]]

    def score(b):
        return len({(h["s"], h["how"], sum(v != 0 for r in h["cov"] for v in r)) for h in b if h["c"] == "build"}) + \
            sum(3 for h in b if h["c"] == "build" and not h["diag"])
    bs.sort(key=lambda b: -score(b))
    chk.notes["behaviours_generated"] = len(bs)
    ps = [program(i + 1, b, rng) for i, b in enumerate(bs[:use])]

    half = [ps[0::2], ps[1::2]]
    base.parallel(lambda: prog.run(chk, "noise.hpp", half[0], ["-O1"], per_tu, "nz", "noise models"),
                  lambda: prog.run(chk, "noise.hpp", half[1], ["-O1", "-DWV_FRAMED"], per_tu, "nf", "noise models (framed)"))
