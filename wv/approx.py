"""Approximate comparison (Approx.tla)."""
import math
import random
from . import base, prog
from .base import tlc, pool
from .compound import form, PACK
from .prog import nums

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
  MaxPool = 26
INVARIANTS Symmetric Monotone Triangle Emit
"""
REPS = {"R": ["LR", "LQ", "LA"], "T": ["LT", "LU"], "V": ["LV"], "P": ["LP"], "W": ["LW"], "X": ["LX"], "S": ["LS"]}


def matmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def expm(m):
    """Exponential of a small matrix"""
    n = len(m)
    s = [[float(i == j) for j in range(n)] for i in range(n)]
    t = [r[:] for r in s]
    for k in range(1, 8):
        t = [[x / k for x in r] for r in matmul(t, m)]
        s = [[x + y for x, y in zip(a, b)] for a, b in zip(s, t)]
    return s


def moved(k, v, d, eps):
    """Value v moved by d units of eps"""
    if k not in "RT":
        return [a + eps * b for a, b in zip(v, d)]
    w = [eps * x for x in d[:3]]
    t = [eps * x for x in d[3:]] or [0.0] * 3
    e = expm([[0, -w[2], w[1], t[0]], [w[2], 0, -w[0], t[1]], [-w[1], w[0], 0, t[2]], [0, 0, 0, 0]])
    rot = v["R"] if k == "T" else v
    tr = v["t"] if k == "T" else [0, 0, 0]
    m = matmul(e, [list(map(float, r)) + [float(x)] for r, x in zip(rot, tr)] + [[0.0, 0.0, 0.0, 1.0]])
    out = [m[i][j] for i in range(3) for j in range(3)]
    return out + ([m[i][3] for i in range(3)] if k == "T" else [])


def program(pid, b, rng):
    eps = rng.choice([1e-7, 1e-8])
    out, descr = [], ["unit %g" % eps]
    names, inline = [[], []], [[], []]
    kinds = []
    for i, v in enumerate(b["vals"], 1):
        for s in range(2):
            rep = rng.choice(REPS[v["k"]])
            x = "x%d%s" % (i, "ab"[s])
            out.append("%s %s = temp<%s>(%s);" % (rep, x, rep, nums(moved(v["k"], v["v"], v["d"][s], eps))))
            descr.append("%s %s = %s moved by %s" % (rep, x, prog.flat(v["v"]), v["d"][s]))
            names[s].append(x)
            inline[s].append(x)
        kinds.append(v["k"])

    def arg(i, s):
        return rng.choice([names, inline])[s - 1][i - 1]

    def comparand(i, s):
        """an entry as an expression, its value, or as a value in some representation"""
        a, k = arg(i, s), kinds[i - 1]
        r = rng.random()
        if r < 0.4:
            return a
        if r < 0.7 or k not in "RT":
            return "eval(%s)" % a
        return "%s{%s}" % (rng.choice(REPS[k]), a)

    def prec(p):
        return {"u": ", %r" % (p["q"] * eps / 2), "r": ", %d.0 / %d" % (p["q"], p["d"]), "d": ""}[p["c"]]
    for step, h in enumerate(b["hist"], 1):
        c = h["c"]
        if c == "op":
            kinds.append(h["k"])
            n = len(names[0]) + 1
            for s in range(2):
                e = form(h, [arg(i, s + 1) for i in h["a"]])
                x = "e%d%s" % (n, "ab"[s])
                out.append("auto %s = %s;" % (x, e))
                descr.append("%s = %s" % (x, e))
                full = form(h, [inline[s][i - 1] for i in h["a"]])
                names[s].append(x)
                inline[s].append(full if len(full) < 150 else x)
            continue
        if c == "cmp":
            i, j = h["a"]
            s, t = h["s"]
            q = "%s.isApprox(%s%s)" % (comparand(i, s), comparand(j, t), prec(h["p"]))
        elif c == "zero":
            i, s = h["a"][0], h["s"][0]
            q = "%s.isZero(%s)" % (rng.choice(["%s", "eval(%s)"]) % arg(i, s), prec(h["p"])[2:])
        else:
            p = [PACK % ", ".join(rng.choice(["%s", "eval(%s)"]) % arg(i, s) for i, s in zip(h["a"], h[x])) for x in "st"]
            q = "%s.isApprox(%s%s)" % (rng.choice(["%s", "eval(%s)"]) % p[0], rng.choice(["%s", "eval(%s)"]) % p[1], prec(h["p"]))
        out.append('ckb(%d, "%s", %s, %s);' % (step, q, q, "true" if h["r"] == "t" else "false"))
        descr.append("%s -> %s" % (q, h["r"]))
    return prog.Prog(pid, "\n".join(out) + "\n", "; ".join(descr))


def run(chk, traces, use, steps, per_tu=3):
    rng = random.Random(chk.seed)
    base.warm(chk, "pack.hpp", ["-O1"], ["-O1", "-DWV_FRAMED"])
    sims = [pool.submit(tlc, chk, "Approx", CFG % steps, simulate=traces // 6, depth=8 * steps + 20,
                        seed=chk.seed * 7 + i, tag="Approx%d" % i) for i in range(6)]
    bs = [r for s in sims for r in s.result()[0]]

    def keys(b):
        return {(h["c"], h.get("k") or tuple(h["ks"]), h["p"]["c"], h["r"], h["a"][0] == h["a"][-1], tuple(h["s"]))
                for h in b["hist"] if h["c"] != "op"}
    chosen, seen = [], {}
    kk = [(b, keys(b)) for b in bs]
    while kk and len(chosen) < use:
        n = max(range(len(kk)), key=lambda i: sum(1.0 / (1 + 3 * seen.get(k, 0)) for k in kk[i][1]))
        b, ks = kk.pop(n)
        chosen.append(b)
        for k in ks:
            seen[k] = seen.get(k, 0) + 1
    chk.notes["behaviours_generated"] = len(bs)
    chk.notes["distinct_comparison_kinds"] = len(seen)
    ps = [program(i + 1, b, rng) for i, b in enumerate(chosen)]
    half = [ps[0::2], ps[1::2]]

    base.parallel(lambda: prog.run(chk, "pack.hpp", half[0], ["-O1"], per_tu, "ap", "approximate comparison"),
                  lambda: prog.run(chk, "pack.hpp", half[1], ["-O1", "-DWV_FRAMED"], per_tu, "af", "approximate comparison (framed)"))
