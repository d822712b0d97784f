"""Structured matrices (Matrices.tla)."""
import random
from . import base, prog
from .base import tlc, pool
from .prog import nums, flat

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
  MaxPool = 30
INVARIANTS CrossIsCross BlocksTile Forms Emit
"""
LAYOUTS = [([3, 1, 6], [1, 6, 3]), ([3, 3], [3, 3]), ([1, 3], [1]), ([3, 3, 1], [6, 1, 3, 1]), ([6, 1], [3]), ([3], [3, 3])]
LEAVES = {3: ["LV", "LW"], 1: ["LS"], 6: ["LX"]}
HOW = {"set": "=", "add": "+=", "sub": "-="}
WIDTH = [3, 1, 6, 2]


def layout(sizes, n, twist=False):
    if twist:
        return "LX"     # a twist has blocks of its own
    ts = [LEAVES[s][i % len(LEAVES[s])] for i, s in enumerate(sizes)]
    if len(ts) > 1:
        return "Pack<%s>" % ", ".join(ts)
    return "double" if ts == ["LS"] and n else ts[0]


def program(pid, b, rng):
    out, descr = [], []
    names, inline, forms, shapes = [], [], [], []

    def shape(m):
        return len(m), len(m[0])

    def ck(step, what, text, m):
        out.append('ck(%d, "%s", dense(%s), %d, %s);' % (step, what, text, len(m), nums(flat(m))))

    def mtype(f, m):
        return "Eigen::MatrixXd" if f == "d" else "Eigen::Matrix<double, %d, %d>" % shape(m)

    def add(f, m, text, full, step):
        """A new entry whose value is the expression text; full: the expression over variables"""
        n = "e%d" % (len(names) + 1)
        if f in "xi":
            out.append("auto %s = %s;" % (n, text))
        else:
            out.append("%s %s = %s;" % (mtype(f, m), n, text))
        if step:
            ck(step, "%s = %s" % (n, full), n, m)
            descr.append("%s = %s" % (n, text))
        names.append(n)
        inline.append(full)
        forms.append(f)
        shapes.append(shape(m))

    def arg(i, named=False):
        if named or inline[i - 1] is None or shapes[i - 1] == (1, 1) or rng.random() < 0.5:
            return names[i - 1]
        return inline[i - 1]

    def static(i):
        return forms[i - 1] != "d"

    def express(h, named=False):
        a = [arg(i, named) for i in h["a"]]
        o = h["o"]
        i = h["a"][0]
        r, c = shapes[i - 1]
        if o == "cross":
            return "wave::crossMatrix(%s)" % a[0]
        if o == "uncross":
            return "wave::uncrossMatrix(%s)" % a[0]
        if o == "neg":
            return "(-%s)" % a[0]
        if o == "trans":
            return "(%s).transpose()" % a[0]
        if o == "kmul":
            return "(%d.0 * %s)" % (h["n"], a[0])
        if o == "mulk":
            return "(%s * %d.0)" % (a[0], h["n"])
        if o == "left2":
            return ("(%s).leftCols<2>()" if rng.random() < 0.5 else "(%s).leftCols(2)") % a[0]
        if o == "low2":
            return ("(%s).bottomRows<2>()" if rng.random() < 0.5 else "(%s).bottomRows(2)") % a[0]
        return "(%s %s %s)" % (a[0], {"mul": "*", "add": "+", "sub": "-"}[o], a[1])

    init = b["hist"][0]
    for e in b["init"]:
        r, c = shape(e["m"])
        n = "e%d" % (len(names) + 1)
        if e["f"] == "i":
            out.append("wave::IdentityMatrix<double, %d> %s;" % (r, n))
        else:
            out.append("const %s %s = filled(%d, %d, %s);" % (mtype(e["f"], e["m"]), n, r, c, nums(flat(e["m"]))))
        names.append(n)
        inline.append(None)
        forms.append(e["f"])
        shapes.append((r, c))
    for l, (ls, rs) in enumerate(LAYOUTS):
        m = init["blk"][l]
        out.append("wave::BlockMatrix<%s, %s> b%d = filled(%d, %d, %s);" % (
            layout(ls, 0, l == 1), "LT" if l == 5 else layout(rs, 1), l + 1, len(m), len(m[0]), nums(flat(m))))
    out.append("wave::DiagonalBlockMatrix<Pack<LV, LS>> dg; dg.diagonal() = filled(4, 1, %s);" % nums(init["dg"]))
    ks = list(range(4))
    rng.shuffle(ks)
    dup = ks + rng.sample(ks, 2)
    if rng.random() < 0.5:
        ks = dup
    out.append("const std::vector<std::pair<int, int>> widths{%s};" % ", ".join("{%d, %d}" % (k + 1, WIDTH[k]) for k in ks))
    out.append("wave::MatrixMap<int, double> map(widths.begin(), widths.end(), 3); const auto &cmap = map;")
    for k in range(4):
        out.append("map.at(%d) = filled(3, %d, %s);" % (k + 1, WIDTH[k], nums(flat(init["map"][k]))))
    cur = {k: init["map"][k] for k in range(4)}
    for step, h in enumerate(b["hist"][1:], 1):
        c = h["c"]
        if c == "op":
            keep = h["f"] in "xi"
            text = express(h, named=keep or h["o"] == "uncross")     # of static size
            full = express(h, named=True)
            if h["o"] == "trans" or (h["f"] == "d" and h["o"] in ("left2", "low2")):
                text = full = express(h, named=True)
            add(h["f"], h["m"], text, full, step)
        elif c in ("write", "read"):
            l, i, j = h["l"], h["i"], h["j"]
            ls, rs = LAYOUTS[l - 1]

            def part(obj):
                if i and j:
                    return "%s.blockWrt<%d, %d>()" % (obj, i - 1, j - 1)
                if i:
                    return "%s.rowsWrt<%d>()" % (obj, i - 1)
                return "%s.colsWrt<%d>()" % (obj, j - 1)
            if c == "write":
                p, v, how = part("b%d" % l), h["v"], h["how"]
                if how == "lmul":
                    s = "%s = (%s * %s);" % (p, arg(v), p)
                elif how == "rmul":
                    s = "%s = (%s * %s);" % (p, p, arg(v))
                elif how == "neg":
                    s = "%s = -%s;" % (p, p)
                else:
                    s = "%s %s %s;" % (p, HOW[how], arg(v))
                out.append(s)
                descr.append(s)
                ck(step, s, "b%d" % l, h["m"])
            else:
                out.append("const auto &c%d = b%d;" % (step, l))
                p = part(rng.choice(["b%d" % l, "c%d" % step]))
                t = p if h["v"] == 0 else "(%s * %s)" % (p, arg(h["v"]))
                add("m", h["m"], t, None, step)
        elif c == "zero":
            out.append("b%d.setZero();" % h["l"])
            descr.append(out[-1])
        elif c == "mapwrite":
            p = ("map.at(%d)" if rng.random() < 0.6 else "map[%d]") % h["k"]
            v = arg(h["v"])
            s = "%s = (%s * %s);" % (p, v, p) if h["how"] == "lmul" else "%s %s %s;" % (p, HOW[h["how"]], v)
            out.append(s)
            descr.append(s)
        elif c == "mapzero":
            out.append("map.setZero();")
            descr.append(out[-1])
        elif c == "mapread":
            p = rng.choice(["map.at(%d)", "map[%d]", "cmap.at(%d)", "cmap[%d]"]) % h["k"]
            add("d", h["m"], p, None, step)
            k = rng.choice([0, 5, 17])
            out.append('ckb(%d, "count of a key", cmap.count(%d) == 1, true);' % (step, h["k"]))
            out.append('ckb(%d, "count of another key", cmap.count(%d) == 0, true);' % (step, k))
            out.append('ckb(%d, "at of another key throws", throws([&] { %s.at(%d); }), true);' % (
                step, rng.choice(["map", "cmap"]), k))
        elif c == "dset":
            out.append("dg.segmentWrt<%d>() = filled(%d, 1, %s);" % (h["i"] - 1, len(h["seg"]), nums(h["seg"])))
            descr.append(out[-1])
            out.append('ck(%d, "diagonal", dense(dg.diagonal()), 4, %s);' % (step, nums(h["m"])))
        elif c == "dmul":
            v = arg(h["v"])
            add("m", h["m"], "(dg * %s)" % v if h["left"] else "(%s * dg)" % v, None, step)
    for l, (ls, rs) in enumerate(LAYOUTS):
        m = b["blk"][l]
        ck(99, "b%d" % (l + 1), "b%d" % (l + 1), m)
        r0 = 0
        out.append("const auto &f%d = b%d;" % (l + 1, l + 1))
        for i, r in enumerate(ls):
            c0 = 0
            for j, cc in enumerate(rs):
                if i == 0:
                    ck(99, "columns", "%s%d.colsWrt<%d>()" % (rng.choice("bf"), l + 1, j), [x[c0:c0 + cc] for x in m])
                ck(99, "block", "%s%d.blockWrt<%d, %d>()" % (rng.choice("bf"), l + 1, i, j),
                   [x[c0:c0 + cc] for x in m[r0:r0 + r]])
                c0 += cc
            ck(99, "rows", "%s%d.rowsWrt<%d>()" % (rng.choice("bf"), l + 1, i), m[r0:r0 + r])
            r0 += r
    for k in range(4):
        ck(99, "map %d" % (k + 1), "%s.at(%d)" % (rng.choice(["map", "cmap"]), k + 1), b["map"][k])
    ck(99, "diagonal matrix", "dg", [[b["dg"][i] if i == j else 0 for j in range(4)] for i in range(4)])
    for i, (e, n) in enumerate(zip(b["init"], names)):
        ck(99, n, n, e["m"])
    for i, h in enumerate(h for h in b["hist"][1:] if h["c"] in ("op", "read", "mapread", "dmul")):
        if not (h["c"] == "op" and h["f"] in "i"):
            ck(99, names[11 + i], names[11 + i], h["m"])
    return prog.Prog(pid, "\n".join(out) + "\n", "; ".join(descr))


def run(chk, traces, use, steps, per_tu=3):
    rng = random.Random(chk.seed)
    base.warm(chk, "pack.hpp", ["-O1"])
    sims = [pool.submit(tlc, chk, "Matrices", CFG % (steps + 1), simulate=traces // 6, depth=8 * steps + 20,
                        seed=chk.seed * 7 + i, tag="Matrices%d" % i) for i in range(6)]
    bs = [r for s in sims for r in s.result()[0]]
    # every operation on every pair of forms as evenly as the behaviours allow
    seen, chosen, rest = {}, [], list(bs)

    def keys(b):
        f = [e["f"] + "%dx%d" % (len(e["m"]), len(e["m"][0])) for e in b["init"]]
        ks = set()
        for h in b["hist"][1:]:
            if h["c"] == "op":
                ks.add((h["o"],) + tuple(f[i - 1] for i in h["a"]))
            elif h["c"] in ("write", "read"):
                ks.add((h["c"], h["l"], h["i"], h["j"], h.get("how"), f[h["v"] - 1] if h["v"] else ""))
            else:
                ks.add((h["c"], h.get("k"), h.get("how"), h.get("left"), h.get("i")))
            if h["c"] in ("op", "read", "mapread", "dmul"):
                m = h["m"]
                f.append(h.get("f", "m") + "%dx%d" % (len(m), len(m[0])))
        return ks
    kk = [(b, keys(b)) for b in rest]
    while kk and len(chosen) < use:
        n = max(range(len(kk)), key=lambda i: sum(1.0 / (1 + 3 * seen.get(k, 0)) for k in kk[i][1]))
        b, ks = kk.pop(n)
        chosen.append(b)
        for k in ks:
            seen[k] = seen.get(k, 0) + 1
    chk.notes["behaviours_generated"] = len(bs)
    chk.notes["distinct_statement_forms"] = len(seen)
    ps = [program(i + 1, b, rng) for i, b in enumerate(chosen)]
    prog.run(chk, "pack.hpp", ps, ["-O1"], per_tu, "mx", "structured matrices")
