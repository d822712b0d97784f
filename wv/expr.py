"""Generation, selection, oracle and replay of expressions (Gen.tla, ExprRun.tla)."""
import itertools, json, os, random
from . import base, num
from .base import tlc, pool

REPS = {"R": ["RM", "RQ", "RA", "RMm", "RQm"], "T": ["TM", "TQ", "TMm"], "V": ["V", "Vm"],
        "P": ["P", "Pm"], "W": ["W", "Wm"], "X": ["X", "Xm"], "S": ["S"]}
CREPS = {"R": ["RM", "RQ", "RA"], "T": ["TM", "TQ"], "V": ["V"], "P": ["P"], "W": ["W"], "X": ["X"]}
TYPES = {"RM": "RotationM", "RQ": "RotationQ", "RA": "RotationA", "TM": "RigidTransformM",
         "TQ": "RigidTransformQ", "V": "Translation", "P": "Point", "W": "RelativeRotation",
         "X": "Twist"}
SCALARS = [(1, 2), (-2, 1), (3, 5), (3, 1), (-4, 5), (5, 2), (-1, 1), (1, 3)]
PLAIN = {"kmul", "mulk", "divk", "kdiv", "kadd", "addk", "ksub", "subk"}
ALLOPS = ["comp", "inv", "bplus", "bminus", "exp", "log", "logf", "rotof", "transof", "add", "sub",
          "neg", "nrm", "scale", "scaler", "sdiv", "kmul", "mulk", "divk", "rot", "trf", "norm",
          "sqn", "dot", "prod", "div", "acos", "kdiv", "kadd", "addk", "ksub", "subk", "const"]
DIM = {"R": 3, "T": 6, "V": 3, "P": 3, "W": 3, "X": 6, "S": 1}


class Node:
    __slots__ = ("o", "k", "f", "i", "args", "rep")

    def __init__(self, o, k, f, i, args, rep=None):
        self.o, self.k, self.f, self.i, self.args, self.rep = o, k, f, i, args, rep

    def walk(self):
        yield self
        for a in self.args:
            yield from a.walk()


class Shape:
    """An expression: tree, variables (kind, frames, representation)."""

    def __init__(self, root, leaves, framed):
        self.root, self.leaves, self.framed = root, leaves, framed
        self.id = None

    def text(self):
        def go(n):
            if n.o == "leaf":
                return "%s%d" % (self.leaves[n.i - 1]["rep"], n.i)
            if n.o == "const":
                return "%s::0" % n.rep
            x = n.o if n.o not in PLAIN else "%s[%d/%d]" % ((n.o,) + SCALARS[n.i % 8])
            return "%s(%s)" % (x, ", ".join(go(a) for a in n.args))
        s = go(self.root)
        if self.framed:
            s += " frames " + " ".join("%d:%s" % (j + 1, "".join(l["f"]))
                                      for j, l in enumerate(self.leaves))
        return s

    def postfix(self):
        out = []

        def go(n):
            for a in n.args:
                go(a)
            t = {"o": "log" if n.o == "logf" else n.o, "i": n.i, "k": n.k}
            if n.o == "pack":
                t["i"] = len(n.args)
            out.append(t)
        go(self.root)
        return out

    def ops(self):
        return [n.o for n in self.root.walk() if n.o not in ("leaf", "const")]


def parse(rec, framed):
    it = iter(rec["toks"])

    def go():
        t = next(it)
        return Node(t["o"], t["k"], t["f"], t["i"], [go() for _ in range(t["n"])])
    root = go()
    return Shape(root, [dict(l, rep=None) for l in rec["leaves"]], framed)


GEN_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Frames = {%s}
  MaxBudget = %d
  RootKinds = {%s}
  Ops = {%s}
INVARIANTS Emit
"""


def q(xs):
    return ", ".join('"%s"' % x for x in sorted(xs))


def generate(chk, ops, roots, num_traces, budget=4, tag=""):
    """Random derivations of Gen.tla, unframed (one frame) and framed."""
    jobs = []
    for framed, frames in ((False, ["A"]), (True, ["A", "B", "C"])):
        cfg = GEN_CFG % (q(frames), budget, q(roots), q(ops))
        jobs.append((framed, pool.submit(tlc, chk, "Gen", cfg, simulate=num_traces, depth=60,
                                         seed=chk.seed * 7 + 1 + framed,
                                         tag="gen%s%d" % (tag, framed))))
    shapes = []
    for framed, j in jobs:
        seen = set()
        for r in j.result()[0]:
            key = json.dumps(r, sort_keys=True)
            if key not in seen:
                seen.add(key)
                shapes.append(parse(r, framed))
    return shapes


def features(s, reps=True):
    """What a shape exercises: (operation, operand position, operand), roots, sharing."""
    fs = set()
    count = {}
    for n in s.root.walk():
        if n.o == "leaf":
            count[n.i] = count.get(n.i, 0) + 1
        for j, a in enumerate(n.args):
            w = a.o
            if a.o == "leaf":
                w = s.leaves[a.i - 1]["rep"] or "leaf"
            elif a.o == "const":
                w = "0" + (a.rep or "")
            fs.add((n.o, n.k, j, w, a.k))
        if len(n.args) == 2:
            x, y = [(s.leaves[a.i - 1]["rep"] or "l") if a.o == "leaf" else
                    ("0" + (a.rep or "") if a.o == "const" else "e") for a in n.args]
            fs.add((n.o, n.k, "pair", x, y, n.args[1].k))
    fs.add(("root", s.root.o, s.root.k, s.framed))
    for i, c in count.items():
        if c > 1:
            fs.add(("shared", s.leaves[i - 1]["k"], min(c, 3), s.root.o))
    return fs


def paths(s):
    """Chains of three operations, with operand positions: the products a reverse mode forms."""
    fs = set()

    def go(n, above):
        for j, a in enumerate(n.args):
            c = above + ((n.o, n.k, j),)
            fs.add(c[-2:] + ((a.o, a.k),))
            if a.args:
                go(a, c[-1:])
    go(s.root, ())
    return fs


def unique_leaves(s):
    """Every occurrence of a variable has a type of its own."""
    ts = [(s.leaves[n.i - 1]["rep"] or s.leaves[n.i - 1]["k"], tuple(s.leaves[n.i - 1]["f"]) if s.framed else ())
          for n in s.root.walk() if n.o == "leaf"]
    return len(ts) == len(set(ts))


def assign_reps(s, rng, reps=None, creps=None):
    for l in s.leaves:
        l["rep"] = rng.choice((reps or REPS)[l["k"]])
    for n in s.root.walk():
        if n.o == "const":
            n.rep = rng.choice((creps or CREPS)[n.k])
        if n.o in PLAIN:
            n.i = rng.randrange(8)


def select(shapes, count, rng, want=None, reps=None, creps=None, accept=None, features=features):
    """Greedy choice of shapes covering the most features; representations are assigned so
    that each chosen shape adds new combinations."""
    cand = [s for s in shapes if accept is None or accept(s)]
    rng.shuffle(cand)
    covered, chosen = {}, []
    while cand and len(chosen) < count:
        best, bests = None, -1
        for idx in rng.sample(range(len(cand)), min(60, len(cand))):
            s = cand[idx]
            for _ in range(2):
                assign_reps(s, rng, reps, creps)
                fs = features(s)
                sc = sum(1.0 / (1 + 4 * covered.get(f, 0)) for f in fs)
                if want:
                    sc *= want(s)
                if sc > bests:
                    bests, best = sc, (idx, [l["rep"] for l in s.leaves],
                                       [(n, n.rep, n.i) for n in s.root.walk()])
        idx, lr, nr = best
        s = cand.pop(idx)
        for l, r in zip(s.leaves, lr):
            l["rep"] = r
        for n, r, i in nr:
            n.rep, n.i = r, i
        for f in features(s):
            covered[f] = covered.get(f, 0) + 1
        s.id = len(chosen) + 1
        chosen.append(s)
    return chosen, covered


# ------------------------------------------------------------- valuations
def leaf_choice(k, regime, rng, s=None):
    def rec(f, n=1, d=1):
        return {"f": f, "i": rng.randrange(64), "n": n, "d": d, "g": rng.randrange(48)}
    form = {"gen": "gen", "mult": "mult", "pi": "pi", "pieps": "pieps", "eps": "eps",
            "zero": "zero"}
    if regime == "mix":
        rr = rng.choice(["gen", "gen", "pi", "eps", "zero", "pieps", "mult"])
    else:
        rr = regime
    f = form[rr]
    sf = [(1, 1), (1, 2), (2, 1), (-1, 1), (1, 3)]
    if k == "R":
        return {"a": rec(f)}
    if k == "T":
        return {"a": rec(f), "b": rec("t", *rng.choice(sf))}
    if k in ("V", "P"):
        if rr == "zero" and rng.random() < 0.5:
            return {"a": rec("zero")}
        return {"a": rec("t", *rng.choice(sf))}
    if k == "W":
        # rotation vectors in closed form, or plain vectors
        if s and not s.get("expw", True) and rr in ("gen", "mult") or (rr == "gen" and rng.random() < 0.3):
            return {"a": rec("t", *rng.choice(sf))}
        return {"a": rec(f)}
    if k == "X":
        if s and not s.get("expw", True) and rr in ("gen", "mult") or (rr == "gen" and rng.random() < 0.3):
            return {"a": rec("t", *rng.choice(sf)), "b": rec("t", *rng.choice(sf))}
        return {"a": rec(f), "b": rec("t", *rng.choice(sf))}
    if k == "S":
        return {"a": rec("t", *rng.choice([(1, 1), (1, 2), (1, 3)]))}
    raise KeyError(k)


def valuations(s, rng, regimes):
    """regimes: list of regime names, one valuation each."""
    ops = s.ops()
    info = {"expw": any(o in ("exp", "bplus") for o in ops)}
    vals = []
    for r in regimes:
        vals.append([leaf_choice(l["k"], r, rng, info) for l in s.leaves])
    return vals


# ----------------------------------------------------------------- oracle
RUN_CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS OneResult Emit\n"


def oracle_chunk(chk, progs, n):
    f = chk.path("progs_%s.json" % n)
    with open(f, "w") as h:
        json.dump(progs, h)
    recs, _ = tlc(chk, "ExprRun", RUN_CFG, env={"PROGS": f}, workers=1, tag="run%s" % n)
    return recs


def oracle(chk, shapes, vals, parts=4, tag=""):
    """Exact results for every shape and valuation: {(shape id, valuation index): record}."""
    progs = [{"id": s.id, "toks": s.postfix(), "kinds": [l["k"] for l in s.leaves],
              "vals": vals[s.id]} for s in shapes]
    chunks = [progs[i::parts] for i in range(parts) if progs[i::parts]]
    futs = [pool.submit(oracle_chunk, chk, c, "%s%d" % (tag, i)) for i, c in enumerate(chunks)]
    out = {}
    for f in futs:
        for r in f.result():
            out[(r["p"], r["n"])] = r
    return out


EPSES = [1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9]


def flat(r):
    return [x for m in r for row in m for x in row]


def cases(s, r, regime, rng, negate_quat=True):
    """Text records for the harness from one oracle record (several for infinitesimals)."""
    vals = r["val"] if r["k"] == "C" else [{"k": r["k"], "val": r["val"]}]
    if not all(num.all_defined(v["val"]) for v in vals):
        return []
    if not all(num.defined(x) for l in r["leaves"] for x in l):
        return []
    eps_dep = any(num.has_eps(x) for l in r["leaves"] for x in l)
    # terms of order eps^5 are left out by the specification
    left_out = lambda e: 30 * (1 + r["big"]) * (e * (1 + r["big"])) ** 5
    epses = [1.0]
    if eps_dep:
        fine = [e for e in EPSES if left_out(e) < 3e-8]
        if not fine:
            return []
        epses = [fine[0]] + rng.sample(fine[1:], min(2, len(fine) - 1))
    out = []
    for eps in epses:
        sym = num.root_symbols(eps)
        leaves = []
        for l, c in zip(s.leaves, r["leaves"]):
            v = [num.number(x, sym) for x in c]
            if l["k"] in ("R", "T"):
                m, qt, ax, ang = num.rotation(v[:3], c[:3])
                if negate_quat and rng.random() < 0.5:
                    qt = [-x for x in qt]
                if rng.random() < 0.5 and -3.14 < ang < 3.14:
                    ax, ang = [-x for x in ax], -ang
                v = m + qt + ax + [ang] + v[3:]
            leaves.append((l["k"], v))
        values = []
        for v in vals:
            m = num.mat(v["val"], sym)
            if v["k"] == "T":
                m = [m[i] + [m[3][i]] for i in range(3)]
            elif v["k"] != "R":
                m = [[x] for x in m[0]]
            values.append(m)
        jacs = []
        for m, l in zip(r["jac"], s.leaves):
            if m == []:
                rows = sum(DIM[v["k"]] for v in vals)
                jacs.append([[0.0] * DIM[l["k"]] for _ in range(rows)])
            elif num.all_defined(m):
                jacs.append(num.mat(m, sym))
            else:
                jacs.append(None)
        mv = max([abs(x) for m in values for row in m for x in row] + [0])
        ml = max([abs(x) for l in leaves for x in l[1]] + [0])
        mj = max([abs(x) for m in jacs if m for row in m for x in row] + [0])
        tolv = 1e-9 * (1 + mv + ml) + 1e-14 * mj
        tolj = 1e-8 * (1 + mv + mj) + 1e-14 * mj * mj
        if eps_dep:
            trunc = left_out(eps)
            tolv += trunc + (1e-8 if eps <= 1e-6 else 0) * (1 + mv + ml)
            tolj += trunc + 4e-8 * (1 + mj + ml)
        if is_float(s):
            tolv = max(tolv, 4e-6 * (1 + mv + ml) + 1e-6 * mj * (1 + ml))
            tolj = max(tolj, 2e-5 * (1 + mv + mj) * (1 + ml))
        numok = (not eps_dep and regime in ("gen",) and mj < 50 and ml < 50 and
                 not any(x == "acos" for x in s.ops()))
        f = ["C %d %d %s %d %.17g %.17g %d %d" % (s.id, r["n"], regime, 1 if r["amb"] and log_count(s) else 0, tolv,
                                                 tolj, 1 if numok else 0, len(leaves))]
        for k, v in leaves:
            f.append("%s %d %s" % (k, len(v), " ".join("%.17g" % x for x in v)))
        f.append(str(len(values)))
        for m in values:
            f.append("%d %d %s" % (len(m), len(m[0]), " ".join("%.17g" % x for row in m for x in row)))
        for m in jacs:
            if m is None:
                f.append("0")
            else:
                f.append("1 %d %d %s" % (len(m), len(m[0]),
                                         " ".join("%.17g" % x for row in m for x in row)))
        out.append("\n".join(f) + "\n")
    return out


def log_count(s):
    return sum(1 for o in s.ops() if o in ("log", "logf", "bminus"))


def amb_ok(s):
    """A logarithm at a half turn can be compared only if it is the last operation, and arccos
    of one or minus one only if its argument is exact: a variable."""
    ac = [n for n in s.root.walk() if n.o == "acos"]
    if ac:
        return log_count(s) == 0 and all(n.args[0].o == "leaf" for n in ac)
    return s.root.o in ("log", "logf", "bminus") and log_count(s) == 1


# -------------------------------------------------------------------- C++
def cxx_type(rep, frames):
    base_ = TYPES[rep]
    if frames:
        return "wave::%sFd<%s>" % (base_, ", ".join("wv::f" + x for x in frames))
    return "wave::%sd" % base_


FREPS = {"R": ["RMf", "RQf", "RAf"], "T": ["TMf", "TQf"], "V": ["Vf"], "P": ["Pf"], "W": ["Wf"], "X": ["Xf"],
         "S": ["Sf"]}
XREPS = {"R": ["RM", "RQ", "RA", "RMm", "RQm", "RMb", "RMc", "RMs", "RQc"], "T": ["TM", "TQ", "TMm", "TMc"],
         "V": ["V", "Vm", "Vb", "Vc", "Vs"], "P": ["P", "Pm", "Ps"], "W": ["W", "Wm", "Wb"], "X": ["X", "Xm"],
         "S": ["S"]}


def is_float(s):
    return any(l["rep"][-1] == "f" for l in s.leaves)


def lit(i, f=False):
    n, d = SCALARS[i % 8]
    if f:
        return "(%d.0f / %d.0f)" % (n, d)
    return "(%d.0 / %d.0)" % (n, d) if d != 1 else "%d.0" % n


def cxx(n, s):
    if n.o == "leaf":
        return "L%d.v" % n.i
    if n.o == "const":
        t = cxx_type(n.rep, n.f if s.framed else None)
        return t + ("::Identity()" if n.k in ("R", "T") else "::Zero()")
    a = [cxx(x, s) for x in n.args]
    k = lit(n.i, is_float(s))
    o = n.o
    if o in ("comp", "rot", "trf", "scale", "scaler", "prod"):
        return "(%s * %s)" % (a[0], a[1])
    if o in ("bplus", "add"):
        return "(%s + %s)" % (a[0], a[1])
    if o in ("bminus", "sub"):
        return "(%s - %s)" % (a[0], a[1])
    if o in ("sdiv", "div"):
        return "(%s / %s)" % (a[0], a[1])
    if o == "inv":
        return "inverse(%s)" % a[0]
    if o in ("exp", "log", "acos"):
        return "%s(%s)" % (o, a[0])
    if o == "logf":
        return ("wave::logFramed<wv::f%s>(%s)" % (n.f[2], a[0])) if s.framed else "log(%s)" % a[0]
    if o == "dot":
        return "dot(%s, %s)" % (a[0], a[1])
    if o == "neg":
        return "(-%s)" % a[0]
    if o == "sqn":
        return "%s.squaredNorm()" % a[0]
    if o == "norm":
        return "%s.norm()" % a[0]
    if o == "nrm":
        return "%s.normalized()" % a[0]
    if o == "rotof":
        return "%s.rotation()" % a[0]
    if o == "transof":
        return "%s.translation()" % a[0]
    return {"kmul": "(%s * %s)" % (k, a[0]), "mulk": "(%s * %s)" % (a[0], k),
            "divk": "(%s / %s)" % (a[0], k), "kdiv": "(%s / %s)" % (k, a[0]),
            "kadd": "(%s + %s)" % (k, a[0]), "addk": "(%s + %s)" % (a[0], k),
            "ksub": "(%s - %s)" % (k, a[0]), "subk": "(%s - %s)" % (a[0], k)}[o]


def shape_code(s, modes):
    c = ["WV_SHAPE(%d) {  // %s" % (s.id, s.text())]
    for j, l in enumerate(s.leaves):
        fr = "".join(", wv::f" + x for x in l["f"]) if s.framed else ""
        c.append("    wv::Leaf<wv::%s%s> L%d{wvcase, %d};" % (l["rep"], fr, j + 1, j))
    c.append("    const auto wvexpr = %s;" % cxx(s.root, s))
    c.append("    wv::check<%s>(wvcase, wvexpr%s);" % (
        modes, "".join(", L%d.v" % (j + 1) for j in range(len(s.leaves)))))
    for j, l in enumerate(s.leaves):
        if l["rep"][-1] in "mbcs":
            c.append('    if (!L%d.untouched()) wv::fail(wvcase, "memory", "mapped variable %d changed by evaluation");' % (j + 1, j + 1))
    c.append("}")
    return "\n".join(c) + "\n"


MAIN = "int main(int, char **argv) { return wv::runShapes(argv[1]); }\n"


def replay(chk, shapes, case_text, modes, flags, pre, per_tu=6, code=shape_code, cxxbin=None,
           name="tu"):
    """Compile the shapes and run them on their cases; records violations."""
    byid = {s.id: s for s in shapes}
    groups = [shapes[i::max(1, (len(shapes) + per_tu - 1) // per_tu)]
              for i in range(max(1, (len(shapes) + per_tu - 1) // per_tu))]
    groups = [g for g in groups if g]
    futs = [pool.submit(base.compile_exe, chk, "%s%d" % (name, i),
                        "".join(code(s, modes) for s in g) + MAIN, flags, pre, cxxbin)
            for i, g in enumerate(groups)]
    text = case_text() if callable(case_text) else case_text   # may wait for the oracle
    checks = 0

    def handle(exe, g, name):
        nonlocal checks
        f = chk.path(name + ".cases")
        with open(f, "w") as h:
            for s in g:
                h.write(text.get(s.id, ""))
        r = base.run([exe, f], timeout=300)
        done = set()
        fails = {}
        for line in r.stdout.splitlines():
            if line.startswith("FAIL"):
                sid = int(line.split("shape=")[1].split()[0])
                fails.setdefault(sid, []).append(line)
            elif line.startswith("SHAPE"):
                p = line.split()
                done.add(int(p[1]))
                chk.traces += int(p[2].split("=")[1])
            elif line.startswith("DONE"):
                checks += int(line.split("checks=")[1].split()[0])
        for sid, ls in fails.items():
            chk.violation("expression %s" % byid[sid].text(), {"cxx": cxx(byid[sid].root, byid[sid]) if byid[sid].root.o != "pack" else "",
                                                              "fails": ls[:6]})
        if r.returncode != 0:
            missing = [s for s in g if s.id not in done]
            chk.violation("program stopped (exit status %d)" % r.returncode,
                          {"shapes": [s.text() for s in missing[:1]], "output": r.stdout[-2500:]})

    for (exe_out, g, i) in [(f.result(), g, i) for i, (f, g) in enumerate(zip(futs, groups))]:
        exe, out = exe_out
        if exe:
            handle(exe, g, "%s%d" % (name, i))
        else:
            # find the shapes which do not compile
            fs = [(s, pool.submit(base.compile_exe, chk, "%sone%d" % (name, s.id), code(s, modes) + MAIN,
                                  flags, pre, cxxbin)) for s in g]
            for s, f in fs:
                exe1, out1 = f.result()
                if exe1:
                    handle(exe1, [s], "%sone%d" % (name, s.id))
                else:
                    chk.violation("does not compile: %s" % s.text(),
                                  {"cxx": cxx(s.root, s) if s.root.o != "pack" else "", "errors": base.first_errors(out1)})
    chk.notes["comparisons"] = chk.notes.get("comparisons", 0) + checks
    return checks


def leaf_shapes(first, reps):
    """One expression for each representation: the variable itself."""
    out = []
    for k in ("R", "T"):
        for rep in reps[k]:
            for framed in (False, True):
                n = Node("leaf", k, ["A", "B"], 1, [])
                s = Shape(n, [{"k": k, "f": ["A", "B"], "rep": rep}], framed)
                s.id = first + len(out)
                out.append(s)
    return out


def run_shapes(chk, shapes, regimes, modes, rng, flags=("-O1",), parts=3, header="expr.hpp", tag=""):
    """Oracle and compilation in parallel, then comparison."""
    flags = list(flags)
    vals = {s.id: valuations(s, rng, regimes) for s in shapes}
    ofut = pool.submit(lambda: None)
    pre, out = base.pch(chk, header, flags)
    if pre is None:
        chk.violation("headers do not compile", {"errors": base.first_errors(out)})
        return
    import threading
    box = {}

    def work():
        try:
            box["o"] = oracle(chk, shapes, vals, parts, tag)
        except Exception as e:
            box["e"] = e
    th = threading.Thread(target=work)
    th.start()

    def case_text():
        th.join()
        if "e" in box:
            raise box["e"]
        text, used, skipped = {}, 0, 0
        for s in shapes:
            ts = []
            for n in range(1, len(vals[s.id]) + 1):
                r = box["o"].get((s.id, n))
                if r is None:
                    raise base.ToolError("no result for shape %d valuation %d" % (s.id, n))
                if r["amb"] and not amb_ok(s):
                    skipped += 1
                    continue
                cs = cases(s, r, regimes[n - 1], rng)
                if not cs:
                    skipped += 1
                used += len(cs)
                ts += cs
            text[s.id] = "".join(ts)
        chk.notes["valuations_used"] = chk.notes.get("valuations_used", 0) + used
        chk.notes["valuations_not_expressible"] = chk.notes.get("valuations_not_expressible", 0) + skipped
        chk.notes["shapes_without_valuation"] = chk.notes.get("shapes_without_valuation", 0) + sum(
            1 for s in shapes if not text[s.id])
        return text
    n = replay(chk, shapes, case_text, modes, flags, pre, name="tu" + tag)
    for s in shapes[:8]:
        chk.sample(s.text())
    return n
