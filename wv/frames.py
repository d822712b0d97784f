"""Frame rules (Frames.tla): statements compiled, verdicts and result frames compared."""
import os, random, re
from . import base
from .base import tlc, pool

CFG = """INIT %s
NEXT %s
CHECK_DEADLOCK FALSE
CONSTANTS Names = {%s}
  Steps = %d
  OneOps = {%s}
INVARIANTS %s
"""
OPS = ("inv log logf exp neg nrm kmul mulk divk norm sqn rotof transof comp rot trf bplus bminus add sub dot "
       "scale scaler sdiv make assign proxy part").split()
TYPES = {"R": ["RotationM", "RotationQ", "RotationA"], "T": ["RigidTransformM", "RigidTransformQ"],
         "V": ["Translation"], "P": ["Point"], "W": ["RelativeRotation"], "X": ["Twist"]}
HEAD = """#include "wv.hpp"
namespace wv { struct fE; struct fF; }
using wave::NoFrame;
template <int N, typename E> struct FramesOf;
template <typename E> struct FramesOf<0, E> { using type = std::tuple<>; };
template <typename E> struct FramesOf<2, E> { using type = std::tuple<wave::LeftFrameOf<E>, wave::RightFrameOf<E>>; };
template <typename E> struct FramesOf<3, E> {
    using type = std::tuple<wave::LeftFrameOf<E>, wave::MiddleFrameOf<E>, wave::RightFrameOf<E>>; };
template <typename... F, typename E> void good(const E &e) {
    auto v = eval(e);
    static_assert(std::is_same<typename FramesOf<sizeof...(F), E>::type, std::tuple<F...>>{}, "frames of expression");
    static_assert(std::is_same<typename FramesOf<sizeof...(F), decltype(v)>::type, std::tuple<F...>>{}, "frames of value");
}
template <typename... F> void good(double) { static_assert(sizeof...(F) == 0, "frames of value"); }
template <typename X, typename... F> struct ReframedImpl { using type = wave::Framed<X, F...>; };
template <typename L, typename... G, typename... F> struct ReframedImpl<wave::Framed<L, G...>, F...> {
    using type = wave::Framed<L, F...>; };
template <typename X, typename... F> using Reframed = typename ReframedImpl<X, F...>::type;
"""


def fr(f):
    return ", ".join("NoFrame" if x == "N" else "wv::f" + x for x in f)


def ctype(k, f, rep):
    if k == "S":
        return "wave::Scalar<double>"
    if all(x == "N" for x in f):
        return "wave::%sd" % rep
    return "wave::%sFd<%s>" % (rep, fr(f))


def expr(h, a, rng):
    o = h["o"]
    k = rng.choice(["2.0", "-0.5", "3.0"])
    if o in ("comp", "rot", "trf", "scale", "scaler"):
        return "%s * %s" % (a[0], a[1])
    if o in ("bplus", "add"):
        return "%s + %s" % (a[0], a[1])
    if o in ("bminus", "sub"):
        return "%s - %s" % (a[0], a[1])
    if o == "sdiv":
        return "%s / %s" % (a[0], a[1])
    if o == "logf":
        return "wave::logFramed<wv::f%s>(%s)" % (h["g"], a[0])
    return {"inv": "inverse(%s)", "exp": "exp(%s)", "log": "log(%s)", "neg": "-%s", "nrm": "%s.normalized()",
            "kmul": k + " * %s", "mulk": "%s * " + k, "divk": "%s / " + k, "norm": "%s.norm()",
            "sqn": "%s.squaredNorm()", "rotof": "%s.rotation()", "transof": "%s.translation()"}[o] % a[0] \
        if o != "dot" else "dot(%s, %s)" % (a[0], a[1])


class Case:
    """Statements compiled together: lines of code, each with its verdict and description, or None."""
    def __init__(self, lines, descr):
        self.lines, self.descr = lines, descr


def show(p):
    return p["k"] + ("<" + "".join(p["f"]) + ">" if p["f"] else "")


def single(rec, rng, n):
    """Code of a record of Frames!EmitOne"""
    ps, h = rec["pool"], rec["hist"][0]
    reps = [rng.choice(TYPES.get(p["k"], [""])) for p in ps]
    v = h["v"]
    tmp = rng.random() < 0.3
    names = ["x%d" % (i + 1) for i in range(len(ps))]
    ts = [ctype(p["k"], p["f"], r) for p, r in zip(ps, reps)]
    pars = ", ".join("%s &x%d" % (t, i + 1) for i, t in enumerate(ts))
    text = "%s %s" % (h["o"] + (h["g"] if h["g"] != "N" else ""), " ".join(map(show, ps)))
    if h["c"] == "op":
        use = ["std::move(%s)" % x if tmp and h["o"] not in ("kmul", "mulk", "divk") else x for x in names]
        e = expr(h, use, rng)
        body = "auto e = %s; " % e + ("good<%s>(e);" % fr(v["f"]) if v["ok"] == "yes" else "auto v = eval(e); (void) v;")
    elif h["c"] == "make":
        body = "%s y{x1}; (void) y;" % ts[1]
    elif h["c"] == "assign":
        body = "x2 = x1;"
    elif h["c"] == "proxy":
        same = ctype(ps[1]["k"], ps[1]["f"], reps[0])
        body = "wave::Proxy<%s> y{wave::makeProxy(%s{x1})}; (void) y;" % (same, ts[0])
    else:
        body = "x2.%s() = x1;" % ("rotation" if ps[0]["k"] == "R" else "translation")
    return Case([((v["ok"], text), "void c%d(%s) { %s }" % (n, pars, body))], text)


def program(rec, rng, n):
    """Statements of a record of Frames!EmitMany, one per line of a function"""
    names, reps = [], []
    pars, lines, descr = [], [], []
    for i, h in enumerate(rec["hist"]):
        v, c = h["v"], h["c"]
        x = "x%d" % (len(names) + 1)
        a = [names[j - 1] for j in h["a"]]
        ar = [reps[j - 1] for j in h["a"]]
        if c == "leaf":
            rep = rng.choice(TYPES.get(v["k"], [""]))
            pars.append("%s &%s" % (ctype(v["k"], v["f"], rep), x))
            names.append(x)
            reps.append(rep)
            descr.append("%s=%s" % (x, show(v)))
            continue
        good = "good<%s>(%s);" % (fr(v["f"]), x)
        if c == "op":
            e = expr(h, a, rng)
            d = e
            line = "auto %s = %s; " % (x, e) + (good if v["ok"] == "yes" else "eval(%s);" % x)
            rep = None
        elif c == "make":
            rep = rng.choice(TYPES[v["k"]])
            line = "%s %s{%s}; (void) %s; " % (ctype(v["k"], v["f"], rep), x, a[0], x)
            d = "make " + show(v) + " from " + a[0]
        elif c == "proxy":
            d = "proxy of " + show(v) + " from " + a[0]
            line = "wave::Proxy<Reframed<decltype(eval(%s)), %s>> %s{wave::makeProxy(eval(%s))}; " % (
                a[0], fr(v["f"]), x, a[0])
            line += good if v["ok"] == "yes" else ""
            rep = None
        else:
            d = "frame_cast<%s>(%s)" % ("".join(v["f"]), a[0])
            line = "auto %s = wave::frame_cast<%s>(%s); %s" % (x, fr(v["f"]), a[0], good)
            rep = None
        if v["ok"] == "yes":
            names.append(x)
            reps.append(rep)
        else:
            line = "{ %s }" % line.replace(x, "bad")
        lines.append(((v["ok"], d), line))
        descr.append(d)
    lines = [(None, "void p%d(%s) {" % (n, ", ".join(pars)))] + lines + [(None, "}")]
    return Case(lines, "; ".join(descr))


FILE = re.compile(r"cases\.cpp:(\d+)")


def error_lines(out):
    """Lines of the file to which the compiler's errors belong, with the first message of each."""
    lines, ctx = {}, []
    for l in out.splitlines():
        m = re.search(r": (fatal )?error: (.*)", l)
        if m:
            mm = FILE.match(l) or FILE.search(l.split(": error")[0])
            own = [int(mm.group(1))] if mm else []
            for x in set(ctx + own):
                lines.setdefault(x, m.group(2)[:200])
            ctx = []
        elif ": note:" in l or ": warning:" in l:
            ctx = []
        elif "required from here" in l or "required from" in l or "In instantiation" in l or "In substitution" in l:
            mm = FILE.search(l)
            if mm:
                ctx.append(int(mm.group(1)))
    return lines


def compile_lines(chk, text, pre, tag):
    d = chk.path("frames_" + tag)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "cases.cpp"), "w") as f:
        f.write(text)
    r = base.run(["g++"] + base.CXXFLAGS + ["-fsyntax-only", "-ftemplate-backtrace-limit=0", "-fmax-errors=0",
                 "-fno-diagnostics-show-caret", "-fdiagnostics-color=never"] + pre + ["cases.cpp"], timeout=800, cwd=d)
    out = r.stdout
    if r.returncode not in (0, 1):
        raise base.ToolError("compiler stopped: " + out[-500:])
    return r.returncode, error_lines(out), out


def layout(cases):
    """The text of the cases and, by line, the case and its verdict."""
    text, at = [HEAD], {}
    n = HEAD.count("\n") + 1
    for c in cases:
        for kind, x in c.lines:
            if kind is not None:
                at[n] = (c, kind)
            text.append(x + "\n")
            n += 1
    return "".join(text), at


def accepted(chk, cases, pre, tag):
    """Statements which must compile: those which do not, as [(case, what, message, text)]"""
    cases = [Case([x for x in c.lines if x[0] is None or x[0][0] == "yes"], c.descr) for c in cases]
    cases = [c for c in cases if any(k is not None for k, _ in c.lines)]
    text, at = layout(cases)
    rc, errs, out = compile_lines(chk, text, pre, tag)
    if rc == 0:
        return []
    if not errs and len(cases) > 1:        # the compiler names no line of ours
        h = len(cases) // 2
        return accepted(chk, cases[:h], pre, tag + "l") + accepted(chk, cases[h:], pre, tag + "r")
    if not errs:
        return [(cases[0], "not accepted: " + cases[0].descr, base.first_errors(out, 1), text)]
    return [at[l][:1] + ("not accepted: " + at[l][1][1], m, text) if l in at else (None, "line %d" % l, m, text)
            for l, m in sorted(errs.items())]


def rejected(chk, cases, pre, tag):
    """Statements which must not compile: those which do"""
    text, at = layout(cases)
    rc, errs, out = compile_lines(chk, text, pre, tag)
    quiet = [(c, d) for l, (c, (ok, d)) in sorted(at.items()) if ok == "no" and l not in errs]
    wrong = []
    # The compiler reports a failing class only where it is first used, or not at our line: check these by themselves
    for n, (c, d) in enumerate(quiet):
        part = Case([x for x in c.lines if x[0] is None or x[0][0] == "yes" or x[0][1] == d], c.descr)
        if len(wrong) >= 10:
            break
        text, _ = layout([part])
        if compile_lines(chk, text, pre, "%s_%d" % (tag, n))[0] == 0:
            wrong.append((part, "accepted: " + d, "", text))
    return wrong, len(quiet)


def batch(chk, cases, pre, tag):
    bad = [c for c in cases if any(k is not None and k[0] == "no" for k, _ in c.lines)]
    w1 = accepted(chk, cases, pre, "y" + tag)
    w2, n = rejected(chk, bad, pre, "n" + tag) if bad else ([], 0)
    return w1 + w2, n


INV_ONE = "TypeOK Whole Sound Needed EmitOne"


def thin(recs, rng, per):
    """Some of the single statements: of each operation and kinds at most `per`, both verdicts."""
    groups = {}
    for r in recs:
        h = r["hist"][0]
        groups.setdefault((h["o"], tuple(p["k"] for p in r["pool"]), h["v"]["ok"]), []).append(r)
    out = []
    for k in sorted(groups, key=str):
        g = groups[k]
        rng.shuffle(g)
        rule = k[0] in ("add", "sub", "bplus", "rot", "trf", "comp", "bminus") and k[1] not in (("W", "W"), ("X", "X"))
        out += g[:per[k[2]] // (1 if rule else 6)]
    return out


def run(chk, per, programs, steps, use, size, seeds=1):
    rng = random.Random(chk.seed)
    pre, out = base.pch(chk, "wv.hpp", [], "g++")
    if pre is None:
        chk.violation("headers do not compile", {"errors": base.first_errors(out)})
        return
    box = {}

    def one():
        recs, _ = tlc(chk, "Frames", CFG % ("InitOne", "NextOne", '"A"', 1, ", ".join('"%s"' % o for o in OPS), INV_ONE),
                      workers=2, timeout=300, tag="FramesOne")
        box["one"] = recs

    def many():
        recs, _ = tlc(chk, "Frames", CFG % ("InitMany", "NextMany", '"A", "B", "C"', steps, "", "TypeOK EmitMany"),
                      simulate=programs, depth=5 * steps, seed=chk.seed, timeout=600, tag="FramesMany")
        box["many"] = recs
    base.parallel(one, many)
    recs = box["one"]
    total = len(recs)
    open_ = sum(r["hist"][0]["v"]["ok"] == "any" for r in recs)
    recs = [r for r in recs if r["hist"][0]["v"]["ok"] != "any"]
    if per:
        recs = thin(recs, rng, per)
    recs.sort(key=lambda r: str(r))
    cases = [single(r, rng, i) for i, r in enumerate(recs)]
    chk.notes["frame_statements"] = {"enumerated": total, "undecided": open_, "compiled": len(cases)}
    progs, seen = [], set()
    for r in sorted(box["many"], key=lambda r: -score(r)):
        c = program(r, rng, 100000 + len(progs))
        if c.descr in seen:
            continue
        seen.add(c.descr)
        progs.append(c)
        if len(progs) == use:
            break
    chk.notes["frame_programs"] = {"generated": len(box["many"]), "compiled": len(progs),
                             "statements": sum(k is not None for c in progs for k, _ in c.lines)}
    cases += progs
    for c in progs[:5]:
        chk.sample(c.descr)
    rng.shuffle(cases)
    groups = [cases[i::max(1, (len(cases) + size - 1) // size)] for i in range(max(1, (len(cases) + size - 1) // size))]
    lock_n = [0]

    def work(i):
        wrong, n = batch(chk, groups[i], pre, str(i))
        with chk.lock:
            lock_n[0] += n
            chk.traces += len(groups[i])
        return wrong
    futs = [pool.submit(work, i) for i in range(len(groups))]
    for f in futs:
        for c, what, msg, text in f.result():
            chk.violation("frames: " + what, {"case": c.descr if c else None, "message": msg,
                                              "code": [x for _, x in c.lines] if c else text[-2000:]})
    chk.notes["frames_rechecked_alone"] = lock_n[0]


def score(r):
    """Programs in which results are used again, with rejected statements"""
    derived = set()
    n, s = 0, 0
    for h in r["hist"]:
        if h["v"]["ok"] == "yes":
            n += 1
            if h["c"] != "leaf":
                derived.add(n)
        s += 2 * any(a in derived for a in h["a"]) + (h["v"]["ok"] == "no") + (h["c"] in ("cast", "proxy", "make"))
    return s
