"""Run-time polymorphic expressions (Dynamic.tla)."""
import json, random
from . import base
from .base import tlc, pool

# operation: result kind, operand kinds
OPS = [("comp", "R", "RR"), ("inv", "R", "R"), ("rot", "V", "RV"), ("comp", "T", "TT"), ("inv", "T", "T"),
       ("trf", "V", "TV"), ("rotof", "R", "T"), ("transof", "V", "T"), ("add", "V", "VV"), ("sub", "V", "VV"),
       ("neg", "V", "V"), ("kmul", "V", "V"), ("dot", "S", "VV"), ("sqn", "S", "V"), ("scale", "V", "SV"),
       ("prod", "S", "SS"), ("kmul", "S", "S"), ("add", "P", "PV"), ("sub", "P", "PV"), ("sub", "V", "PP"),
       ("add", "P", "VP"), ("add", "S", "SS"), ("neg", "S", "S")]
CONSTS = ["2.0", "-1.0", "3.0"]


def forms(rng, count, framed):
    """Forms of expression: every operation over proxies, then random trees."""
    out = []
    # the inverse of a rotation matrix has another plain type, which a proxy of rotation matrices cannot hold
    ops = [x for x in OPS if not (framed and x[:2] == ("inv", "R"))]

    def leaf(k):
        return {"o": rng.choice("pppprrvvt"), "k": k, "c": 0, "n": 0, "sub": []}

    def op(o, k, ks, depth):
        subs = [tree(x, depth - 1) for x in ks]
        return {"o": o, "k": k, "c": rng.randrange(1, 4) if o == "kmul" else 0, "n": len(ks), "sub": subs}

    def tree(k, depth):
        if depth <= 0 or rng.random() < 0.35:
            return leaf(k)
        return op(*rng.choice([x for x in ops if x[1] == k]), depth)

    def walk(t):
        for s in t["sub"]:
            yield from walk(s)
        yield t
    roots = [op(o, k, ks, 1) for o, k, ks in ops]
    roots += [{"o": o, "k": k, "c": 0, "n": 0, "sub": []} for o in "tpr" for k in rng.sample("RTVPS", 2)]
    while len(roots) < count:
        t = op(*rng.choice(ops), rng.choice([1, 2, 2, 3]))
        if len(list(walk(t))) <= 7:
            roots.append(t)
    for t in roots[:count]:
        toks = [{x: n[x] for x in ("o", "k", "c", "n")} for n in walk(t)]
        if t["n"] and not any(x["o"] in "pr" for x in toks):
            next(n for n in walk(t) if n["o"] in "vt")["o"] = "p"
            toks = [{x: n[x] for x in ("o", "k", "c", "n")} for n in walk(t)]
        out.append({"id": len(out) + 1, "k": t["k"], "toks": toks, "direct": t["n"] > 0 and rng.random() < 0.3,
                    "alone": t["o"] == "p",
                    "tree": t})
    return out


def code(form):
    n = [-1]

    def go(t):
        o = t["o"]
        if o in ("p", "r", "v", "t"):
            n[0] += 1
            x = "w.%s<wv::dyn::L%s>(s.a[%d])" % (o, t["k"], n[0])
            if form["tree"] is t and o in "pr":    # a copy, to be wrapped
                return "wave::%s<wv::dyn::L%s>(%s)" % ("Proxy" if o == "p" else "RefProxy", t["k"], x)
            return x
        a = [go(s) for s in t["sub"]]
        return {"comp": "(%s * %s)", "rot": "(%s * %s)", "trf": "(%s * %s)", "scale": "(%s * %s)",
                "prod": "(%s * %s)", "add": "(%s + %s)", "sub": "(%s - %s)", "inv": "inverse(%s)", "neg": "(-%s)",
                "rotof": "%s.rotation()", "transof": "%s.translation()", "dot": "dot(%s, %s)",
                "sqn": "%s.squaredNorm()", "kmul": "(" + CONSTS[(t["c"] or 1) - 1] + " * %s)"}[o] % tuple(a)
    e = go(form["tree"])
    return "WV_FORM(%d, wv::dyn::L%s, %s, %s)\n" % (form["id"], form["k"], "true" if form["direct"] else "false", e)


CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Steps = %d
INVARIANTS TypeOK Acyclic Occurrence EmitDone
PROPERTIES Immutable
"""


def vec(v):
    return "%d %s" % (len(v), " ".join(str(x) for x in v))


def seen_text(s, leaves):
    if s["big"]:
        return "1 0 0 " + vec(sorted(leaves))
    js = sorted(s["j"], key=lambda x: x[0])
    return "0 %s %d %s %s" % (vec(s["v"]), len(js),
                              " ".join("%d %d %d %s" % (t, len(m), len(m[0]), " ".join(str(x) for r in m for x in r))
                                       for t, m in js), vec(sorted(leaves)))


def behaviour_text(i, b):
    out = ["B %d %d" % (i, len(b["vars"]))]
    for v in b["vars"]:
        out.append("%s %s" % (v["k"], vec(v["v"])))
    out.append(str(len(b["temps"])))
    for t in b["temps"]:
        out.append("%s %d %s" % (t["k"], t["n"], vec(t["v"])))
    looks = 0
    for h in b["hist"]:
        c = h["c"]
        if c == "new":
            out.append("N %d %s %d %s %d %s" % (h["f"], h["k"], h["d"], h["how"][0], h["id"], vec(h["a"])))
        elif c == "direct":
            out.append("D %d %s %s %s" % (h["f"], h["k"], vec(h["a"]), seen_text(h["see"], h["leaves"])))
        elif c == "copy":
            out.append("C %s %d %d %s" % (h["k"], h["x"], h["y"], h["how"][0]))
        elif c == "set":
            out.append("S %d %s" % (h["i"], vec(h["v"])))
        elif c == "look":
            out.append("L %s %d %s" % (h["k"], h["i"], seen_text(h["see"], h["leaves"])))
            looks += 1
        elif c == "end":
            for r in h["all"]:
                out.append("L %s %d %s" % (r["k"], r["i"], seen_text(r["see"], r["leaves"])))
                looks += 1
    out.append("Z")
    return "\n".join(out) + "\n"


def describe(b, fs):
    byid = {f["id"]: f for f in fs}
    out = []
    for h in b["hist"]:
        c = h["c"]
        if c in ("new", "direct"):
            f = code(byid[h["f"]])
            f = f.split(", ", 3)[3][:-2].replace("wv::dyn::L", "")
            if c == "new":
                out.append("%s%d := %s %s %s (object %d)" % (h["k"], h["d"], h["how"], f, h["a"], h["id"]))
            else:
                out.append("evaluate %s %s" % (f, h["a"]))
        elif c == "copy":
            out.append("%s%d := %s %s%d" % (h["k"], h["x"], h["how"], h["k"], h["y"]))
        elif c == "set":
            out.append("variable %d := %s" % (h["i"], h["v"]))
        elif c == "look":
            out.append("look at %s%d" % (h["k"], h["i"]))
    return "; ".join(out)


def run(chk, count, traces, steps, framed, flags, tag, tus=8):
    rng = random.Random(chk.seed * 101 + framed)
    fs = forms(rng, count, framed)
    f = chk.path("forms_%s.json" % tag)
    with open(f, "w") as h:
        json.dump([{k: x[k] for k in ("id", "k", "toks", "direct", "alone")} for x in fs], h)
    nt = 3
    sims = [pool.submit(tlc, chk, "Dynamic", CFG % steps, env={"FORMS": f}, simulate=traces // nt, depth=40 * steps,
                        seed=chk.seed * 13 + i + 100 * framed, tag="dyn%s%d" % (tag, i)) for i in range(nt)]
    flags = list(flags) + (["-DWV_FRAMED"] if framed else [])
    pre, out = base.pch(chk, "dyn.hpp", flags)
    if pre is None:
        chk.violation("headers do not compile", {"errors": base.first_errors(out)})
        return
    parts = [fs[i::tus] for i in range(tus)]
    objs = [pool.submit(base.compile_obj, chk, "%s%d" % (tag, i), "".join(code(x) for x in p), flags, pre)
            for i, p in enumerate(parts)]
    objs.append(pool.submit(base.compile_obj, chk, tag + "main", '#include "dynrun.hpp"\n', flags, pre))
    os_, bad = [], False
    for o, p in zip(objs, parts + [[]]):
        obj, out = o.result()
        if obj:
            os_.append(obj)
            continue
        bad = True
        for x in p:
            one, out1 = base.compile_obj(chk, "%sone%d" % (tag, x["id"]), code(x), flags, pre)
            if not one:
                chk.violation("does not compile: " + code(x).strip(), {"errors": base.first_errors(out1)})
        if not p:
            chk.violation("harness does not compile", {"errors": base.first_errors(out)})
    bs = [r for s in sims for r in s.result()[0]]
    chk.log("behaviours %d, forms %d%s" % (len(bs), len(fs), " framed" if framed else ""))
    if bad:
        return
    exe, out = base.link(chk, tag, os_, flags)
    if not exe:
        raise base.ToolError("link failed: " + out[-500:])
    n = 6
    groups = [list(enumerate(bs))[i::n] for i in range(n)]

    def go(g, i):
        fn = chk.path("%s_%d.txt" % (tag, i))
        with open(fn, "w") as h:
            for j, b in g:
                h.write(behaviour_text(j, b))
        return base.run([exe, fn], timeout=600)
    outs = [pool.submit(go, g, i) for i, g in enumerate(groups)]
    for o, g in zip(outs, groups):
        r = o.result()
        fails, last, done = {}, None, 0
        for l in r.stdout.splitlines():
            if l.startswith("FAIL"):
                fails.setdefault(int(l.split("run=")[1].split()[0]), []).append(l)
            elif l.startswith("RUN"):
                last = int(l.split()[1])
            elif l.startswith("END"):
                done += 1
            elif l.startswith("DONE"):
                chk.notes["comparisons"] = chk.notes.get("comparisons", 0) + int(l.split("checks=")[1].split()[0])
        chk.traces += done
        for i, ls in fails.items():
            chk.violation("behaviour of proxies", {"fails": ls[:5], "behaviour": describe(bs[i], fs)})
        if r.returncode != 0:
            chk.violation("program stopped (exit status %d)" % r.returncode,
                          {"behaviour": describe(bs[last], fs) if last is not None else "", "output": r.stdout[-2500:]})
    for b in bs[:3]:
        chk.sample(describe(b, fs)[:500])
