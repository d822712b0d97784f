"""Behaviours of Storage.tla as straight-line programs."""
import json, random, threading
from concurrent.futures import ThreadPoolExecutor
from . import base
from .base import tlc, pool

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = %d
  MaxBudget = %d
  Rhythm = %s
  Classes = {%s}
INVARIANTS NoDangling TypeOK EmitDone
"""
TYPES = {"RM": "F2<wave::RotationMd>", "RQ": "F2<wave::RotationQd>", "RA": "F2<wave::RotationAd>",
         "TM": "F2<wave::RigidTransformMd>", "TQ": "F2<wave::RigidTransformQd>",
         "V": "F3<wave::Translationd>", "P": "F2<wave::Pointd>", "W": "F3<wave::RelativeRotationd>",
         "X": "F3<wave::Twistd>", "S": "wave::Scalar<double>", "D": "double"}
CONSTS = {1: "2.0", 2: "-1.0", 3: "3.0"}


def behaviours(chk, classes, num, steps=10, budget=3, tag="", rhythm=False):
    parts = 2
    futs = [pool.submit(tlc, chk, "Storage",
                        CFG % (steps, budget, "TRUE" if rhythm else "FALSE", ", ".join('"%s"' % c for c in sorted(classes))),
                        simulate=num // parts, depth=400, seed=chk.seed * 11 + i,
                        tag="storage%s%d" % (tag, i)) for i in range(parts)]
    out = []
    for f in futs:
        out += f.result()[0]
    return out


def nums(k, v):
    if k == "R":
        return [x for r in v for x in r]
    if k == "T":
        return [x for r in v["R"] for x in r] + v["t"]
    return list(v)


def lst(k, v):
    return "{" + ", ".join(str(x) for x in nums(k, v)) + "}"


def desc(b, t):
    """Short description of an operand."""
    if t["o"] in ("ref", "copy", "move", "temp"):
        return t["o"] + b["vars"][t["i"] - 1]["r"]
    if t["o"] in ("rotx", "transx"):
        return t["o"] + b["vars"][t["i"] - 1]["r"]
    if t["o"].startswith("slot"):
        return t["o"]
    return t["o"] + t["nm"]


def features(b):
    fs = set()
    refs = {}       # slot -> variables it refers to
    stale = {}      # slot -> what happened since it was built
    held = {}       # slot -> (variable, place where it is held)
    changed = {}    # slot -> places of variables which changed since
    for h in b["hist"]:
        c = h["c"]
        tgt = b["vars"][h["i"] - 1]["r"] if "i" in h else ""
        if "code" in h:
            st, tk = [], []
            rs, pl = set(), set()
            var = lambda t: t["i"] if t and t["o"] in ("ref", "rotx", "transx") else None
            for n, t in enumerate(h["code"]):
                if t["o"] in ("ref", "rotx", "transx"):
                    rs.add(t["i"])
                if t["o"] == "copy" and b["vars"][t["i"] - 1]["m"]:
                    rs.add(t["i"])
                if t["o"] in ("slotref", "slotcopy", "slotmove"):
                    rs |= refs.get(t["i"], set())
                    pl |= {(i, (t["o"],) + p) for i, p in held.get(t["i"], ())}
                if t["n"] == 0:
                    st.append(desc(b, t))
                    tk.append(t)
                elif t["n"] == 1:
                    fs.add((t["o"], st[-1]))
                    if var(tk[-1]):
                        pl.add((var(tk[-1]), (t["o"], st[-1])))
                    st[-1] = desc(b, t)
                    tk[-1] = None
                else:
                    for j in (0, 1):
                        if var(tk[j - 2]):
                            other = st[-1 - j]
                            pl.add((var(tk[j - 2]), (t["o"], j, st[j - 2],
                                                     "lvalue" if other[:3] == "ref" or other[-5:] == "named" else "rvalue")))
                    tk[-2:] = [None]
                    fs.add((t["o"], 0, st[-2]))
                    fs.add((t["o"], 1, st[-1]))
                    fs.add((t["o"], "pair", st[-2].rstrip("MQAmb"), st[-1].rstrip("MQAmb")))
                    st[-2:] = [desc(b, t)]
            fs.add((c, tgt, h.get("p", ""), st[-1] if st else ""))
            if c == "build":
                refs[h["s"]] = rs
                held[h["s"]], changed[h["s"]] = pl, set()
                stale[h["s"]] = {"built"}
            elif h["i"] in rs:
                fs.add(("alias", c, tgt, h.get("p", ""), h["code"][-1]["o"]))
        elif c in ("eval", "assignslot"):
            for x in stale.get(h["s"], ()):
                fs.add((c, tgt, x))
            for x in changed.get(h["s"], ()):
                fs.add(("current",) + x)
            stale.setdefault(h["s"], set()).add("evaluated")
            if c == "assignslot" and h["i"] in refs.get(h["s"], set()):
                fs.add(("alias", c, tgt))
        elif c in ("copy", "move"):
            refs[h["d"]] = refs.get(h["s"], set())
            held[h["d"]], changed[h["d"]] = held.get(h["s"], set()), set(changed.get(h["s"], ()))
            stale[h["d"]] = set(stale.get(h["s"], ())) | {c}
            if c == "move":
                refs.pop(h["s"], None)
                stale.pop(h["s"], None)
        elif c == "set":
            fs.add(("set", tgt, h["how"]))
        if "i" in h:
            for s, r in refs.items():
                if h["i"] in r:
                    changed.setdefault(s, set()).update(p for i, p in held.get(s, ()) if i == h["i"])
                    stale.setdefault(s, set()).add("mutated" + c + tgt)
    return fs


def framable(b):
    for h in b["hist"]:
        if h["c"] == "part" and b["vars"][h["i"] - 1]["k"] == "X":
            return False
        if any(t["o"] in ("rotx", "transx") for t in h.get("code", ())):
            return False
    return True


def select(bs, count, rng, must=None, only=None):
    covered, chosen = {}, []
    cand = [(b, {f for f in features(b) if only is None or f[0] == only}) for b in bs if must is None or must(b)]
    while cand and len(chosen) < count:
        best, bi = -1, 0
        for i in rng.sample(range(len(cand)), min(80, len(cand))):
            sc = sum(1.0 / (1 + 6 * covered.get(f, 0)) for f in cand[i][1])
            if sc > best:
                best, bi = sc, i
        b, fs = cand.pop(bi)
        for f in fs:
            covered[f] = covered.get(f, 0) + 1
        b["id"] = len(chosen) + 1
        chosen.append(b)
    return chosen, covered


class Writer:
    def __init__(self, b):
        self.b, self.lines, self.n, self.slots = b, [], 0, {}

    def var(self, i):
        return "g.v%d" % i

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def expr(self, code):
        """Text of an expression; named parts become objects of their own."""
        b, st, after = self.b, [], []
        for t in code:
            o, i = t["o"], t["i"]
            if o == "ref":
                s = self.var(i)
                self.n += 1
                if b["vars"][i - 1]["k"] == "D" and self.n % 2:
                    s = "std::as_const(%s)" % s
            elif o == "copy":
                s = "wv::copy(%s)" % self.var(i)
            elif o == "move":
                s = "std::move(%s)" % self.var(i)
            elif o == "temp":
                v = b["vars"][i - 1]
                s = "wv::temp<%s%s>(%s)" % ("" if v["r"] in "SD" else "wv::", TYPES[v["r"]], lst(v["k"], t["v"]))
            elif o in ("rotx", "transx"):
                self.n += 1
                x = self.var(i) if self.n % 2 else "std::as_const(%s)" % self.var(i)
                s = "%s.%s()" % (x, "rotation" if o == "rotx" else "translation")
            elif o == "slotref":
                s = "(*%s)" % self.slots[i]
            elif o == "slotcopy":
                s = "wv::copy(*%s)" % self.slots[i]
            elif o == "slotmove":
                s = "std::move(*%s)" % self.slots[i]
                after.append("%s.reset();" % self.slots.pop(i))
            else:
                a = st.pop()
                if t["n"] == 2:
                    l = st.pop()
                if o in ("comp", "rot", "trf", "scale", "scaler"):
                    s = "(%s * %s)" % (l, a)
                elif o == "add":
                    s = "(%s + %s)" % (l, a)
                elif o == "sub":
                    s = "(%s - %s)" % (l, a)
                elif o == "div":
                    s = "(%s / %s)" % (l, a)
                elif o == "dot":
                    s = "dot(%s, %s)" % (l, a)
                elif o == "inv":
                    s = "inverse(%s)" % a
                elif o == "rotof":
                    s = "%s.rotation()" % a
                elif o == "transof":
                    s = "%s.translation()" % a
                elif o == "neg":
                    s = "(-%s)" % a
                elif o == "kmul":
                    s = "(%s * %s)" % (CONSTS[i], a)
                elif o == "mulk":
                    s = "(%s * %s)" % (a, CONSTS[i])
                elif o == "sqn":
                    s = "%s.squaredNorm()" % a
                else:
                    raise KeyError(o)
                if t["nm"]:
                    nm = self.fresh("n")
                    self.lines.append("auto %s = wv::heap(%s);" % (nm, s))
                    if t["nm"] == "named":
                        s = "(*%s)" % nm
                    else:
                        s = "std::move(*%s)" % nm
                        after.append("%s.reset();" % nm)
            st.append(s)
        return st[0], after

    def write(self):
        b = self.b
        kind = lambda i: b["vars"][i - 1]["k"]
        out = self.lines
        out.append("auto gp = std::make_unique<wv::Regs>(); wv::Regs &g = *gp;")
        out.append("wv::Run run{%d, g, {%s}};" % (
            b["id"], ", ".join(lst(v["k"], x) for v, x in zip(b["vars"], b["init"]))))
        for n, h in enumerate(b["hist"]):
            out.append("run.begin(%d);" % (n + 1))
            c = h["c"]
            if "code" in h:
                e, after = self.expr(h["code"])
                if c == "build":
                    nm = self.fresh("e")
                    out.append("auto %s = wv::heap(%s);" % (nm, e))
                    if h["s"] in self.slots:
                        after.append("%s.reset();" % self.slots[h["s"]])
                    self.slots[h["s"]] = nm
                elif c == "assign":
                    out.append("%s = %s;" % (self.var(h["i"]), e))
                elif c == "ctor":
                    out.append("{ const decltype(%s) x{%s}; %s = x; }" % (self.var(h["i"]), e, self.var(h["i"])))
                elif c == "part":
                    out.append("%s.%s() = %s;" % (self.var(h["i"]), {"rot": "rotation", "trans": "translation"}[h["p"]], e))
                out += after
            elif c == "eval":
                out.append("run.value('%s', %s, %s->eval());" % (h["k"], lst(h["k"], h["v"]), self.slots[h["s"]]))
            elif c == "assignslot":
                out.append("%s = *%s;" % (self.var(h["i"]), self.slots[h["s"]]))
            elif c in ("copy", "move"):
                nm = self.fresh("e")
                src = self.slots[h["s"]]
                out.append("auto %s = wv::heap(%s);" % (nm, "wv::copy(*%s)" % src if c == "copy" else "std::move(*%s)" % src))
                if c == "move":
                    out.append("%s.reset();" % self.slots.pop(h["s"]))
                if h["d"] in self.slots:
                    out.append("%s.reset();" % self.slots[h["d"]])
                self.slots[h["d"]] = nm
            elif c == "set":
                if h["how"] == "memory":
                    out.append("g.set(%d, %s);" % (h["i"], lst(kind(h["i"]), h["v"])))
                else:
                    r = b["vars"][h["i"] - 1]["r"].rstrip("mb")
                    out.append("%s = wv::temp<%s>(%s);" % (self.var(h["i"]), ("" if r in "SD" else "wv::") + TYPES[r], lst(kind(h["i"]), h["v"])))
            for i in h["lost"]:
                out.append("run.lost(%d);" % i)
            sets = h["set"]
            for i, v in sets[:1]:
                out.append("run.end(%d, %s);" % (i, lst(kind(i), v)))
            if not sets:
                out.append("run.end();")
        return "WV_RUN(%d) {\n    %s\n}\n" % (b["id"], "\n    ".join(out))


MAIN = "int main(int c, char **v) { return wv::runAll(c > 1 ? std::atoi(v[1]) : 0); }\n"
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def text(b):
    return "; ".join("%s%s" % (h["c"], " " + str(h.get("i", h.get("s", "")))) for h in b["hist"])


def replay(chk, bs, flags, tag, per_tu=4):
    pre, out = base.pch(chk, "store.hpp", flags)
    if pre is None:
        chk.violation("headers do not compile", {"errors": base.first_errors(out)})
        return
    code = {b["id"]: Writer(b).write() for b in bs}
    n = max(1, (len(bs) + per_tu - 1) // per_tu)
    groups = [g for g in (bs[i::n] for i in range(n)) if g]
    futs = [pool.submit(base.compile_exe, chk, "%s%d" % (tag, i),
                        "".join(code[b["id"]] for b in g) + MAIN, flags, pre) for i, g in enumerate(groups)]
    env = {"ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0",
           "UBSAN_OPTIONS": "print_stacktrace=0", "PATH": "/usr/bin:/bin"}
    total = 0

    def go(exe, g):
        nonlocal total
        r = base.run([exe], timeout=120, env=env)
        fails, done = {}, set()
        last = None
        for l in r.stdout.splitlines():
            if l.startswith("FAIL"):
                fails.setdefault(int(l.split("shape=")[1].split()[0]), []).append(l)
            elif l.startswith("START"):
                last = int(l.split()[1])
            elif l.startswith("SHAPE"):
                done.add(int(l.split()[1]))
                chk.traces += 1
            elif l.startswith("DONE"):
                total += int(l.split("checks=")[1].split()[0])
        for i, ls in fails.items():
            chk.violation("storage behaviour %s %d" % (tag, i), {"fails": ls[:5], "program": code[i]})
        if r.returncode != 0:
            chk.violation("program stopped in behaviour %s (exit status %d)" % (last, r.returncode),
                          {"output": r.stdout[-2500:], "program": code.get(last, "")})
            rest = [b for b in g if b["id"] not in done and b["id"] != last]
            for b in rest[:3]:
                base.run([exe, str(b["id"])], timeout=60, env=env)

    for i, (f, g) in enumerate(zip(futs, groups)):
        exe, out = f.result()
        if exe:
            go(exe, g)
        else:
            fs = [(b, pool.submit(base.compile_exe, chk, "%sone%d" % (tag, b["id"]), code[b["id"]] + MAIN, flags, pre)) for b in g]
            for b, f1 in fs:
                e1, o1 = f1.result()
                if e1:
                    go(e1, [b])
                else:
                    chk.violation("does not compile: behaviour %d" % b["id"],
                                  {"errors": base.first_errors(o1), "program": code[b["id"]]})
    chk.notes["comparisons"] = chk.notes.get("comparisons", 0) + total


def guard(chk, f, *a):
    try:
        f(*a)
    except Exception as e:
        chk.errors.append(e)


def run(chk, classes, num, count, framed_count, steps=10, budget=3, must=None, flags=None, rhythm=0):
    rng = random.Random(chk.seed * 31 + 5)
    rh = ThreadPoolExecutor(1).submit(behaviours, chk, set(classes) & {"build", "eval", "copy", "set"}, num, 18, 2, "r", True) if rhythm else None
    bs = behaviours(chk, classes, num, steps, budget)
    chosen, cov = select(bs, count, rng, must)
    chk.log("behaviours %d of %d, features %d" % (len(chosen), len(bs), len(cov)))
    chk.notes["features_covered"] = len(cov)
    for b in chosen[:4]:
        chk.sample(text(b))
    flags = list(flags or SAN)
    jobs = []
    if framed_count:
        rest = [b for b in bs if framable(b) and (must is None or must(b))]
        fr, _ = select(rest, framed_count, rng)
        # behaviours are numbered by their selection; the framed ones are copies
        fr = [dict(b) for b in fr]
        jobs.append(threading.Thread(target=guard, args=(chk, replay, chk, fr, flags + ["-DWV_FRAMED"], "sf")))
    for b in bs:
        b.pop("id", None)
    if rh:
        more, cov = select(rh.result(), rhythm, rng, only="current")
        chk.log("changed and evaluated: behaviours %d, features %d" % (len(more), len(cov)))
        chk.notes["operands_changed_after_construction"] = len(cov)
        chosen += more
    for j, b in enumerate(chosen):
        b["id"] = j + 1
    jobs.append(threading.Thread(target=guard, args=(chk, replay, chk, chosen, flags, "st")))
    for j in jobs:
        j.start()
    for j in jobs:
        j.join()
    if chk.errors:
        raise chk.errors[0]
