"""Programs generated from behaviours, written out as C++ and run."""
from . import base
from .base import pool


class Prog:
    def __init__(self, pid, code, descr, pre=""):
        self.id, self.code, self.descr, self.pre = pid, code, descr, pre


def text(ps):
    out = "using namespace wv;\n"
    for p in ps:
        out += p.pre
        out += "static void prog_%d() {\n%s}\n" % (p.id, p.code)
    return out + "int main() { return wv::runAll({%s}); }\n" % ", ".join("{%d, &prog_%d}" % (p.id, p.id) for p in ps)


def run(chk, header, progs, flags, per_tu, name, what):
    """Compile the programs in groups and run them; records violations."""
    flags = list(flags)
    pre, out = base.pch(chk, header, flags)
    if pre is None:
        chk.violation("headers do not compile", {"errors": base.first_errors(out)})
        return
    byid = {p.id: p for p in progs}
    n = max(1, (len(progs) + per_tu - 1) // per_tu)
    groups = [g for g in (progs[i::n] for i in range(n)) if g]

    def handle(exe):
        r = base.run([exe], timeout=300)
        last, fails = None, {}
        for l in r.stdout.splitlines():
            if l.startswith("FAIL"):
                fails.setdefault(int(l.split("run=")[1].split()[0]), []).append(l)
            elif l.startswith("RUN"):
                last = int(l.split()[1])
            elif l.startswith("END"):
                last = None
                chk.traces += 1
            elif l.startswith("DONE"):
                chk.notes["comparisons"] = chk.notes.get("comparisons", 0) + int(l.split("checks=")[1].split()[0])
        for i, ls in fails.items():
            chk.violation(what, {"fails": ls[:6], "program": byid[i].descr, "code": byid[i].code})
        if r.returncode != 0:
            chk.violation("program stopped (exit status %d)" % r.returncode,
                          {"program": byid[last].descr if last else "", "code": byid[last].code if last else "",
                           "output": r.stdout[-2500:]})

    def work(i):
        g = groups[i]
        exe, out = base.compile_exe(chk, "%s%d" % (name, i), text(g), flags, pre)
        if exe:
            return [exe], []
        exes, errs = [], []
        for p in g:
            exe, out = base.compile_exe(chk, "%sone%d" % (name, p.id), text([p]), flags, pre)
            if exe:
                exes.append(exe)
            else:
                errs.append((p, base.first_errors(out)))
        return exes, errs
    futs = [pool.submit(work, i) for i in range(len(groups))]
    for f in futs:
        exes, errs = f.result()
        for p, e in errs:
            chk.violation("does not compile: " + what, {"program": p.descr, "errors": e, "code": p.code})
        for exe in exes:
            handle(exe)
    for p in progs[:4]:
        chk.sample(p.descr[:500])


def nums(xs):
    return "{" + ", ".join(repr(x) if isinstance(x, float) else "%d" % x for x in xs) + "}"


def flat(v):
    """The numbers of a value: vectors, rotations by rows, transforms"""
    if isinstance(v, dict):
        return flat(v["R"]) + v["t"]
    if v and isinstance(v[0], list):
        return [x for r in v for x in r]
    return v
