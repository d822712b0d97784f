"""Paths, processes, TLC, compilation, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("WV_JOBS", str(os.cpu_count() or 4)))

CXXFLAGS = ["-std=gnu++17", "-w", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN",
            "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(REPO, "3rd-party", "Tick"),
            "-isystem", "/usr/include/eigen3", "-I" + HARNESS]

pool = ThreadPoolExecutor(max_workers=JOBS)


class Check:
    """One run of one property's check: scratch directory, counters, violations."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.errors = []     # of concurrent parts
        self.notes = {}
        self.lock = threading.Lock()
        self.pchs = {}
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "_", dir=BUILD)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, what, detail):
        """Record a violation; detail is anything JSON can hold."""
        self.violations.append({"what": what, "detail": detail})

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": dict({"states": self.states, "transitions": self.transitions,
                              "traces_validated_against_impl": self.traces,
                              "samples": self.samples}, **self.notes),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            rp = os.path.join(VERIF, "replay", "%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "command": "VERIF_SEED=%d python3 -m wv %s --tier %s" % (
                               self.seed, self.prop, self.tier),
                           "violations": self.violations[:50]}, f, indent=1)
            for v in self.violations[:8]:
                print("  -", v["what"], "|", str(v["detail"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            self.log("held: %d states, %d behaviours replayed on the implementation" %
                     (self.states, self.traces))
        if not os.environ.get("WV_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def parallel(*fs):
    """Call functions concurrently; the first exception is raised."""
    errs = []

    def call(f):
        try:
            f()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=call, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


class ToolError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    """Run a command; one which does not end in time has exit status 124."""
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              timeout=timeout, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return subprocess.CompletedProcess(cmd, 124, out + "\n(did not end within %d s)" % timeout)


# --------------------------------------------------------------------- TLC
def tlc(chk, module, cfg_text, env=None, workers=1, simulate=None, depth=None, seed=None,
        timeout=600, tag=None, expect_ok=True):
    """Run TLC on spec/<module>.tla with the given configuration; returns its output lines
    starting with @ (decoded from JSON) and all output."""
    tag = tag or module
    d = chk.path("tlc_" + tag)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = os.path.join(d, "run.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfg,
           "-noGenerateSpecTE", "-nowarning"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd.append(os.path.join(d, module + ".tla"))
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + " -Xmx3g -XX:ParallelGCThreads=2").strip()
    if env:
        e.update(env)
    r = run(cmd, timeout=timeout, env=e, cwd=d)
    out = r.stdout
    recs = []
    for line in out.splitlines():
        if line.startswith('"@'):
            recs.append(json.loads(json.loads(line)[1:]))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if m:
        chk.transitions += int(m[-1][0].replace(",", ""))
        chk.states += int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"states generated: ([\d,]+)", out)
        if m:
            n = int(m[-1].replace(",", ""))
            chk.states += n
            chk.transitions += n
    bad = ("Error:" in out) or r.returncode != 0
    if expect_ok and bad:
        with open(chk.path("tlc_%s.log" % tag), "w") as f:
            f.write(out)
        tail = [l for l in out.splitlines() if not l.startswith('"@')]
        tail = [l for l in tail if "rror" in l or "violated" in l][:8] + tail[-30:]
        raise ToolError("TLC failed on %s:\n%s" % (module, "\n".join(tail)))
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return recs, out


# ------------------------------------------------------------- compilation
CXX = os.environ.get("WV_CXX", "clang++")     # compiles faster than g++, which has the last word


def lenient(cxx):
    """What g++ accepts without saying so"""
    return ["-Wno-c++11-narrowing"] if "clang" in cxx else []


def pch(chk, header, flags, cxx=None):
    """Precompile a header of the harness directory; returns the options to use it."""
    key = (header, tuple(flags), cxx)
    with chk.lock:
        own = chk.pchs.setdefault(key, {"lock": threading.Lock()})
    with own["lock"]:
        if "pre" not in own:
            own["pre"] = make_pch(chk, header, flags, cxx or CXX)
    return own["pre"]


def warm(chk, header, *flags):
    """Precompile a header in the background."""
    for f in flags:
        threading.Thread(target=pch, args=(chk, header, f), daemon=True).start()


def make_pch(chk, header, flags, cxx):
    d = chk.path("pch_%s_%08x" % (header.replace(".", "_"), zlib.crc32(" ".join(flags + [cxx]).encode())))
    os.makedirs(os.path.join(d, "plain"), exist_ok=True)
    src = os.path.join(d, "all.hpp")
    for f in src, os.path.join(d, "plain", "all.hpp"):
        with open(f, "w") as h:
            h.write('#include "%s"\n' % header)
    r = run([cxx] + lenient(cxx) + ["-x", "c++-header"] + CXXFLAGS + flags + [src, "-o", src + ".gch"], timeout=300)
    if r.returncode and cxx != "g++":
        r = run(["g++", "-fsyntax-only", "-x", "c++-header"] + CXXFLAGS + flags + [src], timeout=300)
        src = os.path.join(d, "plain", "all.hpp")
    if r.returncode:
        return None, r.stdout
    return ["-include", src], r.stdout


def compile_to(opts, out, name, source, flags, pre, cxx, timeout):
    """Compile; what the usual compiler does not accept is given to g++, with which /repo is built."""
    src = out + ".cpp"
    with open(src, "w") as f:
        f.write(source)
    for c in dict.fromkeys([cxx or CXX, "g++"]):
        if c == "g++" and c != (cxx or CXX):
            pre = [os.path.join(os.path.dirname(p), "plain", "all.hpp")
                   if p.endswith("all.hpp") and os.path.basename(os.path.dirname(p)) != "plain" else p for p in pre]
        r = run([c] + lenient(c) + opts + CXXFLAGS + flags + pre + [src, "-o", out], timeout=timeout)
        if r.returncode == 0:
            return out, r.stdout
        if os.environ.get("WV_KEEP"):
            with open(out + "." + c + ".log", "w") as f:
                f.write(r.stdout)
    return None, r.stdout


def compile_exe(chk, name, source, flags, pre, cxx=None, timeout=600):
    return compile_to([], chk.path(name), name, source, flags, pre, cxx, timeout)


def compile_obj(chk, name, source, flags, pre, cxx=None, timeout=600):
    return compile_to(["-c"], chk.path(name + ".o"), name, source, flags, pre, cxx, timeout)


def link(chk, name, objs, flags, cxx=None):
    exe = chk.path(name)
    r = run([cxx or CXX] + flags + objs + ["-o", exe], timeout=300)
    return (exe if r.returncode == 0 else None), r.stdout


def first_errors(out, n=3):
    ls = [l for l in out.splitlines() if "error" in l]
    return [l[:300] for l in ls[:n]]
