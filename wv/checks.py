"""The check of each property."""
import random
from . import base, expr

GROUP = ["comp", "inv", "rot", "trf", "rotof", "transof"]
MANIF = ["exp", "log", "logf", "bplus", "bminus"]
VEC = ["add", "sub", "neg", "nrm", "scale", "scaler", "sdiv", "kmul", "mulk", "divk"]
SCAL = ["norm", "sqn", "dot", "prod", "div", "acos", "kdiv", "kadd", "addk", "ksub", "subk"]
REG = ["gen"] * 3 + ["mix"] * 2 + ["pi", "zero", "eps", "pieps"]


def pick(chk, ops, roots, traces, budget, count, tag="", accept=None, want=None, reps=None, first=0,
         features=expr.features):
    rng = random.Random(chk.seed * 1000 + 17)
    shapes = expr.generate(chk, ops, roots, traces, budget=budget, tag=tag)
    chosen, cov = expr.select(shapes, count, rng, accept=accept, want=want, reps=reps, features=features)
    for s in chosen:
        s.id += first
    chk.log("shapes %d of %d, features %d" % (len(chosen), len(shapes), len(cov)))
    chk.notes["features_covered"] = len(cov)
    return chosen, rng


def has(*ops):
    return lambda s: any(o in ops for o in s.ops())


def C01(chk):
    quick = chk.tier == "quick"
    chosen, rng = pick(chk, GROUP, ["R", "T", "V"], 1500 if quick else 10000, 5, 96 if quick else 600)
    expr.run_shapes(chk, chosen, REG, "wv::VAL", rng)


def C03(chk):
    quick = chk.tier == "quick"
    chosen, rng = pick(chk, MANIF + GROUP + ["kmul", "const"], ["R", "T", "W", "X"],
                       2500 if quick else 10000, 3, 96 if quick else 600, accept=has(*MANIF))
    regimes = ["gen", "gen", "mult", "mult", "pi", "pi", "pieps", "eps", "eps", "zero", "mix", "mix"]
    expr.run_shapes(chk, chosen, regimes, "wv::VAL", rng, parts=6)


def C04(chk):
    quick = chk.tier == "quick"
    chosen, rng = pick(chk, expr.ALLOPS, ["R", "T", "W", "X", "V", "P", "S"],
                       3000 if quick else 12000, 4, 120 if quick else 800)
    expr.run_shapes(chk, chosen, REG + ["gen", "eps"], "wv::JAC", rng)


def C05(chk):
    quick = chk.tier == "quick"
    chosen, rng = pick(chk, expr.ALLOPS, ["R", "T", "W", "X", "V", "P", "S"],
                       3000 if quick else 12000, 4, 72 if quick else 600)
    # reverse mode forms a product along every chain of operations
    rev, _ = pick(chk, [o for o in expr.ALLOPS if o != "const"], ["R", "T", "W", "X", "V", "P", "S"],
                  4000 if quick else 15000, 3, 60 if quick else 500, tag="rev", first=10000, features=expr.paths,
                  want=lambda s: expr.unique_leaves(s) * (1 + sum(n.k == "S" for n in s.root.walk())))

    def every():
        expr.run_shapes(chk, chosen, ["gen"] * 5 + ["mix", "zero"],
                        "wv::VAL | wv::JAC | wv::EWJ | wv::FWD | wv::REV | wv::DYN | wv::DREV | wv::NUM", rng)

    def reverse():
        expr.run_shapes(chk, rev, ["gen", "gen", "mix"], "wv::VAL | wv::REV", rng, tag="rev")
    base.parallel(every, reverse)


def C10(chk):
    quick = chk.tier == "quick"
    chosen, rng = pick(chk, VEC + SCAL, ["W", "X", "V", "P", "S"], 2500 if quick else 10000, 4,
                       96 if quick else 600)
    expr.run_shapes(chk, chosen, ["gen"] * 4 + ["mix"] * 2 + ["zero"], "wv::VAL", rng)


def C09(chk):
    quick = chk.tier == "quick"
    chosen, rng = pick(chk, expr.ALLOPS, ["R", "T", "W", "X", "V", "P", "S"],
                       6000 if quick else 20000, 3, 84 if quick else 600,
                       accept=lambda s: any(n.o == "const" for n in s.root.walk()),
                       want=lambda s: 1 + sum(n.o == "const" for n in s.root.walk()))
    expr.run_shapes(chk, chosen, ["gen"] * 4 + ["mix", "pi", "zero"],
                    "wv::VAL | wv::JAC | wv::EWJ | wv::FWD | wv::REV | wv::DYN | wv::DREV", rng)


def C07(chk):
    from . import store
    quick = chk.tier == "quick"
    store.run(chk, ["build", "assign", "eval", "assignslot", "copy", "set"], 1200 if quick else 6000,
              34 if quick else 400, 14 if quick else 150, steps=12, rhythm=32 if quick else 300)


def C02(chk):
    from . import store
    quick = chk.tier == "quick"
    ops = [o for o in expr.ALLOPS if o != "const"]

    def values():
        # every representation and kind of storage, values and derivatives
        s1, rng = pick(chk, ops, ["R", "T", "W", "X", "V", "P"], 1500 if quick else 8000, 3, 36 if quick else 300,
                       reps=expr.XREPS)
        # single precision
        s2, _ = pick(chk, ops, ["R", "T", "W", "X", "V", "P", "S"], 1000 if quick else 4000, 2, 18 if quick else 150,
                     reps=expr.FREPS, tag="f", first=10000)
        expr.run_shapes(chk, s1 + s2, ["gen", "gen", "mix", "pi", "zero", "gen"], "wv::VAL | wv::JAC", rng)

    def conversions():
        s3, rng = pick(chk, GROUP + ["exp", "bplus"], ["R", "T"], 800, 2, 12 if quick else 100, reps=expr.XREPS, tag="c",
                       first=20000)
        s3 += expr.leaf_shapes(30000, expr.XREPS)
        expr.run_shapes(chk, s3, ["gen"] * 6 + ["pi"] * 3 + ["pieps"] * 2 + ["eps"] * 2 + ["zero", "mult", "mult"],
                        "wv::VAL | wv::CONV", rng, tag="conv")

    def statements():
        store.run(chk, ["assign", "ctor", "set"], 600 if quick else 3000, 16 if quick else 150, 8 if quick else 80,
                  steps=14, budget=1, flags=["-O1"])
    base.parallel(values, conversions, statements)


def C15(chk):
    from . import store
    quick = chk.tier == "quick"

    def values():
        s1, rng = pick(chk, expr.ALLOPS, ["R", "T", "W", "X", "V", "P", "S"], 2500 if quick else 8000, 3,
                       40 if quick else 300, reps=expr.XREPS, accept=has("rotof", "transof"))
        expr.run_shapes(chk, s1, ["gen"] * 4 + ["mix", "pi", "zero"],
                        "wv::VAL | wv::JAC | wv::EWJ | wv::DYN | wv::DREV", rng)

    def statements():
        store.run(chk, ["part", "set", "build", "assign"], 1500 if quick else 5000, 28 if quick else 250,
                  10 if quick else 100, steps=12, flags=["-O1"],
                  must=lambda b: sum(h["c"] == "part" for h in b["hist"]) >= 3)
    base.parallel(values, statements)


def C08(chk):
    from . import dyn
    quick = chk.tier == "quick"
    n, t, steps = (44, 900, 12) if quick else (120, 12000, 20)
    base.parallel(lambda: dyn.run(chk, n, t, steps, False, ["-O1"], "dynu"),
                  lambda: dyn.run(chk, n, t, steps, True, ["-O1"], "dynf"))


def C06(chk):
    from . import frames
    if chk.tier == "quick":
        frames.run(chk, {"yes": 60, "no": 190}, 400, 14, 80, 60)
    else:
        frames.run(chk, None, 6000, 20, 2500, 120)


def C11(chk):
    from . import compound
    if chk.tier == "quick":
        compound.run(chk, 240, 38, 20)
    else:
        compound.run(chk, 4000, 500, 30)


def C16(chk):
    from . import matrices
    if chk.tier == "quick":
        matrices.run(chk, 240, 48, 24)
    else:
        matrices.run(chk, 4000, 600, 40)


def C17(chk):
    from . import approx
    if chk.tier == "quick":
        approx.run(chk, 300, 40, 30)
    else:
        approx.run(chk, 4000, 500, 45)


def C13(chk):
    from . import noise
    if chk.tier == "quick":
        noise.run(chk, 300, 24, 14)
    else:
        noise.run(chk, 6000, 500, 20)


def C12(chk):
    from . import factors
    if chk.tier == "quick":
        factors.run(chk, 400, 26, 24)
    else:
        factors.run(chk, 5000, 400, 40)


def C14(chk):
    from . import identity
    if chk.tier == "quick":
        identity.run(chk, 300, 32, 24)
    else:
        identity.run(chk, 4000, 500, 34)
