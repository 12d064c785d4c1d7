"""C06: criteria."""
from c04 import LIBS
ASSUMPTIONS = ["local systems with a scaled condition number above 1e7 are not judged numerically"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", LIBS, ["common.cpp", "h_alg.cpp", "alg_basic.cpp"])
    scn = []
    for alg, mode, num, cut in (("basic", "crit", 400, 6), ("basic", "auto", 150, 3), ("robust", "crit", 60, 6)):
        g = ctx.generate("GenGwr", env={"MODE": mode, "ALG": alg}, simulate=num * (8 if t else 1), depth=5)
        scn += [("%s%s%d" % (alg, mode, i), s[:cut]) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
