"""C05: prediction at locations (basic, robust, locally compensated)."""
from c04 import LIBS
ASSUMPTIONS = ["local systems with a scaled condition number above 1e7 are not judged numerically"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", LIBS + ["GWRLocalCollinearity.cpp"], ["common.cpp", "h_alg.cpp", "alg_basic.cpp", "alg_lcr.cpp"])
    scn = []
    for alg, num in (("basic", 300), ("robust", 100), ("lcr", 100)):
        g = ctx.generate("GenGwr", env={"MODE": "predict", "ALG": alg}, simulate=num * (8 if t else 1), depth=5)
        scn += [("%s%d" % (alg, i), s) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
