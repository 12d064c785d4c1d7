"""C15: generalised GWR."""
from c04 import CORE
ASSUMPTIONS = ["re-weightings that drive a mean to the edge of its range, or whose stopping test is decided by rounding, are not judged",
               "local systems with a scaled condition number above 1e7 are not judged numerically"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWRGeneralized.cpp", "GeneralizedLinearModel.cpp", "PoissonModel.cpp", "BinomialModel.cpp"],
                       ["common.cpp", "h_alg.cpp", "alg_ggwr.cpp"])
    scn = []
    for mode, num, cut in (("fit", 300, 3), ("predict", 80, 6), ("crit", 100, 6), ("auto", 60, 3)):
        g = ctx.generate("GenGwr", env={"MODE": mode, "ALG": "ggwr"}, simulate=num * (6 if t else 1), depth=6)
        scn += [("%s%d" % (mode, i), s[:cut]) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
