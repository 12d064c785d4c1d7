"""C21: density regression."""
from c04 import CORE
ASSUMPTIONS = ["local systems with a scaled condition number above 1e7 are not judged numerically",
               "evaluated bandwidths are known from the reports, with six decimals",
               "an optimisation that ends at its iteration limit fails, which is not judged"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWDR.cpp"], ["common.cpp", "h_alg.cpp", "alg_gwdr.cpp"])
    scn = []
    for mode, num, cut in (("fit", 250, 3), ("predict", 80, 6), ("crit", 100, 6), ("auto", 100, 3)):
        g = ctx.generate("GenGwdr", env={"MODE": mode}, simulate=num * (6 if t else 1), depth=6)
        scn += [("%s%d" % (mode, i), s[:cut]) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
