"""C18: spatio-temporal GWR."""
from c04 import CORE
ASSUMPTIONS = ["local systems with a scaled condition number above 1e7 are not judged numerically",
               "the search of the mixing factor is followed as long as its comparisons are not decided by rounding",
               "prediction takes no times, so its values are only judged at the samples' own locations"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GTWR.cpp"], ["common.cpp", "h_alg.cpp", "alg_gtwr.cpp"])
    scn = []
    for mode, num, cut in (("fit", 300, 3), ("predict", 50, 6), ("crit", 120, 6), ("auto", 40, 3), ("lambda", 60, 3)):
        g = ctx.generate("GenGwr", env={"MODE": mode, "ALG": "gtwr"}, simulate=num * (6 if t else 1), depth=5)
        scn += [("%s%d" % (mode, i), s[:cut]) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
