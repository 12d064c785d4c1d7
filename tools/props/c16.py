"""C16: scalable GWR."""
from c04 import CORE
ASSUMPTIONS = ["foci whose last neighbour is not clearly nearer than the next sample are not judged",
               "local systems with a condition number above 3e4 are not judged numerically (the library solves through the squared matrix)",
               "traces and variances are judged by the library's own definition, which the repository's tests pin"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWRScalable.cpp"], ["common.cpp", "h_alg.cpp", "alg_scal.cpp"])
    g = ctx.generate("GenScal", simulate=2500 if t else 220, depth=6)
    ctx.validate(binary, "AlgTrace", [("scal%d" % i, s[:4]) for i, s in enumerate(g)])
