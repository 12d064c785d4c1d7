"""C13: multiscale GWR."""
from c04 import CORE
ASSUMPTIONS = ["local systems of the initial model with a scaled condition number above 1e7 are not judged numerically",
               "selected bandwidths are followed through the reports, which have six decimals"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWRBasic.cpp", "GWRMultiscale.cpp"], ["common.cpp", "h_alg.cpp", "alg_mgwr.cpp"])
    scn = []
    for mode, num in (("spec", 120), ("select", 160)):
        g = ctx.generate("GenMgwr", env={"MODE": mode}, simulate=num * (6 if t else 1), depth=6)
        scn += [("%s%d" % (mode, i), s[:3]) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
