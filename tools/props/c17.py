"""C17: locally compensated ridge GWR."""
from c04 import CORE
ASSUMPTIONS = ["one-variable models and local designs whose smallest singular value is below 1e-6 are not judged",
               "the traces in the diagnostics are those of the unpenalised local systems, as the library defines them"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWRLocalCollinearity.cpp"], ["common.cpp", "h_alg.cpp", "alg_lcr.cpp"])
    scn = []
    for mode, num, cut in (("fit", 400, 3), ("predict", 120, 6), ("crit", 120, 6), ("auto", 60, 3)):
        g = ctx.generate("GenGwr", env={"MODE": mode, "ALG": "lcr"}, simulate=num * (6 if t else 1), depth=5)
        scn += [("%s%d" % (mode, i), s[:cut]) for i, s in enumerate(g)]
    ctx.validate(binary, "AlgTrace", scn)
