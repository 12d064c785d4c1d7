"""C19: local summary statistics."""
from c04 import CORE
ASSUMPTIONS = ['statistics that divide by a variance, a mean or the complement of the squared weights are judged where that is not near zero', 'where cumulated weights meet a quantile exactly, or values are tied, either neighbour is accepted']


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWSS.cpp"], ["common.cpp", "h_alg.cpp", "alg_gwss.cpp"])
    g = ctx.generate("GenGwr", env={"MODE": "run", "ALG": "gwss"}, simulate=260 * (10 if t else 1), depth=5)
    ctx.validate(binary, "AlgTrace", [("gwss%d" % i, s[:3]) for i, s in enumerate(g)])
