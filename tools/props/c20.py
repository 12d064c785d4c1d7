"""C20: local principal components."""
from c04 import CORE
ASSUMPTIONS = ['eigenvectors are judged by what the local covariance makes of them, so repeated eigenvalues are no ambiguity']


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWPCA.cpp"], ["common.cpp", "h_alg.cpp", "alg_gwpca.cpp"])
    g = ctx.generate("GenGwr", env={"MODE": "run", "ALG": "gwpca"}, simulate=300 * (10 if t else 1), depth=5)
    ctx.validate(binary, "AlgTrace", [("gwpca%d" % i, s[:3]) for i, s in enumerate(g)])
