"""C22: discriminant analysis."""
from c04 import CORE
ASSUMPTIONS = ["the score uses the logarithm of the norm of the covariance (as R's GWmodel does; the repository's tests pin it)", 'samples at whose location a class has no unbiased covariance, or one with a condition number above 1e7, are not judged numerically']


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", CORE + ["GWDA.cpp"], ["common.cpp", "h_alg.cpp", "alg_gwda.cpp"])
    g = ctx.generate("GenGwr", env={"MODE": "run", "ALG": "gwda"}, simulate=180 * (10 if t else 1), depth=5)
    ctx.validate(binary, "AlgTrace", [("gwda%d" % i, s[:3]) for i, s in enumerate(g)])
