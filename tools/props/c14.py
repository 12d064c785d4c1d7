"""C14: robust GWR."""
from c04 import LIBS
ASSUMPTIONS = ["samples whose studentised residual is within 1e-6 of the limit, and re-weighting rounds whose stopping test is within 0.1 % of its limit, are not judged"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_alg", LIBS, ["common.cpp", "h_alg.cpp", "alg_basic.cpp"])
    scn = ctx.generate("GenGwr", env={"MODE": "fit", "ALG": "robust"}, simulate=2500 if t else 330, depth=5)
    ctx.validate(binary, "AlgTrace", [("rob%d" % i, s[:3]) for i, s in enumerate(scn)])
    auto = ctx.generate("GenGwr", env={"MODE": "auto", "ALG": "robust"}, simulate=500 if t else 60, depth=5)
    ctx.validate(binary, "AlgTrace", [("auto%d" % i, s[:3]) for i, s in enumerate(auto)])
