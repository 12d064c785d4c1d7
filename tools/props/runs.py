"""Shared by C09, C11, C12: every algorithm through the abstract machine of RunTrace."""
from c04 import CORE
ALGS = {"basic": "GWRBasic.cpp", "robust": "GWRRobust.cpp GWRBasic.cpp", "lcr": "GWRLocalCollinearity.cpp", "gtwr": "GTWR.cpp", "ggwr": "GWRGeneralized.cpp GeneralizedLinearModel.cpp utils/*.cpp",
        "mgwr": "GWRMultiscale.cpp", "gwdr": "GWDR.cpp", "scal": "GWRScalable.cpp", "gwss": "GWSS.cpp", "gwda": "GWDA.cpp", "gwpca": "GWPCA.cpp"}


def binary(ctx):
    import vlib, os
    src = [os.path.relpath(f, vlib.SRC) for f in ctx._all()]
    return ctx.build("h_runs", src, ["common.cpp", "h_alg.cpp"] + ["alg_%s.cpp" % a for a in
                                    ("probe", "basic", "ggwr", "gtwr", "gwda", "gwdr", "gwpca", "gwss", "lcr", "mgwr", "scal")])


def run(ctx, aspect, num, cut, algs=ALGS, module="RunTrace", more=(), **kw):
    from concurrent.futures import ThreadPoolExecutor
    b = binary(ctx)
    t = ctx.tier == "thorough"

    def gen(a):
        n = num[a] if isinstance(num, dict) and a in num else num["*"] if isinstance(num, dict) else num
        g = ctx.generate("GenRuns", env={"ALG": a, "ASPECT": aspect, "MODE": "fit"}, simulate=n * (8 if t else 1), depth=8)
        return [("%s%d" % (a, i), s[:cut] if cut else s) for i, s in enumerate(g)]
    with ThreadPoolExecutor(4) as ex:
        scn = [x for l in ex.map(gen, algs) for x in l]
    scn += list(more)
    scn = scn[::7] + [x for i, x in enumerate(scn) if i % 7]
    ctx.validate(b, module, scn, tenv={"ASPECT": aspect}, **kw)
