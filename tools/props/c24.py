"""C24: validity of a configuration."""
import os
ASSUMPTIONS = ["whether a bandwidth search needs a positive bandwidth to start from is left open"]
ALGS = ["basic", "robust", "lcr", "ggwr", "scal", "gtwr", "gwss", "gwpca", "gwda", "gwdr", "mgwr"]


def check(ctx):
    import vlib
    from concurrent.futures import ThreadPoolExecutor
    t = ctx.tier == "thorough"
    src = [os.path.relpath(f, vlib.SRC) for f in ctx._all()]
    b = ctx.build("h_valid", src, ["common.cpp", "h_valid.cpp"])

    def gen(a):
        g = ctx.generate("GenValid", env={"ALG": a, "ASPECT": "all"}) if a != "mgwr" or t else ctx.generate("GenValid", env={"ALG": a, "ASPECT": "all"}, simulate=1500, depth=10)
        w = ctx.generate("GenValid", env={"ALG": a, "ASPECT": "walk"}, simulate=30 * (8 if t else 1), depth=4)
        return [("%s%d" % (a, i), s) for i, s in enumerate(g)] + [("%sw%d" % (a, i), s) for i, s in enumerate(w)]
    with ThreadPoolExecutor(4) as ex:
        scn = [x for l in ex.map(gen, ALGS) for x in l]
    ctx.validate(b, "ValidTrace", scn)
