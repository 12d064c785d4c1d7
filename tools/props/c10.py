"""C10: distributed execution."""
import os
ASSUMPTIONS = ["processes of one machine; the order in which messages arrive is the one the machine produces",
               "results are compared up to rounding; selections may part where scores are equal up to rounding",
               "requests to stop a distributed run are not judged"]


def binary(ctx):
    import vlib
    src = [os.path.relpath(f, vlib.SRC) for f in ctx._all()]
    return ctx.build("h_mpi", src, ["common.cpp", "h_mpi.cpp", "alg_basic.cpp", "alg_mgwr.cpp"])


def check(ctx):
    import vlib
    t = ctx.tier == "thorough"
    ctx.model_check("MpiModel")
    b = binary(ctx)
    scn = []
    for a, n in (("basic", 22), ("mgwr", 10), ("mul", 8)):
        g = ctx.generate("GenMpi", env={"ALG": a, "ASPECT": "parallel", "MODE": "fit"}, simulate=n * (6 if t else 1), depth=8)
        scn += [("%s%d" % (a, i), s) for i, s in enumerate(g)]
    scn = scn[::5] + [x for i, x in enumerate(scn) if i % 5]
    ctx.validate(b, "MpiTrace", scn, tenv={"ASPECT": "parallel"}, env=vlib.MPI_ENV, shards=4)
