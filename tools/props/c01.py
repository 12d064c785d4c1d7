"""C01: kernel weights."""
ASSUMPTIONS = ["double arithmetic of the specification (F64.java) is IEEE-754 with libm accuracy of a few ulps",
               "adaptive bandwidths below 1 and effective bandwidths of 0 are not usable and are not judged"]


def check(ctx):
    binary = ctx.build("h_weight", ["spatialweight/*.cpp"], ["common.cpp", "h_weight.cpp"])
    scn = ctx.generate("GenWeights", "GenWeightsThorough.cfg" if ctx.tier == "thorough" else "GenWeights.cfg")
    allscn = [("vec%d" % i, s) for i, s in enumerate(scn)]
    big = ctx.generate("GenWeightsBig", simulate=400 if ctx.tier == "thorough" else 80, depth=40)
    allscn += [("big%d" % i, s) for i, s in enumerate(big)]
    ctx.validate(binary, "DistTrace", allscn)
    ctx.notes["exhaustive"] = "distance vectors over 0..3 up to length %d, all kernels, 19 bandwidths" % (6 if ctx.tier == "thorough" else 4)
