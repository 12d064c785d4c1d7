"""C02: distances."""
ASSUMPTIONS = ["nearly antipodal points (where the great-circle formula itself loses accuracy) are not generated",
               "matrix-file distances are unimplemented upstream and not claimed"]


def check(ctx):
    binary = ctx.build("h_weight", ["spatialweight/*.cpp"], ["common.cpp", "h_weight.cpp"])
    scn = ctx.generate("GenDist", simulate=8000 if ctx.tier == "thorough" else 3000, depth=17)
    ctx.validate(binary, "DistTrace", [("dist%d" % i, s) for i, s in enumerate(scn)])
