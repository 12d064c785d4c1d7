"""C04: basic GWR fit."""
ASSUMPTIONS = ["local systems with a scaled condition number above 1e7 are not judged numerically",
               "CUDA is not available here; serial and OpenMP execution are judged"]
CORE = ["spatialweight/*.cpp", "BandwidthSelector.cpp", "VariableForwardSelector.cpp", "Spatial*.cpp", "GWRBase.cpp", "utils/armampi.cpp"]
LIBS = CORE + ["GWRBasic.cpp", "GWRRobust.cpp"]


def check(ctx):
    binary = ctx.build("h_alg", LIBS, ["common.cpp", "h_alg.cpp", "alg_basic.cpp"])
    scn = ctx.generate("GenGwr", env={"MODE": "fit", "ALG": "basic"}, simulate=3000 if ctx.tier == "thorough" else 700, depth=5)
    ctx.validate(binary, "AlgTrace", [("fit%d" % i, s[:3]) for i, s in enumerate(scn)])
