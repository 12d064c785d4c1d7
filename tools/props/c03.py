"""C03: weighting configurations are values."""
import os
ASSUMPTIONS = ["the harness is built with AddressSanitizer: use after free and double free end the trace with a crash event"]


def check(ctx):
    ctx.model_check("HandleHeap")
    binary = ctx.build("h_handles", ["spatialweight/*.cpp", "BandwidthSelector.cpp", "VariableForwardSelector.cpp", "Spatial*.cpp",
                                     "GWRBase.cpp", "GWRBasic.cpp", "GWRMultiscale.cpp", "utils/armampi.cpp"],
                       ["common.cpp", "h_handles.cpp"], extra=["-fsanitize=address", "-fno-omit-frame-pointer"])
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1"}
    alls = ctx.generate("GenHandles", "GenHandlesAll.cfg")
    if ctx.tier == "quick":
        alls = alls[ctx.seed % 12::12]
    walk = ctx.generate("GenHandles", simulate=3000 if ctx.tier == "thorough" else 350, depth=26)
    scn = [("pair%d" % i, s) for i, s in enumerate(alls)] + [("walk%d" % i, s) for i, s in enumerate(walk)]
    ctx.validate(binary, "HandleTrace", scn, env=env)
