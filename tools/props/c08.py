"""C08: forward variable selection."""
from c07 import pack
ASSUMPTIONS = ["scores are not NaN"]


def check(ctx):
    t = ctx.tier == "thorough"
    binary = ctx.build("h_select", ["spatialweight/*.cpp", "BandwidthSelector.cpp", "VariableForwardSelector.cpp"], ["common.cpp", "h_select.cpp"])
    model = []
    for n in (1, 2, 3):
        model += ctx.generate("ForwardModel", "ForwardModel%d.cfg" % n)
    walk = ctx.generate("GenForward", simulate=3000 if t else 250, depth=12)
    scn = [("model%d" % i, s) for i, s in enumerate(pack(model, 20))] + [("walk%d" % i, s) for i, s in enumerate(pack(walk, 5))]
    ctx.validate(binary, "SelectTrace", scn)
    ctx.notes["selections_replayed"] = len(model) + len(walk)
