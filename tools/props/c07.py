"""C07: golden-section bandwidth selection."""
ASSUMPTIONS = ["adaptive ranges have whole-number bounds, scores are not NaN"]


def check(ctx):
    t = ctx.tier == "thorough"
    ctx.model_check("GoldenModel", "GoldenModelThorough.cfg" if t else "GoldenModel.cfg")
    binary = ctx.build("h_select", ["spatialweight/*.cpp", "BandwidthSelector.cpp", "VariableForwardSelector.cpp"], ["common.cpp", "h_select.cpp"])
    model = ctx.generate("GenGolden", "GenGoldenThorough.cfg" if t else "GenGolden.cfg")
    walk = ctx.generate("GenGoldenWalk", simulate=3000 if t else 250, depth=12)
    scn = [("model%d" % i, s) for i, s in enumerate(pack(model, 20))] + [("walk%d" % i, s) for i, s in enumerate(pack(walk, 5))]
    ctx.validate(binary, "SelectTrace", scn)
    ctx.notes["searches_replayed"] = len(model) + len(walk)


def pack(scn, k):
    """Several independent searches share one harness process."""
    return [sum(scn[i:i + k], []) for i in range(0, len(scn), k)]
