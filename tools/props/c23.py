"""C23: what a caller is told during a run."""
import runs
ASSUMPTIONS = ["the listener itself is thread safe", "selections of distributed runs are judged by C10"]


def check(ctx):
    g = ctx.generate("GenReports")
    runs.run(ctx, "report", {"*": 12, "mgwr": 6, "gwdr": 8}, None, module="ReportTrace", more=[("say%d" % i, s) for i, s in enumerate(g)])
