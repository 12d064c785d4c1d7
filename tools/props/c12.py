"""C12: a run depends on the current configuration only."""
import runs
ASSUMPTIONS = ["runs with several threads are compared up to rounding; selections may part where scores are equal up to rounding"]


def check(ctx):
    runs.run(ctx, "config", {"*": 20, "mgwr": 12, "gwdr": 16}, None)
