"""C09: multi-threaded execution."""
import runs
ASSUMPTIONS = ["results are compared up to rounding; selections may part where scores are equal up to rounding",
               "thread schedules are those the machine produces for 1, 2, 3, 5 and 30 threads"]


def check(ctx):
    algs = [a for a in runs.ALGS if a not in ("gwpca", "scal")]
    runs.run(ctx, "parallel", {"*": 24, "mgwr": 14}, None, algs, rounds=6)
