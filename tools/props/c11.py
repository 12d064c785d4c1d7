"""C11: stopping at every place where an algorithm listens."""
import runs
ASSUMPTIONS = ["an exception that the undisturbed run raises too is not judged"]


def check(ctx):
    runs.run(ctx, "cancel", {"*": 6, "mgwr": 4}, 4)
