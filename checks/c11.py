"""C11: aggregates skip NULLs and otherwise accumulate exactly."""
from checks import rtspec


def run(ctx):
    rtspec.decide(ctx, "C11", "aggregate functions", 70)
