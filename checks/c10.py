"""C10: SQL NULL propagates through the scalar runtime functions."""
from checks import rtspec


def run(ctx):
    rtspec.decide(ctx, "C10", "scalar functions", 330)
