"""C25: date and time arithmetic in fixed-length units is exact and every field reaches its own computation."""
from checks import rtspec


def run(ctx):
    rtspec.decide(ctx, "C25", "date and time functions", 25)
