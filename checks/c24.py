"""C24: direct-address runtime helpers reach exactly the right slot."""
from checks import rtspec


def run(ctx):
    rtspec.decide(ctx, "C24", "slot, decoding and bucketing functions", 30)
