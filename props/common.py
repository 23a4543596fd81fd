"""Scenario helpers shared by the property modules."""
import random


def rng_for(ctx, salt=0):
    return random.Random(f"{ctx.seed}-{ctx.prop}-{salt}")


def split_ranks(r, npatch, nrank):
    """A random assignment of patches to ranks, each rank owning at least one patch."""
    while True:
        m = [r.randrange(nrank) for _ in range(npatch)]
        if len(set(m)) == nrank:
            return m
