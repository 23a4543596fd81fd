from props.common import rng_for
from props.fields_common import guard_scenarios


def run(ctx):
    ctx.model("MCGuard")
    if ctx.thorough:
        ctx.model("MCGuard_full")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    jobs = [(1, 24, 8, 1), (1, 12, 4, 4), (2, 14, 6, 2), (3, 10, 4, 1)]
    if ctx.thorough:
        jobs += [(4, 10, 4, 2)]
    for nr, c2, c3, th in jobs:
        sc = guard_scenarios(r, 2, c2 * k, nr) + guard_scenarios(r, 3, c3 * k, nr)
        ctx.check_traces("TFields", ctx.drive("fields.py", {"scenarios": sc}, mpi=nr, threads=th))
    ctx.assumptions.append("patches are at least as wide as the guard")
