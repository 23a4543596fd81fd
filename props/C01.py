from props.common import rng_for
from props.fields_common import cur_scenarios, race_scenarios


def run(ctx):
    ctx.model("MCCurrents")
    ctx.refute("MCCurrentsRace")
    if ctx.thorough:
        ctx.model("MCCurrents_full")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    jobs = [(1, 16, 6, 1), (1, 10, 4, 4), (2, 12, 5, 2), (3, 10, 3, 1)]
    if ctx.thorough:
        jobs += [(4, 10, 4, 2)]
    for nr, c2, c3, th in jobs:
        sc = cur_scenarios(r, 2, c2 * k, nr) + cur_scenarios(r, 3, c3 * k, nr)
        ctx.check_traces("TFields", ctx.drive("fields.py", {"scenarios": sc}, mpi=nr, threads=th))
    # many repetitions with more threads than patches: threads must not lose additions
    sc = race_scenarios(r, 2, 2, 1500 * k) + race_scenarios(r, 3, 2, 150 * k) + race_scenarios(r, 2, 2, 1000 * k, n=12)
    ctx.check_traces("TFields", ctx.drive("fields.py", {"scenarios": sc}, mpi=2, threads=4))
    sc = race_scenarios(r, 2, 1, 600 * k)
    ctx.check_traces("TFields", ctx.drive("fields.py", {"scenarios": sc}, mpi=1, threads=8))
    ctx.assumptions.append("patches are at least as wide as the guard")
