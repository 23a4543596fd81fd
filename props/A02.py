from props.common import rng_for
from props.exchange_common import scenarios


def run(ctx):
    ctx.model("MCExchangeMPI", cfg="MCExchangeMPI_full.cfg" if ctx.thorough else None)
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 12
    for nr, c2, c3 in ((2, 14, 6), (3, 10, 6), (4, 10, 4)):
        sc = scenarios(r, 2, c2 * k, nrank=nr) + scenarios(r, 3, c3 * k, nrank=nr)
        ctx.check_traces("TExchange", ctx.drive("exchange.py", {"scenarios": sc}, mpi=nr, threads=r.choice([1, 2]), timeout=120 if not ctx.thorough else 600))
    ctx.assumptions += ["particles move less than one patch per step", "positions are not exactly on a patch face"]
