from props.common import rng_for
from props.exchange_common import scenarios


def run(ctx):
    ctx.model("MCExchange")
    r = rng_for(ctx)
    sc = scenarios(r, 2, 60 if not ctx.thorough else 600) + scenarios(r, 3, 24 if not ctx.thorough else 200)
    for th, part in ((1, sc[0::2]), (4, sc[1::2])):
        ctx.check_traces("TExchange", ctx.drive("exchange.py", {"scenarios": part}, threads=th))
    ctx.extra["scenarios"] = len(sc)
    ctx.assumptions += ["particles move less than one patch per step", "positions are not exactly on a patch face"]
