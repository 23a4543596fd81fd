from props.common import rng_for
from props.qed_common import scenarios


def run(ctx):
    ctx.model("MCQed", cfg="MCQed_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.refute("MCQed", cfg="MCQed_flags.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    sc = scenarios(r, 2, 40 * k, "J02") + scenarios(r, 3, 20 * k, "J02")
    sj = scenarios(r, 2, 6 * k, "J02") + scenarios(r, 3, 3 * k, "J02")
    ctx.drive_and_check("TQed", "qed.py", {"scenarios": sj}, jit=True, threads=4)
    ctx.check_traces("TQed", ctx.drive("qed.py", {"scenarios": sc}), shards=k)
