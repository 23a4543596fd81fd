from props.shape_common import run_mode


def run(ctx):
    ctx.model("MCDeposit", cfg="MCDeposit_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.model("MCDeposit", cfg="MCDeposit_3d.cfg", timeout=850)
    ctx.refute("MCDeposit", cfg="MCDeposit_straight.cfg")
    run_mode(ctx, "dep")
