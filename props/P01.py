from props.shape_common import run_mode


def run(ctx):
    ctx.model("MCInterp", cfg="MCInterp_full.cfg" if ctx.thorough else None, timeout=850)
    if ctx.thorough:
        ctx.model("MCInterp", cfg="MCInterp_3d.cfg", timeout=850)
    ctx.refute("MCInterp", cfg="MCInterp_wrong.cfg")
    run_mode(ctx, "int")
