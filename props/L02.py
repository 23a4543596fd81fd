from props.output_common import L02, run as go


def run(ctx):
    go(ctx, "L02", L02)
