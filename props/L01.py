from props.output_common import L01, run as go


def run(ctx):
    go(ctx, "L01", L01)
