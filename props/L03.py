from props.output_common import L03, run as go


def run(ctx):
    go(ctx, "L03", L03)
