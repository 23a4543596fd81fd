from props.common import rng_for


def scenarios(r, count):
    out = []
    for i in range(count):
        kind = ["base", "qed", "spin", "spinqed"][i % 4]
        ops = [["init", r.choice([0, 0, 1, 2, 3, 7])], ["fill"]]
        for _ in range(r.randint(3, 9)):
            k = r.random()
            ops.append(["grow", r.choice([-1, 0, 0, 1, 2, 3, 8])] if k < 0.3 else
                       ["use", r.randint(1, 4)] if k < 0.5 else
                       ["kill", r.randint(1, 5), r.randint(0, 4)] if k < 0.65 else
                       ["shrink", r.choice([None, 0.0, 0.1, 0.5, 1.0])] if k < 0.85 else
                       ["copy", r.choice(["pickle", "pickle5", "dill", "deep"])])
        out.append(dict(kind=kind, ipatch=r.choice([0, 1, 5, 2**18 - 1]), rank=r.choice([0, 0, 3]), ops=ops,
                        aux=[] if r.random() < 0.6 else ["aux1"] if r.random() < 0.5 else ["aux1", "foo"]))
    return out


def run(ctx):
    ctx.model("MCContainer", cfg="MCContainer_full.cfg" if ctx.thorough else None)
    r = rng_for(ctx)
    ctx.check_traces("TContainer", ctx.drive("container.py", {"scenarios": scenarios(r, 400 if not ctx.thorough else 8000)}), shards=1 if not ctx.thorough else 8)
