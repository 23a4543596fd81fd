from props.common import rng_for, split_ranks
CLS = ["decorator", "keyword", "method", "class", "fields", "density", "particles", "momentum", "temperature", "both", "extract", "plot", "load"]
BAD = ["0", "-1", "-7", "0.0", "1.0", "-0.25", "2.5", "'5'", "None", "[1]", "(2,)", "1j"]


def interval(r):
    k = r.choice(["int", "int", "time", "time", "pred"])
    if k == "int":
        return dict(k=k, n=r.choice([1, 2, 3, 4, 5, 7, 10, 13, 100]))
    if k == "time":
        b = r.choice([1, 1, 1, 2, 3, 4, 7, 10])
        a = r.choice([1, 2, 3, 5, 7, 10, 13, 29, 60]) if r.random() < 0.6 else r.randint(1, 90)
        return dict(k=k, a=a, b=b)
    return dict(k=k, m=r.randint(1, 6), c=r.randint(0, 6), w=r.randint(0, 5), form=r.choice(["int", "np", "obj", "fun"]))


def scenarios(r, D, count, nr):
    out = []
    for _ in range(count):
        np_ = [nr if a == 0 else 1 for a in range(D)]
        cbs = []
        for cls in r.sample(CLS, 6) + ["decorator", "class"] + (["restart"] if r.random() < 0.5 else []):
            cbs.append(dict(cls=cls, i=interval(r), stage=r.choice(["init", "start", "start", "maxwell_1", "_laser", "current_deposition", "end", "end", "final"])))
        dx = r.choice([2.0**-20, 1e-7, 3.3e-8, 1.0e-6 / 7])
        out.append(dict(np=np_, n=[6] * D, per=[True] * D, pml=1, ng=3, dx=[dx] * D, cbs=cbs, start=r.choice([0, 0, 0, 1, 17, 1000, 4999]),
                        clock=r.choice(["sum", "product"]), runs=r.choice([[40], [13, 20], [1, 1, 1, 25], [70]]) if D == 2 else [15],
                        bad=[[r.choice(["decorator", "class"]), r.choice(BAD)] for _ in range(3)], ranks=list(range(nr)) if nr > 1 else None))
    return out


def run(ctx):
    ctx.model("MCInterval", cfg="MCInterval_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.refute("MCInterval", cfg="MCInterval_naive.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 12
    for nr, c2, c3 in [(1, 60, 4), (2, 6, 1)]:
        sc = scenarios(r, 2, c2 * k, nr) + scenarios(r, 3, c3 * k, nr)
        if nr == 1:
            # every invalid value, both ways
            sc[0]["bad"] = [[c, b] for c in ("decorator", "class") for b in BAD]
        ctx.check_traces("TInterval", ctx.drive("interval.py", {"scenarios": sc}, mpi=nr, timeout=700))
