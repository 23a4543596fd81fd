"""What every cell holds after loading."""
from props.common import rng_for, split_ranks


def prof(r, choices):
    k = r.choice(choices)
    return dict({"kind": "f", "a": r.choice([0, 1, 2, 3]), "b": r.choice([0, 1, 2, 5]), "c": r.choice([0, 1, 3]), "o": 0, "s": 1, "fr": 0, "jit": 0}, **k)


def species(r, jit):
    s = dict(t=r.choice("eeig"), has=0, dmin=0)
    if r.random() < 0.85:
        s.update(has=1, dmin=r.choice([0, 0, 12, 24]),
                 dens=prof(r, [dict(m=1, o=-1, s=24), dict(m=5, o=1, s=12), dict(m=7, o=2, s=12), dict(m=3, o=0, s=24), dict(m=2, o=0, s=36)]),
                 ppc=r.choice([dict(kind="const", v=r.choice([1, 2, 3, 4, 6])), prof(r, [dict(m=5), dict(m=3, s=2), dict(m=4, o=-1), dict(m=5, fr=0.75)])]))
        if r.random() < 0.3 and jit:
            s["dens"]["jit"] = 1
    return s


def scenario(r, D, nr, jit):
    while True:
        n = [r.choice([4, 5, 6, 8]) for _ in range(D)] if D == 2 else [r.choice([4, 5]) for _ in range(D)]
        per = [r.random() < 0.6 for _ in range(D)]
        np_ = [r.choice([1, 2, 3]) if per[a] else 2 for a in range(D)]
        N = 1
        for x in np_:
            N *= x
        if nr <= N <= 9:
            break
    sp = [species(r, jit) for _ in range(r.choice([1, 2, 3]))]
    if any(s["t"] == "g" for s in sp) and r.random() < 0.5:
        for s in sp:
            if s["t"] == "e":
                s["t"] = "r"
                break
    return dict(np=np_, n=n, per=per, pml=r.choice([1, 2]), ng=r.choice([2, 3]), dx=[r.choice([0.5, 0.25, 2.0**-20]) for _ in range(D)], seed=r.randrange(1000),
                species=sp, ranks=split_ranks(r, N, nr) if nr > 1 and r.random() < 0.7 else None)


def run(ctx):
    ctx.model("MCLoad", cfg="MCLoad_full.cfg" if ctx.thorough else None, timeout=850)
    for v in ("edge", "axis", "shared", "stale"):
        ctx.refute("MCLoad", cfg=f"MCLoad_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 12
    for nr, c2, c3, jit in [(1, 24, 8, False), (2, 6, 3, False), (3, 4, 1, False)] + ([(1, 8, 4, True)] if ctx.thorough else []):
        sc = [scenario(r, D, nr, jit) for D, cnt in ((2, c2), (3, c3)) for _ in range(cnt * (k if not jit else 1))]
        if nr == 1 and not jit:
            # a configured momentum is not applied (known finding)
            sc.append(dict(np=[2, 1], n=[4, 4], per=[True, True], pml=1, ng=2, dx=[0.5, 0.5], seed=1, ranks=None, finding="U01-momentum",
                           species=[dict(t="e", has=1, dmin=0, mom=1, dens=dict(kind="f", a=0, b=0, c=0, m=1, o=-1, s=12, fr=0), ppc=dict(kind="const", v=1))]))
        ctx.check_traces("TLoad", ctx.drive("load.py", {"scenarios": sc}, mpi=nr, jit=jit, timeout=700))
