from props.common import rng_for, split_ranks
ALL = ["init", "start", "maxwell_1", "current_deposition", "qed_create_particles", "_laser", "maxwell_2", "end", "final"]
PUSH = ["_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2"]


def scenarios(r, D, count, nr):
    out = []
    for _ in range(count):
        per = [True] * D
        np_ = [r.choice([1, 2]) for _ in range(D)]
        if D == 3:
            np_[2] = 1
        N = 1
        for x in np_:
            N *= x
        if N < nr:
            np_[0] = np_[1] = 2
            N = 4
        dx = 2.0**-20
        dt = 0.95 * dx / D**0.5 / 299792458.0
        kinds = [r.choice("epg") for _ in range(r.randint(1, 4))]
        nc = r.choice([0, 1, 2, 4, 7, 12])
        pool = ALL + (PUSH if r.random() < 0.6 else [])
        forms = [r.choice(["decorator", "keyword", "default", "plain", "class", "bare", "decorator"]) for _ in range(nc)]
        stages = ["" if f in ("default", "plain") else r.choice(pool) for f in forms]
        off = [s for s in range(1, len(kinds) + 1) if r.random() < 0.2]
        tog = []
        ctor = None
        runs = []
        for _ in range(r.randint(1, 3)):
            m = r.choice(["add", "add", "time", "ctor"])
            if m == "ctor" and ctor is None:
                ctor = dict(kind=r.choice(["nsteps", "time"]), n=r.randint(0, 4), frac=r.choice([0.1, 0.5, 0.9]))
            run = dict(mode=m, n=r.randint(0, 4) if m == "add" else r.randint(1, 7), frac=r.choice([0.02, 0.5, 0.97]))
            if r.random() < 0.35:
                run["stop_after"] = r.randint(1, 4)
            runs.append(run)
        if ctor and ctor["n"] == 0 and ctor["kind"] == "nsteps":
            ctor["n"] = 2
        for _ in range(r.choice([0, 1, 3]) if nc else 0):
            tog.append([r.randint(1, nc), r.randint(0, 4), r.randint(1, len(kinds))])
        out.append(dict(np=np_, n=[6] * D, per=per, pml=1, ng=3, dx=[dx] * D, dt=dt, kinds=kinds, ns=len(kinds), forms=forms, stages=stages,
                        off=off, toggles=tog, runs=runs, ctor=ctor, qed=r.random() < 0.5, ranks=split_ranks(r, N, nr) if nr > 1 else None))
    return out


def run(ctx):
    ctx.model("MCLoop", cfg="MCLoop_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.refute("MCLoop", cfg="MCLoop_total.cfg")
    ctx.refute("MCLoop", cfg="MCLoop_early.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3 in [(1, 90, 12), (2, 20, 4)]:
        sc = scenarios(r, 2, c2 * k, nr) + scenarios(r, 3, c3 * k, nr)
        ctx.check_traces("TLoop", ctx.drive("loop.py", {"scenarios": sc}, mpi=nr, timeout=700))
