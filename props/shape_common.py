from props.common import rng_for, split_ranks


def scenarios(r, D, count, nr, mode, big=False):
    out = []
    for _ in range(count):
        per = [r.random() < 0.6 for _ in range(D)]
        np_ = [r.choice([1, 2]) if per[a] else 2 for a in range(D)]
        if D == 3:
            per[2] = True
            np_ = [min(np_[0], 2), np_[1], 1]
        if big:
            np_, per = [1] * D, [True] * D
        N = 1
        for x in np_:
            N *= x
        if N < nr:
            np_[0], per[0] = 2 if nr == 2 else 3, per[0]
        n = [r.choice([5, 6, 7]) for _ in range(D)] if D == 2 else [r.choice([4, 5]) for _ in range(D)]
        f = [r.choice([1, 1, 2]) for _ in range(D)]
        dx = 2.0**-20
        sp = [r.choice([dict(kind="e", q=-1), dict(kind="s", q=1, m=1836.0), dict(kind="s", q=2, m=5.0), dict(kind="s", q=-3, m=1.0)] + ([dict(kind="g", q=0)] if mode == "dep" else []))
              for _ in range(r.randint(1, 1 if big else 2))]
        out.append(dict(mode=mode, np=np_, n=n, per=per, pml=1, ng=3, dx=[dx * q for q in f], cfl=r.choice([0.95, 0.99, 0.8]), rseed=r.getrandbits(30),
                        species=sp, count=r.choice([258, 262]) if big else r.choice([1, 6, 12] if D == 2 else [1, 5, 9]), pl=r.choice([1.0, 0.7, 0.3] if not big else [1.0, 0.9]),
                        junk=r.random() < 0.5, split=r.random() < 0.5, steps=1 if big else r.choice([1, 2]), ranks=split_ranks(r, N, nr) if nr > 1 else None))
    return out


def run_mode(ctx, mode):
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3, th in [(1, 24, 8, 1), (1, 6, 2, 4), (2, 3, 1, 1)]:
        sc = scenarios(r, 2, c2 * k, nr, mode) + scenarios(r, 3, c3 * k, nr, mode)
        if nr == 1:
            sc += scenarios(r, 2, 2 * k, nr, mode, True) + (scenarios(r, 3, 1 * k, nr, mode, True) if th == 1 else [])
        ctx.check_traces("TShape", ctx.drive("shape.py", {"scenarios": sc}, mpi=nr, threads=th, timeout=700), shards=2)
