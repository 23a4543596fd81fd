from props.common import rng_for, split_ranks


def scenarios(r, D, count, nr):
    out = []
    while len(out) < count:
        per = [r.random() < 0.5 for _ in range(D)]
        np_ = [r.choice([1, 2, 3]) if per[a] else r.choice([2, 3]) for a in range(D)]
        if D == 3:
            np_ = [min(x, 2) for x in np_]
        N = 1
        for x in np_:
            N *= x
        if N < nr or N > 9:
            continue
        ops = []
        for _ in range(r.randint(3, 6)):
            k = r.random()
            if k < 0.4:
                ops.append(["balance", split_ranks(r, N, nr) if r.random() < 0.7 else []])
            elif k < 0.5:
                ops.append(["prune", r.randrange(100)])
            elif k < 0.6:
                ops.append(["load", r.randrange(100)])
            else:
                ops.append(["run", 1 if D == 3 else r.choice([1, 2])])
        ops.append(["run", 1])
        out.append(dict(np=np_, n=[6] * D if D == 2 else [4] * D, per=per, pml=1, ng=r.choice([2, 3]) if False else 3, dx=[2.0**-20] * D, rseed=r.getrandbits(30),
                        qed=r.choice([0, 0, 0, 1, 2]), aux=r.random() < 0.5, ppp=r.choice([0, 4, 8]), ops=ops, ranks=split_ranks(r, N, nr),
                        threshold=r.choice([0.01, 0.1, 0.5])))
    return out


def asks(r, count):
    out = []
    while len(out) < count:
        D = r.choice([2, 2, 3])
        per = [r.random() < 0.5 for _ in range(D)]
        np_ = [r.choice([1, 2, 3, 4]) if per[a] else r.choice([2, 3, 4]) for a in range(D)]
        N = 1
        for x in np_:
            N *= x
        if N > 24 or N < 2:
            continue
        q = []
        for _ in range(6):
            nr = r.randint(2, min(N, 7))
            k = r.random()
            if k < 0.25:
                w = [r.randint(0, 5) for _ in range(N)]
            elif k < 0.5:
                w = [r.randint(1, 1000) for _ in range(N)]
            elif k < 0.75:
                w = [1] * N
                for i in r.sample(range(N), min(N, r.randint(1, 3))):
                    w[i] = r.choice([100, 10**4, 10**6])
            else:
                w = [0] * N
                w[r.randrange(N)] = r.choice([0, 1, 50])
            q.append([nr, w, r.choice([[], split_ranks(r, N, nr)])])
        out.append(dict(np=np_, n=[4] * D, per=per, pml=1, ng=1, asks=q, wtype=r.choice(["int64", "float64"]), ranks=None))
    return out


def run(ctx):
    ctx.model("MCBalance", cfg="MCBalance_full.cfg" if ctx.thorough else None)
    ctx.refute("MCBalance", cfg="MCBalance_local.cfg")
    ctx.refute("MCBalance", cfg="MCBalance_skel.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    for nr, c2, c3 in [(2, 20, 6), (3, 14, 4)] + ([(4, 4, 2)] if ctx.thorough else []):
        sc = scenarios(r, 2, c2 * k, nr) + scenarios(r, 3, c3 * k, nr)
        ctx.check_traces("TBalance", ctx.drive("balance.py", {"scenarios": sc}, mpi=nr, timeout=200 * k))
    ctx.check_traces("TBalance", ctx.drive("balance.py", {"scenarios": asks(r, 16 * k)}, timeout=300))
