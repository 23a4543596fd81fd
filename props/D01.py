from props.common import rng_for, split_ranks


def scenarios(r, D, count, nrank=1):
    out = []
    while len(out) < count:
        per = [bool(r.getrandbits(1)) for _ in range(D)]
        np_ = [r.choice([1, 2, 3, 4, 5]) if p else r.choice([2, 3, 4]) for p in per] if D == 2 else \
              [r.choice([1, 2, 3]) if p else r.choice([2, 3]) for p in per]
        tot = 1
        for x in np_:
            tot *= x
        mask = []
        if D == 2 and r.random() < 0.3:
            per = [False, False]
            np_ = [r.choice([2, 3, 4]), r.choice([2, 3, 4])]
            cells = [[i, j] for j in range(np_[1]) for i in range(np_[0])]
            # patches must not lie between two open faces of one axis: the layers would overlap
            for _ in range(50):
                m = [c for c in cells if r.random() < 0.75]
                s = {tuple(c) for c in m}
                if m and all(((c[0] - 1, c[1]) in s or (c[0] + 1, c[1]) in s) and ((c[0], c[1] - 1) in s or (c[0], c[1] + 1) in s) for c in m):
                    mask = m
                    break
            if not mask:
                continue
            tot = len(mask)
        if tot < nrank or tot > 27:
            continue
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.random()
            if nrank > 1 and k < 0.5:
                ops.append(["balance", split_ranks(r, tot, nrank) if r.random() < 0.8 else None])
            elif k < 0.8 and not mask and np_[0] >= 2:
                ops.append(["shift", r.choice([1, 1, -1]), r.getrandbits(1)])
            else:
                ops.append(["run", 1])
        s = dict(np=np_, n=[r.choice([4, 5, 6]) for _ in range(D)], per=per, pml=1, dx=[1.0] * D, mask=mask, ops=ops, nrank=nrank)
        if nrank > 1 and r.random() < 0.8:
            s["ranks"] = split_ranks(r, tot, nrank)
        out.append(s)
    return out


def run(ctx):
    ctx.model("MCTables", cfg="MCTables_full.cfg" if ctx.thorough else None)
    ctx.model("MCTables", cfg="MCTables3.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3 in [(1, 30, 12), (2, 16, 8), (3, 16, 6), (4, 10, 4)]:
        sc = scenarios(r, 2, c2 * k, nr) + scenarios(r, 3, c3 * k, nr)
        ctx.check_traces("TTables", ctx.drive("tables.py", {"scenarios": sc}, mpi=nr))
