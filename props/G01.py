from props.common import rng_for, split_ranks


def scenarios(r, D, count, nr):
    out = []
    while len(out) < count:
        win = r.random() < 0.4
        per = [r.random() < 0.7 for _ in range(D)]
        if win:
            per[0] = False
        np_ = [r.choice([1, 2, 3]) if per[a] else r.choice([2, 3]) for a in range(D)]
        if win:
            np_[0] = r.choice([3, 4])
        if D == 3:
            np_[2] = 1 if per[2] else 2
            np_[1] = min(np_[1], 2)
        N = 1
        for x in np_:
            N *= x
        if N < nr or N > 12:
            continue
        qed = r.random() < 0.8
        pair = qed and r.random() < 0.6
        sp = [dict(kind="e", name="e1", photon="g" if qed else None, spin=r.random() < 0.2, load=1 if win else r.choice([0, 0, 1])),
              dict(kind="p", name="p1", photon="g" if qed and r.random() < 0.5 else None, load=r.choice([0, 0, 0, 1])),
              dict(kind="g", name="g", pair=["e1", "p1"] if pair else None)]
        if r.random() < 0.3:
            sp.append(dict(kind="e", name="e2", photon="g" if qed and r.random() < 0.5 else None))
        r.shuffle(sp)
        ops = ["inject"]
        for _ in range(r.randint(4, 8)):
            ops.append(r.choice(["inject", "kill", "kill", "grow", "prune", 1, 1, 2, 2, 3] + (["balance"] * 3 if nr > 1 else [])))
        if win:
            ops += [3, 4]
        ops.append(2)
        out.append(dict(np=np_, n=[6] * D, per=per, pml=1, ng=3, dx=[2.0**-20] * D, rseed=r.getrandbits(30), species=sp,
                        rate=r.choice([0.2, 0.6]), slots=r.choice([2, 4]), ops=ops, ranks=split_ranks(r, N, nr) if nr > 1 else None,
                        window=r.choice([2.5, -2.5, 6]) if win else 0, wstart=r.choice([0, 2, 4, 6]), boost=r.random() < 0.7, refill=r.random() < 0.8))
    return out


def run(ctx):
    ctx.model("MCIdentity", cfg="MCIdentity_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.refute("MCIdentity", cfg="MCIdentity_reuse.cfg")
    ctx.refute("MCIdentity", cfg="MCIdentity_restart.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    jobs = [(nr, scenarios(r, 2, c2 * k, nr) + scenarios(r, 3, c3 * k, nr)) for nr, c2, c3 in [(1, 16, 5), (2, 12, 4), (3, 6, 2)]]
    ctx.drive_and_check("TIdentity", "ids.py", {"scenarios": scenarios(r, 2, 4 * k, 1)}, jit=True, timeout=700)
    for nr, sc in jobs:
        ctx.check_traces("TIdentity", ctx.drive_many("ids.py", {"scenarios": sc}, procs=4 if nr == 1 else 2, mpi=nr, timeout=700), shards=2)
