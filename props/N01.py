from props.common import rng_for, split_ranks


def scenarios(r, D, count, nr, kind):
    out = []
    while len(out) < count:
        per = [r.random() < 0.5 for _ in range(D)] if kind == "agree" or r.random() < 0.4 else [True] * D
        pml = r.choice([1, 2, 3]) if D == 2 else 1
        nmin = 4 if kind == "agree" else 3
        np_, n, np2, n2 = [], [], [], []
        for a in range(D):
            lo = 1 if per[a] else 2
            tot = r.choice([12, 8, 16] if D == 2 else [8, 6, 4])
            if not per[a] and tot < 8:
                tot = 8
            opts = [k for k in range(lo, 5) if tot % k == 0 and tot // k >= (nmin if D == 2 else 3) and (per[a] or tot // k > pml)]
            if not opts:
                break
            k, k2 = r.choice(opts), r.choice([lo, r.choice(opts)])
            if tot % k2 or (not per[a] and tot // k2 <= pml):
                break
            np_.append(k), n.append(tot // k), np2.append(k2), n2.append(tot // k2)
        else:
            N = 1
            for x in np_:
                N *= x
            if N < nr or N > 16 or (kind == "agree" and np_ == np2 and nr == 1):
                continue
            dx = 2.0**-20
            f = [r.choice([1, 2]) for _ in range(D)]
            f[r.randrange(D)] = 1
            K = [2 // q for q in f] + [0] * (3 - D)
            cfl = 0.5 * sum(1.0 / q**2 for q in f) ** 0.5
            out.append(dict(kind=kind, np=np_, n=n, np2=np2, n2=n2, per=per, pml=pml, ng=r.choice([2, 3, 3]), dx=[dx * q for q in f], K=K, cfl=cfl,
                            rseed=r.getrandbits(30), steps=r.choice([2, 3] if kind == "steps" else [6, 15]), jfrac=r.choice([0, 0.3, 1]),
                            impulse=kind == "agree" and r.random() < 0.4, ranks=split_ranks(r, N, nr) if nr > 1 else None))
    return out


def run(ctx):
    ctx.model("MCMaxwell", cfg="MCMaxwell_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.refute("MCMaxwell", cfg="MCMaxwell_nob.cfg")
    ctx.refute("MCMaxwell", cfg="MCMaxwell_noe.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3, jit in [(1, 14, 5, False), (2, 5, 2, False), (3, 3, 1, False), (1, 5, 3, True)][:4 if ctx.thorough else 3]:
        sc = []
        for kind in ("steps", "agree"):
            sc += scenarios(r, 2, c2 * k, nr, kind) + scenarios(r, 3, c3 * k, nr, kind)
        ctx.check_traces("TMaxwell", ctx.drive("maxwell.py", {"scenarios": sc}, mpi=nr, jit=jit, threads=4 if jit else 1, timeout=800), shards=2)
