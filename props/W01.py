"""The whole simulation: the same on every division, and true to Gauss's law."""
from props.common import rng_for, split_ranks


def scenario(r, D, nr):
    while True:
        per = [r.random() < 0.7 for _ in range(D)]
        pml = r.choice([1, 2, 3]) if D == 2 else 1
        np_, n, np2, n2 = [], [], [], []
        for a in range(D):
            lo = 1 if per[a] else 2
            tot = r.choice([12, 15, 16, 20] if D == 2 else [8, 6, 9, 12])
            opts = [k for k in range(lo, 6) if tot % k == 0 and tot // k >= 3 and (per[a] or tot // k > pml)]
            if not opts:
                break
            k, k2 = r.choice(opts), r.choice([opts[0], r.choice(opts)])
            np_.append(k), n.append(tot // k), np2.append(k2), n2.append(tot // k2)
        else:
            N = 1
            for x in np_:
                N *= x
            if N < nr or N > 25 or N == 1 or (np_ == np2 and nr == 1) or (not all(per) and min(n + n2) <= pml):
                continue
            break
    steps = r.choice([4, 6, 9])
    u = r.choice([0.05, 0.5, 3.0])
    sp = [dict(q=-1, m=1, n=r.choice([1, 40, 90]), u=u, drift=r.choice([0.0, 0.0, 2.0, -1.0]))]
    if r.random() < 0.7:
        sp.append(dict(q=r.choice([1, 2]), m=r.choice([1, 100, 1836]), n=r.choice([0, 30, 60]), u=r.choice([0.01, 0.5]), drift=r.choice([0.0, 1.0])))
    if r.random() < 0.2:
        sp.append(dict(q=0, m=5, n=20, u=1.0, drift=0.0))
    dx = 1e-7
    moves = {str(t): [r.choice([0, 1, 1])] + split_ranks(r, N, nr) for t in range(steps) if nr > 1 and r.random() < 0.4}
    return dict(np=np_, n=n, np2=np2, n2=n2, per=per, pml=pml, ng=r.choice([3, 3, 4]) if min(n + n2) > 3 else 3, dx=[dx * r.choice([1, 2]) for _ in range(D)], cfl=r.choice([0.5, 0.9, 0.99]),
                rseed=r.getrandbits(30), steps=steps, k=r.choice([0.002, 0.02, 0.2]), E=r.choice([0.0, 0.05, 0.5]), spare=r.choice([0, 1, 2, 7]),
                shape=r.choice(["all", "corner", "corner"]), species=sp, moves=moves, ranks=split_ranks(r, N, nr) if nr > 1 else None)


def run(ctx):
    ctx.model("MCWhole", cfg="MCWhole_full.cfg" if ctx.thorough else None, timeout=850)
    for v in ("guards", "sums", "late", "twice"):
        ctx.refute("MCWhole", cfg=f"MCWhole_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 12
    for nr, c2, c3, th, jit in [(1, 18, 7, 3, False), (2, 8, 3, 1, False), (3, 4, 2, 1, False)] + ([(1, 12, 4, 3, True)] if ctx.thorough else []):
        sc = [scenario(r, D, nr) for D, cnt in ((2, c2), (3, c3)) for _ in range(cnt * (k if not jit else 1))]
        ctx.check_traces("TWhole", ctx.drive("whole.py", {"scenarios": sc}, mpi=nr, threads=th, jit=jit, timeout=800), shards=2)
