"""Lasers: the wave that enters is the one asked for, whatever the division of the domain."""
from props.common import rng_for, split_ranks


def laser(r, D, soft):
    """soft: nothing but gentle waves, fit for the probe"""
    kind = r.choice(["simple", "gauss"])
    L = dict(kind=kind, a0=r.choice([1, 1, 2]), l0=r.choice([20, 24, 28] if soft else [8, 12, 20]), w0=1000, ctau=r.choice([24, 30] if kind == "simple" else [12, 14]), pol=r.randrange(24), ell=r.choice([0, 0, 4, -4, 2, -3]),
             cep=r.randrange(8), y0=None, z0=None, stop=0, ang=0, x0=r.choice([18, 20]), foc=0, l=0, p=0)
    return L


def probe(r, D, nr):
    L = laser(r, D, True)
    focused = r.random() < 0.6
    per = [False] + [True] * (D - 1)
    if D == 2:
        np_, n, np2, n2 = [2, 2], [12, 10], [2, 1], [12, 20]
    else:
        np_, n, np2, n2 = [2, 2, 1], [10, 6, 12], [2, 1, 2], [10, 12, 6]
    band, tol = 6, 0.15
    if focused:
        L["w0"] = r.choice([20, 24])
        edge = r.random() < 0.25
        if edge:                      # centred on the lower edge of a periodic domain
            L["y0"] = 0
            band, tol = 7, 0.35
            if D == 3:
                L["z0"] = r.choice([None, 0])
        elif D == 2:
            per = [False, False]
            np_, n, np2, n2 = [2, 4], [12, 14], [2, 2], [12, 28]
            L["y0"] = r.choice([None, 25, 29.5])
        if L["kind"] == "simple" and not edge and D == 2:
            L["ang"] = r.choice([0, 10, 15, 20, -12, -20])
        if L["kind"] == "gauss":
            L["foc"] = r.choice([0, 30, 60, -40])
            if D == 3:
                L["w0"] = 24
    P = np_[0] * np_[1] * (np_[2] if D == 3 else 1)
    if P < nr:
        return probe(r, D, nr)
    return dict(np=np_, n=n, np2=np2, n2=n2, per=per, pml=r.choice([4, 5]), ng=3, dx=[1e-7, 1e-7, 1e-7][:D], cfl=0.98, lasers=[L], steps=r.choice([44, 52]) if D == 2 else 40, at=[20, 36], k=1, sum=0, probe=1,
                band=band, tol=int(tol * 2**20), edge=int(focused and (D == 3 or L["y0"] == 0)), ranks=split_ranks(r, P, nr) if nr > 1 else None)


def wild(r, D, nr):
    while True:
        per = [r.random() < 0.06] + [r.random() < 0.5 for _ in range(D - 1)]
        pml = r.choice([1, 2, 4]) if D == 2 else r.choice([1, 2])
        np_, n, np2, n2 = [], [], [], []
        for a in range(D):
            tot = r.choice([12, 16, 24] if D == 2 else [8, 12])
            lo = 1 if per[a] else 2
            need = max(3, pml + 1) if per[a] else pml + 3
            o = [k for k in range(lo, 5) if tot % k == 0 and tot // k >= need]
            if not o:
                break
            a1, a2 = r.choice(o), r.choice(o)
            np_.append(a1), n.append(tot // a1), np2.append(a2), n2.append(tot // a2)
        else:
            P = 1
            for x in np_:
                P *= x
            # a patch has at most two absorbing sides
            if P < nr or P > 16 or (np_ == np2 and nr == 1) or np_ == [1] * D or any(np2[a] == 1 and not per[a] for a in range(D)):
                continue
            if D == 3 and sum(not x for x in per) > 2:
                continue
            break
    Ls = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        L = laser(r, D, False)
        L["w0"] = r.choice([4, 8, 1000])
        L["y0"] = r.choice([None, 0, 3, 7.5])
        L["z0"] = r.choice([None, 0, 2.5])
        L["ctau"] = r.choice([6, 12, 30])
        L["stop"] = r.choice([0, 0, 5, 12, 100])
        if L["kind"] == "simple":
            L["ang"] = r.choice([0, 15, -30])
        else:
            L["foc"], L["x0"] = r.choice([0, 10, -20]), r.choice([None, 4, 10])
            if D == 3:
                L["l"], L["p"] = r.choice([(0, 0), (1, 0), (-2, 0), (0, 1), (1, 1)])
        Ls.append(L)
    steps = r.choice([12, 20, 30]) if D == 2 else r.choice([8, 14])
    return dict(np=np_, n=n, np2=np2, n2=n2, per=per, pml=pml, ng=r.choice([2, 3]), dx=[1e-7 * r.choice([1, 1, 2]) for _ in range(D)], cfl=r.choice([0.98, 0.6]), lasers=Ls, steps=steps,
                at=sorted(r.sample(range(2, steps), 2)), k=1, sum=1, probe=0, band=0, tol=0, ranks=split_ranks(r, P, nr) if nr > 1 else None)


def mark(r, D, nr):
    pml = r.choice([2, 3, 5])
    if D == 2:
        per = [False, r.random() < 0.5]
        np_, n = [2, r.choice([2, 4])], [pml + 3, r.choice([12, 15])]
    else:
        per = r.choice([[False, True, True], [False, False, True], [False, True, False], [False, False, False]])
        np_, n = [2, 2, 2], [pml + 3, 10, 10]
    Ls = []
    for _ in range(r.choice([1, 2])):
        L = laser(r, D, False)
        L["stop"] = r.choice([0, 0, 15, 25, 40])
        L["l0"], L["w0"], L["y0"], L["z0"] = r.choice([12, 20, 30]), r.choice([12, 16, 30, 1000]), r.choice([None, 0, 7, 16.5]), r.choice([None, 0, 8.5])
        if L["kind"] == "simple":
            L["ang"] = r.choice([0, 20, -35, 50])
        else:
            L["foc"], L["x0"] = r.choice([0, 20, 200, -100]), r.choice([None, 18])
            if D == 3 and L["w0"] < 500:
                L["l"], L["p"] = r.choice([(0, 0), (1, 0), (-1, 0), (-2, 0), (0, 1), (1, 1)])
        Ls.append(L)
    P = np_[0] * np_[1] * (np_[2] if D == 3 else 1)
    times = sorted(r.sample(range(1, 60), 10)) + sorted(r.sample(range(60, 110), 4))
    return dict(mode="mark", np=np_, n=n, per=per, pml=pml, ng=r.choice([2, 3]), dx=[1e-7 * r.choice([1, 1, 1.5]) for _ in range(D)], cfl=r.choice([0.98, 0.5]), lasers=Ls, times=times, ranks=split_ranks(r, P, nr) if nr > 1 else None)


def clear(r, nr):
    amp = r.choice([[1.0, 0.0], [0.0, 1.0], [0.5, -1.0]])
    return dict(mode="clear", np=[2, 2], dx=[1e-7, 1e-7 * r.choice([1, 1.5, 2, 0.7])], amp=amp, ranks=split_ranks(r, 4, nr) if nr > 1 else None)


def run(ctx):
    full = "_full" if ctx.thorough else ""
    ctx.model("MCLaser", cfg=f"MCLaser{full}.cfg", timeout=850)
    for v in ("stale", "local", "after", "min", "none", "last"):
        ctx.refute("MCLaser", cfg=f"MCLaser_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, p2, p3, w2, w3, jit in [(1, 8, 2, 12, 4, False), (2, 1, 0, 4, 2, False)] + ([(4, 0, 0, 3, 2, False), (1, 4, 2, 8, 4, True)] if ctx.thorough else []):
        kk = k if not jit else 1
        sc = [probe(r, 2, nr) for _ in range(p2 * kk)] + [probe(r, 3, nr) for _ in range(p3 * kk)] + [wild(r, 2, nr) for _ in range(w2 * kk)] + [wild(r, 3, nr) for _ in range(w3 * kk)]
        m = max(1, w2 // 4) * kk
        sc += [mark(r, 2, nr) for _ in range(3 * m)] + [mark(r, 3, nr) for _ in range(3 * m)] + [clear(r, nr) for _ in range(m)]
        ctx.check_traces("TLaser", ctx.drive_many("laser.py", {"scenarios": sc}, procs=8 if nr == 1 else 2, mpi=nr, jit=jit, timeout=700), shards=2)
