from props.common import rng_for, split_ranks

ALLF = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"]


def axis_sel(r, n):
    k = r.random()
    if k < 0.25:
        return [0, r.randrange(-n, n)]
    while True:
        hs, he, st = r.choice([0, 1]), r.choice([0, 1]), r.choice([1, 1, 2, 3, 4])
        a, b = r.randint(-n - 1, n + 1), r.randint(-n - 1, n + 2)
        lo, hi, _ = slice(a if hs else None, b if he else None, st).indices(n)
        if lo < hi:
            return [1, hs, a, he, b, st]


def sel(r, G, p=0.75):
    return [axis_sel(r, n) for n in G] if r.random() < p else None


def division(r, D, nr, per, big=False):
    n = [r.choice([4, 5, 6]) for _ in range(D)] if D == 2 else [4, r.choice([4, 5]), 4]
    while True:
        np_ = [r.choice([1, 2, 3]) if per[a] else r.choice([2, 3]) for a in range(D)] if D == 2 else [r.choice([1, 2]) if per[a] else 2 for a in range(D)]
        N = 1
        for x in np_:
            N *= x
        if nr <= N <= 9:
            return np_, n, N


def base(r, D, nr):
    per = [r.random() < 0.6 for _ in range(D)]
    np_, n, N = division(r, D, nr, per)
    dx = 2.0**-20
    return dict(np=np_, n=n, per=per, pml=1, ng=3, dx=[dx * r.choice([1, 1, 2]) for _ in range(D)], cfl=0.95, rseed=r.getrandbits(30),
                ranks=split_ranks(r, N, nr) if nr > 1 else None, mask=None, steps=r.choice([1, 2]))


def L01(r, D, nr):
    sc = base(r, D, nr)
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    if D == 2 and r.random() < 0.3:
        np_ = [r.choice([2, 3]), r.choice([2, 3])]
        cells = [[i, j] for j in range(np_[1]) for i in range(np_[0])]
        for _ in range(50):
            m = [c for c in cells if r.random() < 0.8]
            s = {tuple(c) for c in m}
            if len(m) >= nr and all(((c[0] - 1, c[1]) in s or (c[0] + 1, c[1]) in s) and ((c[0], c[1] - 1) in s or (c[0], c[1] + 1) in s) for c in m):
                sc.update(mask=m, per=[False, False], np=np_, ranks=split_ranks(r, len(m), nr) if nr > 1 else None)
                break
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    reqs = []
    for _ in range(r.randint(2, 5)):
        names = r.sample(ALLF, r.randint(1, 3))
        if r.random() < 0.6:
            reqs.append(dict(op="fields", names=names if r.random() < 0.95 else None, sl=sel(r, G)))
        else:
            reqs.append(dict(op="get", names=names, zu=r.choice([None, r.randint(0, G[2] * 8), r.randint(0, G[2] * 8)]) if D == 3 else None))
    sc["reqs"] = reqs
    return sc


def L02(r, D, nr):
    sc = base(r, D, nr)
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    sc["species"] = [r.choice([dict(kind="e", q=-1), dict(kind="s", q=1, m=1836.0), dict(kind="s", q=2, m=5.0), dict(kind="s", q=-3, m=1.0), dict(kind="g", q=0)])
                     for _ in range(r.randint(1, 4))]
    if all(s["q"] == 0 for s in sc["species"]):
        sc["species"][0] = dict(kind="e", q=-1)
    charged = [i for i, s in enumerate(sc["species"]) if s["q"]]
    sc["off"] = [i for i in range(len(sc["species"])) if r.random() < 0.2]
    on = [i for i in charged if i not in sc["off"]]
    if not on:
        sc["off"] = []
        on = charged
    sc["count"] = r.choice([1, 4, 8]) if D == 2 else r.choice([1, 4])
    sc["reqs"] = [dict(op=r.choice(["save", "extract"]), spec=r.choice(on), sl=sel(r, G, 0.5)) for _ in range(r.randint(1, 3))]
    return sc


def L03(r, D, nr):
    sc = base(r, D, nr)
    sc["species"] = [r.choice([dict(kind="e", q=-1), dict(kind="s", q=1, m=1836.0), dict(kind="g", q=0)]) for _ in range(r.randint(1, 3))]
    sc["qed"] = r.random() < 0.3
    ns = len(sc["species"]) + (2 if sc["qed"] else 0)
    sc["count"], sc["pl"] = r.choice([0, 2, 6]), r.choice([1.0, 0.7])
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    ax = ["x", "y", "z"][:D]
    reqs = []
    for _ in range(r.randint(1, 3)):
        spec = r.randrange(ns)
        opt = ["ux", "uy", "uz", "inv_gamma", "ex_part", "bz_part", "id"] + (["chi", "tau"] if sc["qed"] and spec == 0 else [])
        # also z in 2D is an attribute
        k = r.random()
        if k < 0.2:
            attrs = None
        elif k < 0.6:
            attrs = ax + ["w", "ux", "uy", "uz"] + r.sample(opt[3:], r.randint(0, 2))
        elif k < 0.8:
            attrs = ax + ["w"]
        else:
            attrs = r.sample(ax + ["w"] + opt, r.randint(1, 4))
        q = dict(spec=spec, attrs=attrs)
        # photons need a momentum
        photon = (sc["qed"] and spec == 1) or (spec >= (2 if sc["qed"] else 0) and sc["species"][spec - (2 if sc["qed"] else 0)]["kind"] == "g")
        own = r.choice([0, 0, 1, 2])
        if photon:
            own = 2 if own else 0
        have = attrs is None or all(x in attrs for x in ax + ["w"])
        if photon and not own:
            have = have and (attrs is None or "ux" in attrs and "uy" in attrs and "uz" in attrs)
        if own or have:
            np2 = []
            for a in range(D):
                d = [k for k in range(1 if sc["per"][a] else 2, G[a] // 4 + 1) if G[a] % k == 0]
                np2.append(r.choice(d) if d else sc["np"][a])
            N2 = 1
            for x in np2:
                N2 *= x
            alone = nr == 1 or r.random() < 0.5 or N2 < nr
            q["load"] = dict(np=np2, n=[g // k for g, k in zip(G, np2)], alone=alone, ranks=None if alone else split_ranks(r, N2, nr), own=own,
                             batch=r.choice([0, 0, 1, 3, 7]))
        reqs.append(q)
    sc["reqs"] = reqs
    return sc


def run(ctx, mode, make):
    ctx.model("MCOutput", cfg="MCOutput_full.cfg" if ctx.thorough else None)
    ctx.refute("MCOutput", cfg="MCOutput_free.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 12
    plan = {"L01": [(1, 40, 14), (3, 8, 5), (4, 4, 3)], "L02": [(1, 26, 8), (2, 8, 4), (3, 4, 2)], "L03": [(1, 26, 9), (2, 8, 4), (3, 5, 2)]}[mode]
    for nr, c2, c3 in plan:
        sc = [dict(make(r, D, nr), mode=mode) for D, c in ((2, c2 * k), (3, c3 * k)) for _ in range(c)]
        ctx.check_traces("TOutput", ctx.drive("output.py", {"scenarios": sc}, mpi=nr, timeout=800), shards=2)
