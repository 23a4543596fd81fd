from props.common import split_ranks

ALL = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"]
CUR = ["jx", "jy", "jz", "rho"]


def geometry(r, D, nrank=1, maxp=12, nmax=6, ngs=(1, 2, 3)):
    while True:
        per = [bool(r.getrandbits(1)) for _ in range(D)]
        if D == 2:
            np_ = [r.choice([1, 2, 3, 4]) if p else r.choice([2, 3, 4]) for p in per]
        else:
            np_ = [r.choice([1, 2, 3]) if p else r.choice([2, 3]) for p in per]
        tot = 1
        for x in np_:
            tot *= x
        if nrank <= tot <= maxp:
            break
    ng = r.choice(ngs)
    n = [r.randrange(max(ng, 2 if per[a] else 3), nmax + 1) for a in range(D)]
    s = dict(np=np_, n=n, per=per, ng=ng, pml=1, rseed=r.randrange(1 << 30), style=r.randrange(6))
    if nrank > 1:
        s["ranks"] = split_ranks(r, tot, nrank)
    return s


def guard_scenarios(r, D, count, nrank=1):
    out = []
    for _ in range(count):
        s = geometry(r, D, nrank, nmax=6 if D == 2 else 4, ngs=(1, 2, 3) if D == 2 else (1, 2, 3), maxp=12 if D == 2 else 8)
        asks = [r.choice([["ex", "ey", "ez"], ["bx", "by", "bz"], ["ex", "ey", "ez", "bx", "by", "bz"], ["jx"], ["rho"], ["bz", "ex"]])]
        asks.append(r.sample(ALL, r.randrange(1, 4)))
        show = sorted(set(asks[0]) | set(asks[1]) | {r.choice(ALL)})
        if D == 3:
            asks = asks[:1]
            show = sorted(set(asks[0][:2]) | {r.choice(ALL)})
        s.update(mode="guard", asks=asks, show=show)
        out.append(s)
    return out


def cur_scenarios(r, D, count, nrank=1):
    out = []
    for _ in range(count):
        s = geometry(r, D, nrank, nmax=6 if D == 2 else 4, maxp=12 if D == 2 else 8)
        s.update(mode="cur", rounds=2 if D == 2 else 1, show=CUR + ["ex"])
        out.append(s)
    return out


def race_scenarios(r, D, nrank, rounds, n=3):
    np_ = ([2, 1] if D == 2 else [2, 1, 1]) if nrank == 2 else [2] * D
    return [dict(np=np_, n=[n] * D, per=[True] * D, ng=3, pml=1, rseed=r.randrange(1 << 30), style=0, mode="race",
                 rounds=rounds, show=CUR, ranks=[0, 1] if nrank == 2 else None)]
