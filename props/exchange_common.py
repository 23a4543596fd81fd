from props.common import split_ranks


def scenarios(r, D, count, nrank=1, rounds=2, maxslots=None):
    out = []
    for i in range(count):
        per = [bool(r.getrandbits(1)) for _ in range(D)]
        while True:
            if D == 2:
                np_ = [r.choice([1, 2, 3, 4]) if p else r.choice([2, 3, 4]) for p in per]
            else:
                np_ = [r.choice([1, 2, 3]) if p else r.choice([2, 3]) for p in per]
            tot = 1
            for x in np_:
                tot *= x
            if tot >= nrank and tot <= 18:
                break
        n = [r.choice([3, 4, 5, 6] if per[a] else [4, 5, 6]) for a in range(D)]
        s = dict(np=np_, n=n, per=per, pml=1 if all(per) else r.choice([1, 2]), rseed=r.randrange(1 << 30),
                 lo=None, hi=None, kinds=r.choice([["e"], ["e", "p"], ["q"], ["s", "x"], ["x"]]), rounds=rounds,
                 maxslots=r.choice([0, 2, 6, 10]) if maxslots is None else maxslots, fill=r.choice([0.3, 0.6, 0.9, 1.0]),
                 move=r.choice([0.3, 0.7, 1.0]), dx=[r.choice([0.25, 0.5, 1.0, 2.0]) for _ in range(D)], style=r.randrange(2))
        s["lo"] = [0 if per[a] else s["pml"] for a in range(D)]
        s["hi"] = s["lo"]
        if nrank > 1:
            s["ranks"] = split_ranks(r, tot, nrank)
            s["revwait"] = bool(r.getrandbits(1))
        out.append(s)
    return out
