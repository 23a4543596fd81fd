def scenarios(r, D, count, kind):
    out = []
    for _ in range(count):
        per = [True] * D
        np_ = [r.choice([1, 2]) for _ in range(D)]
        if D == 3:
            np_ = [r.choice([1, 2]), 1, r.choice([1, 2])]
        n = [8] * D
        emit = kind == "J01" or r.random() < 0.6
        pair = kind == "J02" or r.random() < 0.5
        sp = []
        sp.append(dict(kind="e", name="e1", photon="g" if emit else None, spin=r.random() < 0.2))
        sp.append(dict(kind="p", name="p1", photon="g" if emit and r.random() < 0.5 else None))
        if r.random() < 0.4:
            sp.append(dict(kind="e", name="e2", photon="g" if emit and r.random() < 0.7 else "g2" if emit else None))
        sp.append(dict(kind="g", name="g", pair=["e1", "p1"] if pair else None, empty=r.random() < 0.5))
        if any(s.get("photon") == "g2" for s in sp) or r.random() < 0.2:
            sp.append(dict(kind="g", name="g2", pair=["e1", "p1"] if pair and r.random() < 0.6 else None))
        r.shuffle(sp)
        out.append(dict(np=np_, n=n, per=per, pml=1, ng=3, dx=[2.0**-20] * D, rseed=r.getrandbits(30), species=sp,
                        rate=r.choice([0.2, 0.5, 1.0]), slots=r.choice([3, 6, 10]), steps=r.choice([1, 2, 3]), still=True,
                        kill=r.random() < 0.6, reuse=False))
    return out
