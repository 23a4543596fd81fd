from props.common import rng_for


def scenarios(r, D, count):
    out = []
    for _ in range(count):
        per = [bool(r.getrandbits(1)) for _ in range(D)]
        np_ = [r.choice([1, 2]) if p else 2 for p in per]
        n = [r.choice([4, 5, 6]) for _ in range(D)]
        lay = None
        if r.random() < 0.6:
            lay = dict(nb=[r.choice([1, 2, n[0]])] + [r.choice([1, 1, 2, n[a]]) for a in range(1, D)], rev=r.choice([True, False, None]))
            lay["bw"] = [-(-n[a] // lay["nb"][a]) * 8 for a in range(D)]
        out.append(dict(np=np_, n=n, per=per, pml=1, ng=3, dx=[r.choice([0.5, 1.0, 2.0]) for _ in range(D)], rseed=r.getrandbits(30), nsort=3,
                        collide=r.random() < 0.5, layout=lay, oob=r.choice([0, 0, 0.1]), drift=r.choice([1, -1]),
                        rounds=r.choice([1, 2, 4]), maxslots=r.choice([3, 8, 20]), grow=r.random() < 0.6,
                        fill=r.choice([0.0, 0.5, 0.8, 1.0]), lists=r.random() < 0.7))
    return out


def run(ctx):
    ctx.model("MCSort", cfg="MCSort_full.cfg" if ctx.thorough else None)
    ctx.model("MCSort", cfg="MCSort5.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for th in (1, 4):
        sc = scenarios(r, 2, 40 * k) + scenarios(r, 3, 20 * k)
        ctx.check_traces("TSort", ctx.drive("sort.py", {"scenarios": sc}, threads=th), shards=k)
