"""Scenarios of complete simulations for I01 and R01."""
import os


def scenario(r, D, nr, feats=None):
    f = feats or r.sample(["qed", "pairs", "collide", "laser", "temp", "window", "balance", "prune", "pml"], r.randint(1, 4))
    if "window" in f or "laser" in f:
        f = f + ["pml"]
    n = [r.choice([6, 7, 8]) if D == 2 else 5 for _ in range(D)]
    np_ = [r.choice([2, 3]), r.choice([2, 3])] if D == 2 else [2, 2 if nr > 2 else r.choice([1, 2]), 1]
    pml = 1
    if "pml" in f:
        per = [False] + [r.random() < 0.5 and "laser" not in f for _ in range(D - 1)]
        np_ = [k if p else max(2, k) for k, p in zip(np_, per)]
        pml = 2 if "laser" in f else r.choice([1, 2])
    else:
        per = [True] * D
    N = 1
    for k in np_:
        N *= k
    ranks = None
    if nr > 1:
        # runs of consecutive patches
        cut = sorted(r.sample(range(1, N), nr - 1))
        ranks = [sum(1 for c in cut if i >= c) for i in range(N)]
        if "window" in f and r.random() < 0.5:
            ranks = r.sample(ranks, N)
    steps = r.choice([6, 8, 10]) if D == 2 else 5
    dx = r.choice([1e-7, 2.0**-23, 3.3e-8])
    strong = "qed" in f or "pairs" in f
    sc = dict(np=np_, n=n, per=per, pml=pml, ng=3, dx=[dx] * D, ranks=ranks, seed=r.choice([0, 1, 7, 42, 2**31 - 1]), rseed=r.randrange(10**6),
              dens=1e26, ppc=r.choice([1, 2]) if D == 2 else 1, qed=int(strong), pairs=int("pairs" in f), collide=r.choice([1, 2]) if "collide" in f else 0,
              laser=r.choice(["s", "g"]) if "laser" in f else "", temp=r.choice([1, 2, 3]) if "temp" in f else 0,
              window=dict(v=r.choice([0.4, 1.0, 2.3]), start=r.choice([0.0, 2.5]), f=int(r.random() < 0.3)) if "window" in f else None,
              balance=r.choice([1e-6, 0.05]) if "balance" in f and nr > 1 else 0, prune=r.choice([1, 2, 3]) if "prune" in f else 0,
              amp=2e6 if strong else r.choice([0.0, 50.0]), mom=800.0 if strong else r.choice([0.01, 0.3]),
              runs=r.choice([[steps], [2, steps - 2], [1, 1, steps - 2]]), steps=steps)
    return sc


def merge(*lists):
    """Joins the events of the same scenario run by different jobs."""
    out = []
    for ts in zip(*lists):
        died = [t for t in ts if t.get("died")]
        if died:
            out.append(died[0])
        else:
            out.append({"cfg": ts[0]["cfg"], "ev": [e for t in ts for e in t["ev"]]})
    return out
