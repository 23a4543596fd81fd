"""Collisions pair the live particles of a cell and exchange momentum only."""
from props.common import rng_for, split_ranks


def run(ctx):
    full = "_full" if ctx.thorough else ""
    for k in ("intra", "inter"):
        ctx.model("MCCollide", cfg=f"MCCollide_{k}{full}.cfg", timeout=850)
    for v in ("count", "open", "cut"):
        ctx.refute("MCCollide", cfg=f"MCCollide_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    ctx.check_traces("TCollide", ctx.drive("collide.py", {"scenarios": [dict(mode="pair", count=60, max=m, rseed=r.randrange(10**6)) for m in [(4, 4), (9, 3), (3, 9), (12, 12)] * 2 * k]}))
    if ctx.thorough:
        ctx.check_traces("TCollide", ctx.drive("collide.py", {"scenarios": [dict(mode="pair", count=400, max=m, rseed=r.randrange(10**6)) for m in [(4, 4), (9, 3), (3, 9), (12, 12)]]}, jit=True))
    for nr, c2, c3, jit in [(1, 16, 5, False), (2, 4, 1, False)] + ([(1, 6, 2, True)] if ctx.thorough else []):
        sc = []
        for D, cnt in ((2, c2), (3, c3)):
            for i in range(cnt * (k if not jit else 1)):
                sc.append(scenario(r, D, nr, i))
        ctx.check_traces("TCollide", ctx.drive("collide.py", {"scenarios": sc}, mpi=nr, jit=jit, threads=2 if jit else 1, timeout=700))


def scenario(r, D, nr, i):
    n = [r.choice([3, 4, 5]) for _ in range(D)] if D == 2 else [3, 3, r.choice([3, 4])]
    np_ = [r.choice([1, 2]), 2] if D == 2 else [1, 2, 1]
    if nr > 1 and D == 3:
        np_ = [2, 1, 1]
    N = 1
    for x in np_:
        N *= x
    ns = r.choice([1, 2, 2, 3])
    kind = i % 4
    if kind == 0:
        ns, groups = max(ns, 1), [[0, 0]]
    elif kind == 1:
        ns, groups = max(ns, 2), [[0, 1]]
    elif kind == 2:
        ns, groups = max(ns, 2), [[ns - 1 if ns > 1 else 1, 0]]
    else:
        ns = max(ns, 2)
        groups = [r.sample(list(range(ns)), r.choice([2, ns])) for _ in range(r.choice([1, 2]))]
        if r.random() < 0.6:
            x = r.randrange(ns)
            groups.append([x, x] + ([y for y in range(ns) if y != x][:1] if r.random() < 0.5 else []))
    if kind < 3 and r.random() < 0.4:
        groups = groups + [groups[0][::-1]]        # named twice, collides once
    pairs = []
    for g in groups:
        for a in range(len(g)):
            for b in range(a + 1, len(g)):
                p = sorted([g[a], g[b]])
                if p not in pairs:
                    pairs.append(p)
    steps = r.choice([1, 2, 3, 5])
    off, on, en, cur = {}, {}, [], list(pairs)
    for t in range(steps):
        if r.random() < 0.3 and kind == 3:
            p = r.choice(pairs)
            if p in cur:
                cur = [x for x in cur if x != p]
                off[str(t)] = [p]
            else:
                cur = cur + [p]
                on[str(t)] = [p]
        en.append([list(x) for x in cur])
    big = r.choice([3, 5, 7]) if D == 2 else 4
    return dict(mode="step", np=np_, n=n, per=[True] * D, ng=3, dx=[1e-7] * D, seed=r.randrange(1000), rseed=r.randrange(10**6),
                ranks=split_ranks(r, N, nr) if nr > 1 else None,
                species=[dict(q=r.choice([-1, 1, 2]), m=r.choice([1, 1, 4, 25]), max=r.choice([1, 2, big]), u=r.choice([0.03, 0.3, 1.0])) for _ in range(ns)],
                groups=groups, off=off, on=on, enabled=en, steps=steps, late=int(r.random() < 0.3), log=r.choice([0, 0, 10.0]), w0=1e33,
                fill=r.choice([0.4, 0.9]), dead=int(r.random() < 0.7), cold=int(r.random() < 0.3), equal=int(r.random() < 0.75))
