"""Moving windows in running simulations."""
from props.common import rng_for, split_ranks
from props.U01 import prof


def ties(v, steps):
    """The accumulated way must not come out exactly at a patch width, where rounding decides."""
    acc = 64
    for k in range(steps):
        x = v[k % len(v)]
        acc += x
        if abs(acc) == 64 and any(v[j % len(v)] for j in range(k + 1)):
            return True
        acc += -64 if acc >= 64 else 64 if acc <= -64 else 0
    return False


def scenario(r, D, nr):
    while True:
        n = [r.choice([4, 5, 6]) for _ in range(D)] if D == 2 else [4] * D
        per = [False] + [r.random() < 0.5 for _ in range(D - 1)]
        np_ = [r.choice([2, 3, 4])] + [r.choice([1, 2]) if per[a] else 2 for a in range(1, D)]
        N = 1
        for x in np_:
            N *= x
        if nr <= N <= 8:
            break
    call = r.random() < 0.6
    steps = r.choice([4, 6, 8])
    while True:
        v = [r.choice([63, 40, 25, 11, 17, 0, -13, -60, -35]) if call else r.choice([63, 33, 20, -61, -45, 0, 7])] if not call else [r.choice([63, 40, 25, 17, 0, -13, -60, -35, 50, 61]) for _ in range(r.choice([2, 3, 4]))]
        if not ties(v, 40):
            break
    sp = []
    for _ in range(r.choice([1, 2])):
        s = dict(q=r.choice([-1, 1, 2]), has=0, dmin=0)
        if r.random() < 0.85 or not sp:
            s.update(has=1, dmin=r.choice([0, 12]), dens=prof(r, [dict(m=1, o=-1, s=24), dict(m=5, o=1, s=12), dict(m=3, o=0, s=24)]),
                     ppc=r.choice([dict(kind="const", v=r.choice([1, 2])), prof(r, [dict(m=3)])]))
        sp.append(s)
    start = r.choice([0, 0, 1, 2, None]) if np_[0] * n[0] <= 12 else r.choice([0, 0, 1, 3])
    moves = [r.randrange(0, steps - 1)] if nr > 1 and r.random() < 0.7 else []
    q = [r.choice([1, 2]) for _ in range(D)]
    q[r.randrange(D)] = 1
    if start is None:
        q = []
    stop = r.choice([-1, -1, 2, 4])
    if r.random() < 0.3:
        start, stop, inject, v = 0, r.choice([1, 2, 3]), 1, [r.choice([63, 61])]
        q = q or [1] * D
    else:
        inject = int(r.random() < 0.8)
    return dict(q=q, np=np_, n=n, per=per, pml=r.choice([1, 2] if D == 2 else [1]), ng=r.choice([2, 3, 3]), dx=[0.5 * x for x in q] or [r.choice([0.5, 0.25]) for _ in range(D)], seed=r.randrange(1000), rseed=r.randrange(10**6),
                species=sp, v=v, call=int(call), start=start, steps=steps, inject=inject, stop=stop,
                ranks=split_ranks(r, N, nr) if nr > 1 else None, moves=moves, maps=[split_ranks(r, N, nr) for _ in moves])


def run(ctx):
    ctx.model("MCWindow", cfg="MCWindow_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.model("MCWindow", cfg="MCWindow_fwd.cfg", timeout=850)
    for v in ("origin", "keep", "table", "again"):
        ctx.refute("MCWindow", cfg=f"MCWindow_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3, jit in [(1, 12, 4, False), (2, 7, 2, False), (3, 3, 1, False)] + ([(1, 5, 2, True)] if ctx.thorough else []):
        sc = [scenario(r, D, nr) for D, cnt in ((2, c2), (3, c3)) for _ in range(cnt * (k if not jit else 1))]
        ctx.check_traces("TWindow", ctx.drive("window.py", {"scenarios": sc}, mpi=nr, jit=jit, timeout=700), shards=2)
