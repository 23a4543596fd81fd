"""Callbacks in push stages do not change the push."""
from props.common import rng_for, split_ranks

PUSH = ["_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2"]
REST = ["start", "end", "maxwell_2", "_laser", "qed_create_particles"]


def scenario(r, D, nr, i):
    n = [r.choice([4, 5, 6]) for _ in range(D)] if D == 2 else [4, 4, r.choice([4, 5])]
    np_ = [r.choice([1, 2]), 2] if D == 2 else [2, 1, 1]
    N = 1
    for x in np_:
        N *= x
    kinds = r.choice([["e"], ["e", "i"], ["i", "e"], ["g", "e"], ["e", "r", "g"], ["r", "g"], ["h", "e", "p"], ["i", "h", "p", "e"], ["r", "g", "i"], ["s", "i"], ["e", "n", "i"], ["i", "g", "s", "e"]])
    big = i % 4 == 0
    sp = []
    for j, k in enumerate(kinds):
        s = dict(kind=k, n=r.choice([0, 1, 7, 20] if not big else [100, 256, 257, 300]) if j or r.random() < 0.3 else (24 if not big else r.choice([256, 300])), u=r.choice([0.01, 0.5, 5.0]) if k not in "gh" else 5.0)
        if k == "i":
            s.update(q=r.choice([1, 2, -3]), m=r.choice([1, 10, 1836]))
        if k == "n":
            s.update(kind="i", q=0, m=4)
        if k == "h":
            s.update(kind="g", pair=[kinds.index("e"), kinds.index("p")], u=500.0)
        if k == "r":
            s.update(photon=kinds.index("g"))
        sp.append(s)
    f = r.choice(["uniform", "random", "random"])
    E, B = r.choice([(0, 0.5), (0.25, 0), (0.2, 0.3), (1.0, 1.0)])
    un = r.random() < 0.8
    return dict(np=np_, n=n, per=[True] * D, ng=3, dx=[r.choice([1e-7, 2.0**-22])] * D, seed=3, rseed=r.randrange(10**6), species=sp, field=f, E=E, B=B,
                set=r.choice(["every", "every", "first"]), w=r.choice([1.0, 1e8]), dead=r.choice([0, 0, 1, 2, 3]), steps=r.choice([1, 2, 3]) if not big else 1,
                ranks=split_ranks(r, N, nr) if nr > 1 else None,
                cb=[[] if un else r.sample(REST, r.choice([1, 2])), r.sample(PUSH, r.choice([1, 1, 2])) + ([r.choice(REST)] if r.random() < 0.3 else [])])


def run(ctx):
    ctx.model("MCPush", cfg="MCPush_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.model("MCPush", cfg="MCPush_threads.cfg", timeout=850)
    for v in ("clean", "tail", "wipe"):
        ctx.refute("MCPush", cfg=f"MCPush_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    for nr, c2, c3, th, jit in [(1, 20, 8, 3, False), (2, 5, 2, 1, False)] + ([(1, 8, 3, 2, True)] if ctx.thorough else []):
        sc = [scenario(r, D, nr, i) for D, cnt in ((2, c2), (3, c3)) for i in range(cnt * (k if not jit else 1))]
        ctx.check_traces("TPush", ctx.drive("push.py", {"scenarios": sc}, mpi=nr, threads=th, jit=jit, timeout=700))
