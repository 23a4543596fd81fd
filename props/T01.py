"""Setting momenta and temperatures."""
from props.common import rng_for, split_ranks


def scenario(r, D, nr, big):
    np_ = [2, 2] if D == 2 else [2, 1, 2]
    sp = [dict(kind=k, m=r.choice([1, 100, 1836]), n=[0, 1, 5, 30] if not big else [8000]) for k in r.choice([["e", "i"], ["i", "e", "g"], ["e", "g", "e"], ["g", "i"]])]
    ops = []
    mass = [i for i, s in enumerate(sp) if s["kind"] != "g"]
    for _ in range(3 if big else 6):
        k = r.choice(["t", "t", "mt"]) if big else r.choice(["m", "m", "t", "mt"])
        t = r.choice(mass if k != "m" else range(len(sp)))
        mc2 = 511e3 * (1 if sp[t]["kind"] == "e" else sp[t]["m"])
        iso = r.random() < 0.5
        th = [r.choice([1e-4, 5e-3, 0.05, 0.3, 2.0]) if iso else r.choice([1e-5, 1e-4, 1e-3]) for _ in range(3)]
        if not iso and r.random() < 0.3:
            th[r.randrange(3)] = 0.0
        if iso and r.random() < 0.1:
            th = [0.0] * 3
        ops.append(dict(k=k, sp=t, add=r.choice([0, 0, 1]), mom=[r.choice([0, 64, -96, 640, 7]) for _ in range(3)] if k != "m" or sp[t]["kind"] != "g" else [r.choice([32, -64, 640]), 5, 0],
                        T=[x * mc2 for x in th], iso=iso, via=r.choice(["call", "direct"])))
    return dict(np=np_, n=[6] * D if D == 2 else [4, 4, 4], per=[True] * D, dx=[1e-7] * D, seed=r.randrange(1, 10**6), rseed=r.getrandbits(30), species=sp,
                ops=ops, dead=r.choice([0.0, 0.2, 0.9]) if not big else r.choice([0.0, 0.1]), ranks=split_ranks(r, 4, nr) if nr > 1 else None)


def run(ctx):
    ctx.model("MCMoments", cfg="MCMoments_full.cfg" if ctx.thorough else None, timeout=850)
    for v in ("dead", "gamma", "lost", "same"):
        ctx.refute("MCMoments", cfg=f"MCMoments_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 12
    for nr, cs, cb in [(1, 14, 10), (2, 5, 4), (3, 2, 2)]:
        sc = [scenario(r, D, nr, False) for D in (2, 3) for _ in range(cs * k)] + [scenario(r, D, nr, True) for D in (2, 3) for _ in range(cb * k)]
        ctx.check_traces("TMoments", ctx.drive("moments.py", {"scenarios": sc}, mpi=nr, threads=1, timeout=800))
