"""Seeded runs repeat themselves."""
from props.common import rng_for
from props.rerun_common import scenario, merge


def run(ctx):
    ctx.model("MCCheckpoint", cfg="MCCheckpoint_full.cfg" if ctx.thorough else None, timeout=850)
    ctx.refute("MCCheckpoint", cfg="MCCheckpoint_norand.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    must = [["qed"], ["pairs", "prune"], ["collide"], ["temp"], ["window"], ["balance", "qed"], ["window", "collide"]]
    for nr, c2, c3, jit in [(1, 12, 3, False), (2, 7, 2, False), (3, 2, 1, False)] + ([(1, 6, 2, True), (2, 3, 1, True)] if ctx.thorough else []):
        sc = []
        for D, cnt in ((2, c2), (3, c3)):
            for i in range(cnt * (k if not jit else 1)):
                s = scenario(r, D, nr, must[i] if i < len(must) and i < cnt else None)
                s.update(mode="repeat", times=r.choice([1, 2]))
                sc.append(s)
        a = ctx.drive("rerun.py", {"scenarios": [dict(s, first=1) for s in sc]}, mpi=nr, jit=jit, threads=1, timeout=700)
        ok = [i for i, t in enumerate(a) if not t.get("died")]
        b = ctx.drive("rerun.py", {"scenarios": [dict(sc[i], first=0, times=1) for i in ok]}, mpi=nr, jit=jit, threads=3 if jit else 1, timeout=700) if ok else []
        fr = []
        for i in range(6 * k):
            D = r.choice([2, 2, 3])
            s = scenario(r, D, nr)
            seeds = [5, 6, -1, 5, 0, -1, 2**31 - 1, 7]
            s.update(mode="fresh", seeds=r.sample(seeds, 4), ppc=2, dens=1e26)
            fr.append(s)
        c = ctx.drive("rerun.py", {"scenarios": fr}, mpi=nr, jit=jit, timeout=700)
        ctx.check_traces("TRerun", [t for t in a if t.get("died")] + merge([a[i] for i in ok], b) + c)
