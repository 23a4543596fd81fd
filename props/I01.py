"""Restarted runs continue identically."""
import os
from props.common import rng_for
from props.rerun_common import scenario, merge


def run(ctx):
    ctx.model("MCCheckpoint", cfg="MCCheckpoint_full.cfg" if ctx.thorough else None, timeout=850)
    for v in ("product", "norand", "nowindow", "again"):
        ctx.refute("MCCheckpoint", cfg=f"MCCheckpoint_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    must = [["qed"], ["pairs", "prune"], ["collide"], ["laser"], ["temp", "collide"], ["window"], ["window", "laser"], ["balance", "qed"], ["pml"], ["window", "qed"]]
    for nr, c2, c3, jit in [(1, 16, 4, False), (2, 8, 3, False), (3, 3, 1, False)] + ([(1, 6, 2, True), (2, 3, 1, True)] if ctx.thorough else []):
        sc = []
        for D, cnt in ((2, c2), (3, c3)):
            for i in range(cnt * (k if not jit else 1)):
                s = scenario(r, D, nr, must[i] if i < len(must) and i < cnt else None)
                s.update(dir=os.path.join(ctx.scratch, f"ck_{nr}_{D}_{i}_{int(jit)}"), plain=int(r.random() < 0.4),
                         dumps=sorted(r.sample(range(s["steps"] - 1), r.choice([1, 2]))))
                sc.append(s)
        a = ctx.drive("rerun.py", {"scenarios": [dict(s, mode="dump") for s in sc]}, mpi=nr, jit=jit, threads=2 if jit else 1, timeout=700)
        ok = [i for i, t in enumerate(a) if not t.get("died")]
        b = ctx.drive("rerun.py", {"scenarios": [dict(sc[i], mode="load") for i in ok]}, mpi=nr, jit=jit, threads=2 if jit else 1, timeout=700) if ok else []
        ctx.check_traces("TRerun", [t for t in a if t.get("died")] + merge([a[i] for i in ok], b))
