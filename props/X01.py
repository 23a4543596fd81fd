"""Divisions of the grid into patches left to the code, in part or altogether."""
from props.common import rng_for


def divs(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def size(r, D, nr, init):
    if init:
        n = [r.choice([18, 24, 27, 30, 32, 36, 40, 48]) for _ in range(D)] if D == 2 else [r.choice([16, 18, 20, 24]) for _ in range(D)]
    else:
        n = [r.choice([9, 16, 18, 20, 24, 25, 27, 32, 36, 40, 48, 49, 60, 64, 72, 81, 96, 100, 121, 128, 180, 200, 256, 300, 512, 1000, 1024]) for _ in range(D)] if D == 2 else [r.choice([16, 24, 25, 27, 32, 36, 48, 60, 64, 72]) for _ in range(D)]
        if r.random() < 0.1:
            n[r.randrange(D)] = r.choice([17, 13, 31, 127])
    given = [0] * D
    if r.random() < 0.55:
        k = r.sample(range(D), r.randint(1, D - 1))
        for a in k:
            given[a] = r.choice([d for d in divs(n[a]) if n[a] // d >= (8 if init else 4) and d <= 16 and d >= 2] or [1])
    pml = r.choice([2, 3, 4, 5, 6, 6, 6, 8]) if not init else r.choice([2, 3, 4, 6] if D == 2 else [2, 3, 4])
    return dict(mode="size", n=n, given=given, omit=r.random() < 0.5, ng=r.choice([3, 3, 3, 4, 2]) if not init else 3, pml=pml, per=[r.random() < 0.35 for _ in range(D)],
                threads=[r.choice([1, 1, 2, 3, 4, 8, 16]) if not init else r.choice([1, 1, 2]) for _ in range(nr)], init=int(init))


def refuse(r, D):
    n = [24, 32, 30][:D]
    given = [4, 8, 5][:D]
    what = r.choice(["both", "uneven", "uneven"])
    if what == "uneven":
        a = r.randrange(D)
        given[a] = r.choice([d for d in range(2, 13) if n[a] % d])
    return dict(mode="refuse", what=what, n=n, given=given, omit=False, ng=3, pml=3, per=[True] * D)


def run(ctx):
    ctx.model("MCDivision", cfg="MCDivision_full.cfg" if ctx.thorough else None, timeout=850)
    for f in ("or", "drop", "count"):
        ctx.refute("MCDivision", cfg="MCDivision_%s.cfg" % f)
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 8
    jobs = []
    for nr, a2, a3, b2, b3, c in [(1, 120, 60, 24, 6, 12), (2, 20, 8, 4, 1, 2), (3, 10, 4, 2, 1, 1)]:
        sc = []
        for D, a, b in [(2, a2, b2), (3, a3, b3)]:
            sc += [size(r, D, nr, False) for _ in range(a * k)] + [size(r, D, nr, True) for _ in range(b * k)] + [refuse(r, D) for _ in range(c * k)]
        ctx.drive_and_check("TDivision", "division.py", {"scenarios": sc}, mpi=nr, timeout=700)
