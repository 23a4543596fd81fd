"""Species: names, numbers and switches."""
from props.common import rng_for, split_ranks


def names(r, nr):
    D = r.choice([2, 2, 3])
    np_ = [nr if nr > 1 else r.choice([1, 2]), 1] + ([1] if D == 3 else [])
    calls = []
    many = r.random() < 0.08
    words = r.choice([["ion"], ["ion", "electron"], ["a", "b", "ab"], ["electron", "photon"], ["x+", "x", "x("]])
    for _ in range(r.choice([1, 2, 3, 4]) if not many else 3):
        call = []
        for _ in range(r.choice([1, 1, 2, 3]) if not many else 6):
            nm = [r.choice(words)] + [r.choice([1, 1, 2, 3, 9, 10]) for _ in range(r.choice([0, 0, 0, 1, 1, 2]) if not many or r.random() < 0.1 else 0)]
            kind = r.choice("nnegep")
            k = dict(name=nm, kind=kind, q=r.choice([-1, 1, 2]), m=r.choice([1, 100]), ppc=r.choice([0, 1, 2, 3, 4]))
            if kind == "e" and r.random() < 0.4:
                k["rad"] = 1
            if kind == "g" and r.random() < 0.5:
                k["pair"] = 1
            if kind == "n" and r.random() < 0.04:
                k["tbmt"] = 1
            call.append(k)
        calls.append(call)
    if not any(k["kind"] == "g" for c in calls for k in c):
        for c in calls:
            for k in c:
                k.pop("rad", None)
    auto = int(r.random() < 0.12)
    if auto:
        calls = [sum(calls, [])]
        for i, k in enumerate(calls[0]):      # nothing renames what was never added
            k["name"] = [k["name"][0] + "abcdefghijklmnop"[i]]
    return dict(mode="names", auto=auto, np=np_, n=[4, 4, 4][:D], per=[True] * D, pml=1, ng=2, calls=calls, seed=r.randrange(1000), rseed=r.randrange(10**6),
                ranks=list(range(nr)) if nr > 1 else None)


def off(r, D, nr):
    while True:
        n = [r.choice([4, 5]) for _ in range(D)] if D == 2 else [4] * D
        per = [r.random() < 0.6 for _ in range(D)]
        np_ = [r.choice([1, 2, 3]) if per[a] else 2 for a in range(D)]
        N = 1
        for x in np_:
            N *= x
        if nr <= N <= (6 if D == 2 else 4):
            break
    NS = r.choice([2, 3, 3, 4])
    sp = [dict(kind="n", q=r.choice([-1, 1, 2]), m=r.choice([1, 2, 50])) for _ in range(NS)]
    qed = r.random() < 0.35
    if qed:
        g = r.randrange(NS)
        sp[g] = dict(kind="g", q=0, m=0, pair=None)
        oth = [i for i in range(NS) if i != g]
        for i in r.sample(oth, r.choice([1, len(oth)])):
            sp[i] = dict(kind="e", q=-1, m=1, to=g if r.random() < 0.8 else -1)
        if len(oth) >= 2 and r.random() < 0.5:
            a, b = r.sample(oth, 2)
            if sp[a]["kind"] == "n":
                sp[a] = dict(kind="e", q=-1, m=1, to=-1)
            sp[b] = dict(kind="p", q=1, m=1, to=g if r.random() < 0.3 else -1)
            sp[g]["pair"] = [a, b]
    groups = []
    if not qed and r.random() < 0.6:
        for _ in range(r.choice([1, 2])):
            x = r.sample(range(NS), r.choice([1, 2, NS]))
            if len(x) == 1 or r.random() < 0.5:
                x.append(x[0])
            groups.append(x)
    runs = r.choice([[4], [2, 2], [3, 1, 2]])
    T = sum(runs)
    toggles, state = [], {}
    Z = r.sample(range(NS), r.choice([1, 1, 2]))
    if groups and r.random() < 0.6:
        Z = [0]
    starts = [0]
    for m in runs[:-1]:
        starts.append(starts[-1] + m)
    for z in Z:
        when = [(t, w) for t in range(T) for w in ("before", "start", "end") if w != "before" or t in starts]
        cnt = r.choice([1, 1, 2, 3])
        at = sorted(r.sample(range(len(when)), min(cnt, len(when))))
        if r.random() < 0.4:
            at[0] = 0 if at[0] > 0 else at[0]
        on = 1
        for i in sorted(set(at)):
            on = 1 - on
            toggles.append([when[i][0], when[i][1], z, on])
    order = {"before": 0, "start": 1, "end": 2}
    toggles.sort(key=lambda x: (x[0], order[x[1]]))
    return dict(mode="off", np=np_, n=n, per=per, pml=1, ng=r.choice([2, 3]), dx=[r.choice([0.5, 1.0]) * 1e-6 for _ in range(D)], seed=r.randrange(1000), rseed=r.randrange(10**6), calls=[],
                species=sp, groups=groups, runs=runs, toggles=toggles, slots=r.choice([2, 5, 9]) if not groups else r.choice([20, 40]), w0=10.0 ** r.choice([22, 24, 25]), watch=int(r.random() < 0.7), free=0,
                ranks=split_ranks(r, N, nr) if nr > 1 else None)


def run(ctx):
    full = "_full" if ctx.thorough else ""
    ctx.model("MCNames", cfg=f"MCNames{full}.cfg", timeout=850)
    ctx.model("MCFreeze", cfg=f"MCFreeze{full}.cfg", timeout=850)
    for v in ("count", "batch", "wish", "suffix"):
        ctx.refute("MCNames", cfg=f"MCNames_{v}.cfg")
    for v in ("collide", "debye", "deposit", "emit", "first", "slot"):
        ctx.refute("MCFreeze", cfg=f"MCFreeze_{v}.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, cn, c2, c3, jit in [(1, 40, 22, 5, False), (2, 4, 8, 2, False)] + ([(1, 10, 8, 2, True)] if ctx.thorough else []):
        kk = k if not jit else 1
        sc = [names(r, nr) for _ in range(cn * kk)] + [off(r, 2, nr) for _ in range(c2 * kk)] + [off(r, 3, nr) for _ in range(c3 * kk)]
        ctx.check_traces("TSpecies", ctx.drive("species.py", {"scenarios": sc}, mpi=nr, jit=jit, timeout=700), shards=2)
