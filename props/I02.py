"""Checkpoint retention and dumps on request."""
from props.common import rng_for
FOREIGN = ["ckpt_final/", "ckpt_12.bak", "notes.txt", "data_000001/", "ckpt_000900001", "ckpt_-5/", "fields_000003.h5", "xckpt_000004/",
           "ckpt_000002_old/", "ckpt_/"]


def scenario(r, D, nr, k):
    start = r.choice([0, 0, 1, 7, 8, 95, 97, 996, 99995, 999995, 999997, 9999996, 12345678])
    dumps = []
    nd = r.choice([1, 1, 1, 2, 3])
    who = r.randrange(nd)
    ask = r.random() < 0.6
    runs = []
    at = start
    left = r.choice([1, 2, 3])
    for i in range(left):
        n = r.randint(2, 7)
        run = dict(n=n, order=r.choice(["first", "last"]))
        if ask and (i or left == 1 or r.random() < 0.5):
            before = r.random() < 0.15
            s = at if before else at + r.randrange(n)
            run["sig"] = dict(step=s, stage=r.choice(["init", "start", "maxwell_1", "_laser", "current_deposition", "qed_create_particles", "end", "end"][0 if s == start and i == 0 else 1:]),
                              ranks=sorted(r.sample(range(nr), r.randint(1, nr))), sig=None, dir=who + 1, before=int(before))
            at = s + 1
        else:
            at += n
        runs.append(run)
    asked = any("sig" in x for x in runs)
    for d in range(nd):
        pre = r.sample(FOREIGN, r.randint(0, 4))
        if r.random() < 0.6:
            for _ in range(r.randint(1, 6)):
                s = r.choice([start - r.randint(1, 12), start // 2, start // 10, start - r.randint(1, 300), r.randrange(start + 1), start + r.randint(0, 4)])
                pre.append("ckpt_%06d/" % max(0, min(s, start)))
        if not (asked and d == who) and r.random() < 0.2:
            pre.append("ckpt_%06d/" % (start + r.choice([3, 50, 900000])))
        kind = r.choice(["int"] * 4 + ["pred", "never"])
        dumps.append(dict(kind=kind, iv=r.choice([1, 1, 2, 3, 5]), keep=r.choice([1, 1, 2, 2, 3, 4, 0, -1]), pre=sorted(set(pre)), sigs="none"))
    if asked:
        dumps[who]["sigs"] = r.choice(["true", "true", "usr", "two"])
        for x in runs:
            if "sig" in x:
                x["sig"]["sig"] = r.choice({"true": ["SIGTERM", "SIGINT"], "usr": ["SIGUSR1"], "two": ["SIGUSR1", "SIGUSR2"]}[dumps[who]["sigs"]])
    np_ = [nr if a == 0 else 1 for a in range(D)]
    return dict(np=np_, n=[5] * D, per=[True] * D, pml=1, ng=3, start=start, dumps=dumps, runs=runs, slow=int(nr > 1 and r.random() < 0.3),
                size=nr, ranks=list(range(nr)) if nr > 1 else None)


def run(ctx):
    for n in (["MCRetention_full"] if ctx.thorough else ["MCRetention"]):
        ctx.model("MCRetention", cfg=n + ".cfg", timeout=850)
    ctx.refute("MCRetention", cfg="MCRetention_local.cfg")
    ctx.refute("MCRetention", cfg="MCRetention_text.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3 in [(1, 60, 6), (2, 14, 2), (3, 8, 0)]:
        sc = [scenario(r, 2, nr, i) for i in range(c2 * k)] + [scenario(r, 3, nr, i) for i in range(c3 * k)]
        ctx.check_traces("TCkpt", ctx.drive("ckpt.py", {"scenarios": sc}, mpi=nr, timeout=700))
