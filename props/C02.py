from props.common import rng_for
from props.fields_common import geometry

KINDS = ["sync", "sync2", "start+wait", "start+sync", "sync+wait"]


def scenarios(r, D, count, nrank=1):
    out = []
    for _ in range(count):
        s = geometry(r, D, nrank, nmax=4, maxp=6 if D == 2 else 4, ngs=(3,))
        nsp = r.choice([1, 2, 3])
        s.update(mode="step", nsp=nsp, show=[], stepwise=bool(r.getrandbits(1)))
        plan = []
        for t in range(2):
            plan.append([{"reqs": [r.choice(KINDS) for _ in range(r.choice([0, 0, 1, 2]))], "start": r.random() < 0.4,
                          "pre": r.random() < 0.5, "late": r.random() < 0.3, "atstart": r.random() < 0.3} for _ in range(nsp)])
        s["plan"] = plan
        out.append(s)
    return out


def run(ctx):
    ctx.model("MCRequest", cfg="MCRequest_full.cfg" if ctx.thorough else None)
    ctx.model("MCRequest", cfg="MCRequest1.cfg")
    r = rng_for(ctx)
    k = 1 if not ctx.thorough else 10
    for nr, c2, c3, th in [(1, 12, 2, 1), (2, 12, 2, 2), (3, 8, 2, 1)]:
        sc = scenarios(r, 2, c2 * k, nr) + scenarios(r, 3, c3 * k, nr)
        ctx.check_traces("TFields", ctx.drive("fields.py", {"scenarios": sc}, mpi=nr, threads=th))
