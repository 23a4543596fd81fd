"""Momenta and temperatures set by callbacks: every slot of every species before and after."""
from common import *
import zlib
from scipy.constants import c as C, e as QE, m_e
from scipy.special import kve
from lambdapic import SetTemperature
from lambdapic.callback.utils import SetMomentum, SetMomentumAndTemperature

UA = ["ux", "uy", "uz"]


def crc(*a):
    return int(zlib.crc32(b"".join(np.ascontiguousarray(x).tobytes() for x in a)) & 0x3fffffff)


def digests(sim, i, D, what):
    """(patch, slot digest) of the live or dead particles of a species; momenta left out for the live target."""
    out = []
    for p in sim.patches:
        q = p.particles[i]
        m = q.is_dead if what == "dead" else ~q.is_dead
        names = [a for a in q.attrs if not (what == "rest" and a in UA + ["inv_gamma"])]
        out.append([int(p.index), int(m.sum()), crc(m, *[getattr(q, a)[m] for a in names])])
    return out


def live(sim, i):
    u, g = [], []
    for p in sim.patches:
        q = p.particles[i]
        m = ~q.is_dead
        u.append(np.stack([np.array(getattr(q, a))[m] for a in UA], axis=1))
        g.append(np.array(q.inv_gamma)[m])
    return np.concatenate(u), np.concatenate(g)


def one(sc):
    D = len(sc["np"])
    sp = []
    for i, s in enumerate(sc["species"]):
        k = s["kind"]
        sp.append(Electron(name=f"s{i}") if k == "e" else Photon(name=f"s{i}") if k == "g" else Species(name=f"s{i}", charge=1, mass=s["m"]))
    sim = make_sim(sc, sp)
    sim.initialize()
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    for p in sim.patches:
        g = np.random.default_rng([sc["rseed"], p.index])
        org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
        for i, q in enumerate(p.particles):
            N = int(g.choice(sc["species"][i]["n"]))
            if N > q.npart:
                q.extend(N - q.npart)
            N = q.npart
            for a in range(D):
                getattr(q, AX[a])[:] = org[a] + (g.random(N) * sc["n"][a] - 0.5) * dx[a]
            for a in UA:
                getattr(q, a)[:] = g.integers(-200, 201, N) / 64
            q.w[:] = g.random(N)
            q.inv_gamma[:] = 1 / np.sqrt((0.0 if sc["species"][i]["kind"] == "g" else 1.0) + sum(getattr(q, a)**2 for a in UA) + 1e-12)
            q.is_dead[:] = g.random(N) < sc["dead"]
            q.x[q.is_dead] = np.nan
    sim.update_lists()
    ev = []
    for op in sc["ops"]:
        k, t = op["k"], op["sp"]
        s = sc["species"][t]
        mom = [v / 64 for v in op["mom"]]
        if k == "m":
            cb = SetMomentum(sp[t], mom, add=bool(op["add"]))
        elif k == "t":
            cb = SetTemperature(sp[t], op["T"][0] if op["iso"] else list(op["T"]), add=bool(op["add"]))
        else:
            cb = SetMomentumAndTemperature(sp[t], mom, op["T"][0] if op["iso"] else list(op["T"]), add=bool(op["add"]))
        before = [[digests(sim, i, D, w) for w in ("dead", "rest", "live")] for i in range(len(sp))]
        u0, g0 = live(sim, t)
        if op["via"] == "call":
            cb(sim)
        else:
            cb._call(sim)
        after = [[digests(sim, i, D, w) for w in ("dead", "rest", "live")] for i in range(len(sp))]
        u1, g1 = live(sim, t)
        al = COMM.gather((before, after, u0, u1, g1), root=0)
        if RANK:
            continue
        B = [[sorted(x for r in al for x in r[0][i][w]) for w in range(3)] for i in range(len(sp))]
        A = [[sorted(x for r in al for x in r[1][i][w]) for w in range(3)] for i in range(len(sp))]
        u0, u1, g1 = (np.concatenate([r[j] for r in al]) for j in (2, 3, 4))
        e = {"op": "set", "k": k, "sp": t, "add": op["add"], "mom": op["mom"], "before": B, "after": A, "n": len(u1)}
        m2 = 0.0 if s["kind"] == "g" else 1.0
        with np.errstate(all="ignore"):
            e["gam"] = ints(np.rint(g1 * np.sqrt(m2 + (u1**2).sum(axis=1)) * 2**20)) if len(u1) <= 3000 else [int(np.nan_to_num(f(g1 * np.sqrt(m2 + (u1**2).sum(axis=1)) * 2**20), nan=-777777777)) for f in (np.min, np.max)]
        if k == "m":
            e["u"] = [[ints(np.rint(x * 64 * 1024)) for x in u] for u in (u0, u1)] if len(u1) <= 3000 else [ints(np.rint(np.abs(u1 - (u0 if op["add"] else 0) - mom).max(axis=0) * 64 * 1024))]
        else:
            d = u1 - (u0 if op["add"] else 0.0) - (np.array(mom) if k == "mt" else 0.0)
            m = 1.0 if s["kind"] == "e" else s["m"]
            th = np.array([op["T"][0]] * 3 if op["iso"] else op["T"]) * QE / (m * m_e * C**2)
            e["distinct"] = len({x.tobytes() for x in d.round(12)}) if max(th) > 0 else len(d)
            e["cold"] = int(max(th) == 0)
            e["iso"] = int(op["iso"])
            # what a thermal distribution has: in 1/4096 of the expected value
            r = lambda v: int(np.rint(np.clip(np.nan_to_num(v, nan=-700000.0), -700000, 700000)))
            gd = np.sqrt(1 + (d**2).sum(axis=1))
            with np.errstate(all="ignore"):
                e["T"] = [r((d[:, a]**2 / (gd if op["iso"] else 1.0)).mean() / th[a] * 4096) if th[a] > 0 else -1 if np.all(np.abs(d[:, a]) < 1e-9) else 700000 for a in range(3)]
                rms = np.sqrt((d**2).mean(axis=0))
                e["mean"] = [r(d[:, a].mean() / rms[a] * 4096) if th[a] > 0 else 0 for a in range(3)]
                e["cross"] = [r((d[:, a] * d[:, b]).mean() / (rms[a] * rms[b]) * 4096) if th[a] > 0 and th[b] > 0 else 0 for a, b in ((0, 1), (1, 2), (0, 2))]
                if op["iso"] and th[0] > 0:
                    x = 1 / th[0]
                    gm = (kve(1, x) / kve(2, x) + 3 * th[0] - 1)
                    e["energy"] = r((gd - 1).mean() / gm * 4096)
                else:
                    e["energy"] = 4096
        ev.append(e)
    # the default interval: at the start of the simulation only
    hits = []
    cb = SetMomentum(sp[0], [0.0, 0.0, 0.0])
    old = cb._call
    cb._call = lambda s: (hits.append(s.itime), old(s))
    sim.run(nsteps=1, callbacks=[cb])
    sim.run(nsteps=1, callbacks=[cb])
    if RANK == 0:
        ev.append({"op": "hits", "at": [int(x) for x in hits]})
    return ev


if __name__ == "__main__":
    main(one)
