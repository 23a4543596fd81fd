"""The same start pushed along different paths (callbacks in push stages or not)."""
from common import *
import zlib
from lambdapic import callback
from scipy.constants import c as C, e as QE, m_e

UA = ["ux", "uy", "uz"]
Q = 2**24


def build(sc):
    fresh()
    sp = []
    for i, s in enumerate(sc["species"]):
        k = s["kind"]
        if k == "e":
            x = Electron(name=f"s{i}")
        elif k == "r":
            x = Electron(name=f"s{i}", radiation="photons")
        elif k == "p":
            x = Positron(name=f"s{i}")
        elif k == "s":
            x = Electron(name=f"s{i}", polarization=(0.0, 0.0, 1.0))
        elif k == "g":
            x = Photon(name=f"s{i}")
        else:
            x = Species(name=f"s{i}", charge=s["q"], mass=s["m"])
        sp.append(x)
    for i, s in enumerate(sc["species"]):
        if s["kind"] == "r":
            sp[i].set_photon(sp[s["photon"]])
        if s.get("pair"):
            sp[i].set_bw_pair(electron=sp[s["pair"][0]], positron=sp[s["pair"][1]])
    sim = make_sim(sc, sp, dt_cfl=0.9)
    sim.initialize()
    return sim, sp


def start(sim, sp, sc):
    D = len(sc["np"])
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    for p in sim.patches:
        g = np.random.default_rng([sc["rseed"], p.index])
        org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
        for a in ALLF[:6]:
            f = getattr(p.fields, a)
            f[...] = 0.0
        for i, part in enumerate(p.particles):
            s = sc["species"][i]
            N = s["n"]
            if N > part.npart:
                part.extend(N - part.npart)
            N = part.npart
            part.id[:] = (p.index + 1) * 100000 + np.arange(N)
            for a in range(D):
                getattr(part, AX[a])[:] = org[a] + (g.random(N) * sc["n"][a] - 0.5) * dx[a]
            for a in UA:
                getattr(part, a)[:] = g.normal(size=N) * s["u"]
            u2 = part.ux**2 + part.uy**2 + part.uz**2
            part.inv_gamma[:] = 1 / np.sqrt(u2 + (0.0 if s["kind"] == "g" else 1.0))
            part.w[:] = sc["w"] * g.integers(1, 4, N)
            part.is_dead[:] = False
            d = sc["dead"]
            if d:
                k = slice(0, min(N, 200)) if d == 1 else slice(None) if d == 2 else slice(max(0, N - 7), None)
                dead = np.zeros(N, bool)
                dead[k] = g.random(N)[k] < 0.4
                part.is_dead[:] = dead
                if g.random() < 0.5:
                    part.x[dead] = np.nan
            if hasattr(part, "tau"):
                part.tau[:] = 1.0
    sim.update_lists()


def fields(sim, sc):
    """fields of the whole grid, the same on both paths and guards consistent after the step's own exchange"""
    D = len(sc["np"])
    g = np.random.default_rng([sc["rseed"], 99])
    shape = [a * b for a, b in zip(sc["np"], sc["n"])]
    # units: half the kick of a unit charge and mass
    ke = 2 * m_e * C / (QE * sim.dt)
    kb = 2 * m_e / (QE * sim.dt)
    whole = {}
    for k, a in enumerate(ALLF[:6]):
        e = a[0] == "e"
        amp = (ke if e else kb) * (sc["E"] if e else sc["B"])
        if sc["field"] == "uniform":
            whole[a] = np.full(shape, amp * (int(g.integers(-4, 5)) / 8))
        else:
            whole[a] = amp * g.normal(size=shape)
    for p in sim.patches:
        c = pcoord(p, D)
        for a in ALLF[:6]:
            f = getattr(p.fields, a)
            n = p.fields.n_guard
            idx = np.ix_(*[[(c[x] * sc["n"][x] + q) % shape[x] for q in list(range(sc["n"][x] + n)) + list(range(-n, 0))] for x in range(D)])
            f[...] = whole[a][idx]
    return whole


def run(sc, cbstages):
    D = len(sc["np"])
    sim, sp = build(sc)
    start(sim, sp, sc)
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    rec = {}
    held = {}

    def crc(part, i, j):
        return int(zlib.crc32(b"".join(np.ascontiguousarray(getattr(part, a)[j]).tobytes() for a in [AX[x] for x in range(D)] + UA + ["inv_gamma", "w"])) & 0x3fffffff)

    def rows(i):
        out = {}
        for p in sim.patches:
            part = p.particles[i]
            for j in np.flatnonzero(~part.is_dead):
                org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
                x = [(getattr(part, AX[a])[j] - org[a]) / dx[a] for a in range(D)]
                u = [getattr(part, a)[j] for a in UA]
                v = [u[a] * part.inv_gamma[j] * C * sim.dt / 2 / dx[a] for a in range(D)]
                out[int(part.id[j].view(np.int64))] = [p.index, x, u, part.inv_gamma[j], v, [getattr(part, a)[j] if hasattr(part, a) else 0.0 for a in ("tau", "chi", "event", "delta")]]
        return out

    def graves(i):
        return sorted(crc(p.particles[i], i, j) for p in sim.patches for j in np.flatnonzero(p.particles[i].is_dead))

    @callback("maxwell_1")
    def before(s):
        if sc["set"] == "every" or s.itime == 0:
            fields(s, sc)
        for i in range(len(sp)):
            held[s.itime, i] = rows(i), graves(i)

    @callback("current_deposition")
    def after(s):
        i = s.ispec
        b = held.pop((s.itime, i))
        js = {p.index: [np.array(getattr(p.fields, a)).ravel() for a in ["rho", "jx", "jy", "jz"]] for p in s.patches}
        rec[s.itime, i] = b[0], rows(i), b[1], graves(i), js

    def dummy(st):
        @callback(st)
        def nothing(s):
            pass
        return nothing

    sim.run(nsteps=sc["steps"], callbacks=[before, after] + [dummy(st) for st in cbstages])
    efield = {p.index: [np.array(getattr(p.fields, a)).ravel() for a in ALLF[:6]] for p in sim.patches}
    return rec, efield, sim.dt


def one(sc):
    A, fa, dt = run(sc, sc["cb"][0])
    B, fb, _ = run(sc, sc["cb"][1])
    D = len(sc["np"])
    ev = []

    def q(v, s):
        v = float(v) / s * Q
        return int(round(v)) if np.isfinite(v) and abs(v) < 2**30 else -777777777
    for key in sorted(A):
        t, i = key
        s = sc["species"][i]
        m = s.get("m", 1) if s["kind"] not in "erspg" else 1
        ch = s.get("q", 0) if s["kind"] == "i" else 0 if s["kind"] == "g" else 1 if s["kind"] == "p" else -1
        r = []
        b0, a1, g0, g1, ja = A[key]
        _, b1, h0, h1, jb = B.get(key, ({}, {}, [], [], {}))
        US = 1.0
        for x in (b0, a1, b1):
            for y in x.values():
                US = max(US, float(np.nanmax(np.abs(y[2]))))
        for k in sorted(set(b0) | set(a1) | set(b1)):
            if k not in b0 or k not in a1 or k not in b1:
                r.append([])
                continue
            o, x, y = b0[k], a1[k], b1[k]
            f = lambda z: [z[0]] + [q(v, 8.0) for v in z[1]] + [q(v, US) for v in z[2]] + [q(z[3], 32.0)] + [q(v, 8.0) for v in z[4]]
            # optical depth, quantum parameter, event: what emits and converts later
            g = lambda z: [q(z[5][0], 8.0), q(z[5][1], 0.01)] + [q(z[5][2], 1.0), q(z[5][3] if z[5][2] else 0.0, 1.0)]
            r.append([f(o), f(x) + g(x), f(y) + g(y)])
        JS = [max([1e-300] + [float(np.nanmax(np.abs(v[c]))) for v in ja.values()]) for c in range(4)]
        js = {"a": [], "b": []}
        for n, jj in (("a", ja), ("b", jb)):
            for p in sorted(ja):
                js[n].append([[q(z, JS[c]) for z in jj[p][c]] for c in range(4)] if p in jj else [])
        # kick of a uniform electric field: in units of US
        kick = []
        if sc["field"] == "uniform" and sc["B"] == 0 and (sc["set"] == "every" or t == 0):
            g = np.random.default_rng([sc["rseed"], 99])
            e = [int(g.integers(-4, 5)) / 8 for _ in range(6)][:3]
            kick = [q(2 * sc["E"] * x * ch / m, US) for x in e]
        ev.append({"op": "push", "t": t, "sp": i, "r": r, "ga": [g0, g1], "gb": [h0, h1], "ja": js["a"], "jb": js["b"],
                   "mag": int(sc["E"] == 0 and (sc["set"] == "every" or t == 0)), "kick": kick, "free": int(ch == 0)})
    FS = [max([1e-300] + [float(np.nanmax(np.abs(v[c]))) for v in fa.values()]) for c in range(6)]
    ev.append({"op": "fields", "a": [[[q(z, FS[c]) for z in fa[p][c]] for c in range(6)] for p in sorted(fa)],
               "b": [[[q(z, FS[c]) for z in fb[p][c]] for c in range(6)] for p in sorted(fb)], "n": [len(A), len(B)]})
    al = COMM.gather(ev, root=0)
    return [e for x in al for e in x] if RANK == 0 else None


if __name__ == "__main__":
    main(one)
