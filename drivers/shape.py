"""Deposits (mode dep) and interpolations (mode int) of placed particles, per patch, normalised to integers."""
from common import *
from lambdapic import callback
from scipy.constants import c as C, e as QE

U = 8


def arr(f, g, scale, tol=2e-3):
    """guards of both sides in front/behind: cells -g..n-1+g"""
    a = np.asarray(f, dtype=float)
    for ax in range(a.ndim):
        a = np.roll(a, g, axis=ax)
    return np.array(ints(a, scale, tol)).ravel().tolist()


def norm(v):
    r = np.rint(v)
    return [as_int(x) if abs(y - x) < 2e-3 * max(1, abs(x) * 1e-9) else -777777777 for x, y in zip(r, v)]


def one(sc):
    D = len(sc["np"])
    sc["u"] = U
    sp = []
    for i, s in enumerate(sc["species"]):
        if s["kind"] == "e":
            x = Electron(name=f"s{i}")
        elif s["kind"] == "g":
            x = Photon(name=f"s{i}")
        else:
            x = Species(name=f"s{i}", charge=s["q"], mass=s["m"])
        sp.append(x)
    sim = make_sim(sc, sp, dt_cfl=sc["cfl"])
    sim.initialize()
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    V = float(np.prod(dx))
    W = (2 * U * U)**D
    if D == 2:
        sc4 = [V / QE * W, dx[1] * sim.dt / QE * 2 * W, dx[0] * sim.dt / QE * 2 * W, V * U / (QE * C) * 12 * W]
    else:
        sc4 = [V / QE * W] + [V / dx[a] * sim.dt / QE * 12 * W for a in range(3)]
    ev, prev, step = [], {}, [0]
    UA = ["ux", "uy", "uz"]

    def org(p):
        return [p.x0, p.y0] + ([p.z0] if D == 3 else [])

    def place(p, ispec, part, g, moving, back=0.0):
        """live particles at u-ths of a cell such that the middle of the step is on the same lattice"""
        N = part.npart
        m = sc["count"]
        if N < m:
            part.extend(m - N)
            N = m
        # slots of particles long gone may still carry the identifier of one that came back
        part.id[:] = np.arange(1, N + 1)
        live = g.random(N) < sc["pl"]
        part.is_dead[:] = ~live
        for i in range(N):
            if not live[i]:
                if sc["junk"]:
                    # storage of particles long gone
                    for a in range(D):
                        getattr(part, AX[a])[i] = org(p)[a] + g.random() * sc["n"][a] * dx[a]
                    part.w[i] = 3.0
                    for a in range(3):
                        getattr(part, UA[a])[i] = g.normal()
                    part.inv_gamma[i] = 0.5
                continue
            # displacement over the step in u-ths (even), at most the light cone
            while True:
                d = [2 * int(g.integers(-2, 3)) if moving else 0 for _ in range(D)]
                v = [d[a] * dx[a] / (U * sim.dt) / C for a in range(D)]
                v += [int(g.integers(-4, 5)) / U if moving else 0.0] if D == 2 else []
                if sum(q * q for q in v) < 0.97:
                    break
            lo, hi = -U // 2, [n * U - U // 2 for n in sc["n"]]
            xi = [int(g.integers(lo, hi[a] + 1)) if g.random() < 0.7 else int(g.choice([lo, hi[a], lo + 1, hi[a] - 1, 0, hi[a] - U // 2])) for a in range(D)]
            for a in range(D):
                # the unified and the split push both start half a step before the middle
                getattr(part, AX[a])[i] = org(p)[a] + xi[a] * dx[a] / U - back * v[a] * C * sim.dt
            ga = 1 / np.sqrt(1 - sum(q * q for q in v))
            for a in range(3):
                getattr(part, UA[a])[i] = v[a] * ga
            part.inv_gamma[i] = 1 / ga
            part.w[i] = float(g.integers(1, 4) if D == 2 or m < 40 else 1)

    uni = sc["mode"] == "int" and not sc["split"]
    start = {}

    @callback("maxwell_1")
    def setup(s):
        g = np.random.default_rng([sc["rseed"], RANK, s.itime])
        for p in s.patches:
            for k, a in enumerate(ALLF[:6]):
                f = getattr(p.fields, a)
                f[...] = g.integers(-9, 10, f.shape) if sc["mode"] == "int" else 0.0
            for ispec, part in enumerate(p.particles):
                place(p, ispec, part, g, sc["mode"] == "dep" or uni, 0.5 if uni else 0.0)
        s.update_lists()
        if uni:
            start.clear()
            for k, p in enumerate(s.patches):
                for ispec, part in enumerate(p.particles):
                    start[k, ispec] = {int(part.id[j].view(np.int64)): [getattr(part, AX[a])[j] + 0.5 * C * s.dt * part.inv_gamma[j] * getattr(part, UA[a])[j] for a in range(D)] for j in range(part.npart)}

    def snap(p):
        return [arr(getattr(p.fields, k), sc["ng"], z) for k, z in zip(["rho", "jx", "jy", "jz"], sc4)]

    @callback("current_deposition")
    def deposited(s):
        i = s.ispec
        for k, p in enumerate(s.patches):
            part = p.particles[i]
            now = snap(p)
            before = prev.get(k) or [[0] * len(x) for x in now]
            prev[k] = now
            rows = []
            for j in np.flatnonzero(~part.is_dead):
                x = [(getattr(part, AX[a])[j] - org(p)[a]) / dx[a] * U for a in range(D)]
                ig = part.inv_gamma[j]
                h = [getattr(part, UA[a])[j] * ig * C * sim.dt / dx[a] * U / 2 for a in range(D)]
                vz = getattr(part, "uz")[j] * ig * U if D == 2 else 0
                wq = part.w[j] * sc["species"][i]["q"]
                rows.append(norm([wq, vz] + [a - b for a, b in zip(x, h)] + [a + b for a, b in zip(x, h)]))
            ev.append({"op": "deposit", "spec": i, "parts": rows, "b": before, "a": now})
        if i == len(sp) - 1:
            prev.clear()

    held = {}
    OTHER = ["x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "is_dead", "id"]

    def digest(p, part):
        fs = [np.asarray(getattr(p.fields, a)).tobytes() for a in ALLF]
        return [getattr(part, a).tobytes() for a in OTHER if hasattr(part, a)] + fs

    @callback("_push_position_1")
    def before(s):
        g = np.random.default_rng([sc["rseed"], 7, RANK, s.itime, s.ispec])
        for k, p in enumerate(s.patches):
            part = p.particles[s.ispec]
            place(p, s.ispec, part, g, False)
            held[k] = digest(p, part)

    @callback("_interpolator")
    def after(s):
        for k, p in enumerate(s.patches):
            part = p.particles[s.ispec]
            same = int(digest(p, part) == held[k])
            rows = []
            for j in np.flatnonzero(~part.is_dead):
                x = [(getattr(part, AX[a])[j] - org(p)[a]) / dx[a] * U for a in range(D)]
                f = [getattr(part, a + "_part")[j] * W for a in ALLF[:6]]
                rows.append(norm(x + f))
            ev.append({"op": "interp", "spec": s.ispec, "parts": rows, "f": [arr(getattr(p.fields, a), sc["ng"], 1.0) for a in ALLF[:6]], "same": same})

    @callback("_qed")
    def nothing(s):
        pass
    @callback("current_deposition")
    def pushed(s):
        """the unified push keeps what it read in the middle of the step"""
        for k, p in enumerate(s.patches):
            part = p.particles[s.ispec]
            rows = []
            for j in np.flatnonzero(~part.is_dead):
                x = [(start[k, s.ispec][int(part.id[j].view(np.int64))][a] - org(p)[a]) / dx[a] * U for a in range(D)]
                rows.append(norm(x + [getattr(part, a + "_part")[j] * W for a in ALLF[:6]]))
            ev.append({"op": "interp", "spec": s.ispec, "parts": rows, "f": [arr(getattr(p.fields, a), sc["ng"], 1.0) for a in ALLF[:6]], "same": 1})

    cbs = [setup, deposited] + ([nothing] if sc["split"] else []) if sc["mode"] == "dep" else [setup, pushed] if uni else [setup, before, after]
    sim.run(nsteps=sc["steps"], callbacks=cbs)
    al = COMM.gather(ev, root=0)
    return [e for x in al for e in x] if RANK == 0 else None


if __name__ == "__main__":
    main(one)
