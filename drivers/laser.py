"""Lasers injected through the left boundary: waves at a probe plane, divisions of the domain, sums, writes."""
from common import *
from maxwell import gather_global
from lambdapic import callback
from lambdapic.callback.laser import SimpleLaser2D, SimpleLaser3D, GaussianLaser2D, GaussianLaser3D
from scipy.constants import c as C, e as QE, m_e
import math

F6 = ALLF[:6]
Q = 1 << 20


def lasers(sc, only=None):
    D = len(sc["np"])
    dx = sc["dx"]
    out = []
    for L in sc["lasers"]:
        kw = dict(a0=L["a0"], l0=L["l0"] * dx[0], w0=L["w0"] * dx[1], ctau=L["ctau"] * dx[0], pol_angle=L["pol"] * math.pi / 12, ellipticity=L["ell"] / 4, cep=L["cep"] * math.pi / 4)
        if L["y0"] is not None:
            kw["y0"] = L["y0"] * dx[1]
        if D == 3 and L["z0"] is not None:
            kw["z0"] = L["z0"] * dx[2]
        if L["stop"]:
            kw["tstop"] = (L["stop"] - 0.5) * sc["_dt"]
        if L["kind"] == "simple":
            out.append((SimpleLaser2D if D == 2 else SimpleLaser3D)(angle_y=L["ang"] * math.pi / 180, **kw))
        else:
            out.append((GaussianLaser2D if D == 2 else GaussianLaser3D)(focus_position=L["foc"] * dx[0], **({"x0": L["x0"] * dx[0]} if L["x0"] else {}), **({"l": L["l"], "p": L["p"]} if D == 3 else {}), **kw))
    if only is not None:
        return out[only]
    r = out[0]
    for x in out[1:]:
        r = r + x
    return r


def wave(sc, L, t, y, z, lc, dxs):
    """The field this laser has on the injection plane, from its parameters alone; lengths in metres."""
    D = len(sc["np"])
    dx = dxs
    l0, w0, ct = L["l0"] * dx[0], L["w0"] * dx[1], L["ctau"] * dx[0]
    k = 2 * math.pi / l0
    y = y - (L["y0"] * dx[1] if L["y0"] is not None else lc[0] / 2)
    z = z - (L["z0"] * dx[2] if L["z0"] is not None else lc[1] / 2) if D == 3 else 0.0 * y
    n = math.sqrt(1 + (L["ell"] / 4) ** 2)
    a, b = 1 / n, L["ell"] / 4 / n
    cp, sp = math.cos(L["pol"] * math.pi / 12), math.sin(L["pol"] * math.pi / 12)
    if L["kind"] == "simple":
        s, co = math.sin(L["ang"] * math.pi / 180), math.cos(L["ang"] * math.pi / 180)
        u = C * t - y * s
        env = np.where((u > 0) & (u < 2 * ct), np.sin(np.pi * u / (2 * ct)) ** 2, 0.0)
        amp = env * np.exp(-((y / co) ** 2 + z ** 2) / w0 ** 2)
        ph = k * (C * t - y * s) + L["cep"] * math.pi / 4
    else:
        co = 1.0
        env = math.exp(-((C * t - (L["x0"] * dx[0] if L["x0"] else 3 * ct)) / ct) ** 2)
        xr = sc["pml"] * dx[0]
        zz, zR = xr - L["foc"] * dx[0], math.pi * w0 ** 2 / l0
        w = w0 * math.sqrt(1 + (zz / zR) ** 2)
        cur = k / 2 * zz / (zz ** 2 + zR ** 2)
        r2 = y ** 2 + z ** 2
        amp = env * w0 / w * np.exp(-r2 / w ** 2)
        mode = 0
        ph = k * (C * t - xr) + L["cep"] * math.pi / 4 - cur * r2
        if D == 3 and (L["l"] or L["p"]):
            l, p, rho = abs(L["l"]), L["p"], 2 * r2 / w ** 2
            lag = [1.0, 1 + l - rho][p]
            amp = amp * math.sqrt(math.factorial(p) / math.factorial(p + l)) * rho ** (l / 2) * lag
            ph = ph - L["l"] * np.arctan2(z, y)
            mode = 2 * p + l
        ph = ph - (mode + 1) * math.atan(zz / zR)
    E0 = L["a0"] * k
    return E0 * amp * (a * cp * np.sin(ph) - b * sp * np.cos(ph)) * co, E0 * amp * (a * sp * np.sin(ph) + b * cp * np.cos(ph))


def simulate(sc, comm, np_, n, ranks, laser, want):
    D = len(np_)
    fresh()
    force_ranks(ranks if comm.Get_size() > 1 else None)
    args = dict(nx=np_[0] * n[0], ny=np_[1] * n[1], dx=sc["dx"][0], dy=sc["dx"][1], npatch_x=np_[0], npatch_y=np_[1], dt_cfl=sc["cfl"],
                boundary_conditions=bcs(sc["per"], D), n_guard=sc["ng"], cpml_thickness=sc["pml"], random_seed=3, comm=comm)
    if D == 3:
        args.update(nz=np_[2] * n[2], dz=sc["dx"][2], npatch_z=np_[2])
    sim = (Simulation if D == 2 else Simulation3D)(**args)
    quiet()
    sim.add_species([Electron(name="e")])
    sim.initialize()
    sc["_dt"] = sim.dt
    las = laser(sc)
    sc["_stops"] = [L["stop"] if L["stop"] else math.ceil((2 if L["kind"] == "simple" else 6) * L["ctau"] * sc["dx"][0] / (C * sim.dt)) for L in sc["lasers"]]
    U = m_e * C ** 2 / QE                      # E0 = a0 k U
    top = sum(L["a0"] * 2 * math.pi / (L["l0"] * sc["dx"][0]) for L in sc["lasers"])
    fs = [Q / (U * top)] * 3 + [Q * C / (U * top)] * 3
    lp = sc["pml"] + 2
    full, probe, touched, held = [], [], [], {}

    def snapb():
        return [[np.array(getattr(p.fields, a)) for a in ALLF] for p in sim.patches]

    @callback("_laser")
    def before(s):
        held["b"] = snapb()

    @callback("_laser")
    def after(s):
        a, b = snapb(), held["b"]
        hit, out = 0, 0
        for p, x, y in zip(s.patches, b, a):
            for k, (u, v) in enumerate(zip(x, y)):
                ch = ~((u == v) | (np.isnan(u) & np.isnan(v)))
                if not ch.any():
                    continue
                hit = 1
                if k in (3, 4, 5) and int(p.ipatch_x) == 0:
                    ch[lp - 1] = False
                out += int(ch.any())
        hit, out = max(comm.allgather(hit)), sum(comm.allgather(out))
        touched.append([int(s.itime), hit, out])

    @callback("end")
    def end(s):
        if "full" in want and s.itime in sc["at"]:
            v = gather_global(sim, D, F6, fs)
            if v is not None:
                full.append([np.array(ints(np.rint(x))).ravel().tolist() for x in v])
        if "probe" in want:
            v = gather_global(sim, D, ["ey", "ez"], fs[:2])
            if v is not None:
                probe.append((s.time, [x[lp + sc["k"]] for x in v]))
    cbs = [las, end]
    if "touch" in want:
        cbs = [before, las, after, end]
    sim.run(nsteps=sc["steps"], callbacks=cbs)
    return dict(full=full, probe=probe, touched=touched, dt=sim.dt, top=top)


def wipe(s):
    for p in s.patches:
        for a in F6:
            getattr(p.fields, a)[...] = 0.0


def mark(sc, comm, laser, times):
    """What the laser leaves on its plane of an empty domain at the given times: bz and -by as they are, and the coordinates of the nodes driven."""
    D = len(sc["np"])
    fresh()
    force_ranks(sc["ranks"] if comm.Get_size() > 1 else None)
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    args = dict(nx=G[0], ny=G[1], dx=sc["dx"][0], dy=sc["dx"][1], npatch_x=sc["np"][0], npatch_y=sc["np"][1], dt_cfl=sc["cfl"], boundary_conditions=bcs(sc["per"], D), n_guard=sc["ng"], cpml_thickness=sc["pml"], random_seed=3, comm=comm)
    if D == 3:
        args.update(nz=G[2], dz=sc["dx"][2], npatch_z=sc["np"][2])
    sim = (Simulation if D == 2 else Simulation3D)(**args)
    quiet()
    sim.add_species([Electron(name="e")])
    sim.initialize()
    las, out, held, lp = laser(), [], {}, sc["pml"] + 2

    @callback("_laser")
    def before(s):
        held["t"] = s.time
        s.time = times[s.itime]

    @callback("_laser")
    def after(s):
        v = gather_global(sim, D, ["bz", "by"], [1.0, -1.0])
        s.time = held["t"]
        wipe(s)
        if v is not None:
            out.append([x[lp - 1] for x in v])

    sim.run(nsteps=len(times), callbacks=[before, las, after])
    return out


def marks(sc):
    """Compares the marks with the waves asked for, in units of the mark of a plane wave of the same strength."""
    D = len(sc["np"])
    dx = sc["dx"]
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    U = m_e * C ** 2 / QE
    sc["_dt"] = dx[0] / C
    cls = SimpleLaser2D if D == 2 else SimpleLaser3D
    l0, ct = 1e-6, 1e-5
    ref = mark(sc, COMM, lambda: cls(a0=1.0, w0=1e3, ctau=ct, l0=l0, cep=math.pi / 2 - 2 * math.pi * ct / l0), [ct / C])   # crest of the pulse, E = a0 k U
    times = [t * dx[0] / C for t in sc["times"]]
    got = mark(sc, COMM, lambda: lasers(sc), times)
    if RANK != 0:
        return None
    one = ref[0][0]
    inside = np.ones(one.shape, bool)
    for k in range(1, D):
        e = np.minimum(np.arange(G[k]), G[k] - 1 - np.arange(G[k])) >= (0 if sc["per"][k] else sc["pml"])
        inside &= e if D == 2 else (e[:, None] if k == 1 else e[None, :])
    unit = np.abs(one[inside]).max() / (2 * math.pi / l0 * U)
    ok = int(np.ptp(one[inside]) < 1e-6 * abs(one[inside]).max() and not np.abs(one[~inside]).any())
    lc = [G[k] * dx[k] for k in range(1, D)]
    ax = [(np.arange(G[k]) - 0.5) * dx[k] for k in range(1, D)]
    y, z = (ax[0], None) if D == 2 else np.meshgrid(ax[0], ax[1], indexing="ij")
    top = sum(L["a0"] * 2 * math.pi / (L["l0"] * dx[0]) for L in sc["lasers"]) * U
    e, w = [], []
    for t, v in zip(times, got):
        q = [0.0 * y, 0.0 * y]
        for L in sc["lasers"]:
            end = ((L["stop"] - 0.5) if L["stop"] else (2 if L["kind"] == "simple" else 6) * L["ctau"]) * dx[0]
            if C * t < end:
                p = wave(sc, L, t, y, z, lc, dx)
                q = [q[0] + p[0], q[1] + p[1]]
        e.append(sum([ints(np.rint(np.where(inside, x, 0.0)[inside] / (unit * top) * Q)) for x in v], []))
        w.append(sum([ints(np.rint(np.broadcast_to(x, y.shape)[inside] * U / top * Q)) for x in q], []))
    return [{"op": "mark", "ok": ok, "e": e, "w": w}]


def clear(sc):
    """A wave from inside meets the plane of a laser that is dark, and the same without any."""
    res = []
    for on in (1, 0):
        fresh()
        force_ranks(sc["ranks"] if SIZE > 1 else None)
        nx, ny = 40, 2 * 8
        dx = sc["dx"]
        sim = Simulation(nx=nx, ny=ny, dx=dx[0], dy=dx[1], npatch_x=2, npatch_y=2, dt_cfl=0.98, boundary_conditions=bcs([False, True], 2), n_guard=3, cpml_thickness=6, random_seed=3, comm=COMM)
        quiet()
        sim.add_species([Electron(name="e")])
        sim.initialize()
        for p in sim.patches:
            f = p.fields
            g = np.exp(-((f.xaxis / dx[0] - 22) / 6) ** 2) * (1 + 0 * f.yaxis)
            f.ez[...], f.by[...] = sc["amp"][0] * g, sc["amp"][0] * g / C
            f.ey[...], f.bz[...] = sc["amp"][1] * g, -sc["amp"][1] * g / C
        sim.mpi.sync_guard_fields(F6)
        sim.patches.sync_guard_fields(F6)
        out = []

        @callback("end")
        def end(s):
            if s.itime % 4 == 3:
                v = gather_global(sim, 2, ["ey", "ez", "by", "bz"], [Q, Q, Q * C, Q * C])
                if v is not None:
                    out.append(sum([ints(np.rint(x[9:34, 3])) for x in v], []))

        sim.run(nsteps=48, callbacks=([SimpleLaser2D(a0=1e-30, w0=1e-5, ctau=1e-4)] if on else []) + [end])
        res.append(out)
    return [{"op": "clear", "a": res[0], "b": res[1], "top": int(Q * max(abs(x) for x in sc["amp"]))}] if RANK == 0 else None


def one(sc):
    if sc.get("mode") == "mark":
        return marks(sc)
    if sc.get("mode") == "clear":
        return clear(sc)
    D = len(sc["np"])
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    dx = sc["dx"]
    ev = []
    a = simulate(sc, COMM, sc["np"], sc["n"], sc.get("ranks"), lasers, {"full", "touch"})
    ev.append({"op": "writes", "r": a["touched"], "able": int(not sc["per"][0]), "stops": sc["_stops"], "plane": int(all(L["w0"] >= 500 for L in sc["lasers"]))})
    comm = MPI.COMM_SELF
    if RANK == 0:
        b = simulate(sc, comm, sc["np2"], sc["n2"], None, lasers, {"full", "probe"})
        for x, y in zip(a["full"], b["full"]):
            ev.append({"op": "split", "a": x, "b": y})
        if sc["sum"] and len(sc["lasers"]) > 1:
            parts = [simulate(sc, comm, sc["np2"], sc["n2"], None, lambda s, i=i: lasers(s, i), {"full"})["full"] for i in range(len(sc["lasers"]))]
            for i, y in enumerate(b["full"]):
                if sc["at"][i] >= min(sc["_stops"]):
                    continue
                ev.append({"op": "sum", "whole": y, "parts": [p[i] for p in parts]})
        if sc["probe"]:
            lc = [G[k] * dx[k] for k in range(1, D)]
            ax = [(np.arange(G[k]) - 0.5) * dx[k] for k in range(1, D)]
            y, z = (ax[0], None) if D == 2 else np.meshgrid(ax[0], ax[1], indexing="ij")
            near = np.ones(y.shape, bool)
            edge = [np.minimum(np.arange(G[k]), G[k] - 1 - np.arange(G[k])) for k in range(1, D)]
            edge = [np.where((not sc["per"][k]) or (any(L["w0"] < 500 for L in sc["lasers"]) and not sc.get("edge")), e, 99) >= sc["pml"] + 5 for k, e in enumerate(edge, 1)]
            near = edge[0] if D == 2 else edge[0][:, None] & edge[1][None, :]
            for L in sc["lasers"]:
                if L["w0"] < 500 or L["ang"]:
                    cy = L["y0"] * dx[1] if L["y0"] is not None else lc[0] / 2
                    near = near & (abs(y - cy) <= sc["band"] * dx[1])
            if not near.any():
                raise RuntimeError("nothing to compare")
            es, ws = [], []
            for t, v in b["probe"]:
                w = [0.0 * y, 0.0 * y]
                for L in sc["lasers"]:
                    co = math.cos(L["ang"] * math.pi / 180) if L["kind"] == "simple" else 1.0
                    q = wave(sc, L, t - (sc["k"] + 0.5) * dx[0] * co / C + b["dt"], y, z, lc, dx)
                    w = [w[0] + q[0], w[1] + q[1]]
                es.append(sum([ints(np.rint(x[near])) for x in v], []))
                ws.append(sum([ints(np.rint(np.broadcast_to(x, y.shape)[near] * Q / b["top"])) for x in w], []))
            ev.append({"op": "probe", "e": es, "w": ws, "tol": sc["tol"]})
    COMM.Barrier()
    return ev if RANK == 0 else None


if __name__ == "__main__":
    main(one)
