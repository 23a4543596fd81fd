"""Dumps (mode L01 fields, L02 densities, L03 particles) and what they should contain."""
import pathlib, shutil, tempfile
from common import *
import h5py
from lambdapic import callback
from lambdapic.callback.hdf5 import SaveFieldsToHDF5, SaveSpeciesDensityToHDF5, SaveParticlesToHDF5
from lambdapic.callback.utils import get_fields, ExtractSpeciesDensity, LoadParticles
from scipy.constants import c as C, e as QE

U = 8
BAD = -777777777


def to_slice(sl):
    if not sl:
        return None
    return tuple(s[1] if s[0] == 0 else slice(s[2] if s[1] else None, s[4] if s[3] else None, s[5] if s[5] > 1 else None) for s in sl)


def glob(sim, D, names, scale=None):
    """Global interior arrays of the components (root only)."""
    n = [sim.nx_per_patch, sim.ny_per_patch] + ([sim.nz_per_patch] if D == 3 else [])
    np_ = [sim.npatch_x, sim.npatch_y] + ([sim.npatch_z] if D == 3 else [])
    sl = tuple(slice(0, k) for k in n)
    comm = sim.mpi.comm
    al = comm.gather([(pcoord(p, D), [np.array(getattr(p.fields, a)[sl], dtype=float) for a in names]) for p in sim.patches], root=0)
    if comm.Get_rank():
        return None
    out = [np.full([a * b for a, b in zip(n, np_)], np.nan) for _ in names]
    for part in al:
        for pc, fs in part:
            w = tuple(slice(q * m, (q + 1) * m) for q, m in zip(pc, n))
            for o, f in zip(out, fs):
                o[w] = f
    return out


def flat(a, scale=1.0, tol=None):
    return np.array(ints(a, scale, tol)).ravel().tolist()


def meta(f, sim, D, full=True):
    def g(k):
        return as_int(round(float(f.attrs[k]))) if k in f.attrs else BAD
    m = {"itime": g("itime"), "time": as_int(round(f.attrs["time"] / sim.dt)) if "time" in f.attrs else BAD}
    if full:
        m["n"] = [g("n" + a) for a in AX[:D]]
        m["L"] = [as_int(round(f.attrs["L" + a] / f.attrs["d" + a])) if "L" + a in f.attrs and "d" + a in f.attrs and f.attrs["d" + a] == getattr(sim, "d" + a) else BAD for a in AX[:D]]
    return m


def digest(sim):
    d = []
    for p in sim.patches:
        d += [np.asarray(getattr(p.fields, a)).tobytes() for a in ALLF]
        for part in p.particles:
            d += [getattr(part, a).tobytes() for a in part.attrs] + [part.is_dead.tobytes(), part.npart]
    return d


def allsame(sim, a, b):
    return int(all(sim.mpi.comm.allgather(a == b)))


def org(p, D):
    return [p.x0, p.y0] + ([p.z0] if D == 3 else [])


def fields_mode(sc, tmp):
    D = len(sc["np"])
    cls, kw = None, {}
    if sc["mask"]:
        from lambdapic.simulation._mask_simulation import _MaskSimulation
        cls = _MaskSimulation
        inc = {tuple(c) for c in sc["mask"]}
        wx, wy = sc["n"][0] * sc["dx"][0], sc["n"][1] * sc["dx"][1]
        kw["mask"] = lambda x, y: (int(x // wx), int(y // wy)) in inc
    sim = make_sim(sc, [Electron(name="e")], cls=cls, **kw)
    sim.initialize()
    ev = []

    @callback("end")
    def fill(s):
        g = np.random.default_rng([sc["rseed"], s.itime, RANK])
        for p in s.patches:
            for a in ALLF:
                f = getattr(p.fields, a)
                f[...] = g.integers(-9999, 9999, f.shape)

    cbs = [fill]
    for k, r in enumerate(sc["reqs"]):
        if r["op"] == "fields":
            cb = SaveFieldsToHDF5(os.path.join(tmp, f"f{k}"), 1, list(r["names"]) if r["names"] is not None else None, slice=to_slice(r["sl"]))

            def run(s, cb=cb, r=r):
                a = digest(s)
                cb(s)
                same = allsame(s, a, digest(s))
                names = r["names"] if r["names"] is not None else ALLF
                G = glob(s, D, names)
                if RANK == 0:
                    with h5py.File(cb.prefix / f"{s.itime:06d}.h5") as f:
                        has = [k for k in f]
                        ev.append({"op": "fields", "names": names, "glob": [flat(x) for x in G], "sl": r["sl"] or [], "has": has,
                                   "got": [flat(f[x][...]) if x in f else [] for x in names], "shape": list(f[names[0]].shape) if names[0] in f else [],
                                   "meta": meta(f, s, D), "itime": s.itime, "same": same})
        else:
            def run(s, r=r):
                a = digest(s)
                kw = {} if D == 2 or r["zu"] is None else {"slice_at": r["zu"] * s.dz / U}
                got = get_fields(s, r["names"], **kw)
                same = allsame(s, a, digest(s))
                G = glob(s, D, r["names"])
                if RANK == 0:
                    ev.append({"op": "get", "names": r["names"], "glob": [flat(x) for x in G], "got": [flat(x) for x in got],
                               "zu": r["zu"] if r["zu"] is not None else (s.nz * U // 2 if D == 3 else 0), "same": same})
        run.stage = "end"
        cbs.append(run)
    sim.run(nsteps=sc["steps"], callbacks=cbs)
    return ev


def species_of(sc):
    sp = []
    for i, s in enumerate(sc["species"]):
        sp.append(Electron(name=f"s{i}") if s["kind"] == "e" else Photon(name=f"s{i}") if s["kind"] == "g" else Species(name=f"s{i}", charge=s["q"], mass=s.get("m", 1.0)))
    return sp


def density_run(sc, tmp, outputs):
    fresh()
    D = len(sc["np"])
    sp = species_of(sc)
    sim = make_sim(sc, sp, dt_cfl=sc["cfl"])
    sim.initialize()
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    V = float(np.prod(dx))
    W = (2 * U * U)**D
    ev = []
    for i, s in enumerate(sp):
        if i in sc["off"]:
            s.disable()

    @callback("maxwell_1")
    def setup(s):
        for p in s.patches:
            g = np.random.default_rng([sc["rseed"], int(p.index), s.itime])
            for a in ALLF[:6]:
                getattr(p.fields, a)[...] = 0.0
            for i, part in enumerate(p.particles):
                m = int(g.integers(0, sc["count"] + 1))
                if part.npart < m:
                    part.extend(m - part.npart)
                N = part.npart
                part.is_dead[:] = g.random(N) > 0.8
                lo, hi = -U // 2, [k * U - U // 2 for k in sc["n"]]
                for j in range(N):
                    while True:
                        d = [2 * int(g.integers(-2, 3)) for _ in range(D)]
                        v = [d[a] * dx[a] / (U * s.dt) / C for a in range(D)] + [0.0] * (3 - D)
                        if sum(q * q for q in v) < 0.97:
                            break
                    ga = 1 / np.sqrt(1 - sum(q * q for q in v))
                    for a in range(D):
                        x = int(g.integers(lo, hi[a] + 1)) if g.random() < 0.6 else int(g.choice([lo, hi[a], lo + 1, hi[a] - 1]))
                        getattr(part, AX[a])[j] = org(p, D)[a] + x * dx[a] / U
                    for a in range(3):
                        getattr(part, "u" + AX[a])[j] = v[a] * ga
                    part.inv_gamma[j] = 1 / ga
                    part.w[j] = float(g.integers(1, 4))
        s.update_lists()

    parts = {}

    @callback("current_deposition")
    def positions(s):
        i = s.ispec
        rows = []
        for p in s.patches:
            part = p.particles[i]
            off = [c * n * U for c, n in zip(pcoord(p, D), sc["n"])]
            for j in np.flatnonzero(~part.is_dead):
                r = [part.w[j]]
                for a in range(D):
                    x = (getattr(part, AX[a])[j] - org(p, D)[a]) / dx[a] * U
                    r.append(off[a] + x + getattr(part, "u" + AX[a])[j] * part.inv_gamma[j] * C * s.dt / dx[a] * U / 2)
                q = np.rint(r)
                rows.append([as_int(y) if abs(x - y) < 2e-3 else BAD for x, y in zip(r, q)])
        al = s.mpi.comm.gather(rows, root=0)
        if RANK == 0:
            parts[i] = [x for y in al for x in y]

    cbs = [setup]
    pend = []
    if outputs:
        cbs.append(positions)
        for k, r in enumerate(sc["reqs"]):
            s_ = sp[r["spec"]]
            if r["op"] == "save":
                cb = SaveSpeciesDensityToHDF5(s_, os.path.join(tmp, f"d{k}"), 1, slice=to_slice(r["sl"]))
            else:
                cb = ExtractSpeciesDensity(sim, s_, 1, slice=to_slice(r["sl"]))
            cbs.append(cb)
            pend.append((cb, r))

        @callback("end")
        def collect(s):
            if RANK:
                return
            for cb, r in pend:
                if r["op"] == "save":
                    with h5py.File(cb.prefix / f"s{r['spec']}_{s.itime:06d}.h5") as f:
                        a, m = f["density"][...], meta(f, s, D)
                else:
                    a, m = np.array(cb.density), {}
                ev.append({"op": "density", "parts": parts.get(r["spec"], []), "sl": r["sl"] or [], "shape": list(a.shape), "got": flat(a, V * W, 2e-2),
                           "file": int(r["op"] == "save"), "meta": m, "itime": s.itime})
        cbs.append(collect)
    obs = []

    @callback("end")
    def currents(s):
        G = glob(s, D, ALLF[6:])
        if RANK == 0:
            sc4 = [s.dt * W * 12 * V / (QE * min(dx))] * 3 + [V / QE * W]
            obs.append([np.array(ints(np.rint(x * k))).ravel().tolist() for x, k in zip(G, sc4)])
    cbs.append(currents)
    sim.run(nsteps=sc["steps"], callbacks=cbs)
    return ev, obs


def density_mode(sc, tmp):
    ev, a = density_run(sc, tmp, True)
    _, b = density_run(sc, tmp, False)
    for k, (x, y) in enumerate(zip(a, b)):
        for n, p, q in zip(ALLF[6:], x, y):
            ev.append({"op": "same", "what": n, "a": p, "b": q})
    return ev


GAM = {1: [(0, 0, 0), (1, 1, 1), (2, 2, 0), (0, -2, 2), (2, 2, -4), (1, -5, 3), (8, 4, 0), (-7, 1, 7)],
       0: [(1, 2, 2), (2, -3, 6), (4, 4, -7), (3, 4, 0), (0, 0, -1)]}


def particles_mode(sc, tmp):
    D = len(sc["np"])
    sp = species_of(sc)
    if sc.get("qed"):
        ph = Photon(name="ph")
        e = Electron(name="qe", radiation="photons")
        e.set_photon(ph)
        sp = [e, ph] + sp
    sim = make_sim(sc, sp)
    sim.initialize()
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    ids, ev = {}, []

    def mark(i):
        return ids.setdefault(int(i), len(ids) + 1)

    def populate(s, seed, n, extra=()):
        for p in s.patches:
            g = np.random.default_rng([seed, int(p.index), s.itime])
            for i, part in enumerate(p.particles):
                m = int(g.integers(0, n + 1))
                if part.npart < m:
                    part.extend(m - part.npart)
                N = part.npart
                part.is_dead[:] = g.random(N) > sc["pl"]
                lo = np.array([round(float((getattr(p, AX[a] + "min") - org(p, D)[a]) / dx[a])) * U - U // 2 for a in range(D)])
                hi = np.array([round(float((getattr(p, AX[a] + "max") - org(p, D)[a]) / dx[a])) * U + U // 2 for a in range(D)])
                m2 = 0 if isinstance(s.species[i], Photon) else 1
                for j in range(N):
                    for a in range(D):
                        x = int(g.integers(lo[a], hi[a])) if g.random() < 0.6 else int(g.choice([lo[a], hi[a] - 1]))
                        getattr(part, AX[a])[j] = org(p, D)[a] + x * dx[a] / U
                    u = GAM[m2][int(g.integers(len(GAM[m2])))]
                    part.ux[j], part.uy[j], part.uz[j] = u
                    part.inv_gamma[j] = 1 / np.sqrt(m2 + sum(q * q for q in u))
                    for a in part.attrs:
                        if a not in ("x", "y", "z", "ux", "uy", "uz", "inv_gamma", "_id"):
                            getattr(part, a)[j] = float(g.integers(1, 1000))
        s.update_lists()

    def val(a, v):
        if a in ("id", "_id"):
            return mark(np.float64(v).view(np.uint64) if a == "_id" else v)
        if a in AX:
            i = AX.index(a)
            return as_int(v / dx[i] * U) if i < D else (0 if v != v or v == 0 else as_int(v))
        if a == "inv_gamma":
            return as_int(round(v * 2520)) if abs(v * 2520 - round(v * 2520)) < 1e-6 else BAD
        return as_int(v)

    def live(s, i, names):
        al = s.mpi.comm.gather([[getattr(p.particles[i], a)[j] for a in names] for p in s.patches for j in np.flatnonzero(~p.particles[i].is_dead)], root=0)
        return [[val(a, v) for a, v in zip(names, r)] for x in al for r in x] if s.mpi.comm.Get_rank() == 0 else None

    cbs = []

    @callback("end")
    def pop(s):
        populate(s, sc["rseed"], sc["count"])
    cbs.append(pop)
    for k, r in enumerate(sc["reqs"]):
        cb = SaveParticlesToHDF5(sp[r["spec"]], os.path.join(tmp, f"p{k}"), 1, attrs=list(r["attrs"]) if r["attrs"] is not None else None)

        def run(s, cb=cb, r=r):
            a = digest(s)
            cb(s)
            same = allsame(s, a, digest(s))
            i = r["spec"]
            names = (list(r["attrs"]) if r["attrs"] is not None else list(s.patches[0].particles[i].attrs))
            names = [x for x in names if x != "id"] + ["id"]
            rows = live(s, i, names)
            if RANK == 0:
                with h5py.File(cb.prefix / f"{sp[i].name}_particles_{s.itime:06d}.h5") as f:
                    has = [k for k in f]
                    cols = [f[x][...] if x in f else [] for x in names]
                    got = [[val(a, v) for a, v in zip(names, row)] for row in zip(*cols)] if all(len(c) == len(cols[0]) for c in cols) else [[BAD]]
                    ev.append({"op": "rows", "live": rows, "got": got, "names": names, "has": has, "meta": meta(f, s, D, False), "itime": s.itime, "same": same})
        run.stage = "end"
        cbs.append(run)
    sim.run(nsteps=sc["steps"], callbacks=cbs)
    last = sc["steps"] - 1
    # reload on other divisions and process counts
    for k, r in enumerate(sc["reqs"]):
        if "load" not in r:
            continue
        src = os.path.join(tmp, f"p{k}", f"{sp[r['spec']].name}_particles_{last:06d}.h5")
        alone = r["load"]["alone"]
        if r["load"]["own"] and RANK == 0:
            # a file made by hand: positions anywhere (also outside), few attributes
            g = np.random.default_rng([sc["rseed"], 5, k])
            m = int(g.integers(1, 40))
            src = os.path.join(tmp, f"own{k}.h5")
            with h5py.File(src, "w") as f:
                for a in range(D):
                    G = sc["np"][a] * sc["n"][a] * U
                    f[AX[a]] = g.integers(-U, G + U, m) * dx[a] / U
                f["w"] = g.integers(1, 9, m).astype(float)
                if r["load"]["own"] > 1:
                    f["foreign"] = np.ones(m)
                    m2 = 0 if isinstance(sp[r["spec"]], Photon) else 1
                    u = np.array([GAM[m2][int(q)] for q in g.integers(0, len(GAM[m2]), m)], dtype=float)
                    for a in range(3):
                        f["u" + AX[a]] = u[:, a]
        src = COMM.bcast(src, root=0)
        COMM.Barrier()
        if not alone or RANK == 0:
            comm = MPI.COMM_SELF if alone else COMM
            sc2 = dict(sc, np=r["load"]["np"], n=r["load"]["n"], ranks=None if alone else r["load"]["ranks"])
            fresh()
            force_ranks(sc2["ranks"])
            args = dict(nx=sc2["np"][0] * sc2["n"][0], ny=sc2["np"][1] * sc2["n"][1], dx=dx[0], dy=dx[1], npatch_x=sc2["np"][0], npatch_y=sc2["np"][1],
                        boundary_conditions=bcs(sc["per"], D), n_guard=3, cpml_thickness=sc["pml"], random_seed=3, comm=comm)
            if D == 3:
                args.update(nz=sc2["np"][2] * sc2["n"][2], dz=dx[2], npatch_z=sc2["np"][2])
            s2 = (Simulation if D == 2 else Simulation3D)(**args)
            quiet()
            kind = sc["species"][r["spec"] - (2 if sc.get("qed") else 0)] if r["spec"] >= (2 if sc.get("qed") else 0) else None
            mine = species_of(dict(species=[kind]))[0] if kind else (Photon(name="ph") if r["spec"] == 1 else None)
            if mine is None:
                mine = Electron(name="qe", radiation="photons")
                pp = Photon(name="zz")
                mine.set_photon(pp)
                s2sp = [Species(name="o0", charge=2, mass=3.0), pp, mine]
            else:
                s2sp = [Species(name="o0", charge=2, mass=3.0), mine]
            s2.add_species(s2sp)
            s2.initialize()
            target = mine.ispec
            res = {}

            def state(s):
                out = []
                for p in s.patches:
                    part = p.particles[target]
                    names = [x for x in part.attrs if x not in ("x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "_id")]
                    for j in np.flatnonzero(~part.is_dead):
                        row = [val(AX[a], getattr(part, AX[a])[j]) for a in range(D)] + [val(a, getattr(part, a)[j]) for a in ["w", "ux", "uy", "uz"] + names]
                        out.append({"patch": pcoord(p, D), "id": int(part.id[j]), "ig": val("inv_gamma", part.inv_gamma[j]), "row": row, "old": 0})
                al = comm.gather(out, root=0)
                return [x for y in al for x in y] if comm.Get_rank() == 0 else None

            def others(s):
                return [[getattr(p.fields, a).tobytes() for a in ALLF] + [getattr(q, a).tobytes() for i, q in enumerate(p.particles) if i != target for a in q.attrs] for p in s.patches]

            def before(s):
                populate(s, sc["rseed"] + 1, 3)
                res["b"] = state(s)
                res["o"] = others(s)

            def after(s):
                res["a"] = state(s)
                res["same"] = int(all(comm.allgather(res["o"] == others(s))))
            before.stage = after.stage = "init"
            load = LoadParticles(mine, src)
            if r["load"]["batch"]:
                load._batch_size = r["load"]["batch"]
            s2.run(nsteps=1, callbacks=[before, load, after])
            if comm.Get_rank() == 0:
                known = {x["id"] for x in res["b"]}
                for x in res["a"] + res["b"]:
                    x["old"] = int(x["id"] in known)
                    x["key"] = x["id"]
                dic = {}
                for x in res["a"] + res["b"]:
                    x["id"] = dic.setdefault(x.pop("key"), len(dic) + 1)
                part = s2.patches[0].particles[target]
                names = list(AX[:D]) + ["w", "ux", "uy", "uz"] + [x for x in part.attrs if x not in ("x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "_id")]
                with h5py.File(src) as f:
                    m = len(f["x"])
                    cols = [f[x][...] if x in f else np.zeros(m) for x in names]
                    rows = [[val(a, v) for a, v in zip(names, row)] for row in zip(*cols)]
                ev.append({"op": "load", "rows": rows, "before": res["b"], "after": res["a"], "m2": 0 if isinstance(mine, Photon) else 1,
                           "same": res["same"], "np": sc2["np"], "n": sc2["n"]})
        COMM.Barrier()
    return ev


def one(sc):
    sc["u"] = U
    tmp = COMM.bcast(tempfile.mkdtemp(prefix="vf_out_", dir=os.getcwd()) if RANK == 0 else None, root=0)
    try:
        return {"L01": fields_mode, "L02": density_mode, "L03": particles_mode}[sc["mode"]](sc, tmp)
    finally:
        COMM.Barrier()
        if RANK == 0:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main(one)
