"""What is in every cell after initialisation."""
from common import *
from load_profile import profile


def one(sc):
    D = len(sc["np"])
    dx = sc["dx"]
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    sc["N"] = G + [1] * (3 - D)
    L = [0 if sc["per"][a] else sc["pml"] for a in range(D)] + [0] * (3 - D)
    sc["lo"] = L
    sc["hi"] = [G[a] - L[a] for a in range(D)] + [1] * (3 - D)
    sp = []
    for k, s in enumerate(sc["species"]):
        kw = dict(name=f"s{k}")
        if s["has"]:
            kw["density"] = profile(D, dx, s["dens"])
            kw["ppc"] = profile(D, dx, s["ppc"])
            kw["density_min"] = float(s["dmin"])
        if s.get("mom"):
            ux = float(s["mom"])
            kw["momentum"] = ((lambda x, y: ux) if D == 2 else (lambda x, y, z: ux), None, None)
        if s["t"] == "g":
            sp.append(Photon(**kw))
        elif s["t"] == "r":
            sp.append(Electron(radiation="photons", **kw))
        else:
            sp.append(Species(charge=1 if s["t"] == "i" else -1, mass=1, **kw))
    for s in sp:
        if getattr(s, "radiation", None) == "photons":
            g = [x for x in sp if isinstance(x, Photon)]
            if g:
                s.set_photon(g[0])
            else:
                s.radiation = None
    comm = sc.get("comm")
    kw = {}
    if comm == "self":
        kw["comm"] = MPI.COMM_SELF
    sim = make_sim(sc, sp, **kw)
    sim.initialize()
    V = 1.0
    for h in dx:
        V *= h
    ev = []
    for k, s in enumerate(sp):
        loc = []
        for p in sim.patches:
            q = p.particles[k]
            al = np.asarray(~q.is_dead)
            pc = pcoord(p, D)
            ids = np.asarray(q.id)[al].astype(np.int64) if hasattr(q, "id") else np.zeros(0, np.int64)
            X = [np.asarray(getattr(q, AX[a]))[al] for a in range(D)]
            w = np.asarray(q.w)[al]
            rest = (np.asarray(q.ux)[al] == 0) & (np.asarray(q.uy)[al] == 0) & (np.asarray(q.uz)[al] == 0) & (np.asarray(q.inv_gamma)[al] == 1)
            for i in range(int(al.sum())):
                t = [float(X[a][i]) / dx[a] + 0.5 for a in range(D)]
                cell = [int(np.floor(v)) if np.isfinite(v) else -99 for v in t] + [0] * (3 - D)
                own = [cell[a] // sc["n"][a] == pc[a] for a in range(D)]
                loc.append((cell, as_int(w[i] / V), int(rest[i]), int(all(own)), [int(t[a] - np.floor(t[a]) >= 0.5) if np.isfinite(t[a]) else 0 for a in range(D)],
                            [int(ids[i]) >> 50, (int(ids[i]) >> 32) & 0x3ffff, int(ids[i]) & 0x7fffffff]))
        al = gather_list(loc) if comm != "self" else loc
        if RANK == 0:
            cells = {}
            for cell, w, *_ in al:
                c = cells.setdefault(tuple(cell), [0, w, w])
                c[0] += 1
                c[1], c[2] = min(c[1], w), max(c[2], w)
            ev.append(dict(op="load", s=k + 1, cells=[[list(c)] + v for c, v in sorted(cells.items())], n=len(al),
                           rest=sum(x[2] for x in al), own=sum(x[3] for x in al), half=[sum(x[4][a] for x in al) for a in range(D)],
                           ids=[x[5] for x in al]))
    COMM.Barrier()
    return ev


main(one)
