"""Whole simulations of the same plasma on two divisions of the domain: fields, deposits, particles, Gauss's law."""
from common import *
from lambdapic import callback
from scipy.constants import c as C, e as QE, m_e, epsilon_0
from maxwell import gather_global, slices

F6 = ALLF[:6]
UA = ["ux", "uy", "uz"]
Q = 2**24


def plasma(sc, G, D):
    """The particles of every species: place in cells of the domain, momentum, weight, identity."""
    out = []
    for i, s in enumerate(sc["species"]):
        g = np.random.default_rng([sc["rseed"], i])
        N = s["n"]
        if sc["shape"] == "all":
            x = g.random((N, D)) * G
        else:  # a dense bunch around a corner shared by patches
            c = np.array([k * m for k, m in zip(sc["n"], [g.integers(1, q + 1) for q in sc["np"]])], dtype=float)
            x = (c + g.normal(size=(N, D)) * 1.5) % G
        for a in range(D):
            if not sc["per"][a]:
                x[:, a] = np.clip(x[:, a], sc["pml"] + 1, G[a] - sc["pml"] - 1)
        u = g.normal(size=(N, 3)) * s["u"] + s["drift"]
        out.append((x, u, g.integers(1, 4, N).astype(float), np.arange(N) + 1))
    return out


def simulate(sc, comm, np_, n, ranks, moves):
    D = len(np_)
    fresh()
    force_ranks(ranks)
    args = dict(nx=np_[0] * n[0], ny=np_[1] * n[1], dx=sc["dx"][0], dy=sc["dx"][1], npatch_x=np_[0], npatch_y=np_[1],
                boundary_conditions=bcs(sc["per"], D), n_guard=sc["ng"], cpml_thickness=sc["pml"], random_seed=3, comm=comm, dt_cfl=sc["cfl"])
    if D == 3:
        args.update(nz=np_[2] * n[2], dz=sc["dx"][2], npatch_z=np_[2])
    sim = (Simulation if D == 2 else Simulation3D)(**args)
    quiet()
    sp = [Species(name=f"s{i}", charge=s["q"], mass=s["m"]) for i, s in enumerate(sc["species"])]
    sim.add_species(sp)
    sim.initialize()
    G = np.array([a * b for a, b in zip(np_, n)])
    dx = sc["dx"][:D]
    vol = float(np.prod(dx))
    # weights such that one particle changes momenta of its neighbours by about sc["k"] in a step
    w0 = sc["k"] * 2 * m_e * C * epsilon_0 * vol / (QE * QE * sim.dt * min(dx))
    P = plasma(sc, G, D)
    for p in sim.patches:
        c = np.array(pcoord(p, D))
        for i, part in enumerate(p.particles):
            x, u, w, ids = P[i]
            k = np.flatnonzero(np.all(np.floor(x).astype(int) // np.array(n) == c, axis=1))
            m = len(k) + int(sc["spare"])
            if m > part.npart:
                part.extend(m - part.npart)
            part.is_dead[:] = True
            j = np.arange(part.npart - len(k), part.npart) if sc["spare"] % 2 else np.arange(len(k))
            for a in range(D):
                getattr(part, AX[a])[j] = (x[k, a] - 0.5) * dx[a]
            for b, a in enumerate(UA):
                getattr(part, a)[j] = u[k, b]
            part.inv_gamma[j] = 1 / np.sqrt(1 + (u[k]**2).sum(axis=1))
            part.w[j] = w[k] * w0
            part.id[j] = ids[k].astype(part.id.dtype) if part.id.dtype.kind != "f" else ids[k].astype(np.uint64).view(np.float64)
            part.is_dead[j] = False
    sim.update_lists()
    g = np.random.default_rng([sc["rseed"], 91])
    ke = 2 * m_e * C / (QE * sim.dt) * sc["E"]
    sl = tuple(slice(0, k) for k in n)
    init = {a: g.normal(size=G) * (ke if a[0] == "e" else ke / C) for a in F6}
    for p in sim.patches:
        for a in F6:
            getattr(p.fields, a)[sl] = init[a][slices(p, D, n)]
    sim.patches.sync_guard_fields(F6)
    sim.mpi.sync_guard_fields(F6)
    rec, gauss = [], []

    @callback("start")
    def move(s):
        t = str(s.itime)
        if t in moves and moves[t][0] == 1:
            force_balance(moves[t][1:])
        elif t in moves:
            force_balance(moves[t][1:])
            s.load_balancer.update_weights()
            s.load_balancer()
            s.update_patches()
            force_balance(None)

    if moves is not None and comm.Get_size() > 1:
        # rebalances at the simulation's own place in the step
        sim.load_balancer.should_rebalance = lambda: str(sim.itime) in moves and moves[str(sim.itime)][0] == 1

    @callback("maxwell_1")
    def law(s):
        v = gather_global(s, D, ["ex", "ey", "ez", "rho"], [1.0] * 4)
        if v is not None:
            div = sum((v[a] - np.roll(v[a], 1, axis=a)) / dx[a] for a in range(D))
            gauss.append((epsilon_0 * div - v[3], np.abs(v[3]).max()))

    @callback("end")
    def end(s):
        v = gather_global(s, D, F6 + ["jx", "jy", "jz", "rho"], [1.0] * 10)
        loc = []
        for p in s.patches:
            for i, part in enumerate(p.particles):
                for j in np.flatnonzero(~part.is_dead):
                    X = [float(getattr(part, AX[a])[j]) / dx[a] + 0.5 for a in range(D)]
                    loc.append((i, int(part.id[j].view(np.int64)), [int(np.floor(X[a] / n[a]) == pcoord(p, D)[a]) for a in range(D)], X,
                                [float(getattr(part, a)[j]) for a in UA], float(part.inv_gamma[j]), float(part.w[j]) / w0, p.index))
        al = comm.gather(loc, root=0)
        if comm.Get_rank() == 0:
            rec.append((v, sorted((x for y in al for x in y), key=lambda x: x[:2])))

    sim.run(nsteps=sc["steps"], callbacks=[move, law, end] if moves else [law, end])
    force_balance(None)
    return rec, gauss


def one(sc):
    D = len(sc["np"])
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    sc["G"] = G
    A, ga = simulate(sc, COMM, sc["np"], sc["n"], sc.get("ranks") if SIZE > 1 else None, sc["moves"])
    B = None
    if RANK == 0:
        B, gb = simulate(sc, MPI.COMM_SELF, sc["np2"], sc["n2"], None, None)
    COMM.Barrier()
    if RANK:
        return None
    ev = []

    def q(a):
        a = np.asarray(a, dtype=float)
        ok = np.isfinite(a) & (np.abs(a) < 2**29)
        return np.where(ok, np.rint(np.where(ok, a, 0)), -777777777).astype(int).tolist()
    live = []
    for t, ((va, pa), (vb, pb)) in enumerate(zip(A, B)):
        top = [max(np.nanmax(np.abs(np.concatenate([x[k].ravel() for k in grp for x in (va, vb)]))), 1e-300) for grp in ((0, 1, 2), (3, 4, 5), (6, 7, 8), (9,))]
        f = lambda v: [q(v[k].ravel() / top[[0, 0, 0, 1, 1, 1, 2, 2, 2, 3][k]] * Q) for k in range(10)]
        U = max([1.0] + [abs(c) for x in pa + pb for c in x[4]])
        r = lambda ps: [[x[0], x[1] if 0 < x[1] < 2**30 else 0, int(all(x[2]))] + q([v / G[a] * Q for a, v in enumerate(x[3])]) + q(np.array(x[4]) / U * Q) + q([x[5] * Q, x[6] * 1024]) for x in ps]
        ev.append({"op": "step", "t": t + 1, "a": f(va), "b": f(vb), "pa": r(pa), "pb": r(pb), "n": [s["n"] for s in sc["species"]]})
    m = sc["pml"] + 3
    cut = tuple(slice(None) if sc["per"][a] else slice(m, G[a] - m) for a in range(D))
    for nm, gg in (("a", ga), ("b", gb)):
        top = max([1e-300] + [x[1] for x in gg])
        for t in range(2, len(gg)):
            d = (gg[t][0] - gg[1][0])[cut]
            ev.append({"op": "gauss", "side": nm, "t": t, "r": q((d / top * 2**20).ravel())})
    return ev


if __name__ == "__main__":
    main(one)
