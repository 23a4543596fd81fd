"""Field evolution: global fields at four moments of every step; the same evolution on two divisions of the domain."""
from common import *
from lambdapic import callback
from scipy.constants import c as C, epsilon_0

F6 = ALLF[:6]
S = 1024.0


def gather_global(sim, D, names, scale):
    """Interior of the components over the whole domain (root only), scaled."""
    n = [sim.nx_per_patch, sim.ny_per_patch] + ([sim.nz_per_patch] if D == 3 else [])
    np_ = [sim.npatch_x, sim.npatch_y] + ([sim.npatch_z] if D == 3 else [])
    sl = tuple(slice(0, k) for k in n)
    comm = sim.mpi.comm
    loc = [(pcoord(p, D), [np.array(getattr(p.fields, a)[sl], dtype=float) for a in names]) for p in sim.patches]
    al = comm.gather(loc, root=0)
    if comm.Get_rank():
        return None
    out = [np.full([a * b for a, b in zip(n, np_)], np.nan) for _ in names]
    for part in al:
        for pc, fs in part:
            w = tuple(slice(q * m, (q + 1) * m) for q, m in zip(pc, n))
            for o, f in zip(out, fs):
                o[w] = f
    return [o * scale[k] for k, o in enumerate(out)]


def slices(p, D, n):
    return tuple(slice(q * m, (q + 1) * m) for q, m in zip(pcoord(p, D), n))


def simulate(sc, comm, np_, n, ranks, record, threads=None):
    D = len(np_)
    fresh()
    cfg = dict(sc, np=np_, n=n)
    kw = dict(comm=comm, dt_cfl=sc["cfl"])
    force_ranks(ranks)
    args = dict(nx=np_[0] * n[0], ny=np_[1] * n[1], dx=sc["dx"][0], dy=sc["dx"][1], npatch_x=np_[0], npatch_y=np_[1],
                boundary_conditions=bcs(sc["per"], D), n_guard=sc["ng"], cpml_thickness=sc["pml"], random_seed=3, **kw)
    if D == 3:
        args.update(nz=np_[2] * n[2], dz=sc["dx"][2], npatch_z=np_[2])
    sim = (Simulation if D == 2 else Simulation3D)(**args)
    quiet()
    sim.add_species([Electron(name="e")])
    sim.initialize()
    G = [a * b for a, b in zip(np_, n)]
    g = np.random.default_rng(sc["rseed"])
    # integers in field units: E as is, B as c B
    init = {a: g.integers(-400, 401, G) * (1.0 if a[0] == "e" else 1 / C) for a in F6}
    if sc.get("impulse"):
        init = {a: np.where(g.random(G) < 0.02, v, 0.0) for a, v in init.items()}
    sl = tuple(slice(0, k) for k in n)
    for p in sim.patches:
        for a in F6:
            getattr(p.fields, a)[sl] = init[a][slices(p, D, n)]
    sim.patches.sync_guard_fields(F6)
    sim.mpi.sync_guard_fields(F6)
    fs = [S] * 3 + [S * C] * 3
    js = [S * sim.dt / epsilon_0] * 3
    ev, cur, last = [], {}, []

    def snap(key):
        v = gather_global(sim, D, F6, fs)
        if v is not None:
            cur[key] = [np.array(ints(np.rint(x))).ravel().tolist() for x in v] if record else v

    def jsnap(key):
        v = gather_global(sim, D, ALLF[6:9], js)
        if v is not None:
            cur[key] = [np.array(ints(np.rint(x))).ravel().tolist() for x in v]

    @callback("start")
    def a(s):
        if record:
            snap("s"), jsnap("j1")

    @callback("maxwell_1")
    def b(s):
        if record:
            snap("m1")

    @callback("qed_create_particles")
    def inject(s):
        r = np.random.default_rng([sc["rseed"], 4, s.itime])
        J = [r.integers(-300, 301, G) * (r.random(G) < sc["jfrac"]) * epsilon_0 / s.dt for _ in range(3)]
        for p in s.patches:
            for k, nm in enumerate(ALLF[6:9]):
                getattr(p.fields, nm)[sl] = J[k][slices(p, D, n)]
        if record:
            snap("pre"), jsnap("j2")

    @callback("end")
    def d(s):
        snap("m2")
        if comm.Get_rank() == 0:
            if record:
                ev.append(dict(cur, op="step"))
            else:
                last.append(cur["m2"])
        cur.clear()
    sim.run(nsteps=sc["steps"], callbacks=[a, b, inject, d])
    return ev, last


def one(sc):
    D = len(sc["np"])
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    sc["N"] = G + [1] * (3 - D)
    m = sc["pml"] + 2
    sc["lo"] = [0 if sc["per"][a] else m for a in range(D)] + [0] * (3 - D)
    sc["hi"] = [G[a] if sc["per"][a] else G[a] - m for a in range(D)] + [1] * (3 - D)
    if sc["kind"] == "steps":
        ev, _ = simulate(sc, COMM, sc["np"], sc["n"], sc.get("ranks") if SIZE > 1 else None, True)
        return ev
    _, b = simulate(sc, COMM, sc["np"], sc["n"], sc.get("ranks") if SIZE > 1 else None, False)
    a = None
    if RANK == 0:
        _, a = simulate(sc, MPI.COMM_SELF, sc["np2"], sc["n2"], None, False)
    COMM.Barrier()
    if RANK:
        return None
    ev = []
    for x, y in zip(a, b):
        q = []
        top = [max(np.abs(x[k]).max(), np.abs(y[k]).max()) or 1.0 for k in range(6)]
        for v in (x, y):
            q.append([np.array(ints(np.rint(v[k] / top[k] * 2**24))).ravel().tolist() for k in range(6)])
        ev.append({"op": "agree", "a": q[0], "b": q[1]})
    return ev


if __name__ == "__main__":
    main(one)
