"""Whole runs with particle creation, deaths, growth, migration, rebalancing and window shifts; records all identities."""
from common import *
from lambdapic import callback, MovingWindow
import qed


def one(sc):
    D = len(sc["np"])
    n, dx = sc["n"], sc["dx"]
    sp = qed.build(sc)
    names = [k["name"] for k in sc["species"]]
    acts = {i for i, k in enumerate(sc["species"]) if k.get("photon") or k.get("pair")}
    for k, s in zip(sc["species"], sp):
        if k.get("load"):
            dens = (lambda x, y: 1.0e20) if D == 2 else (lambda x, y, z: 1.0e20)
            s.density, s.ppc = dens, k["load"]
    sim = make_sim(sc, sp)
    sim.initialize()
    if sc.get("boost"):
        for ip, p in enumerate(sim.patches):
            g = np.random.default_rng([sc["rseed"], RANK, 9, ip])
            for k, part in enumerate(p.particles):
                if sc["species"][k]["kind"] != "g":
                    for a in ("ux", "uy", "uz"):
                        getattr(part, a)[:] = g.integers(-3, 4, part.npart) * 8.0
                    part.ux[:] = np.where(part.ux == 0, 8.0, part.ux)
                    part.inv_gamma[:] = (1 + part.ux**2 + part.uy**2 + part.uz**2) ** -0.5
    sc["nspec"] = len(names)
    ids, marks = [dict() for _ in names], [1] * len(names)
    ev = []
    st = [0]

    def rng(*a):
        return np.random.default_rng([sc["rseed"], RANK, st[0]] + list(a))

    def snap(*_):
        live = []
        for k in range(len(names)):
            loc = []
            for ip, p in enumerate(sim.patches):
                part = p.particles[k]
                for i in np.flatnonzero(~part.is_dead):
                    t = float(part.tag[i])
                    loc.append([ip, int(i), int(part.id[i]), 0 if t != t else int(t)])
            all_ = COMM.gather(loc, root=0)
            back = None
            if RANK == 0:
                res, back = [], []
                for r in all_:
                    b = []
                    for ip, i, d, t in r:
                        row = {"id": ids[k].setdefault(d, len(ids[k]) + 1), "who": t}
                        if t == 0:
                            b.append((ip, i, marks[k]))
                            marks[k] += 1
                        res.append(row)
                    back.append(b)
                live.append(res)
            for ip, i, m in COMM.scatter(back, root=0):
                sim.patches[ip].particles[k].tag[i] = m
        if RANK == 0:
            ev.append({"live": live})

    def clear(*_):
        for p in sim.patches:
            for part in p.particles:
                part.tag[part.is_dead] = 0

    def wrap(mod):
        orig = mod.create_particles

        def create():
            clear()
            orig()
        mod.create_particles = create
    for m in list(sim.radiation) + list(sim.pairproduction):
        if m is not None:
            wrap(m)

    @callback("start")
    def stale(sim):
        clear()
        for ip, p in enumerate(sim.patches):
            g = rng(1, ip)
            for part in p.particles:
                if hasattr(part, "event"):
                    part.event[:] = g.random(part.npart) < 0.5

    @callback("maxwell_1")
    def vacuum(sim):
        for p in sim.patches:
            for a in ("ex", "ey", "ez", "bx", "by", "bz"):
                getattr(p.fields, a).fill(0.0)

    @callback("_qed")
    def decide(sim):
        if sim.ispec in acts:
            for ip, p in enumerate(sim.patches):
                g = rng(2, ip, sim.ispec)
                part = p.particles[sim.ispec]
                live = ~part.is_dead & (part.ux**2 + part.uy**2 + part.uz**2 > 1e-3)
                part.event[~live] = False
                part.event[live] = g.random(int(live.sum())) < sc["rate"]
                part.delta[live] = 0.25

    @callback("qed_create_particles")
    def created(sim):
        snap()

    @callback("end")
    def ended(sim):
        snap()

    def inject(frac):
        """A user's injection: new storage at the end, made live."""
        for ip, p in enumerate(sim.patches):
            g = rng(3, ip)
            for k in range(len(names)):
                part = p.particles[k]
                m = int(g.integers(0, sc["slots"] + 1))
                old = part.npart
                part.extend(m)
                org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
                for i in range(old, part.npart):
                    if g.random() > frac:
                        continue
                    for a in part.attrs:
                        if a != "_id":
                            getattr(part, a)[i] = 0.0
                    part.is_dead[i] = False
                    mg = sc["pml"] + 1
                    for a in range(D):
                        getattr(part, AX[a])[i] = org[a] + (mg + g.random() * (n[a] - 1 - 2 * mg)) * dx[a]
                    part.w[i] = 1.0
                    u = [float(g.integers(-3, 4)) * 8 for _ in range(3)]
                    if not any(u):
                        u[0] = 8.0
                    part.ux[i], part.uy[i], part.uz[i] = u
                    part.inv_gamma[i] = ((0.0 if sc["species"][k]["kind"] == "g" else 1.0) + sum(x * x for x in u)) ** -0.5
        sim.update_lists()

    mw = MovingWindow(velocity=sc["window"] * sim.dx / sim.dt, start_time=sc.get("wstart", 0) * sim.dt, inject_particles=sc.get("refill", True)) if sc.get("window") else None
    cbs = [stale, vacuum, decide, created, ended] + ([mw] if mw else [])
    snap()
    for t, op in enumerate(sc["ops"]):
        st[0] = t
        if op == "inject":
            inject(0.6)
        elif op == "kill":
            for ip, p in enumerate(sim.patches):
                g = rng(4, ip)
                for part in p.particles:
                    part.is_dead |= g.random(part.npart) < 0.3
        elif op == "grow":
            for ip, p in enumerate(sim.patches):
                g = rng(5, ip)
                for part in p.particles:
                    part.extend(int(g.integers(0, 4)))
            sim.update_lists()
        elif op == "prune":
            for p in sim.patches:
                for part in p.particles:
                    part.prune()
                    part.extended = True
            sim.update_lists()
        elif op == "balance":
            if SIZE > 1:
                g = np.random.default_rng([sc["rseed"], 77, t])
                N = int(np.prod(sc["np"]))
                while True:
                    rm = [int(x) for x in g.integers(0, SIZE, N)]
                    if len(set(rm)) == SIZE:
                        break
                force_balance(rm)
                sim.load_balancer.update_weights()
                sim.load_balancer()
                sim.update_patches()
                force_balance(None)
        elif isinstance(op, int):
            for _ in range(op):
                st[0] += 1000
                sim.run(nsteps=1, callbacks=cbs)
        snap()
    return ev


if __name__ == "__main__":
    main(one)
