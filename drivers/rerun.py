"""Complete simulations: the state after every step as digests per patch and part, with checkpoints, reloads and repetitions."""
from common import *
import copy, zlib
from lambdapic import callback
from lambdapic.callback import restart, utils, laser


def blob(*xs):
    h = 0
    for x in xs:
        if isinstance(x, np.ndarray):
            x = str(x.dtype).encode() + str(x.shape).encode() + np.ascontiguousarray(x).tobytes()
        else:
            x = repr(x).encode()
        h = zlib.crc32(x, h)
    return h


def parts(p, D):
    """fields, currents, absorbing layers, then one entry per species: its live particles in storage order."""
    st = [blob(*[getattr(p.fields, a) for a in ALLF[:6]], p.fields.x0, p.fields.y0, np.asarray(p.fields.xaxis), p.x0, p.y0, np.asarray(p.xaxis), pcoord(p, D)),
          blob(*[getattr(p.fields, a) for a in ALLF[6:]])]
    pm = []
    for b in p.pml_boundary:
        pm.append(type(b).__name__)
        for k in sorted(b.__dict__):
            v = b.__dict__[k]
            if isinstance(v, np.ndarray):
                pm += [k, v]
    st.append(blob(*pm))
    for part in p.particles:
        a = ~part.is_dead
        st.append(blob(int(a.sum()), *[x for k in sorted(part.attrs) for x in (k, getattr(part, k)[a])],
                       *([part.event[a]] if hasattr(part, "event") and part.event.shape == a.shape else [])))
    return st


def draws(sim):
    """what the process would draw next, without drawing"""
    g = copy.deepcopy(sim.rand_gen)
    return blob(g.random(4)) if g is not None else 0


def snap(sim, D, tab):
    loc = [[int(p.index), RANK, parts(p, D)] for p in sim.patches]
    loc = gather_list(loc)
    dr = COMM.gather(draws(sim), root=0)
    ck = COMM.gather([int(sim.itime), blob(float(sim.time), float(sim.dt))], root=0)
    if RANK == 0:
        t = lambda x: tab.setdefault(x, len(tab) + 1)
        return {"s": ck[0][0], "clock": [t(str(x)) for x in ck], "draws": [t("d%d" % x) for x in dr],
                "p": [{"idx": i, "rank": r, "c": [t(x) for x in c]} for i, r, c in sorted(loc)]}
    return {}


def species(sc):
    e, h, g, p = Electron(name="e"), Proton(name="h"), None, None
    D = len(sc["np"])
    n0, nx = sc["dens"], sc["n"]
    L0, L1 = [sc["np"][a] * nx[a] * sc["dx"][a] for a in range(2)]

    if D == 2:
        def dens(x, y):
            return n0 * (1.0 + 0.5 * (x / L0)) if y < 0.8 * L1 else 0.0
    else:
        def dens(x, y, z):
            return n0 * (1.0 + 0.5 * (x / L0)) if y < 0.8 * L1 else 0.0
    e = Electron(name="e", density=dens, ppc=sc["ppc"], **({"radiation": "photons"} if sc["qed"] else {}))
    h = Proton(name="h", density=dens, ppc=sc["ppc"])
    sp = [e, h]
    if sc["qed"]:
        g, p = Photon(name="g"), Positron(name="p")
        e.set_photon(g)
        sp += [g, p]
        if sc["pairs"]:
            g.set_bw_pair(electron=e, positron=p)
    return sp


def build(sc, seed):
    fresh()
    D = len(sc["np"])
    sp = species(sc)
    c = dict(sc, seed=seed)
    sim = make_sim(c, sp)
    if sc["collide"]:
        sim.add_collision([[sp[0], sp[0], sp[1]]] if sc["collide"] == 1 else [[sp[0], sp[1]], [sp[1], sp[1]]])
    sim.initialize()
    quiet()
    return sim


def excite(sc, sim):
    """initial momenta and fields, the same whatever the division of work"""
    D = len(sc["np"])
    for p in sim.patches:
        g = np.random.default_rng([sc["rseed"], 5] + pcoord(p, D))
        for a in ALLF[:6]:
            f = getattr(p.fields, a)
            f[...] = g.normal(size=f.shape) * sc["amp"] * (3e8 if a[0] == "e" else 1.0)
        for part in p.particles:
            for a in ("ux", "uy", "uz"):
                getattr(part, a)[:] = g.normal(size=part.npart) * sc["mom"]
            part.inv_gamma[:] = (1 + part.ux**2 + part.uy**2 + part.uz**2) ** -0.5
    sim.patches.sync_guard_fields(ALLF[:6])
    sim.mpi.sync_guard_fields(ALLF[:6])


def callbacks(sc, sim):
    """the user's callbacks, made anew in every process"""
    cbs = []
    D = len(sc["np"])
    e = sim.species[0]
    if sc["laser"]:
        cls = {("s", 2): laser.SimpleLaser2D, ("s", 3): laser.SimpleLaser3D, ("g", 2): laser.GaussianLaser2D, ("g", 3): laser.GaussianLaser3D}[sc["laser"], D]
        kw = dict(a0=2.0, l0=12 * sc["dx"][0], w0=6 * sc["dx"][0], ctau=20 * sc["dx"][0])
        if sc["laser"] == "g":
            kw["x0"] = 10 * sc["dx"][0]
        cbs.append(cls(**kw))
    if sc["temp"]:
        cbs.append(utils.SetTemperature(e, 500.0, sc["temp"]))
        cbs[-1].stage = "start"
    if sc["window"]:
        v = sc["window"]["v"] * sc["dx"][0] / sim.dt
        cbs.append(utils.MovingWindow(velocity=(lambda t: v) if sc["window"]["f"] else v, start_time=sc["window"]["start"] * sim.dt))
    if sc["prune"]:
        @callback("end", interval=sc["prune"])
        def shed(s):
            for p in s.patches:
                for part in p.particles:
                    part.prune()
                    part.extended = True
            s.update_lists()
        cbs.append(shed)
    return cbs


def recorder(D, tab, out):
    @callback("end")
    def rec(s):
        out.append(snap(s, D, tab))
    return rec


def setup(sc, sim):
    lb = sim.load_balancer
    if sc["balance"]:
        lb.threshold = lb._init_threshold = sc["balance"]
    else:
        lb.threshold = lb._init_threshold = 1e9


def base(sc, seed, tab, dumps=None):
    sim = build(sc, seed)
    D = len(sc["np"])
    out = []
    excite(sc, sim)
    setup(sc, sim)
    if not sc["balance"]:
        force_balance(None)
    cbs = callbacks(sc, sim) + [recorder(D, tab, out)]
    if dumps:
        cbs.append(restart.RestartDump(sc["dir"], lambda s: s.itime in dumps))
    for n in sc["runs"]:
        sim.run(nsteps=n, callbacks=cbs)
    return out


class Tab:
    """Digest values as small integers, the same in all processes that use the same table."""

    def __init__(self):
        self.d = {}

    def setdefault(self, x, _):
        # stable across processes: the digest itself, as a 31 bit number
        return zlib.crc32(repr(x).encode()) & 0x7FFFFFFF

    def __len__(self):
        return 0


def relative(sim, D, sc):
    """for every patch: digest of its particles' positions relative to the patch, and of the first draws"""
    res = []
    for p in sim.patches:
        org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
        part = p.particles[0]
        live = np.flatnonzero(~part.is_dead)[:4]
        if len(live) == 4:
            q = [np.rint((getattr(part, AX[a])[live] - org[a]) / sc["dx"][a] * 2**12) for a in range(D)]
            res.append({"idx": int(p.index), "rank": RANK, "h": blob(*q) & 0x7FFFFFFF})
    return gather_list(res)


def one(sc):
    D = len(sc["np"])
    tab, ev = Tab(), []
    if sc["mode"] == "dump":
        for x in base(sc, sc["seed"], tab, sc["dumps"]):
            ev.append({"op": "base", "st": x})
        if sc["plain"]:
            for x in base(sc, sc["seed"], tab):
                ev.append({"op": "plain", "st": x})
    elif sc["mode"] == "load":
        force_ranks(None)
        for s in sc["dumps"]:
            fresh()
            sim = restart.RestartDump.load(f"{sc['dir']}/ckpt_{s:06d}")
            quiet()
            ev.append({"op": "loaded", "from": s, "st": snap(sim, D, tab)})
            out = []
            sim.run(nsteps=sum(sc["runs"]) - 1 - s, callbacks=callbacks(sc, sim) + [recorder(D, tab, out)])
            for x in out:
                ev.append({"op": "again", "from": s, "st": x})
    elif sc["mode"] == "repeat":
        for k in range(sc["times"]):
            for x in base(sc, sc["seed"], tab):
                ev.append({"op": "base" if k == 0 and sc["first"] else "repeat", "st": x})
    elif sc["mode"] == "fresh":
        for seed in sc["seeds"]:
            sim = build(sc, seed if seed >= 0 else None)
            r = relative(sim, D, sc)
            ev.append({"op": "init", "seed": seed, "h": r if RANK == 0 else []})
    return ev


if __name__ == "__main__":
    main(one)
