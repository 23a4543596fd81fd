"""Forced and self-chosen rebalances: patch states before/after, decisions of all processes, twin run without."""
from common import *
import zlib
from lambdapic import callback

CH = ["patch", "fields", "pml", "species1", "species2", "species3"]


def blob(*xs):
    h = 0
    for x in xs:
        if isinstance(x, np.ndarray):
            x = str(x.dtype).encode() + str(x.shape).encode() + np.ascontiguousarray(x).tobytes()
        else:
            x = repr(x).encode()
        h = zlib.crc32(x, h)
    return h


def state(p, D):
    st = [blob(p.index, p.x0, p.y0, p.z0 if D == 3 else 0, p.nx, p.ny, p.dx, p.dy, np.asarray(p.xaxis), np.asarray(p.yaxis), pcoord(p, D))]
    st.append(blob(*[getattr(p.fields, a) for a in ALLF], p.fields.x0, p.fields.y0, np.asarray(p.fields.xaxis)))
    pm = []
    for b in p.pml_boundary:
        pm.append(type(b).__name__)
        for k in sorted(b.__dict__):
            v = b.__dict__[k]
            if isinstance(v, (np.ndarray, int, float)):
                pm += [k, v]
    st.append(blob(*pm))
    for part in p.particles:
        xs = [type(part).__name__, part.npart, part._npart_created, part.is_dead, list(part.attrs)]
        xs += [getattr(part, a) for a in part.attrs]
        xs += [getattr(part, "event")] if hasattr(part, "event") else []
        st.append(blob(*xs))
    return st


def states(sim, D, tab):
    loc = [[int(p.index), RANK, state(p, D), ints(p.neighbor_rank), ints(p.neighbor_index)] for p in sim.patches]
    loc = gather_list(loc)
    if RANK == 0:
        return [{"idx": i, "rank": r, "st": [tab.setdefault(x, len(tab) + 1) for x in s], "nr": nr, "ni": ni} for i, r, s, nr, ni in loc]


def build(sc):
    D = len(sc["np"])
    pair = sc["qed"] == 2
    sp = [Electron(name="e", **({"radiation": "photons"} if pair else {})), Proton(name="h")]
    if sc["qed"]:
        sp.append(Photon(name="g"))
    if pair:
        sp.append(Positron(name="p"))
        sp[0].set_photon(sp[2])
        sp[2].set_bw_pair(electron=sp[0], positron=sp[3])
    for s in sp:
        s._aux_attrs = ["tag"] if sc["aux"] else []
    sim = make_sim(sc, sp)
    sim.initialize()
    pair = sc["qed"] == 2
    for p in sim.patches:
        g = np.random.default_rng([sc["rseed"], 5, int(p.index)])
        for a in ALLF[:6]:
            f = getattr(p.fields, a)
            f[...] = g.normal(size=f.shape) * ((1e9 if a[0] == "e" else 3.0) * (1e-3 if pair else 1))
        for k, part in enumerate(p.particles):
            m = int(g.integers(0, sc["ppp"] + 1))
            part.extend(m)
            live = g.random(m) < 0.8
            part.is_dead[:] = ~live
            mg = sc["pml"] + 1
            org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
            for a in range(D):
                getattr(part, AX[a])[:] = org[a] + (mg + g.random(m) * (sc["n"][a] - 1 - 2 * mg)) * sc["dx"][a]
            part.w[:] = g.random(m) * 1e9
            for a in ("ux", "uy", "uz"):
                getattr(part, a)[:] = g.normal(size=m) * 3 + 0.1
            u2 = part.ux**2 + part.uy**2 + part.uz**2
            part.inv_gamma[:] = (u2 if sc["qed"] and k == 2 else 1 + u2) ** -0.5
            if sc["aux"]:
                part.tag[:] = g.random(m)
    sim.patches.sync_guard_fields(ALLF[:6])
    sim.mpi.sync_guard_fields(ALLF[:6])
    sim.update_lists()
    return sim


def quant(sim, D, sc, ids):
    sl = tuple(slice(0, k) for k in sc["n"])
    loc = []
    for p in sim.patches:
        f = [np.asarray(getattr(p.fields, a)[sl], dtype=float) for a in ALLF]
        sp = []
        for part in p.particles:
            rows = []
            chi = getattr(part, "chi", None) if sc["qed"] == 2 else None
            for i in np.flatnonzero(~part.is_dead):
                rows.append([int(part.id[i])] + [float(getattr(part, AX[a])[i]) / sc["dx"][a] * 2**14 for a in range(D)]
                            + [float(getattr(part, a)[i]) * 2**14 for a in ("ux", "uy", "uz", "inv_gamma")] + [float(part.w[i]) / 1e9 * 2**20] + ([float(chi[i]) * 2**14 / 1e-9] if chi is not None else []))
            sp.append(rows)
        loc.append([int(p.index), f, sp])
    loc = gather_list(loc)
    if RANK:
        return None
    return loc


def pack(a, b, ids):
    """Quantises both runs with common scales."""
    sc = [max(max(float(np.abs(x[1][k]).max()) for x in run) for run in (a, b)) or 1.0 for k in range(10)]

    def one(run):
        res = []
        for i, f, sp in run:
            v = []
            for k in range(10):
                v += ints(np.rint(f[k] / sc[k] * 2**22)).__iter__() and np.array(ints(np.rint(f[k] / sc[k] * 2**22))).ravel().tolist()
            res.append({"idx": i, "f": v, "sp": [[[ids.setdefault(r[0], 4 * len(ids))] + [as_int(round(x)) if x == x else -777777777 for x in r[1:]] for r in rows] for rows in sp]})
        return res
    return one(a), one(b)


def assign(sc):
    """The distribution of the patches over the processes, asked for directly."""
    from lambdapic.core.patch.metis import compute_rank
    D = len(sc["np"])
    sim = make_sim(sc, [Electron(name="e")])
    sim.initialize()
    ev = []
    for nr, w, prev in sc["asks"]:
        a = [compute_rank(sim.patches, nr, np.array(w, dtype=sc["wtype"]), np.array(prev) if prev else None) for _ in (0, 1)]
        ev.append(dict(op="assign", n=len(w), nrank=nr, ranks=ints(a[0][0]), count=ints(a[0][1]), again=ints(a[1][0])))
    return ev


def one(sc):
    if "asks" in sc:
        return assign(sc)
    D = len(sc["np"])
    sc["nrank"] = SIZE
    N = int(np.prod(sc["np"]))
    tab, ids, ev = {}, {}, []
    sim = build(sc)
    # twin without any rebalance
    twin = []
    force_balance(None)
    orig = sim.load_balancer
    dec = []

    def watch(lb):
        o = lb.should_rebalance

        def f():
            d = bool(o())
            dec.append(int(d))
            return d
        lb.should_rebalance = f
    watch(orig)

    def balance(rm):
        force_balance(rm or None)
        b = states(sim, D, tab)
        sim.load_balancer.update_weights()
        sim.load_balancer()
        sim.update_patches()
        force_balance(None)
        a = states(sim, D, tab)
        if RANK == 0:
            ev.append({"op": "balance", "before": b, "after": a, "map": rm or []})

    @callback("maxwell_2")
    def capture(s):
        cur.append(quant(s, D, sc, ids))
    runs = []
    for twin in (False, True):
        cur = []
        if twin:
            fresh()
            sim = build(sc)
            sim.load_balancer.threshold = sim.load_balancer._init_threshold = 1e9
        else:
            sim.load_balancer.threshold = sim.load_balancer._init_threshold = sc["threshold"]
        for op in sc["ops"]:
            if op[0] == "balance" and not twin:
                balance(op[1])
            elif op[0] == "prune":
                # deaths and shrinking storage, the same in both runs
                for p in sim.patches:
                    g = np.random.default_rng([sc["rseed"], 9, op[1], int(p.index)])
                    for part in p.particles:
                        ids_ = np.sort(part.id[~part.is_dead])
                        gone = ids_[g.random(len(ids_)) < 0.4]
                        part.is_dead |= np.isin(part.id, gone)
                        part.prune()
                        part.extended = True
                sim.update_lists()
            elif op[0] == "run":
                sim.run(nsteps=op[1], callbacks=[capture])
            elif op[0] == "load" and not twin:
                # somebody's load changes; everyone must decide alike
                w = np.random.default_rng([sc["rseed"], 8, op[1]]).integers(1, 50, N)
                sim.load_balancer.load_function = lambda p: float(w[p.index])
                sim.load_balancer.update_weights()
                sim.load_balancer.should_rebalance()
        runs.append(cur)
        if not twin:
            alld = COMM.gather(dec, root=0)
            if RANK == 0:
                ev.append({"op": "decide", "dec": alld})
    if RANK == 0:
        for a, b in zip(*runs):
            a, b = pack(a, b, ids)
            ev.append({"op": "twin", "a": a, "b": b})
    return ev


if __name__ == "__main__":
    main(one)
