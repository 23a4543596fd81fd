"""Moving windows: everything before and after each call, the particles across each step, the deposit and the guards at its end."""
from common import *
import zlib
from lambdapic import callback, MovingWindow
from scipy.constants import c as C, e as QE, m_e
from load_profile import profile

F6 = ALLF[:6]


def digest(tab, *xs):
    h = 0
    for x in xs:
        h = zlib.crc32(np.ascontiguousarray(x).tobytes(), h)
        h = zlib.crc32(str(np.shape(x)).encode(), h)
    return tab.setdefault(h, len(tab) + 1)


def snap(sim, D, sc, tab, front):
    sl = tuple(slice(0, k) for k in sc["n"])
    ng = sc["ng"]
    loc = []
    for p in sim.patches:
        hx = sc["dx"][0]
        f = p.fields
        o = [as_int(v / hx) for v in (p.x0, f.x0, p.xaxis[0], np.asarray(p.xaxis)[-1], p.xmin, p.xmax, np.ravel(f.xaxis)[0])]
        oy = [as_int(getattr(p, AX[a] + "0") / sc["dx"][a]) for a in range(1, D)]
        inner = [np.array(getattr(f, a)[sl]) for a in F6]
        edge = []
        for a in F6:
            r = np.roll(np.asarray(getattr(f, a)), ng, axis=0)
            edge.append(r[-ng:] if front > 0 else r[:ng])
        psi = [b.__dict__[k] for b in p.pml_boundary if type(b).__name__[3] != "X" for k in sorted(b.__dict__) if k.startswith("psi")]
        sp, live = [], []
        for part in p.particles:
            al = np.asarray(~part.is_dead)
            ids = np.asarray(part.id)[al]
            od = np.argsort(ids)
            sp.append([np.sort(ids)] + [np.asarray(getattr(part, a))[al][od] for a in part.attrs if a != "_id"])
            live.append(int(al.sum()))
        loc.append(dict(idx=int(p.index), c=pcoord(p, D), o=o, oy=oy, f=inner, fz=int(all(not x.any() for x in inner + edge)), pm=sorted(type(b).__name__[3:] for b in p.pml_boundary),
                        psi=psi, pz=int(all(not x.any() for x in psi)), sp=sp, live=live))
    loc = gather_list(loc)
    if RANK:
        return None
    for q in loc:
        q["f"] = digest(tab, *q["f"])
        q["psi"] = digest(tab, *q["psi"])
        q["sp"] = [digest(tab, *s) for s in q["sp"]]
    return loc


def rows(sim, D, sc, k):
    loc = []
    for p in sim.patches:
        part = p.particles[k]
        for i in np.flatnonzero(~part.is_dead):
            cell = []
            for a in range(D):
                v = float(getattr(part, AX[a])[i]) / sc["dx"][a] + 0.5
                cell.append(int(np.floor(v)) if np.isfinite(v) and abs(v) < 1e6 else -777777777)
            loc.append([int(part.id[i]), cell, pcoord(p, D)])
    return gather_list(loc)


def moments(sim, D, sc, ispec):
    """Charge and its first moments on the grid and of the particles, half a step ahead."""
    ng, dx = sc["ng"], sc["dx"]
    V = float(np.prod(dx))
    g, w, s = np.zeros(D + 1), np.zeros(D + 1), 0.0
    for p in sim.patches:
        r = np.asarray(p.fields.rho)
        for a in range(D):
            r = np.roll(r, ng, axis=a)
        g[0] += r.sum() * V
        for a in range(D):
            ax = (np.arange(-ng, sc["n"][a] + ng)) * dx[a] + getattr(p, AX[a] + "0")
            sh = [1] * D
            sh[a] = -1
            g[a + 1] += (r * ax.reshape(sh)).sum() * V
        for k in range(ispec + 1):
            part = p.particles[k]
            q = sim.species[k].q
            al = ~np.asarray(part.is_dead)
            ww = q * np.asarray(part.w)[al]
            w[0] += ww.sum()
            s += np.abs(ww).sum()
            for a in range(D):
                x = np.asarray(getattr(part, AX[a]))[al] + 0.5 * sim.dt * C * (np.asarray(getattr(part, "u" + AX[a])) * np.asarray(part.inv_gamma))[al]
                w[a + 1] += (ww * x).sum()
    t = COMM.allreduce(np.concatenate([g, w, [s]]))
    g, w, s = t[:D + 1], t[D + 1:2 * D + 2], t[-1] or 1.0
    u = np.array([1.0] + [dx[a] for a in range(D)])
    return [[as_int(np.rint(x)) for x in y / (s * u) * 2**16] for y in (g, w)]


def whole(sim, D, sc):
    """Interior fields over the whole window, as integers."""
    sl = tuple(slice(0, k) for k in sc["n"])
    loc = gather_list([[pcoord(p, D), [np.array(getattr(p.fields, a)[sl]) for a in F6]] for p in sim.patches])
    if RANK:
        return None
    out = [np.full([a * b for a, b in zip(sc["np"], sc["n"])], np.nan) for _ in F6]
    for c, fs in loc:
        w = tuple(slice(q * m, (q + 1) * m) for q, m in zip(c, sc["n"]))
        for k in range(6):
            out[k][w] = fs[k]
    return [np.array(ints(np.rint(f * (1024.0 if k < 3 else 1024.0 * C)))).ravel().tolist() for k, f in enumerate(out)]


def guards(sim, D, sc):
    """Points of guards that differ from the interior of the neighbouring patch."""
    sl = tuple(slice(0, k) for k in sc["n"])
    loc = gather_list([[pcoord(p, D), [np.array(getattr(p.fields, a)) for a in F6]] for p in sim.patches])
    if RANK:
        return 0
    at = {tuple(c): f for c, f in loc}
    bad = 0
    ng = sc["ng"]
    for c, f in at.items():
        for k in range(6):
            r = f[k]
            for a in range(D):
                for s in (-1, 1):
                    q = list(c)
                    q[a] += s
                    if sc["per"][a]:
                        q[a] %= sc["np"][a]
                    if tuple(q) not in at:
                        continue
                    h = at[tuple(q)][k]
                    n = sc["n"][a]
                    for m in range(ng):
                        mine = n + m if s > 0 else -1 - m
                        his = m if s > 0 else n - 1 - m
                        i1, i2 = list(sl), list(sl)
                        i1[a], i2[a] = mine, his
                        bad += int((r[tuple(i1)] != h[tuple(i2)]).sum())
    return bad


def one(sc):
    D = len(sc["np"])
    sp = []
    for k, s in enumerate(sc["species"]):
        kw = dict(name=f"s{k}")
        if s["has"]:
            kw.update(density=profile(D, sc["dx"], s["dens"]), ppc=profile(D, sc["dx"], s["ppc"]), density_min=float(s["dmin"]))
        sp.append(Species(charge=s["q"], mass=4, **kw))
    if sc["q"]:
        sc["K"] = [2 // q for q in sc["q"]] + [0] * (3 - D)
        cfl = 0.5 * sum(1.0 / q**2 for q in sc["q"]) ** 0.5
    else:
        cfl = 0.95
    sim = make_sim(sc, sp, dt_cfl=cfl)
    sim.initialize()
    G = [a * b for a, b in zip(sc["np"], sc["n"])]
    sc["N"] = G + [1] * (3 - D)
    lo = [0] + [0 if sc["per"][a] else sc["pml"] for a in range(1, D)]
    sc["lo"] = lo + [0] * (3 - D)
    sc["hi"] = [G[a] - lo[a] for a in range(D)] + [1] * (3 - D)
    pL = sc["n"][0] * sc["dx"][0]
    if sc["start"] is None:
        sc["first"] = int(np.ceil(sim.Lx / C / sim.dt - 1e-6))
        t0 = None
    else:
        sc["first"] = sc["start"]
        t0 = (sc["start"] - 0.5) * sim.dt if sc["start"] else 0.0
    sc.pop("start")
    sc["steps"] = sc["steps"] + (sc["first"] if t0 is None else 0)
    v = sc["v"]
    vel = [x / 64.0 * pL / sim.dt for x in v]
    step = lambda t: int(round(t / sim.dt))
    if sc["call"]:
        velocity = lambda t: vel[(step(t) - sc["first"]) % len(vel)]
    else:
        velocity = vel[0]
        sc["v"] = v = v[:1]
    mw = MovingWindow(velocity=velocity, start_time=t0, inject_particles=bool(sc["inject"]),
                      stop_inject_time=(sc["stop"] - 0.5) * sim.dt if sc["stop"] >= 0 else None)
    g0 = np.random.default_rng([sc["rseed"], 1])
    for p in sim.patches:
        g = np.random.default_rng([sc["rseed"], int(p.index)])
        for a in F6:
            f = getattr(p.fields, a)
            sl = tuple(slice(0, k) for k in sc["n"])
            f[sl] = g.normal(size=f[sl].shape) * (20.0 if a[0] == "e" else 20 / C)
        for part in p.particles:
            m = part.npart
            for a in ("ux", "uy", "uz"):
                getattr(part, a)[:] = g.normal(size=m) * 0.5
            part.inv_gamma[:] = (1 + part.ux**2 + part.uy**2 + part.uz**2) ** -0.5
    sim.patches.sync_guard_fields(F6)
    sim.mpi.sync_guard_fields(F6)
    tab, ids, ev, cur = {}, {}, [], {}
    seen = set()

    def note(rs):
        return [[ids.setdefault(r[0], len(ids) + 1)] + [r[1] + [0] * (3 - D), r[2] + [0] * (3 - D)] for r in rs] if RANK == 0 else None

    def front(t):
        k = t - sc["first"]
        return 1 if k < 0 or v[k % len(v)] >= 0 else -1

    @callback("start")
    def pre(s):
        cur["b"] = snap(s, D, sc, tab, front(s.itime))
        for k in range(len(sp)):
            rs = rows(s, D, sc, k)
            if RANK == 0:
                seen.update((k, r[0]) for r in rs)

    @callback("start")
    def post(s):
        a = snap(s, D, sc, tab, front(s.itime))
        inj = []
        new = None
        if RANK == 0:
            was = {q["idx"]: q["o"][0] for q in cur["b"]}
            new = [q["c"] for q in a if was.get(q["idx"]) != q["o"][0]]
        for k in range(len(sp)):
            rs = rows(s, D, sc, k)
            loc = []
            newi = COMM.bcast(new)
            for p in s.patches:
                if pcoord(p, D) in newi:
                    part = p.particles[k]
                    al = ~np.asarray(part.is_dead)
                    rest = (np.asarray(part.ux)[al] == 0) & (np.asarray(part.uy)[al] == 0) & (np.asarray(part.uz)[al] == 0) & (np.asarray(part.inv_gamma)[al] == 1)
                    V = float(np.prod(sc["dx"]))
                    for i, (w, r) in enumerate(zip(np.asarray(part.w)[al], rest)):
                        cell = [int(np.floor(float(np.asarray(getattr(part, AX[a_]))[al][i]) / sc["dx"][a_] + 0.5)) for a_ in range(D)] + [0] * (3 - D)
                        loc.append((cell, as_int(w / V), int(r), int(np.asarray(part.id)[al][i])))
            al = gather_list(loc)
            if RANK == 0:
                cells = {}
                for cell, w, *_ in al:
                    q = cells.setdefault(tuple(cell), [0, w, w])
                    q[0] += 1
                    q[1], q[2] = min(q[1], w), max(q[2], w)
                inj.append(dict(cells=[[list(q)] + x for q, x in sorted(cells.items())], n=len(al), rest=sum(x[2] for x in al),
                                fresh=len({x[3] for x in al if (k, x[3]) not in seen})))
        if RANK == 0:
            ev.append(dict(op="win", t=s.itime, b=cur["b"], a=a, inj=inj))
        cur["s"] = whole(s, D, sc) if sc["q"] else None

    @callback("maxwell_1")
    def half(s):
        m1 = whole(s, D, sc) if sc["q"] else None
        if m1:
            ev.append(dict(op="half", t=s.itime, s=cur["s"], m1=m1))
        # live particles per column, as the sorter finds them
        for p in s.patches:
            for k, part in enumerate(p.particles):
                col = np.floor((np.asarray(part.x)[~np.asarray(part.is_dead)] - p.x0) / sc["dx"][0] + 0.5)
                cur[("n", int(p.index), k)] = [int((col == i).sum()) for i in range(sc["n"][0])]

    @callback("current_deposition")
    def dep(s):
        cur[("r", s.ispec)] = note(rows(s, D, sc, s.ispec))
        k = s.ispec
        srt = s.sorter[k]
        loc = [[cur[("n", int(p.index), k)], [int(y - x) for x, y in zip(np.ravel(srt.bucket_bound_min_list[i]), np.ravel(srt.bucket_bound_max_list[i]))]] for i, p in enumerate(s.patches)]
        cur[("s", k)] = gather_list(loc)
        if s.ispec == len(sp) - 1:
            cur["m"] = moments(s, D, sc, s.ispec)

    @callback("end")
    def end(s):
        z = [note(rows(s, D, sc, k)) for k in range(len(sp))]
        bad = guards(s, D, sc)
        if RANK == 0:
            ev.append(dict(op="step", t=s.itime, r=[cur[("r", k)] for k in range(len(sp))], z=z, m=cur["m"], g=bad, srt=[x for k in range(len(sp)) for x in cur[("s", k)]]))
        cur.clear()
        if SIZE > 1 and s.itime in sc["moves"]:
            force_balance(sc["maps"][sc["moves"].index(s.itime)])
            s.load_balancer.update_weights()
            s.load_balancer()
            s.update_patches()
            force_balance(None)
    sim.run(nsteps=sc["steps"], callbacks=[pre, mw, post, half, dep, end])
    return ev


main(one)
