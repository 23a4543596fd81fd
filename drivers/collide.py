"""Pairing iterators called directly (mode pair) and collisions inside real steps (mode step)."""
from common import *
from itertools import combinations
from lambdapic import callback
from scipy.constants import c as C, m_e, e as QE


# ---------------------------------------------------------------- pairing
def walk(it):
    out, many = [], 0
    while it.has_next():
        _, a, b, w, d = it.next()
        out.append([int(a), int(b), as_int(1 / w) if w else 0])
        many = as_int(d)
        if len(out) > 60:
            break
    return out, many


def one_pair(sc):
    import lambdapic.core.collision.utils as cu
    import lambdapic.core.collision.cpu as cc
    g = np.random.default_rng(sc["rseed"])
    ev = []
    for _ in range(sc["count"]):
        a, b = sc["max"]
        n1, n2 = int(g.integers(0, a + 1)), int(g.integers(0, b + 1))
        s1, s2 = int(g.integers(0, 5)), int(g.integers(0, 5))
        pd = float(g.choice([0.0, 0.3, 0.7]))
        d1 = g.random(s1 + n1 + 3) < pd
        d2 = g.random(s2 + n2 + 3) < pd
        gen = np.random.default_rng(int(g.integers(1 << 30)))
        l1 = [int(i) for i in range(s1, s1 + n1) if not d1[i]]
        l2 = [int(i) for i in range(s2, s2 + n2) if not d2[i]]
        before = [d1.copy(), d2.copy()]
        kinds = ["intra", "inter"]
        for k in kinds:
            if k == "intra":
                pairs, many = walk(cu.IntraPairingIterator(d1, s1, s1 + n1, gen))
            else:
                pairs, many = walk(cu.InterPairingIterator(d1, s1, s1 + n1, d2, s2, s2 + n2, gen))
            ev.append({"op": k, "l1": l1, "l2": l2, "pairs": pairs, "many": many, "same": int(np.array_equal(before[0], d1) and np.array_equal(before[1], d2))})
    return ev if RANK == 0 else None


# ---------------------------------------------------------------- whole steps
OTHER = ["x", "y", "z", "w", "id", "tau", "delta", "chi", "event", "spin_x", "spin_y", "spin_z"]


def h32(*bs):
    import zlib
    return int(zlib.crc32(b"".join(bs)) & 0x3fffffff)


def groups(rows, A, B):
    """Witness: rows that exchanged momentum among themselves.  A, B: row numbers; B None: within one species."""
    d = np.array([r["a"] - r["b"] for r in rows])
    scale = max(1e-300, float(np.abs([r["b"] for r in rows]).max()), float(np.abs([r["a"] for r in rows]).max()))
    tol = 1e-7 * scale
    zero = lambda s: np.abs(d[list(s)].sum(axis=0)).max() < tol

    def split_intra(left, odd):
        if not left:
            return []
        i, rest = left[0], left[1:]
        for j in rest:
            if zero((i, j)):
                g = split_intra([x for x in rest if x != j], odd)
                if g is not None:
                    return [[i, j]] + g
        if odd:
            for j, k in combinations(rest, 2):
                if zero((i, j, k)):
                    g = split_intra([x for x in rest if x not in (j, k)], False)
                    if g is not None:
                        return [[i, j, k]] + g
        return None

    def split_inter(S, L):
        if not S:
            return [] if not L else None
        lo = len(L) // len(S)
        for k in {lo, lo + 1}:
            for c in combinations(L, k):
                if zero((S[0],) + c):
                    g = split_inter(S[1:], [x for x in L if x not in c])
                    if g is not None:
                        return [[S[0], *c]] + g
        return None
    if B is None:
        r = split_intra(list(A), len(A) % 2 == 1)
    else:
        r = split_inter(*((list(B), list(A)) if len(A) >= len(B) else (list(A), list(B))))
    return r or []


def one_step(sc):
    D = len(sc["np"])
    sp = []
    for i, s in enumerate(sc["species"]):
        sp.append(Species(name=f"s{i}", charge=s["q"], mass=s["m"]))
    sim = make_sim(sc, sp, dt_cfl=0.9)
    gr = [[sp[i] for i in g] for g in sc["groups"]]
    if not sc["late"]:
        sim.add_collision(gr)
    sim.initialize()
    if sc["late"]:
        sim.add_collision(gr)
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    V = float(np.prod(dx))
    if sc["log"]:
        sim.collision.lnLambda = sc["log"]
    g = np.random.default_rng([sc["rseed"], RANK])

    def org(p):
        return [p.x0, p.y0] + ([p.z0] if D == 3 else [])
    w0 = sc["w0"] * V
    UA = ["ux", "uy", "uz"]
    ncell = int(np.prod(sc["n"]))
    for p in sim.patches:
        for i, part in enumerate(p.particles):
            s = sc["species"][i]
            cells = []
            # patches with few particles at first get some later
            fill = sc["fill"] if g.random() < 0.6 else 0.05
            for cidx in range(ncell):
                if g.random() < fill:
                    cells += [cidx] * int(g.integers(0, s["max"] + 1))
            g.shuffle(cells)
            nd = int(g.integers(0, 1 + len(cells) // 2)) if sc["dead"] else 0
            N = len(cells) + nd
            part.extend(N - part.npart if N > part.npart else 0)
            N = part.npart
            slots = g.permutation(N)[:len(cells)]
            part.is_dead[:] = True
            for a in UA:
                getattr(part, a)[:] = g.normal(size=N)
            part.inv_gamma[:] = 1 / np.sqrt(1 + part.ux**2 + part.uy**2 + part.uz**2)
            part.w[:] = w0
            for a in range(D):
                getattr(part, AX[a])[:] = org(p)[a] + (g.random(N) * sc["n"][a] - 0.5) * dx[a]
            for k, cidx in zip(slots, cells):
                cc = np.unravel_index(cidx, sc["n"])
                for a in range(D):
                    getattr(part, AX[a])[k] = org(p)[a] + (cc[a] + 0.96 * (g.random() - 0.5)) * dx[a]
                cold = sc["cold"] and g.random() < 0.3
                for a in UA:
                    getattr(part, a)[k] = 0.0 if cold else g.normal() * s["u"]
                part.w[k] = w0 * (1 if sc["equal"] else int(g.choice([1, 2, 5])))
                part.is_dead[k] = False
            part.inv_gamma[:] = 1 / np.sqrt(1 + part.ux**2 + part.uy**2 + part.uz**2)
    sim.update_lists()

    held = {}

    def snap(s, skip):
        out = {}
        for k, p in enumerate(s.patches):
            for i, part in enumerate(p.particles):
                live, dead = {}, []
                for j in range(part.npart):
                    names = [a for a in OTHER if hasattr(part, a) and not (i == skip and a in "xyz")]
                    if part.is_dead[j]:
                        # the slots of the dead: everything
                        dead.append(h32(*[np.ascontiguousarray(getattr(part, a)[j]).tobytes() for a in names + UA + ["inv_gamma"]]))
                        continue
                    u = np.array([getattr(part, a)[j] for a in UA])
                    m = sc["species"][i]["m"]
                    x = [int(np.floor((getattr(part, AX[a])[j] - org(p)[a]) / dx[a] + 0.5)) for a in range(D)]
                    live[int(part.id[j].view(np.int64)) if hasattr(part.id[j], "view") else int(part.id[j])] = dict(
                        pid=k, sp=i, cell=x, u=u, p=m * u, E=m * (np.sqrt(1 + u @ u) - 1), gam=m * (1 / part.inv_gamma[j] - 1), w=as_int(part.w[j] / w0),
                        h=h32(*[np.ascontiguousarray(getattr(part, a)[j]).tobytes() for a in names]))
                out[k, i] = live, dead
        return out
    ev = []
    first = min(i for i in range(len(sp)))

    @callback("start")
    def still(s):
        for p in s.patches:
            for a in ALLF:
                getattr(p.fields, a)[...] = 0.0

    @callback("maxwell_1")
    def before(s):
        for pr in sc["off"].get(str(s.itime), []):
            s.collision.disable((sp[pr[0]], sp[pr[1]]))
        for pr in sc["on"].get(str(s.itime), []):
            s.collision.enable((sp[pr[1]], sp[pr[0]]))
        for p in s.patches:
            for a in ALLF:
                getattr(p.fields, a)[...] = 0.0
        held["b"] = snap(s, first)

    @callback("_push_position_1")
    def after(s):
        if s.ispec != first:
            return
        b, a = held["b"], snap(s, first)
        pairs = [list(x) for x in sc["enabled"][s.itime]]
        top = 1e-9
        for x in (b, a):
            for live, _ in x.values():
                for r in live.values():
                    top = max(top, float(np.abs(r["p"]).max()), r["E"])
        S = 4e7 / top if np.isfinite(top) else 1.0
        q = lambda v: int(round(float(v) * S)) if np.isfinite(v) else -777777777
        for k, p in enumerate(s.patches):
            cells = {}
            for i in range(len(sp)):
                lb, db = b[k, i]
                la, da = a[k, i]
                ev.append({"op": "rest", "sp": i, "b": sorted(db), "a": sorted(da), "ids": [len(lb), len(la), len(set(lb) ^ set(la))]})
                for key in sorted(set(lb) & set(la)):
                    cells.setdefault(tuple(lb[key]["cell"]), []).append((lb[key], la[key]))
            dens = None
            td = getattr(s.collision, "total_density_list", None)
            for cc, rs in sorted(cells.items()):
                here = [0] * len(sp)
                for x, _ in rs:
                    here[x["sp"]] += 1
                act = [pr for pr in pairs if (here[pr[0]] >= 2 if pr[0] == pr[1] else here[pr[0]] and here[pr[1]])]
                gs = []
                num = [[n for n, (x, _) in enumerate(rs) if x["sp"] == i] for i in range(len(sp))]
                if len(act) == 1 and len({x["w"] for x, _ in rs if x["sp"] in act[0]}) == 1:
                    rows = [{"b": np.append(x["p"], x["E"]), "a": np.append(y["p"], y["E"])} for x, y in rs]
                    i, j = act[0]
                    gs = groups(rows, num[i], None if i == j else num[j])
                e = {"op": "cell", "cell": list(cc), "on": pairs, "groups": [[x + 1 for x in z] for z in gs],
                     "r": [[x["sp"], x["w"], int(not np.array_equal(x["u"], y["u"])), int(x["h"] == y["h"]), q(y["gam"])]
                           + [q(v) for v in x["p"]] + [q(x["E"])] + [q(v) for v in y["p"]] + [q(y["E"])] for x, y in rs],
                     "dens": as_int(np.rint(td[k].flat[int(np.ravel_multi_index(cc, sc["n"]))] * V / w0)) if td is not None and min(cc) >= 0 and all(x < y for x, y in zip(cc, sc["n"])) else -1}
                ev.append(e)
    sim.run(nsteps=sc["steps"], callbacks=[still, before, after])
    al = COMM.gather(ev, root=0)
    return [e for x in al for e in x] if RANK == 0 else None


if __name__ == "__main__":
    main(lambda sc: one_pair(sc) if sc["mode"] == "pair" else one_step(sc))
