"""Registration of species, their numbers in the parts of a simulation, and species switched off for a while."""
from common import *
from lambdapic import callback
from scipy.constants import c as C
import zlib


def h32(*bs):
    return int(zlib.crc32(b"".join(bs)) & 0x3fffffff)


# ---------------------------------------------------------------- names and numbers
def spell(t):
    return ".".join(str(x) for x in t)


def split(name):
    a = name.split(".")
    out = [a[0]]
    for i, x in enumerate(a[1:]):
        if not x.isdigit() or str(int(x)) != x or int(x) >= 2**20:
            return [name]
        out.append(int(x))
    return out


def flat2(x, y):
    return 1e20


def flat3(x, y, z):
    return 1e20


def make(k, D):
    kw = dict(name=spell(k["name"]))
    if k.get("ppc"):
        kw.update(density=flat2 if D == 2 else flat3, ppc=k["ppc"])
    if k["kind"] in "ep":
        return (Electron if k["kind"] == "e" else Positron)(radiation="photons" if k.get("rad") else None, **kw)
    if k["kind"] == "g":
        return Photon(**kw)
    return Species(charge=k["q"], mass=k["m"], **({"pusher": "boris+tbmt"} if k.get("tbmt") else {}), **kw)


def register(sc):
    ev, sp = [], []
    sim = make_sim(sc)
    for call in sc["calls"]:
        new = [make(k, len(sc["np"])) for k in call]
        if not sc["auto"]:
            sim.add_species(tuple(new) if sc["rseed"] % 2 else new)
            sp += new
            ev.append({"op": "reg", "req": [k["name"] for k in call], "names": [split(s.name) for s in sp],
                       "idx": [int(s.ispec) for s in sp], "held": [int(any(s is x for x in sim.species)) for s in sp]})
        else:
            sp += new
    kinds = [k for call in sc["calls"] for k in call]
    gam = [i for i, k in enumerate(kinds) if k["kind"] == "g"]
    ele = [i for i, k in enumerate(kinds) if k["kind"] == "e"]
    pos = [i for i, k in enumerate(kinds) if k["kind"] == "p"]
    for i, k in enumerate(kinds):
        if k.get("rad") and gam:
            sp[i].set_photon(sp[gam[k["q"] % len(gam)]])
        if k["kind"] == "g" and k.get("pair") and ele and pos:
            sp[i].set_bw_pair(electron=sp[ele[0]], positron=sp[pos[0]])
    try:
        if sc["auto"]:
            sim.run(0)
            ev.append({"op": "reg", "req": [k["name"] for k in kinds], "names": [split(s.name) for s in sp],
                       "idx": [int(s.ispec) for s in sp], "held": [1] * len(sp)})
        else:
            sim.initialize()
    except NotImplementedError as ex:
        return ev + [{"op": "refused"}]
    rows = []
    cells = int(np.prod([a * b for a, b in zip(sc["np"], sc["n"])]))
    for i, k in enumerate(kinds):
        s = sp[i]
        cnt = sum(int((~p.particles[i].is_dead).sum()) for p in sim.patches)
        cnt = COMM.allreduce(cnt)
        at = [j for j, x in enumerate(sim.patches.species) if x is s]
        pu = sim.pusher[i] if i < len(sim.pusher) else None
        ra = sim.radiation[i] if i < len(sim.radiation) else None
        pp = sim.pairproduction[i] if i < len(sim.pairproduction) else None
        so = sim.sorter[i] if i < len(sim.sorter) else None
        rows.append({"at": at, "kind": k["kind"], "push": -1 if pu is None else int(pu.ispec), "how": "none" if pu is None else type(pu).__name__,
                     "sort": -1 if so is None else int(so.ispec), "rad": -1 if ra is None else int(ra.ispec), "pair": -1 if pp is None else int(pp.ispec),
                     "wrad": int(bool(k.get("rad") and gam)), "wpair": int(bool(k["kind"] == "g" and k.get("pair") and ele and pos)),
                     "n": cnt, "want": cells * k.get("ppc", 0)})
    ev.append({"op": "parts", "r": rows, "len": [len(sim.pusher), len(sim.sorter), len(sim.radiation), len(sim.pairproduction), min(len(p.particles) for p in sim.patches)]})
    return ev if RANK == 0 else None


# ---------------------------------------------------------------- switching off
def build(sc):
    sp = []
    for i, k in enumerate(sc["species"]):
        if k["kind"] in "ep":
            s = (Electron if k["kind"] == "e" else Positron)(name=f"s{i}", radiation="photons" if k["to"] >= 0 else None)
        elif k["kind"] == "g":
            s = Photon(name=f"s{i}")
        else:
            s = Species(name=f"s{i}", charge=k["q"], mass=k["m"])
        sp.append(s)
    for k, s in zip(sc["species"], sp):
        if k["kind"] in "ep" and k["to"] >= 0:
            s.set_photon(sp[k["to"]])
        if k["kind"] == "g" and k["pair"]:
            s.set_bw_pair(electron=sp[k["pair"][0]], positron=sp[k["pair"][1]])
    return sp


def play(sc, twin):
    """One run.  twin: a species switched off is absent instead (its particles are put aside)."""
    fresh()
    D = len(sc["np"])
    sp = build(sc)
    sim = make_sim(sc, sp, dt_cfl=0.9)
    col = sc["groups"]
    if col:
        sim.add_collision([[sp[i] for i in g] for g in col])
    sim.initialize()
    force_balance(sc["ranks"])
    dx = [sim.dx, sim.dy] + ([sim.dz] if D == 3 else [])
    acts = [i for i, k in enumerate(sc["species"]) if (k["kind"] in "ep" and k["to"] >= 0) or (k["kind"] == "g" and k["pair"])]
    UA = ["ux", "uy", "uz"]

    def org(p):
        return [p.x0, p.y0] + ([p.z0] if D == 3 else [])

    E0 = 1e-3 * 9.1093837015e-31 * C / (1.602176634e-19 * sim.dt)
    for p in sim.patches:
        g = np.random.default_rng([sc["rseed"], 1] + pcoord(p, D))
        for i, part in enumerate(p.particles):
            m = int(g.integers(0, sc["slots"] + 1))
            part.extend(m)
            N = part.npart
            for a in UA:
                getattr(part, a)[:] = g.normal(size=N)
            for a in range(D):
                mrg = sc["pml"] if not sc["per"][a] else 0
                lo = mrg if pcoord(p, D)[a] == 0 else 0
                hi = mrg if pcoord(p, D)[a] == sc["np"][a] - 1 else 0
                getattr(part, AX[a])[:] = org(p)[a] + (lo + g.random(N) * (sc["n"][a] - lo - hi) - 0.5) * dx[a]
            part.w[:] = sc["w0"] * np.prod(dx) * g.integers(1, 3, size=N)
            part.is_dead[:] = g.random(N) < 0.25
            m0 = 0.0 if sc["species"][i]["kind"] == "g" else 1.0
            part.inv_gamma[:] = 1 / np.sqrt(m0 + part.ux**2 + part.uy**2 + part.uz**2)
        for a in ("ex", "ey", "ez"):
            f = getattr(p.fields, a)
            f[...] = E0 * g.normal(size=f.shape)
        for a in ("bx", "by", "bz"):
            f = getattr(p.fields, a)
            f[...] = E0 / C * g.normal(size=f.shape)
    eb = ["ex", "ey", "ez", "bx", "by", "bz"]
    sim.patches.sync_guard_fields(eb)
    sim.mpi.sync_guard_fields(eb)
    sim.update_lists()

    aside = {}
    off = set()

    def fix_pairs():
        if not col:
            return
        for pr in sim.collision.collisions:
            (sim.collision.disable if off & set(pr) else sim.collision.enable)((sp[pr[0]], sp[pr[1]]))

    def toggle(k, on):
        if not twin:
            (sp[k].enable if on else sp[k].disable)()
            return
        for ip, p in enumerate(sim.patches):
            part = p.particles[k]
            if not on:
                aside[k, ip] = {a: np.array(getattr(part, a)) for a in list(part.attrs) + ["is_dead"]}
                part.is_dead[:] = True
                if hasattr(part, "event"):
                    part.event[:] = False
            else:
                for a, v in aside[k, ip].items():
                    arr = getattr(part, a)
                    arr[:len(v)] = v
                    if a == "is_dead":
                        arr[len(v):] = True
        (off.discard if on else off.add)(k)
        fix_pairs()

    # without it, and without anything it makes: digests by identity
    def digest(k, order):
        res, rows = [], {}
        for p in sim.patches:
            part = p.particles[k]
            names = sorted(a for a in part.attrs)
            arrs = [np.asarray(getattr(part, a)) for a in names]
            if order:
                al = ~np.asarray(part.is_dead)       # what lies in the slots of the dead does not matter
                res.append(h32(*[a[al].tobytes() for a in arrs], al.tobytes()))
            else:
                names = [a for a in names if a not in ("event", "delta", "_id")]
                arrs = [np.asarray(getattr(part, a)) for a in names]
                l = []
                for i in np.flatnonzero(~part.is_dead):
                    l.append((int(np.asarray(part.id)[i]), h32(*[(np.atleast_1d(a[i]) + 0.0).tobytes() for a in arrs])))
                l.sort()
                res.append((pcoord(p, D), h32(json.dumps([list(x) for x in l]).encode()), len(l)))
        return res

    def glob(x):
        return COMM.allgather(x)

    def frozen(k):
        return h32(json.dumps(glob(digest(k, True))).encode())

    def olds(k, ids=None):
        """What is known by id."""
        rows = {}
        for p in sim.patches:
            part = p.particles[k]
            arrs = [np.asarray(getattr(part, a)) for a in sorted(part.attrs) if a != "_id"]
            for i in np.flatnonzero(~part.is_dead):
                rows[int(np.asarray(part.id)[i])] = h32(*[np.atleast_1d(a[i]).tobytes() for a in arrs])
        return {k: v for r in glob(rows) for k, v in r.items()}

    def fields():
        r = []
        for p in sim.patches:
            n = sc["n"]
            sl = tuple(slice(0, n[a]) for a in range(D))
            r.append((pcoord(p, D), h32(*[(np.ascontiguousarray(getattr(p.fields, a)[sl]) + 0.0).tobytes() for a in ALLF])))
        return h32(json.dumps(sorted(x for y in glob(r) for x in y)).encode())

    def near(k):
        rows = []
        for p in sim.patches:
            part = p.particles[k]
            for i in np.flatnonzero(~part.is_dead):
                rows.append([int(np.asarray(part.id)[i])] + [int(np.rint((getattr(part, AX[a])[i] / dx[a]) * 2**14)) for a in range(D)]
                            + [int(np.rint(getattr(part, a)[i] * 2**14)) if np.isfinite(getattr(part, a)[i]) and abs(getattr(part, a)[i]) < 2**15 else -777777777 for a in UA])
        return sorted(x for y in glob(rows) for x in y)

    NS = len(sp)
    log, seen = [], []
    step = {}
    free = sc["free"]

    def changes(t, when):
        for tt, ww, k, on in sc["toggles"]:
            if tt == t and ww == when:
                toggle(k, on)
                if not twin:
                    log.append({"op": "toggle", "k": k, "on": on})

    def isoff():
        return {k for k in range(NS) if (k in off if twin else not sp[k].is_enabled())}

    @callback("start")
    def begin(s):
        changes(s.itime, "start")
        step["off"] = isoff()
        if not twin:
            step["frz"] = {k: frozen(k) for k in step["off"]}
            step["old"] = {k: olds(k) for k in step["off"]}
        seen.clear()

    @callback("current_deposition")
    def who(s):
        seen.append(int(s.ispec))

    def decide(s):
        k = s.ispec
        if k not in acts:
            return
        for p in s.patches:
            part = p.particles[k]
            for i in range(part.npart):
                if part.is_dead[i]:
                    continue
                g = np.random.default_rng([sc["rseed"], 7, s.itime, k, int(np.asarray(part.id)[i]) % 2**62])
                part.event[i] = bool(g.random() < 0.4)
                part.delta[i] = 0.25 if part.event[i] else 0.0

    cbs = [begin]
    if acts:
        cbs.append(callback("_qed")(decide))
    if sc["watch"]:
        cbs.append(who)

    @callback("end")
    def finish(s):
        o = step["off"]
        e = {"off": sorted(o), "oth": {}, "near": {}}
        for k in range(NS):
            if k not in o:
                e["oth"][k] = h32(json.dumps(sorted(x for y in glob(digest(k, False)) for x in y)).encode())
                e["near"][k] = near(k)
        e["fld"] = fields()
        if not twin:
            e["dep"] = list(seen)
            e["frz"] = [[k, step["frz"][k], frozen(k), int(all(olds(k).get(i) == v for i, v in step["old"][k].items()))] for k in sorted(o)]
        log.append({"op": "step", "e": e})
        changes(s.itime, "end")

    cbs.append(finish)
    t = 0
    for m in sc["runs"]:
        changes(t, "before")
        sim.run(nsteps=m, callbacks=cbs)
        t = sim.itime
    return log


def freeze(sc):
    a = play(sc, False)
    b = [x for x in play(sc, True) if x["op"] == "step"]
    ev, n, mixed = [], 0, False
    target = {k["to"] for k in sc["species"] if k["kind"] in "ep"} | {x for k in sc["species"] if k["kind"] == "g" for x in (k["pair"] or [])}
    was, gone = set(), False
    for x in a:
        if x["op"] == "toggle":
            ev.append(x)
            if not x["on"] and x["k"] in target:
                # what others make of a kind switched off waits with it
                gone = True
            if x["on"]:
                mixed = True
                if sc["groups"] or any(k["kind"] != "n" for k in sc["species"]):
                    gone = True
            continue
        p, q = x["e"], b[n]["e"]
        n += 1
        e = {"op": "step", "off": p["off"], "dep": p["dep"], "watch": int(sc["watch"]), "frz": [[k, f0, f1, old, int(k in target)] for k, f0, f1, old in p["frz"]],
             "oth": [], "fld": [0, 0], "near": []}
        if not gone:
            if not mixed:
                e["oth"] = [[k, p["oth"][k], q["oth"].get(k, -1)] for k in sorted(p["oth"])]
                e["fld"] = [p["fld"], q["fld"]]
            for k in sorted(p["near"]):
                r, s = p["near"][k], q["near"].get(k, [])
                e["near"].append([k, [z[1:] for z in r], [z[1:] for z in s], int([z[0] for z in r] == [z[0] for z in s])])
        # what moved since the step before (a resumed species goes on)
        now = {k: p["near"][k] for k in p["near"]}
        e["still"] = [k for k in sorted(now) if k in was and len(now[k]) > 0 and was[k] == now[k]] if isinstance(was, dict) else []
        was = now
        ev.append(e)
    return ev if RANK == 0 else None


if __name__ == "__main__":
    main(lambda sc: register(sc) if sc["mode"] == "names" else freeze(sc))
