"""Runs with forced emission and conversion events; records the creation of every step and all identities."""
from common import *
import math
from lambdapic import callback, MovingWindow


def build(sc):
    """kinds: species in registration order, with links by name."""
    sp = {}
    for k in sc["species"]:
        if k["kind"] == "e":
            s = Electron(name=k["name"], radiation="photons" if k.get("photon") else None, **({"polarization": (0., 0., 1.)} if k.get("spin") else {}))
        elif k["kind"] == "p":
            s = Positron(name=k["name"], radiation="photons" if k.get("photon") else None)
        else:
            s = Photon(name=k["name"])
        s._aux_attrs = ["tag"]
        sp[k["name"]] = s
    for k in sc["species"]:
        s = sp[k["name"]]
        if k["kind"] in "ep" and k.get("photon"):
            s.set_photon(sp[k["photon"]])
        if k["kind"] == "g" and k.get("pair"):
            s.set_bw_pair(electron=sp[k["pair"][0]], positron=sp[k["pair"][1]])
    return [sp[k["name"]] for k in sc["species"]]


class Interner(dict):
    def __call__(self, v):
        v = float(v)
        return self.setdefault("nan" if v != v else v, len(self) + 1)


def one(sc):
    D = len(sc["np"])
    n = sc["n"]
    dx = sc["dx"]
    sp = build(sc)
    sim = make_sim(sc, sp)
    sim.initialize()
    names = [k["name"] for k in sc["species"]]
    rng_step = [0]
    val, ids = Interner(), {}
    tags = [1]
    links = []
    for k in sc["species"]:
        if k["kind"] in "ep" and k.get("photon"):
            links.append({"kind": "emit", "sp": names.index(k["name"]) + 1, "photon": names.index(k["photon"]) + 1})
        if k["kind"] == "g" and k.get("pair"):
            links.append({"kind": "pair", "sp": names.index(k["name"]) + 1, "ele": names.index(k["pair"][0]) + 1, "pos": names.index(k["pair"][1]) + 1})
    sc["links"] = links
    acts = {x["sp"] - 1 for x in links}
    cur = {}

    def rows(flags):
        res = []
        for k in range(len(names)):
            m = 0.0 if sc["species"][k]["kind"] == "g" else 1.0
            loc = []
            for p in sim.patches:
                part = p.particles[k]
                for i in np.flatnonzero(~part.is_dead):
                    u = [float(part.ux[i]), float(part.uy[i]), float(part.uz[i])]
                    pos = [float(getattr(part, AX[a])[i]) for a in range(D)]
                    fl = bool(part.event[i]) if flags and hasattr(part, "event") and k in acts else False
                    g = float(part.inv_gamma[i]) ** 2 * (m + sum(x * x for x in u))
                    loc.append({"k": [pcoord(p, D), pos, float(part.w[i])],
                                "u": [as_int(x * 8 * 8**sc["steps"]) if False else as_int(x) for x in u],
                                "id": int(part.id[i]), "ev": int(fl), "d": as_int(part.delta[i] * 8) if fl else 0,
                                "g": as_int(round(g * 2**20)) if g == g and g < 1e3 else -1})
            loc = gather_list(loc)
            if RANK == 0:
                for r in loc:
                    r["k"] = r["k"][0] + [val(x) for x in r["k"][1]] + [val(r["k"][2])]
                    r["id"] = ids.setdefault(r["id"], len(ids) + 1)
            res.append(loc)
        return res

    @callback("start")
    def stale(sim):
        for ip, p in enumerate(sim.patches):
            rng = np.random.default_rng([sc["rseed"], 1, rng_step[0]] + pcoord(p, D))
            for k in range(len(names)):
                part = p.particles[k]
                if hasattr(part, "event"):
                    part.event[:] = rng.random(part.npart) < 0.5
                    part.delta[:] = 0.25

    @callback("maxwell_1")
    def vacuum(sim):
        for p in sim.patches:
            for a in ("ex", "ey", "ez", "bx", "by", "bz"):
                getattr(p.fields, a).fill(0.0)

    @callback("_qed")
    def decide(sim):
        k = sim.ispec
        if k not in acts:
            return
        for p in sim.patches:
            rng = np.random.default_rng([sc["rseed"], 2, rng_step[0], k] + pcoord(p, D))
            part = p.particles[k]
            for i in range(part.npart):
                r, q = rng.random(), int(rng.integers(1, 8))
                if not part.is_dead[i]:
                    # keep u a multiple of 8 so that fractions in eighths are exact
                    ok = all(abs(float(getattr(part, a)[i])) % 8 == 0 for a in ("ux", "uy", "uz"))
                    part.event[i] = bool(r < sc["rate"] and ok)
                    part.delta[i] = q / 8 if part.event[i] else 0.0

    @callback("current_deposition")
    def before(sim):
        cur["b"] = None
        if SIZE > 1 or sim.ispec == last():
            cur["b"] = rows(True)
        for p in sim.patches:
            for part in p.particles:
                part.tag[part.is_dead] = 0

    def last():
        return max(k for k in range(len(names)) if sp[k].is_enabled())

    @callback("qed_create_particles")
    def after(sim):
        cur["a"] = rows(False)

    mw = None
    ev = []

    def fill():
        for p in sim.patches:
            rng = np.random.default_rng([sc["rseed"], 3, rng_step[0]] + pcoord(p, D))
            for k in range(len(names)):
                part = p.particles[k]
                if sc["species"][k].get("empty") and rng_step[0] == 0:
                    continue
                m = int(rng.integers(0, sc["slots"] + 1))
                if rng_step[0] == 0:
                    part.extend(m)
                for i in range(part.npart):
                    if part.is_dead[i] and rng.random() < (0.6 if rng_step[0] == 0 else 0.1):
                        if rng_step[0] and not sc.get("reuse"):
                            continue
                        for a in part.attrs:
                            if a != "_id":
                                getattr(part, a)[i] = 0.0
                        part.is_dead[i] = False
                        org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
                        for a in range(D):
                            mrg = 2 if sc["still"] else 0
                            q = int(rng.integers(mrg * 2, 2 * n[a] - mrg * 2))
                            lo = 0
                            getattr(part, AX[a])[i] = org[a] + (q / 2 - 0.25) * dx[a]
                        part.w[i] = float(rng.integers(1, 1000)) + k / 16
                        u = [512 * int(rng.integers(-3, 4)) for _ in range(3)]
                        if not any(u):
                            u[0] = 512
                        part.ux[i], part.uy[i], part.uz[i] = u
                        m0 = 0.0 if sc["species"][k]["kind"] == "g" else 1.0
                        part.inv_gamma[i] = (m0 + sum(x * x for x in u)) ** -0.5
                        if hasattr(part, "sx"):
                            part.sx[i] = part.sy[i] = part.sz[i] = 0.5
                        # a slot filled by hand is a new particle: own identity
                        if rng_step[0]:
                            part._id[i] = part._generate_ids(part._npart_created, 1)[0]
                            part._npart_created += 1

    fill()
    sim.update_lists()
    for step in range(sc["steps"]):
        rng_step[0] = step
        if step and sc.get("kill"):
            for p in sim.patches:
                rng = np.random.default_rng([sc["rseed"], 4, step] + pcoord(p, D))
                for part in p.particles:
                    part.is_dead |= rng.random(part.npart) < 0.15
        cbs = [stale, vacuum, decide, before, after]
        if sc.get("balance") and step in sc["balance"]:
            pass
        sim.run(nsteps=1, callbacks=cbs)
        if RANK == 0:
            ev.append({"before": cur["b"], "after": cur["a"]})
    return ev


if __name__ == "__main__":
    main(one)
