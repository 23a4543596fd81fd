"""Bucket sorts of randomly filled patches, repeated between motions, deaths and growth."""
from common import *
U = 8


def rows(p, k, D, dx, ids):
    part = p.particles[k]
    names = [a for a in part.attrs if a not in AX[:D] and a != "_id"]
    out = []
    for i in range(part.npart):
        dead = bool(part.is_dead[i])
        # storage positions: (x - x0)/dx + 1/2 in eighths of a cell
        org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
        pos = [as_int(((getattr(part, AX[a])[i] - org[a]) / dx[a] + 0.5) * U) for a in range(D)]
        out.append([1 if dead else 0] + pos + [ids.setdefault(int(part.id[i]), len(ids) + 1)] + [as_int(getattr(part, n)[i]) for n in names])
    return out


def one(sc):
    D = len(sc["np"])
    n = sc["n"]
    dx = sc["dx"]
    rng = np.random.default_rng(sc["rseed"])
    sp = [Electron(), Proton(), Electron(polarization=(0., 0., 1.))]
    sim = make_sim(sc, sp)
    if sc["collide"]:
        sim.add_collision([[sp[0], sp[1]]])
    sim.initialize()
    from lambdapic.core.sort.particle_sort import ParticleSort2D, ParticleSort3D
    sorters = []
    for s in range(3):
        if s == 2 and sc["layout"]:
            # an own layout: wider buckets, both numberings
            lay = sc["layout"]
            cls = ParticleSort2D if D == 2 else ParticleSort3D
            kw = {f"n{AX[a]}_buckets": lay["nb"][a] for a in range(D)}
            kw.update({f"d{AX[a]}_buckets": lay["bw"][a] / U * dx[a] for a in range(D)})
            sorters.append(cls(sim.patches, sp[2], reverse_x=lay["rev"], **kw))
        else:
            sorters.append(sim.sorter[s])
    ev = []
    ids = {}
    tag = [1]

    def layout(s):
        q = sorters[s]
        return ([int(getattr(q, f"n{AX[a]}_buckets")) for a in range(D)],
                [as_int(getattr(q, f"d{AX[a]}_buckets") / dx[a] * U) for a in range(D)])

    def put(p, part, i):
        org = [p.x0, p.y0] + ([p.z0] if D == 3 else [])
        for a in range(D):
            w = int(n[a]) * U
            q = 2 * int(rng.integers(0, w // 2)) + 1
            r = rng.random()
            if r < sc["oob"]:
                q = int(rng.choice([-1, -3, w + 1, w + 3]))
            elif r < sc["oob"] + 0.15:
                q = int(rng.choice([1, w - 1, (w // (2 * U)) * U + 1, (w // (2 * U)) * U]))
            getattr(part, AX[a])[i] = org[a] + (q / U - 0.5) * dx[a]

    def fill(p, part, i):
        for a in part.attrs:
            if a in AX[:D] or a == "_id":
                continue
            getattr(part, a)[i] = tag[0]
            tag[0] += 1
        if sc["drift"] < 0:
            part.ux[i] *= -1
        put(p, part, i)

    for rnd in range(sc["rounds"]):
        for p in sim.patches:
            for k in range(3):
                part = p.particles[k]
                if rnd == 0 or rng.random() < 0.3:
                    m = int(rng.integers(0, sc["maxslots"] + 1))
                    if rnd == 0 or sc["grow"]:
                        part.extend(m)
                        new = range(part.npart - m, part.npart)
                        alive = [i for i in new if rng.random() < sc["fill"]]
                        part.is_dead[alive] = False
                        for i in alive:
                            fill(p, part, i)
                if rnd:
                    for i in range(part.npart):
                        r = rng.random()
                        if part.is_dead[i]:
                            if r < 0.1:
                                part.is_dead[i] = False
                                fill(p, part, i)
                        elif r < 0.15:
                            part.is_dead[i] = True
                        elif r < 0.5:
                            put(p, part, i)
                if rnd and rng.random() < 0.1 and part.npart:
                    part.prune(extra_buff=0.2)
        if sc["lists"]:
            sim.update_lists()
            if sc["layout"]:
                for ip in range(len(sim.patches)):
                    sorters[2].update_particle_lists(ip)
        for k in range(3):
            before = [rows(p, k, D, dx, ids) for p in sim.patches]
            sorters[k]()
            nb, bw = layout(k)
            for ip, p in enumerate(sim.patches):
                ev.append({"sorter": k, "nb": nb, "bw": bw, "mirror_ok": int(np.prod(nb[1:])) == 1, "before": before[ip],
                           "after": rows(p, k, D, dx, ids),
                           "lo": [int(v) for v in sorters[k].bucket_bound_min_list[ip].ravel()],
                           "hi": [int(v) for v in sorters[k].bucket_bound_max_list[ip].ravel()]})
    return ev


if __name__ == "__main__":
    main(one)
