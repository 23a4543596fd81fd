"""Particle exchange: places tagged particles anywhere within reach, runs the exchange, records."""
from common import *

U = 8


def slots(p, ispec, D, dx, ids, scn):
    part = p.particles[ispec]
    pos = [np.asarray(getattr(part, AX[a])) for a in range(D)]
    others = [a for a in part.attrs if a not in AX[:D] and a != "_id"]
    cols = [np.asarray(getattr(part, a)) for a in others]
    pid = part.id
    res = []
    for i in range(len(part.is_dead)):
        if part.is_dead[i]:
            continue
        # positions measured from the lower corner of cell 0
        row = [1] + [as_int((pos[a][i] / dx[a] + 0.5) * U) for a in range(D)]
        row += [as_int(c[i]) for c in cols] + [ids.get(int(pid[i]), -1)]
        res.append(row)
    return res


def one(sc):
    np_, n, per = sc["np"], sc["n"], sc["per"]
    D = len(np_)
    dx = sc.get("dx") or [0.5] * D
    rng = np.random.default_rng(sc["rseed"])
    kinds = sc["kinds"]
    sp = []
    for k in kinds:
        if k == "e":
            sp.append(Electron())
        elif k == "p":
            sp.append(Proton())
        elif k == "s":
            sp.append(Electron(polarization=(0., 0., 1.)))
        elif k == "q":
            e = Electron(radiation="photons")
            ph = Photon()
            e.set_photon(ph)
            sp.append(e)
            sp.append(ph)
        elif k == "x":
            s = Electron()
            s._aux_attrs = ["aux1", "aux2"]
            sp.append(s)
    sim = make_sim(sc, sp)
    sim.initialize()
    P = sim.patches
    nsp = len(P.species)
    ev = []
    ids = {}
    tag = [0]

    def log(op):
        e = {"op": op, "sp": []}
        for k in range(nsp):
            loc = [{"c": pcoord(p, D), "s": slots(p, k, D, dx, ids, sc)} for p in P]
            allp = gather_list(loc)
            e["sp"].append(allp)
        return e

    def reach(a):
        return max(1, (n[a] - (sc.get("pml", 1) if not per[a] else 0))) * U

    for rnd in range(sc["rounds"]):
        for p in P:
            c = pcoord(p, D)
            prng = np.random.default_rng([sc["rseed"], rnd] + c)
            for k in range(nsp):
                part = p.particles[k]
                if rnd == 0:
                    tot = int(prng.integers(0, sc["maxslots"] + 1))
                    if tot:
                        part.extend(tot)
                nlive_target = prng.random()
                if sc.get("clone"):
                    pass
                for i in range(len(part.is_dead)):
                    if part.is_dead[i]:
                        # freshly created particle in this dead slot
                        if (rnd == 0 and prng.random() < sc["fill"]) or (rnd > 0 and prng.random() < 0.15):
                            tag[0] += 1
                            t = (((c[0] * 16 + c[1]) * 16 + (c[2] if D == 3 else 0)) * 2048 + tag[0]) * 32
                            for j, aname in enumerate([a for a in part.attrs if a not in AX[:D] and a != "_id"]):
                                getattr(part, aname)[i] = float(t + j)
                            part.is_dead[i] = False
                        else:
                            # stale values left in a free slot, possibly positions anywhere
                            if prng.random() < 0.7:
                                for a in range(D):
                                    getattr(part, AX[a])[i] = float(prng.integers(-50, 50)) * dx[a]
                            continue
                    elif rnd > 0 and prng.random() < 0.1:
                        part.is_dead[i] = True
                        continue
                    for a in range(D):
                        cat = prng.choice([0, 0, -1, 1]) if prng.random() < sc["move"] else 0
                        thin = sc.get("pml", 1) if not per[a] else 0
                        lo = c[a] * n[a] * U + (thin * U if c[a] == 0 else 0)
                        hi = (c[a] + 1) * n[a] * U - (thin * U if c[a] == np_[a] - 1 else 0)
                        r = reach(a)
                        if cat == 0:
                            v = int(prng.integers(lo // 2, hi // 2)) * 2 + 1
                        elif cat < 0:
                            v = lo - int(prng.integers(0, r // 2)) * 2 - 1
                        else:
                            v = hi + int(prng.integers(0, r // 2)) * 2 + 1
                        getattr(part, AX[a])[i] = (v / U - 0.5) * dx[a]
        # identities as they are now
        loc = []
        for p in P:
            for k in range(nsp):
                part = p.particles[k]
                loc += [int(x) for x, d in zip(part.id, part.is_dead) if not d]
        allids = COMM.bcast(gather_list(loc))
        ids.clear()
        for j, x in enumerate(allids):
            ids[x] = j
        if len(ids) != len(allids):
            ids["dup"] = -2
        ev.append(log("place"))
        if SIZE > 1:
            if sc.get("style", 0) == 0:
                hs = [sim.mpi.sync_particles_start(k) for k in range(nsp)]
                order = list(range(nsp))
                if sc.get("revwait"):
                    order.reverse()
                for k in order:
                    sim.mpi.sync_particles_wait(hs[k])
            else:
                for k in range(nsp):
                    sim.mpi.sync_particles(k)
        P.sync_particles()
        ev.append(log("exchange"))
    return ev


if __name__ == "__main__":
    main(one)
