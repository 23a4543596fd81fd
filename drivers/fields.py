"""Guard exchange, current synchronisation and requests in the middle of a step, on tagged arrays."""
from common import *
from lambdapic import callback

CUR = ["jx", "jy", "jz", "rho"]


def stored(arr, ng):
    return np.roll(arr, ng, axis=tuple(range(arr.ndim)))


def one(sc):
    D = len(sc["np"])
    ng = sc["ng"]
    comps = sc["show"]
    mode = sc["mode"]
    species = [Electron(), Proton(), Electron()][:sc.get("nsp", 0)]
    sim = make_sim(sc, species)
    sim.initialize()
    ev = []

    def snap(names):
        loc = [{"c": pcoord(p, D), "v": {m: ints(stored(getattr(p.fields, m), ng)) for m in names}} for p in sim.patches]
        return gather_list(loc)

    def log(op, names=comps, **kw):
        ev.append({"op": op, "f": snap(names), **kw})

    def fill(salt, names, big):
        for p in sim.patches:
            prng = np.random.default_rng([sc["rseed"], salt] + pcoord(p, D))
            for m in names:
                a = getattr(p.fields, m)
                a[...] = prng.integers(1, big, size=a.shape)

    if mode == "guard":
        for rnd, asked in enumerate(sc["asks"]):
            fill(rnd, comps, 1 << 24)
            log("place")
            if (sc["style"] + rnd) % 2 == 0:
                sim.patches.sync_guard_fields(list(asked))
                sim.mpi.sync_guard_fields(list(asked))
            else:
                h = sim.mpi.sync_guard_fields_start(list(asked))
                sim.patches.sync_guard_fields(list(asked))
                sim.mpi.sync_guard_fields_wait(h)
            log("guard", comps=list(asked))
    elif mode == "cur":
        for rnd in range(sc["rounds"]):
            fill(rnd, comps, 1 << 20)
            log("place")
            style = (sc["style"] + rnd) % 3
            if style == 0:
                sim.patches.sync_currents()
                sim.mpi.sync_currents()
            elif style == 1:
                sim.patches.sync_currents()
                h = sim.mpi.sync_currents_start()
                sim.mpi.sync_currents_wait(h)
            else:
                sim.current_synced = False
                sim.sync_currents()
            log("cur")
            if style == 2:
                sim.sync_currents()
                log("again")
                sim.sync_currents_start()
                sim.sync_currents_wait()
                log("again")
            else:
                sim.patches.sync_currents()
                sim.mpi.sync_currents()
                log("again")
    elif mode == "race":
        # no trace of every round: the driver repeats, only the first differing round is logged
        for rnd in range(sc["rounds"]):
            fill(0, comps, 1 << 20)
            if rnd == 0:
                log("place")
            sim.patches.sync_currents()
            sim.mpi.sync_currents()
            now = [getattr(p.fields, m)[tuple(slice(0, k) for k in sc["n"])].copy() for p in sim.patches for m in CUR]
            diff = rnd == 0 or any(not np.array_equal(a, b) for a, b in zip(now, ref))
            if rnd == 0:
                ref = now
            diff = COMM.allreduce(int(diff))
            if diff:
                if rnd:
                    fill(0, comps, 1 << 20)
                    log("place")
                    for p in sim.patches:
                        pass
                    k = 0
                    for p in sim.patches:
                        for m in CUR:
                            getattr(p.fields, m)[tuple(slice(0, q) for q in sc["n"])] = now[k]
                            k += 1
                log("cur")
                if rnd:
                    break
    elif mode == "step":
        names = CUR
        plan = sc["plan"]          # per step: list per species of {dep, reqs}; pre/post requests
        cnt = [0]

        def visible(why):
            log("see", names, why=why)

        state = {"first": True}

        def dep(s):
            before = {(id(p), m): getattr(p.fields, m).copy() for p in sim.patches for m in names}
            cnt[0] += 1
            loc = []
            for p in sim.patches:
                prng = np.random.default_rng([sc["rseed"], cnt[0]] + pcoord(p, D))
                v = {}
                for m in names:
                    a = getattr(p.fields, m)
                    delta = prng.integers(1, 1 << 16, size=a.shape).astype(float)
                    a += delta
                    v[m] = ints(stored(delta, ng))
                loc.append({"c": pcoord(p, D), "v": v})
            ev.append({"op": "dep", "f": gather_list(loc), "first": state["first"]})
            state["first"] = False

        def request(kind, why):
            if kind == "sync":
                sim.sync_currents()
            elif kind == "sync2":
                sim.sync_currents()
                sim.sync_currents()
            elif kind == "start+wait":
                sim.sync_currents_start()
                sim.sync_currents_wait()
            elif kind == "start+sync":
                sim.sync_currents_start()
                sim.sync_currents()
            elif kind == "sync+wait":
                sim.sync_currents()
                sim.sync_currents_wait()
            visible(why + " by " + kind)

        @callback("current_deposition")
        def cd(s):
            pl = plan[s.itime][s.ispec]
            dep(s)
            for k in pl["reqs"]:
                request(k, "species %d" % s.ispec)
            if pl.get("start") and s.ispec == len(species) - 1:
                s.sync_currents_start()

        @callback("_push_position_1")
        def pp1(s):
            if plan[s.itime][s.ispec].get("pre"):
                if state["first"]:
                    s.sync_currents()
                else:
                    request("sync", "before species %d is pushed" % s.ispec)

        @callback("start")
        def st(s):
            if s.itime and plan[s.itime][0].get("atstart"):
                request("sync", "at the next start")
            state["first"] = True

        @callback("qed_create_particles")
        def qc(s):
            visible("when the field update uses them")
            if plan[s.itime][0].get("late"):
                request("sync", "after the exchange")

        @callback("end")
        def en(s):
            visible("at the end of the step")
        cbs = [cd, qc, en, st]
        if sc.get("stepwise"):
            cbs.append(pp1)
        sim.run(nsteps=len(plan), callbacks=cbs)
    return ev


if __name__ == "__main__":
    main(one)
