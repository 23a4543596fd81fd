"""Runs with recording callbacks at random stages: the sequence of calls, stop requests and returns."""
from common import *
from lambdapic import callback
from lambdapic.callback.callback import Callback


def one(sc):
    D = len(sc["np"])
    mk = {"e": Electron, "p": Proton, "g": Photon}
    sp = []
    for i, k in enumerate(sc["kinds"]):
        sp.append(mk[k](name=f"s{i}"))
    kw = {}
    ph = [s for s, k in zip(sp, sc["kinds"]) if k == "g"]
    ev = []
    if sc.get("ctor"):
        c = sc["ctor"]
        if c["kind"] == "nsteps":
            kw["nsteps"] = c["n"]
        else:
            kw["sim_time"] = (c["n"] + c["frac"]) * sc["dt"]
    for s, k in zip(sp, sc["kinds"]):
        if k == "e" and ph and sc["qed"]:
            s.radiation = "photons"
            s.set_photon(ph[0])
    sim = make_sim(sc, sp, **kw)
    for s in sc["off"]:
        sim.species[s - 1].disable()
    ev.append({"op": "rank"})
    for s in sc["off"]:
        ev.append({"op": "toggle", "s": s, "on": 0})

    def rec(s, i):
        ev.append({"op": "call", "cb": i, "ispec": int(s.ispec) if getattr(s, "ispec", None) is not None else -1,
                   "it": int(s.itime), "tq": as_int(round(s.time / s.dt * 1000))})
        for t in sc["toggles"]:
            if t[0] == i and t[1] == s.itime:
                x = s.species[t[2] - 1]
                on = not x.is_enabled()
                x.enable() if on else x.disable()
                ev.append({"op": "toggle", "s": t[2], "on": int(on)})

    def make(i, form, stage):
        if form == "decorator":
            @callback(stage)
            def f(s):
                rec(s, i)
            return f
        if form == "keyword":
            @callback(stage=stage, interval=1)
            def f(s):
                rec(s, i)
            return f
        if form == "default":
            @callback()
            def f(s):
                rec(s, i)
            return f
        if form == "plain":
            def f(s):
                rec(s, i)
            return f
        if form == "bare":
            # any object with a stage that can be called
            class B:
                def __call__(self, s):
                    rec(s, i)
            b = B()
            b.stage = stage
            return b

        class C(Callback):
            def __init__(self):
                self.stage, self.interval = stage, 1

            def _call(self, s):
                rec(s, i)
        return C()
    cbs = [make(i, f, st) for i, (f, st) in enumerate(zip(sc["forms"], sc["stages"]), 1)]
    for run in sc["runs"]:
        left = [run.get("stop_after")]

        def stop():
            if left[0] is None:
                return False
            left[0] -= 1
            ans = left[0] <= 0
            ev.append({"op": "stop", "ans": int(ans)})
            return ans
        args = dict(callbacks=cbs if cbs or run.get("empty") else None)
        if run.get("stop_after") is not None:
            args["stop_callback"] = stop
        if run["mode"] == "add":
            args["nsteps"] = run["n"]
            ev.append({"op": "run", "mode": "add", "n": run["n"]})
        elif run["mode"] == "time":
            args["sim_time"] = (run["n"] + run["frac"]) * sc["dt"]
            ev.append({"op": "run", "mode": "total", "n": run["n"]})
        else:
            ev.append({"op": "run", "mode": "total", "n": sc["ctor"]["n"]})
        sim.run(**args)
        ev.append({"op": "ret", "it": int(sim.itime), "tq": as_int(round(sim.time / sim.dt * 1000))})
    assert abs(sim.dt / sc["dt"] - 1) < 1e-9
    al = COMM.gather(ev, root=0)
    return [e for x in al for e in x] if RANK == 0 else None


if __name__ == "__main__":
    main(one)
