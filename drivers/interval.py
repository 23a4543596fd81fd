"""Runs with periodic callbacks of every kind: the steps at which their stage was reached and their body ran."""
from common import *
import tempfile, shutil
from lambdapic import callback
from lambdapic.callback.callback import Callback
from lambdapic.callback import hdf5, utils, restart, plot


def one(sc):
    D = len(sc["np"])
    sp = [Electron(name="e")]
    sim = make_sim(sc, sp)
    tmp = tempfile.mkdtemp(prefix="vfint_") if RANK == 0 else None
    tmp = COMM.bcast(tmp, root=0)
    sim.initialize()
    if sc["start"]:
        # a run that has gone on for a while
        sim.itime = sc["start"]
        if sc["clock"] == "product":
            sim.time = sim.itime * sim.dt
        else:
            for _ in range(sc["start"]):
                sim.time += sim.dt
    ev, cbs, logs, visits = [], [], [], {}
    for st in sorted({c["stage"] for c in sc["cbs"]}):
        visits[st] = []

        def mk(v, st):
            @callback(st)
            def seen(s):
                v.append(int(s.itime))
            return seen
        cbs.append(mk(visits[st], st))

    def value(i):
        if i["k"] == "int":
            return i["n"]
        if i["k"] == "time":
            return i["a"] * sim.dt / i["b"]
        f = lambda s: (s.itime * i["m"] + i["c"]) % 7 < i["w"]
        if i["form"] == "int":
            return lambda s: int(f(s)) * 3
        if i["form"] == "np":
            return lambda s: np.bool_(f(s))
        if i["form"] == "obj":
            class P:
                def __call__(self, s):
                    return f(s)
            return P()
        return f
    for c in sc["cbs"]:
        at, iv, st, e = [], value(c["i"]), c["stage"], sim.species[0]
        logs.append(at)
        body = lambda s, at=at: at.append(int(s.itime))
        k = c["cls"]
        if k == "decorator":
            @callback(st, iv)
            def cb(s, body=body):
                body(s)
        elif k == "keyword":
            @callback(interval=iv, stage=st)
            def cb(s, body=body):
                body(s)
        elif k == "method":
            class M:
                @callback(st, iv)
                def go(self, s):
                    self.body(s)
            m = M()
            m.body = body
            # a bound method of a decorated function
            cb = type("W", (), {"__call__": lambda self, s, m=m: m.go(s), "stage": st})()
        elif k == "class":
            class C(Callback):
                stage = st

                def _call(self, s):
                    self.body(s)
            if not callable(iv):
                C.interval = iv
            cb = C()
            if callable(iv):
                cb.interval = iv
            cb.body = body
        else:
            if k == "fields":
                cb = hdf5.SaveFieldsToHDF5(tmp + "/f", iv, ["ex"])
            elif k == "density":
                cb = hdf5.SaveSpeciesDensityToHDF5(e, tmp + "/d", iv)
            elif k == "particles":
                cb = hdf5.SaveParticlesToHDF5(e, tmp + "/p", iv, ["x"])
            elif k == "restart":
                cb = restart.RestartDump(tmp + "/r", iv)
            elif k == "momentum":
                cb = utils.SetMomentum(e, [0, 0, 0], iv)
            elif k == "temperature":
                cb = utils.SetTemperature(e, 10.0, iv)
            elif k == "both":
                cb = utils.SetMomentumAndTemperature(e, [0, 0, 0], 10.0, iv)
            elif k == "extract":
                cb = utils.ExtractSpeciesDensity(sim, e, iv)
            elif k == "plot":
                cb = plot.PlotFields([dict(field="ex", scale=1, cmap="bwr")], tmp + "/pl", iv)
            else:
                cb = utils.LoadParticles(e, tmp + "/x.h5", iv)
            cb.stage = st
            cb._call = body
        cbs.append(cb)
    for n in sc["runs"]:
        sim.run(nsteps=n, callbacks=cbs)
    for c, at in zip(sc["cbs"], logs):
        ev.append({"op": "fired", "cls": c["cls"], "i": c["i"], "visits": visits[c["stage"]], "at": at})
    for cls, text in sc["bad"]:
        iv, when = eval(text), "never"
        try:
            if cls == "decorator":
                @callback("end", iv)
                def cb(s):
                    pass
            else:
                class C(Callback):
                    stage, interval = "end", iv

                    def _call(self, s):
                        pass
                cb = C()
            try:
                cb(sim)
            except (TypeError, ValueError):
                when = "use"
        except (TypeError, ValueError):
            when = "create"
        ev.append({"op": "invalid", "cls": cls, "val": text, "when": when})
    COMM.Barrier()
    if RANK == 0:
        shutil.rmtree(tmp)
    al = COMM.gather(ev, root=0)
    return [e for x in al for e in x] if RANK == 0 else None


if __name__ == "__main__":
    main(one)
