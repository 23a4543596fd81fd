"""Runs with checkpoint callbacks, on request signals: the directory listings after every step."""
from common import *
import re, signal, shutil, tempfile, time
from pathlib import Path
from lambdapic import callback
from lambdapic.callback import restart

STATE = {"count": 0, "early": [], "delay": 0.0}


class Probe:
    """Travels inside the simulation: sees the disk at the moment a process saves itself."""

    def __init__(self, dirs):
        self.dirs = dirs

    def __getstate__(self):
        STATE["count"] += 1
        if STATE["delay"]:
            time.sleep(STATE["delay"])
        STATE["early"].append([listing(d)["steps"] for d in self.dirs])
        return {"dirs": self.dirs}


def is_ckpt(d):
    return d.is_dir() and re.fullmatch(r"ckpt_\d+", d.name)


def listing(d):
    d = Path(d)
    es = sorted(d.iterdir())
    ck = [x for x in es if is_ckpt(x)]
    return {"steps": sorted(int(x.name[5:]) for x in ck),
            "ranks": [[int(x.name[5:]), sorted(int(f.name[5:11]) for f in x.iterdir() if re.fullmatch(r"rank_\d{6}\.pkl", f.name))] for x in ck],
            "other": sorted(str(f.relative_to(d)) for x in es if not is_ckpt(x) for f in [x] + list(x.rglob("*")))}


def one(sc):
    D = len(sc["np"])
    sp = [Electron(name="e")]
    tmp = tempfile.mkdtemp(prefix="vfck_") if RANK == 0 else None
    tmp = COMM.bcast(tmp, root=0)
    old = {s: signal.getsignal(s) for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGTERM, signal.SIGINT)}
    try:
        return body(sc, sp, tmp)
    finally:
        for s, h in old.items():
            signal.signal(s, h)
        COMM.Barrier()
        if RANK == 0:
            shutil.rmtree(tmp)


def body(sc, sp, tmp):
    sim = make_sim(sc, sp)
    sim.initialize()
    sim.itime = sc["start"]
    sim.time = sim.itime * sim.dt
    dirs = [f"{tmp}/d{i}" for i in range(len(sc["dumps"]))]
    if RANK == 0:
        for d, c in zip(dirs, sc["dumps"]):
            os.mkdir(d)
            for name in c["pre"]:
                p = Path(d) / name
                if name.endswith("/"):
                    p.mkdir()
                    for r in range(SIZE):
                        (p / f"rank_{r:06d}.pkl").write_text("old")
                else:
                    p.write_text("keep me")
    COMM.Barrier()
    rd = []
    for d, c in zip(dirs, sc["dumps"]):
        iv = c["iv"]
        if c["kind"] == "pred":
            iv = lambda s, n=c["iv"]: s.itime % n == 0
        elif c["kind"] == "never":
            iv = lambda s: False
        sigs = {"none": False, "true": True, "usr": [signal.SIGUSR1], "two": [signal.SIGUSR2, signal.SIGUSR1]}[c["sigs"]]
        rd.append(restart.RestartDump(d, iv, keep=c["keep"] if c["keep"] >= 0 else None, dump_signals=sigs))
    sim.probe = Probe(dirs)
    ev, began, finals = [], [], []

    def look():
        COMM.Barrier()
        x = [listing(d) for d in dirs]
        COMM.Barrier()
        return x

    def early():
        # steps on disk at the moment of each save, all processes together
        a = COMM.allgather(STATE["early"])
        STATE["early"] = []
        return a
    if RANK == 0 or True:
        ev.append({"op": "begin", "dirs": look()})

    def step_end(s):
        n = COMM.allgather(STATE["count"])
        ev.append({"op": "step", "s": int(s.itime), "saves": n, "early": early(), "dirs": look()})
        STATE["count"] = 0

    @callback("start")
    def started(s):
        began.append(int(s.itime))

    @callback("final")
    def final(s):
        finals.append(int(s.itime))
    cbs = [started, final]

    def kicker(g):
        @callback(g["stage"])
        def kick(s):
            if s.itime == g["step"] and RANK in g["ranks"] and not kick.__dict__.get("done"):
                kick.done = True
                os.kill(os.getpid(), getattr(signal, g["sig"]))
                for _ in range(3):
                    time.sleep(0.001)
        return kick
    for run in sc["runs"]:
        STATE.update(count=0, early=[], delay=0.05 * RANK if sc["slow"] else 0.0)
        g = run.get("sig")
        kick = [kicker(g)] if g and not g.get("before") else []
        if g and g.get("before") and RANK in g["ranks"]:
            os.kill(os.getpid(), getattr(signal, g["sig"]))
            time.sleep(0.002)
        look()

        @callback("end")
        def seen(s):
            step_end(s)
        first = kick if run["order"] == "first" else []
        last = kick if run["order"] != "first" else []
        began.clear()
        finals.clear()
        at = int(sim.itime)
        sim.run(nsteps=run["n"], callbacks=first + cbs + rd + last + [seen])
        e = {"op": "ran", "from": at, "n": run["n"], "began": list(began), "finals": len(finals), "itime": int(sim.itime),
             "saves": COMM.allgather(STATE["count"]), "early": early(), "dirs": look()}
        if g:
            e.update(asked=1, step=at if g.get("before") else g["step"], dir=g["dir"])
            # the saved state must load
            d = Path(dirs[g["dir"] - 1]) / f"ckpt_{began[-1]:06d}"
            try:
                keep, state = species_mod._ALL_SPECIES[:], dict(STATE)
                s2 = restart.RestartDump.load(d)
                quiet()
                e["loaded"] = int(s2.itime)
                species_mod._ALL_SPECIES[:] = keep
                STATE.update(state)
            except Exception as x:
                e["loaded"] = -1
            # continue with the next step, as a process that loads the checkpoint does
            sim.itime += 1
            sim.time += sim.dt
        else:
            e.update(asked=0, step=-1, dir=0, loaded=-1)
        ev.append(e)
    al = COMM.gather(ev, root=0)
    if RANK:
        return None
    # every process sees the same steps
    for i, e in enumerate(al[0]):
        if e["op"] == "ran":
            e["same"] = int(all(x[i]["op"] == "ran" and all(x[i][k] == e[k] for k in ("began", "finals", "itime", "loaded")) for x in al if len(x) == len(al[0]))
                            and all(len(x) == len(al[0]) for x in al))
    return al[0]


if __name__ == "__main__":
    main(one)
