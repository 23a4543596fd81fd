"""Simulations whose division into patches is left to the code, in part or altogether."""
from common import *
from threadpoolctl import threadpool_limits
from lambdapic import Simulation, Simulation3D
from lambdapic.simulation.utils import get_num_threads

get_num_threads()  # loads the threads library, which is not limited before


def build(sc, **kw):
    D = len(sc["n"])
    a = {}
    for i in range(D):
        a["n" + AX[i]] = sc["n"][i]
        a["d" + AX[i]] = 1e-6 * (i + 1)
        if sc["given"][i] or not sc["omit"]:
            a["npatch_" + AX[i]] = sc["given"][i]
    b = {AX[i] + s: ("periodic" if sc["per"][i] else "pml") for i in range(D) for s in ("min", "max")}
    return (Simulation if D == 2 else Simulation3D)(**a, n_guard=sc["ng"], cpml_thickness=sc["pml"], boundary_conditions=b, random_seed=1, **kw)


def one(sc):
    D = len(sc["n"])
    e = dict(op="divide", n=sc["n"], given=sc["given"], ng=sc["ng"], pml=sc["pml"], refused=0, np=[], per=[int(x) for x in sc["per"]])
    if sc["mode"] == "refuse":
        e = dict(op="refuse", what=sc["what"], refused=0)
        try:
            with threadpool_limits(limits=1, user_api="openmp"):
                build(sc, **({"nsteps": 5, "sim_time": 1e-15} if sc["what"] == "both" else {}))
        except Exception:
            e["refused"] = 1
        return [e]
    t = sc["threads"][RANK % len(sc["threads"])]
    e["threads"] = sum(COMM.allgather(t))
    try:
        with threadpool_limits(limits=t, user_api="openmp"):
            sim = build(sc)
    except Exception as x:
        e["refused"] = 1
        e["err"] = type(x).__name__
    else:
        e["np"] = [int(getattr(sim, "npatch_" + AX[i])) for i in range(D)]
    all_ = COMM.allgather([e["refused"], e["np"]])
    ev = [e]
    e["same"] = int(all(x == all_[0] for x in all_))
    if sc["init"] and not any(x[0] for x in all_) and SIZE <= np.prod(e["np"]) <= 64:
        i = dict(op="tiles", n=sc["n"], failed="", tiles=[])
        try:
            sim.add_species([Electron(name="e")])
            sim.initialize()
            sim.run(1)
            d = [getattr(sim, "d" + AX[a]) for a in range(D)]
            mine = [[[int(round(getattr(p, AX[a] + "0") / d[a])) for a in range(D)], [int(getattr(p, "n" + AX[a])) for a in range(D)]] for p in sim.patches]
        except Exception as x:
            mine = []
            i["failed"] = type(x).__name__
        i["failed"] = next((x for x in COMM.allgather(i["failed"]) if x), "")
        i["tiles"] = gather_list(mine) or []
        ev.append(i)
    return ev


main(one)
