"""Neighbour tables after initialisation, rebalances and window shifts."""
from common import *


def one(sc):
    D = len(sc["np"])
    kw = {}
    cls = None
    if sc["mask"]:
        from lambdapic.simulation._mask_simulation import _MaskSimulation
        cls = _MaskSimulation
        dx = sc["dx"]
        inc = {tuple(c) for c in sc["mask"]}
        wx, wy = sc["n"][0] * dx[0], sc["n"][1] * dx[1]
        kw["mask"] = lambda x, y: (int(x // wx), int(y // wy)) in inc
    sim = make_sim(sc, [Electron()], cls=cls, **kw)
    sim.initialize()
    ev = [{"op": "init", "patches": tables(sim, D)}]
    mw = None
    for op in sc["ops"]:
        if op[0] == "balance":
            force_balance(op[1])
            sim.load_balancer.update_weights()
            sim.load_balancer()
            sim.update_patches()
        elif op[0] == "shift":
            from lambdapic import MovingWindow
            width = sim.nx_per_patch * sim.dx
            if mw is None:
                mw = MovingWindow(velocity=0.0, start_time=0.0, inject_particles=bool(op[2]))
            mw.velocity = op[1] * 1.25 * width / sim.dt if mw.total_shift is not None else (op[1] * 1.25 - 1.0) * width / sim.dt
            # the window reports accumulated distance; ask for one patch in the wanted direction
            mw.patch_this_shift = 0.0 if mw.patch_this_shift is not None else None
            mw(sim)
        elif op[0] == "run":
            sim.run(nsteps=op[1])
        ev.append({"op": op[0], "patches": tables(sim, D)})
    force_balance(None)
    return ev


if __name__ == "__main__":
    main(one)
