"""Particle containers under sequences of growths, deaths, shrinks and copies."""
from common import *
import pickle, copy as cp
import dill
from lambdapic.core.particles import ParticlesBase, QEDParticles, SpinParticles, SpinQEDParticles
KINDS = {"base": ParticlesBase, "qed": QEDParticles, "spin": SpinParticles, "spinqed": SpinQEDParticles}


def one(sc):
    ids, nextval = {}, [1]
    P = KINDS[sc["kind"]](ipatch=sc["ipatch"], rank=sc["rank"])
    P.attrs += sc["aux"]

    def snap(p):
        out = []
        names = [a for a in p.attrs if a != "_id"]
        L = min([len(getattr(p, a)) for a in p.attrs] + [len(p.is_dead)])
        for i in range(L):
            key = int(p.id[i])
            out.append({"id": ids.setdefault(key, len(ids) + 1), "dead": bool(p.is_dead[i]), "w0": bool(p.w[i] == 0),
                        "ev": bool(p.event[i]) if hasattr(p, "event") else False,
                        "row": [as_int(getattr(p, a)[i]) for a in names]})
        ok = all(len(getattr(p, a)) == p.npart for a in p.attrs) and len(p.is_dead) == p.npart
        if hasattr(p, "event"):
            ok = ok and len(p.event) == p.npart
        return {"slots": out, "npart": int(p.npart), "shape_ok": bool(ok)}

    def fill(p, sel):
        for a in p.attrs:
            if a == "_id":
                continue
            for i in sel:
                getattr(p, a)[i] = nextval[0]
                nextval[0] += 1
        if hasattr(p, "event"):
            for i in sel:
                p.event[i] = bool((nextval[0] * 7 + i * 3) % 2)

    ev = []
    for op in sc["ops"]:
        k = op[0]
        if k == "init":
            P.initialize(op[1])
            ev.append({"op": "init", "n": op[1], **snap(P)})
        elif k == "grow":
            P.extend(op[1])
            ev.append({"op": "grow", "n": op[1], **snap(P)})
        elif k == "use":    # refill free slots with new content
            sel = [i for i in range(P.npart) if P.is_dead[i]][:op[1]]
            P.is_dead[sel] = False
            fill(P, sel)
            ev.append({"op": "set", **snap(P)})
        elif k == "fill":
            fill(P, range(P.npart))
            ev.append({"op": "set", **snap(P)})
        elif k == "kill":
            sel = [i for i in range(P.npart) if (i * op[1] + op[2]) % 3 == 0]
            P.is_dead[sel] = True
            ev.append({"op": "set", **snap(P)})
        elif k == "shrink":
            P.prune() if op[1] is None else P.prune(extra_buff=op[1])
            ev.append({"op": "shrink", **snap(P)})
        elif k == "copy":
            Q = P
            before = snap(Q)["slots"]
            P = {"pickle": lambda: pickle.loads(pickle.dumps(Q)), "pickle5": lambda: pickle.loads(pickle.dumps(Q, protocol=5)),
                 "dill": lambda: dill.loads(dill.dumps(Q)), "deep": lambda: cp.deepcopy(Q)}[op[1]]()
            ev.append({"op": "copy", **snap(P)})
            fill(P, range(P.npart))
            P.is_dead[:] = ~P.is_dead
            ev.append({"op": "set", **snap(P)})
            P.extend(2)
            ev.append({"op": "grow", "n": 2, **snap(P)})
            ev.append({"op": "orig", "before": before, **snap(Q)})
    return ev


if __name__ == "__main__":
    main(one)
