"""Helpers shared by the drivers. Drivers run the code and record; they never judge."""
import json, os, sys, traceback, warnings
warnings.filterwarnings("ignore")
import numpy as np
from mpi4py import MPI

COMM = MPI.COMM_WORLD
RANK, SIZE = COMM.Get_rank(), COMM.Get_size()
SRC = os.environ.get("VF_SRC")

import loguru
loguru.logger.remove()
import numba
import numba.typed


class _Held:
    __slots__ = ("arr", "shape")

    def __init__(self, a):
        self.arr, self.shape = a, a.shape


class AddressList(list):
    """What a compiled kernel sees of a typed list: the storage its arrays had when they were put in.

    Interpreted kernels would follow an array that has been resized in place since; compiled ones use the old
    address and length.  A stale element reads as an array of the old length without meaningful content, and a
    pickled list has arrays of its own."""

    @staticmethod
    def _wrap(x):
        if isinstance(x, np.ndarray):
            return _Held(x)
        if isinstance(x, tuple) and any(isinstance(y, np.ndarray) for y in x):
            w = [AddressList._wrap(y) for y in x]
            return type(x)(*w) if hasattr(x, "_fields") else tuple(w)
        return x

    @staticmethod
    def _get(x):
        if type(x) is _Held:
            if x.arr.shape == x.shape:
                return x.arr
            a = np.zeros(x.shape, x.arr.dtype)
            if a.dtype.kind == "f":
                a[...] = np.nan
            return a
        if isinstance(x, tuple) and any(type(y) is _Held for y in x):
            w = [AddressList._get(y) for y in x]
            return type(x)(*w) if hasattr(x, "_fields") else tuple(w)
        return x

    def __init__(self, it=()):
        super().__init__(AddressList._wrap(x) for x in it)

    def append(self, x):
        super().append(AddressList._wrap(x))

    def extend(self, it):
        super().extend(AddressList._wrap(x) for x in it)

    def insert(self, i, x):
        super().insert(i, AddressList._wrap(x))

    def pop(self, i=-1):
        return AddressList._get(super().pop(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return AddressList(AddressList._get(x) for x in super().__getitem__(i))
        return AddressList._get(super().__getitem__(i))

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            super().__setitem__(i, [AddressList._wrap(y) for y in x])
        else:
            super().__setitem__(i, AddressList._wrap(x))

    def __iter__(self):
        for x in super().__iter__():
            yield AddressList._get(x)

    def __reduce_ex__(self, proto):
        return list, ([np.array(x) if isinstance(x, np.ndarray) else x for x in self],)


if numba.config.DISABLE_JIT:
    numba.typed.List = AddressList
    numba.typed.typedlist.List = AddressList
import lambdapic
if SRC and not os.path.realpath(lambdapic.__file__).startswith(os.path.realpath(SRC)):
    print("VF-HARNESS-ERROR wrong lambdapic", lambdapic.__file__)
    sys.exit(3)
from lambdapic import Simulation, Simulation3D, Species, Electron, Positron, Proton, Photon
from lambdapic.core import species as species_mod
import lambdapic.simulation.simulation as simmod

ALLF = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"]
AX = "xyz"


def quiet():
    loguru.logger.remove()


def fresh():
    """No species left over from another scenario of this process."""
    species_mod._ALL_SPECIES.clear()


def bcs(per, D):
    d = {}
    for a in range(D):
        for s in ("min", "max"):
            d[AX[a] + s] = "periodic" if per[a] else "pml"
    return d


def force_ranks(rmap):
    """Assign patch i to rmap[i] (None: let the code decide)."""
    if rmap is None:
        if hasattr(simmod, "_vf_orig_compute_rank"):
            simmod.compute_rank = simmod._vf_orig_compute_rank
        return
    if not hasattr(simmod, "_vf_orig_compute_rank"):
        simmod._vf_orig_compute_rank = simmod.compute_rank

    def fake(patches, nrank, weights, rank_prev=None):
        r = [int(rmap[p.index]) for p in patches]
        return r, [sum(1 for x in r if x == i) for i in range(nrank)]
    simmod.compute_rank = fake


def make_sim(sc, species=(), cls=None, **kw):
    """Simulation from a scenario dict with np, n, per and optional dx, pml, ng, ranks, seed, comm."""
    np_, n, per = sc["np"], sc["n"], sc["per"]
    D = len(np_)
    dx = sc.get("dx") or [0.5] * D
    args = dict(nx=np_[0] * n[0], ny=np_[1] * n[1], dx=dx[0], dy=dx[1], npatch_x=np_[0], npatch_y=np_[1],
                boundary_conditions=bcs(per, D), n_guard=sc.get("ng", 3), cpml_thickness=sc.get("pml", 1),
                random_seed=sc.get("seed", 7))
    if D == 3:
        args.update(nz=np_[2] * n[2], dz=dx[2], npatch_z=np_[2])
    args.update(kw)
    force_ranks(sc.get("ranks") if SIZE > 1 else None)
    sim = (cls or (Simulation if D == 2 else Simulation3D))(**args)
    quiet()
    if species:
        sim.add_species(list(species))
    return sim


def pcoord(p, D):
    c = [int(p.ipatch_x), int(p.ipatch_y)]
    return c + [int(p.ipatch_z)] if D == 3 else c


def as_int(v, lo=-2**30, hi=2**30):
    """Exact integer or the sentinel -777777777 (never equal to a value a scenario uses)."""
    v = float(v)
    if v != v or v in (float("inf"), float("-inf")):
        return -777777777
    r = round(v)
    return int(r) if r == v and lo < r < hi else -777777777


def ints(arr, scale=1.0, tol=None):
    """Array -> nested list of ints; with tol, values within tol of an integer are rounded."""
    a = np.asarray(arr, dtype=float) * scale
    r = np.rint(a)
    ok = np.isfinite(a) & (np.abs(r) < 2**30)
    ok &= (np.abs(a - r) <= (tol if tol is not None else 0))
    out = np.where(ok, np.where(np.isfinite(r), r, 0), -777777777).astype(np.int64)
    return out.tolist()


def gather_list(lst, comm=COMM):
    allv = comm.gather(lst, root=0)
    if comm.Get_rank() == 0:
        return [x for part in allv for x in part]
    return None


class Out:
    def __init__(self, path):
        self.path, self.traces = path, []

    def cur(self, sc):
        if RANK == 0:
            with open(self.path + ".cur", "w") as f:
                json.dump(sc, f)

    def add(self, cfg, ev):
        if RANK == 0:
            self.traces.append({"cfg": cfg, "ev": ev})

    def died(self, cfg, ex):
        if RANK == 0:
            self.traces.append({"cfg": cfg, "ev": [], "died": {"rc": 1, "what": "raised " + type(ex).__name__,
                                "log": traceback.format_exc()[-2500:]}})

    def write(self):
        if RANK == 0:
            with open(self.path, "w") as f:
                json.dump(self.traces, f)


def main(one):
    """Runs one(scenario) -> events for each scenario of the job file."""
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = Out(sys.argv[2])
    for sc in job["scenarios"]:
        out.cur(sc)
        fresh()
        if SIZE == 1:
            try:
                ev = one(sc)
                out.add(sc, ev)
            except Exception as ex:  # noqa
                out.died(sc, ex)
        else:
            try:
                ev = one(sc)
                out.add(sc, ev)
            except BaseException:
                traceback.print_exc()
                sys.stdout.flush(); sys.stderr.flush()
                COMM.Abort(1)
    out.write()


def direction(name, D):
    """XMINYMAX -> [-1, 1]"""
    name = name.upper()
    v = []
    for a in range(D):
        A = AX[a].upper()
        v.append(-1 if A + "MIN" in name else 1 if A + "MAX" in name else 0)
    return v


def boundaries(D):
    from lambdapic.core.patch.patch import Boundary2D, Boundary3D
    return [(b, direction(b.name, D)) for b in (Boundary2D if D == 2 else Boundary3D)]


def tables(sim, D):
    """Neighbour tables of all patches of all processes (rank 0 gets the list)."""
    loc = []
    bs = boundaries(D)
    for slot, p in enumerate(sim.patches, 1):
        nb = []
        for b, d in bs:
            ip = int(p.neighbor_ipatch[b])
            nb.append({"d": d, "idx": int(p.neighbor_index[b]), "rank": int(p.neighbor_rank[b]), "slot": ip + 1 if ip >= 0 else -1})
        loc.append({"c": pcoord(p, D), "idx": int(p.index), "rank": RANK, "own": -1 if p.rank is None else int(p.rank),
                    "slot": slot, "nb": nb})
    return gather_list(loc)


def force_balance(rmap):
    """The next load balance distributes patch index i to rmap[i] (None: the code decides)."""
    from lambdapic.core.patch import metis
    from lambdapic.core.mpi import load_balancer as lb
    if not hasattr(metis, "_vf_orig"):
        metis._vf_orig = metis.compute_rank
    if rmap is None:
        f = metis._vf_orig
    else:
        def f(patches, nrank, weights, rank_prev=None):
            r = [int(rmap[p.index]) for p in patches]
            return r, [sum(1 for x in r if x == i) for i in range(nrank)]
    metis.compute_rank = f
    if hasattr(lb, "compute_rank"):
        lb.compute_rank = f
