"""Generators and helpers shared by the property modules."""
import math

import numpy as np


MON = None  # monitor of the current case


def size(rng, big=60):
    r = rng.random()
    if r < 0.08:
        return 1
    if r < 0.16:
        return 2
    if r < 0.5:
        return rng.randint(3, 12)
    if r < 0.95:
        return rng.randint(5, big)
    return rng.randint(big, big * 6)


def ints(rng, n, lo, hi):
    return [rng.randint(lo, hi) for _ in range(n)]


def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


def subset(rng, n, k=None):
    k = rng.randint(0, n) if k is None else k
    return rng.sample(range(n), k)


def ids(m, v):
    """The id array (any list, also empty)."""
    a = m.DataArrayInt.New()
    a.alloc(len(v), 1)
    if v:
        a.setValues(list(v), len(v), 1)
    return a


def da(cls, v, nc=1):
    a = cls.New()
    n = len(v) // nc
    a.alloc(n, nc)
    if n:
        a.setValues(list(v), n, nc)
    return a


def dbl(m, v, nc=1):
    return da(m.DataArrayDouble, v, nc)


def npd(m, arr):
    """DataArrayDouble from a 2-D (or 1-D) numpy array; the array owns its memory."""
    arr = np.asarray(arr, dtype=float)
    nc = 1 if arr.ndim == 1 else arr.shape[1]
    return dbl(m, arr.ravel().tolist(), nc)


def np2(a):
    """A numpy copy, shape (tuples, components)."""
    return np.array(a.getValues(), dtype=None if "Int" in type(a).__name__ else float).reshape(
        a.getNumberOfTuples(), a.getNumberOfComponents())


def L(a):
    return list(a.getValues())


def snap(x):
    """A value that differs when the observable content differs."""
    n = type(x).__name__
    if n.startswith("DataArray"):
        if not x.isAllocated():
            return (n, None)
        if n.startswith("DataArrayDouble") or n.startswith("DataArrayFloat"):
            v = x.toNumPyArray().tobytes() if x.getNumberOfTuples() else b""
        else:
            v = tuple(x.getValues())
        return (n, x.getName(), tuple(x.getInfoOnComponents()), x.getNumberOfTuples(), v)
    if n in ("MEDCouplingUMesh",):
        c = x.getCoords()
        return (n, x.getName(), x.getDescription(), x.getTime(), x.getMeshDimension(), snap(c) if c else None,
                tuple(x.getNodalConnectivity().getValues()), tuple(x.getNodalConnectivityIndex().getValues()))
    if n in ("MEDCouplingCMesh",):
        return (n, x.getName(), x.getTime(), tuple(snap(x.getCoordsAt(i)) for i in range(x.getSpaceDimension())))
    if n in ("MEDCouplingIMesh",):
        return (n, x.getName(), x.getTime(), tuple(x.getOrigin()), tuple(x.getDXYZ()), tuple(x.getNodeStruct()))
    if n in ("MEDCouplingCurveLinearMesh",):
        return (n, x.getName(), x.getTime(), snap(x.getCoords()), tuple(x.getNodeGridStructure()))
    if n in ("MEDCoupling1SGTUMesh",):
        return (n, x.getName(), snap(x.getCoords()), tuple(x.getNodalConnectivity().getValues()))
    if n in ("MEDCoupling1DGTUMesh",):
        return (n, x.getName(), snap(x.getCoords()), tuple(x.getNodalConnectivity().getValues()),
                tuple(x.getNodalConnectivityIndex().getValues()))
    if n in ("MEDCouplingFieldDouble", "MEDCouplingFieldInt", "MEDCouplingFieldFloat", "MEDCouplingFieldInt64",
             "MEDCouplingFieldInt32"):
        return (n, x.getName(), x.getDescription(), str(x.getNature()), x.getTypeOfField(), x.getTimeUnit(),
                tuple(snap(a) if a is not None else None for a in x.getArrays()) if n == "MEDCouplingFieldDouble"
                else snap(x.getArray()), times(x), snap(x.getMesh()) if x.getMesh() else None)
    return repr(x)


def times(x):
    try:
        return str(x.getTimeDiscretization()), tuple(x.getTime()), tuple(x.getStartTime()), tuple(x.getEndTime())
    except Exception:
        return str(x.getTimeDiscretization())


class Pure:
    """Monitor: the observable content of the objects is the same after the block."""

    def __init__(self, mon, key, *objs):
        self.mon, self.key, self.objs = mon, key, objs

    def __enter__(self):
        self.before = [snap(o) for o in self.objs]
        return self

    def __exit__(self, et, ev, tb):
        if et is None or et.__name__ == "InterpKernelException":
            for i, o in enumerate(self.objs):
                self.mon.ok(snap(o) == self.before[i], self.key + ":input-modified", which=i, obj=type(o).__name__)
        return False


def table(family, ops, rounds, reps=6):
    """A family which goes through a table of operations: case i runs operation i % len(ops), reps times on fresh
    inputs. ops: list of (name, fn(rng, mon, m))."""
    from vt.engine import Family

    def fn(rng, mon, m):
        global MON
        MON = mon
        name, f = ops[mon.index % len(ops)]
        mon.case((family, name, rng.random()))
        mon.mark(family, name)
        for _ in range(reps):
            try:
                f(rng, mon, m)
            except m.InterpKernelException as e:
                import traceback
                mon.bad(f"{name}:unexpected-exception", what=str(e), where=traceback.format_exc(limit=-3)[-900:])
                break
    return Family(family, fn, len(ops) * rounds, len(ops) * rounds * 6)


def rotation(rng, dim):
    if dim == 1:
        return np.array([[rng.choice([-1.0, 1.0])]])
    if dim == 2:
        a = rng.uniform(0, 2 * math.pi)
        return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
