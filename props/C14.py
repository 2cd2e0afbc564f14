"""C14: equality, copies and serialization.

Every kind of object of the library is generated with a list of *mutations*: elementary changes of one observable
attribute each, sorted in three kinds (val: content, meta: time label of a mesh, str: names and component informations).
The monitors then check, on the real library:
  - a deep copy, a clone, a pickled or serialized-and-restored object is equal to its source with a null tolerance,
    through every comparison service, in both directions, and through a deep reading of its content which does not
    use the comparison services;
  - any one mutation of the copy makes every comparison service answer "different" with a reason, in both directions,
    and the source is not changed by it (isEqualWithoutConsideringStr still answers "equal" for a str mutation);
  - a perturbation of a value by delta is seen exactly when delta is over the tolerance;
  - clone(False) shares what is documented to be shared.
"""
import copy as pycopy
import gc
import math
import pickle

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("an object equals its copies (deep copy, pickle, serialization) at null tolerance, differs from them after any "
        "single change of an attribute, and a change of a copy never shows in its source")
ASSUMPTIONS = ["times of meshes are compared at 1e-12 as the library documents", "isEqualWithoutConsideringStr of meshes "
               "does not look at the time label"]

NAMES = ["", "a", "name with spaces", "x" * 40, "m\u00e9sh".encode().decode("latin-1")[:3] + "q"]


class Kind:
    """One generated object with its services."""

    def __init__(self, obj, muts, vals=True):
        self.o = obj
        self.muts = muts      # (name, kind, fn(obj))
        self.small = None     # fn(obj, delta) : moves one real number by delta
        self.copies = []      # (name, fn(obj))
        self.hasstr = True
        self.meshfield = False
        self.sym = True
        self.eps0 = 0.

    def eq(self, a, b, e):
        return a.isEqual(b, e)

    def eqs(self, a, b, e):
        return a.isEqualWithoutConsideringStr(b, e)

    def why(self, a, b, e):
        return a.isEqualIfNotWhy(b, e)

    def deep(self, a):
        return deep(a)


# ---------------------------------------------------------------------------------------------- independent reading
def deep(x):
    """Everything observable of an object, read without its comparison services."""
    if x is None:
        return None
    n = type(x).__name__
    if n.startswith("DataArray"):
        if not x.isAllocated():
            return (n, x.getName(), None)
        if n in ("DataArrayDouble", "DataArrayFloat"):
            v = np.array(x.getValues(), dtype=float).tobytes()
        elif n in ("DataArrayByte", "DataArrayAsciiChar"):
            v = tuple(x.getIJ(i, j) for i in range(x.getNumberOfTuples()) for j in range(x.getNumberOfComponents()))
        else:
            v = tuple(x.getValues())
        return (n, x.getName(), tuple(x.getInfoOnComponents()), x.getNumberOfTuples(), x.getNumberOfComponents(), v)
    if n.startswith("MEDCouplingField") and not n.endswith(("Template", "OverTime", "Discretization")):
        l = [n, x.getName(), x.getDescription(), x.getNature(), x.getTypeOfField(), x.getTimeUnit(), deep(x.getMesh())]
        l.append(time_of(x))
        if n == "MEDCouplingFieldDouble":
            l += [x.getTimeDiscretization(), time_of(x, "Start"), time_of(x, "End"), x.getTimeTolerance(),
                  tuple(deep(a) for a in x.getArrays())]
        else:
            l.append(deep(x.getArray()))
        l.append(gauss(x))
        return tuple(l)
    if n == "MEDCouplingFieldTemplate":
        return (n, x.getName(), x.getDescription(), x.getNature(), x.getTypeOfField(), deep(x.getMesh()), gauss(x))
    if n.startswith("MEDCoupling") and "Mesh" in n:
        h = (n, x.getName(), x.getDescription(), x.getTimeUnit(), tuple(x.getTime()))
        if n == "MEDCouplingUMesh":
            return h + (x.getMeshDimension(), deep(x.getCoords()), deep(x.getNodalConnectivity()), deep(x.getNodalConnectivityIndex()))
        if n == "MEDCouplingCMesh":
            return h + tuple(deep(x.getCoordsAt(i)) for i in range(x.getSpaceDimension()))
        if n == "MEDCouplingIMesh":
            return h + (tuple(x.getOrigin()), tuple(x.getDXYZ()), tuple(x.getNodeStruct()), x.getAxisUnit())
        if n == "MEDCouplingCurveLinearMesh":
            return h + (deep(x.getCoords()), tuple(x.getNodeGridStructure()))
        if n == "MEDCoupling1SGTUMesh":
            return h + (x.getCellModelEnum(), deep(x.getCoords()), deep(x.getNodalConnectivity()))
        if n == "MEDCoupling1DGTUMesh":
            return h + (x.getCellModelEnum(), deep(x.getCoords()), deep(x.getNodalConnectivity()), deep(x.getNodalConnectivityIndex()))
        if n == "MEDCouplingMappedExtrudedMesh":
            return h + (deep(x.getMesh2D()), deep(x.getMesh1D()), deep(x.getMesh3DIds()))
    return repr(x)


def time_of(x, w=""):
    if hasattr(x, "getTimeDiscretization") and x.getTimeDiscretization() == 4:  # NO_TIME
        return None
    return tuple(getattr(x, "get%sTime" % w)())


def gauss(f):
    try:
        k = f.getNbOfGaussLocalization()
    except Exception:
        return None
    l = [locrepr(f.getGaussLocalization(i)) for i in range(k)]
    ids = tuple(tuple(G.L(f.getCellIdsHavingGaussLocalization(i))) for i in range(k))
    return tuple(l), ids


def locrepr(g):
    return (g.getType(), tuple(g.getRefCoords()), tuple(g.getGaussCoords()), tuple(g.getWeights()))


# ---------------------------------------------------------------------------------------------- generators
def name(rng):
    return rng.choice(["", "a", "name with spaces", "x" * 40, "n_%d" % rng.randint(0, 99), "unit [m]"])


def arr_obj(rng, m, cls=None):
    cls = cls or rng.choice(["DataArrayDouble", "DataArrayDouble", "DataArrayFloat", "DataArrayInt32", "DataArrayInt64",
                             "DataArrayByte", "DataArrayAsciiChar"])
    C = getattr(m, cls)
    nc = rng.choice([1, 1, 2, 3, 4])
    n = rng.choice([0, 1, 2, 3, G.size(rng)])
    real = cls in ("DataArrayDouble", "DataArrayFloat")
    if real:
        pool = [0., -0., 1., -1.5, 1e30, -1e-30, 3.25, 1024.5] if cls == "DataArrayFloat" or rng.random() < 0.3 else None
        v = [rng.choice(pool) if pool else rng.gauss(0, 10 ** rng.uniform(-3, 3)) for _ in range(n * nc)]
    elif cls == "DataArrayInt64":
        v = [rng.choice([rng.randint(-9, 9), rng.randint(-2 ** 40, 2 ** 40), 2 ** 63 - 1, -2 ** 63]) for _ in range(n * nc)]
    elif cls == "DataArrayInt32":
        v = [rng.choice([rng.randint(-9, 9), 2 ** 31 - 1, -2 ** 31]) for _ in range(n * nc)]
    elif cls == "DataArrayByte":
        v = [rng.randint(-128, 127) for _ in range(n * nc)]
    else:
        n = max(n, 1)
        v = None
    if cls == "DataArrayAsciiChar":
        a = C.New(["".join(rng.choice("abcxyz 019_") for _ in range(nc)) for _ in range(n)])
    else:
        a = C.New()
        a.alloc(n, nc)
        if cls == "DataArrayFloat":
            if n:
                a[:] = C(v, n, nc) if nc > 1 else C(v, n)
        else:
            for q, x in enumerate(v):
                a.setIJ(q // nc, q % nc, x)
    a.setName(name(rng))
    a.setInfoOnComponents([name(rng) for _ in range(nc)])
    return a


def other_value(rng, cls, v):
    if cls == "DataArrayDouble":
        return v + rng.choice([-1, 1]) * max(1e-3, abs(v) * 1e-3)
    if cls == "DataArrayFloat":
        return v + rng.choice([-1, 1]) * max(1., abs(v) * 0.25)
    if cls == "DataArrayByte":
        return v + 1 if v < 127 else v - 1
    return v - 1 if v > 0 else v + 1


def setij(x, i, j, v):
    if type(x).__name__ == "DataArrayFloat":
        x[i, j] = v
    else:
        x.setIJ(i, j, v)


def getij(x, i, j):
    if type(x).__name__ == "DataArrayFloat":
        return x.getValues()[i * x.getNumberOfComponents() + j]
    return x.getIJ(i, j)


def arr_muts(rng, a):
    cls = type(a).__name__
    n, nc = a.getNumberOfTuples(), a.getNumberOfComponents()
    out = [("name", "str", lambda x: x.setName(x.getName() + "z"))]
    c = rng.randrange(nc)
    out.append(("info", "str", lambda x: x.setInfoOnComponent(c, x.getInfoOnComponent(c) + "z")))
    if n and cls != "DataArrayAsciiChar":
        i, j = rng.randrange(n), rng.randrange(nc)

        def one(x):
            setij(x, i, j, other_value(rng, cls, getij(x, i, j)))
        out.append(("value", "val", one))
        out.append(("value-last", "val", lambda x: setij(x, n - 1, nc - 1, other_value(rng, cls, getij(x, n - 1, nc - 1)))))
        out.append(("value-first", "val", lambda x: setij(x, 0, 0, other_value(rng, cls, getij(x, 0, 0)))))
    if cls == "DataArrayAsciiChar":
        i, j = rng.randrange(n), rng.randrange(nc)
        out.append(("value", "val", lambda x: setij(x, i, j, chr(ord(getij(x, i, j)) + 1))))
    out.append(("longer", "val", lambda x: x.reAlloc(n + 1)))
    if n:
        out.append(("shorter", "val", lambda x: x.reAlloc(n - 1)))
    if nc > 1 and n:
        out.append(("shape", "shape", lambda x: x.rearrange(1)))
    if cls == "DataArrayDouble" and n:
        out.append(("nan", "val", lambda x: setij(x, rng.randrange(n), rng.randrange(nc), float("nan"))))
        out.append(("inf", "val", lambda x: setij(x, rng.randrange(n), rng.randrange(nc), float("inf"))))
    return out


def arr_kind(rng, m, cls=None):
    a = arr_obj(rng, m, cls)
    k = Kind(a, arr_muts(rng, a))
    cls = type(a).__name__
    n, nc = a.getNumberOfTuples(), a.getNumberOfComponents()
    if cls in ("DataArrayDouble", "DataArrayFloat"):
        if n:
            i, j = rng.randrange(n), rng.randrange(nc)

            def small(x, d):
                setij(x, i, j, d)
            if cls == "DataArrayDouble":
                setij(a, i, j, 0.)
                k.small = small
    else:
        k.eq = lambda a, b, e: a.isEqual(b)
        k.eqs = lambda a, b, e: a.isEqualWithoutConsideringStr(b)
        k.why = lambda a, b, e: a.isEqualIfNotWhy(b)
    k.copies = [("deepCopy", lambda x: x.deepCopy())]
    if cls != "DataArrayFloat":
        k.copies.append(("performCopyOrIncrRef", lambda x: x.performCopyOrIncrRef(True)))

    def from_other(x):
        y = type(x).New()
        y.alloc(3, 2)
        y.deepCopyFrom(x)
        y.copyStringInfoFrom(x)
        y.setName(x.getName())
        return y
    if cls in ("DataArrayDouble", "DataArrayInt32", "DataArrayInt64"):
        k.copies.append(("deepCopyFrom", from_other))
    if cls != "DataArrayAsciiChar":
        k.copies.append(("pickle", roundtrip))
    return k


def roundtrip(x):
    return pickle.loads(pickle.dumps(x, -1))


def meta_muts():
    def t(di, do, dt):
        def f(x):
            a, i, o = x.getTime()
            x.setTime(a + dt, i + di, o + do)
        return f
    return [("mesh-name", "str", lambda x: x.setName(x.getName() + "z")),
            ("mesh-description", "str", lambda x: x.setDescription(x.getDescription() + "z")),
            ("mesh-time-unit", "str", lambda x: x.setTimeUnit(x.getTimeUnit() + "z")),
            ("mesh-iteration", "meta", t(1, 0, 0)), ("mesh-order", "meta", t(0, 1, 0)), ("mesh-time", "meta", t(0, 0, 1.))]


def coords_muts(rng, mesh, get=lambda x: x.getCoords()):
    n, d = mesh.getNumberOfNodes(), mesh.getSpaceDimension()
    i, j = rng.randrange(n), rng.randrange(d)

    def far(x):
        c = get(x)
        c.setIJ(i, j, c.getIJ(i, j) + 0.01)
    return [("coord", "val", far), ("coord-info", "str", lambda x: get(x).setInfoOnComponent(j, "other"))]


def small_coord(rng, mesh, get=lambda x: x.getCoords()):
    n, d = mesh.getNumberOfNodes(), mesh.getSpaceDimension()
    i, j = rng.randrange(n), rng.randrange(d)

    def f(x, dlt):
        c = get(x)
        c.setIJ(i, j, c.getIJ(i, j) + dlt)
    return f


def dress(rng, mesh):
    mesh.setName(name(rng))
    mesh.setDescription(name(rng))
    mesh.setTimeUnit(name(rng))
    mesh.setTime(rng.choice([0., rng.uniform(-10, 10)]), rng.randint(-1, 9), rng.randint(-1, 9))


MESHES = ["umesh", "umesh", "cmesh", "imesh", "curvi", "1sgt", "1dgt", "extruded"]


def mesh_kind(rng, m, which=None):
    which = which or rng.choice(MESHES)
    muts = meta_muts()
    k = Kind(None, muts)
    if which == "umesh":
        pm = M.anymesh(rng)
        u = pm.um(m)
        muts += coords_muts(rng, u)
        k.small = small_coord(rng, u)
        conn, idx = u.getNodalConnectivity(), u.getNodalConnectivityIndex()
        nn = u.getNumberOfNodes()
        pos = [p for a, b in zip(G.L(idx)[:-1], G.L(idx)[1:]) for p in range(a + 1, b) if conn.getIJ(p, 0) >= 0]
        p = rng.choice(pos)
        if nn > 1:
            muts.append(("connectivity", "val", lambda x: (x.getNodalConnectivity().setIJ(p, 0, (x.getNodalConnectivity().getIJ(p, 0) + 1) % nn))))
        c = rng.randrange(len(pm.cells))
        a, b = idx.getIJ(c, 0), idx.getIJ(c + 1, 0)
        same = {3: 5, 4: 5, 14: None}
        t = pm.cells[c][0]
        if t in (3, 4):
            def poly(x):
                x.getNodalConnectivity().setIJ(a, 0, 5)
                x.setConnectivity(x.getNodalConnectivity(), x.getNodalConnectivityIndex(), True)
            muts.append(("cell-type", "val", poly))
        if len(pm.cells) > 1:
            def drop(x):
                y = x.buildPartOfMySelf(list(range(len(pm.cells) - 1)), True)
                x.setConnectivity(y.getNodalConnectivity(), y.getNodalConnectivityIndex(), True)
            muts.append(("last-cell", "val", drop))

        def more(x):
            x.setCoords(m.DataArrayDouble.Aggregate([x.getCoords(), x.getCoords()[:1]]))
        muts.append(("more-nodes", "val", more))
    elif which == "cmesh":
        u, ax = M.cmesh(rng, m)
        d = len(ax)
        for a in range(d):
            x = u.getCoordsAt(a)
            x.setInfoOnComponent(0, name(rng))
            i = rng.randrange(len(ax[a]))
            muts.append(("axis%d" % a, "val", lambda x, a=a, i=i: x.getCoordsAt(a).setIJ(i, 0, x.getCoordsAt(a).getIJ(i, 0) + 0.01)))
            muts.append(("axis%d-info" % a, "str", lambda x, a=a: x.getCoordsAt(a).setInfoOnComponent(0, "other")))

            def longer(x, a=a):
                c = x.getCoordsAt(a).deepCopy()
                c.reAlloc(len(ax[a]) + 1)
                c.setIJ(len(ax[a]), 0, 1e3)
                x.setCoordsAt(a, c)
            muts.append(("axis%d-longer" % a, "val", longer))
        a = rng.randrange(d)
        i = rng.randrange(len(ax[a]))
        k.small = lambda x, dl: x.getCoordsAt(a).setIJ(i, 0, x.getCoordsAt(a).getIJ(i, 0) + dl)
    elif which == "imesh":
        u, st, o, dx = M.imesh(rng, m)
        d = len(st)
        u.setAxisUnit(name(rng))
        for a in range(d):
            muts.append(("origin%d" % a, "val", lambda x, a=a: x.setOrigin([v + (0.01 if q == a else 0) for q, v in enumerate(x.getOrigin())])))
            muts.append(("dxyz%d" % a, "val", lambda x, a=a: x.setDXYZ([v + (0.01 if q == a else 0) for q, v in enumerate(x.getDXYZ())])))
            muts.append(("struct%d" % a, "val", lambda x, a=a: x.setNodeStruct([v + (1 if q == a else 0) for q, v in enumerate(x.getNodeStruct())])))
        muts.append(("axis-unit", "str", lambda x: x.setAxisUnit(x.getAxisUnit() + "z")))
        a = rng.randrange(d)
        if rng.random() < 0.5:
            k.small = lambda x, dl: x.setOrigin([v + (dl if q == a else 0) for q, v in enumerate(x.getOrigin())])
        else:
            k.small = lambda x, dl: x.setDXYZ([v + (dl if q == a else 0) for q, v in enumerate(x.getDXYZ())])
    elif which == "curvi":
        u, ax, A = M.curvi(rng, m)
        muts += coords_muts(rng, u)
        k.small = small_coord(rng, u)
        g = list(u.getNodeGridStructure())
        for a in range(len(g)):
            for b in range(a):
                if g[a] != g[b]:
                    h = list(g)
                    h[a], h[b] = h[b], h[a]
                    muts.append(("struct%d%d" % (a, b), "val", lambda x, h=h: x.setNodeGridStructure(h)))
    elif which == "1sgt":
        pm = rng.choice([lambda: M.grid2(rng, kinds="q"), lambda: M.grid2(rng, kinds="t"), lambda: M.tetras(rng), lambda: M.line(rng),
                         lambda: M.extrude(rng, M.grid2(rng, kinds="q"))])()
        pm = M.shuffle(rng, pm)
        u = m.MEDCoupling1SGTUMesh(pm.um(m))
        muts += coords_muts(rng, u)
        k.small = small_coord(rng, u)
        L_ = u.getNodalConnectivity().getNumberOfTuples()
        p = rng.randrange(L_)
        nn = u.getNumberOfNodes()
        muts.append(("connectivity", "val", lambda x: x.getNodalConnectivity().setIJ(p, 0, (x.getNodalConnectivity().getIJ(p, 0) + 1) % nn)))
        per = L_ // u.getNumberOfCells()
        if L_ > per:
            muts.append(("last-cell", "val", lambda x: x.setNodalConnectivity(x.getNodalConnectivity()[:L_ - per])))
    elif which == "1dgt":
        if rng.random() < 0.5:
            pm = M.grid2(rng, kinds="qt")
            v = pm.um(m)
            v.convertAllToPoly()
        else:
            pm = M.to_polyhedra(rng, M.extrude(rng, M.grid2(rng, kinds="qt")), 1.)
            v = pm.um(m)
            v.convertAllToPoly()
        u = m.MEDCoupling1DGTUMesh(v)
        muts += coords_muts(rng, u)
        k.small = small_coord(rng, u)
        c = G.L(u.getNodalConnectivity())
        nn = u.getNumberOfNodes()
        p = rng.choice([q for q in range(len(c)) if c[q] >= 0])
        muts.append(("connectivity", "val", lambda x: x.getNodalConnectivity().setIJ(p, 0, (x.getNodalConnectivity().getIJ(p, 0) + 1) % nn)))
        ci = G.L(u.getNodalConnectivityIndex())
        if len(ci) > 2:
            q = rng.randrange(1, len(ci) - 1)
            muts.append(("index", "val", lambda x: x.getNodalConnectivityIndex().setIJ(q, 0, ci[q] + 1)))
    else:
        base = M.grid2(rng, rng.randint(1, 3), rng.randint(1, 2), "qt")
        pm2 = M.PM(np.hstack([base.coords, np.zeros((len(base.coords), 1))]), base.cells, 2)
        pm = M.extrude(rng, base)
        u3 = pm.um(m)
        n2 = len(base.cells)
        u3.renumberCells(G.perm(rng, len(pm.cells)), True)
        z0 = min(pm.coords[:, 2])
        face = u3.buildFacePartOfMySelfNode([i for i in range(len(pm.coords)) if abs(pm.coords[i, 2] - z0) < 1e-9], True)
        if face.getNumberOfCells() != n2:
            raise Skip("base")
        u = m.MEDCouplingMappedExtrudedMesh(u3, face, 0)
        n = u.getNumberOfCells()
        if n > 1:
            def ids(x):
                a = x.getMesh3DIds()
                p_, q_ = a.getIJ(0, 0), a.getIJ(1, 0)
                a.setIJ(0, 0, q_)
                a.setIJ(1, 0, p_)
            muts.append(("ids", "val", ids))
        f2 = lambda x: x.getMesh2D().getCoords()
        muts.append(("mesh2d", "val", lambda x: f2(x).setIJ(0, 0, f2(x).getIJ(0, 0) + 0.01)))
        f1 = lambda x: x.getMesh1D().getCoords()
        muts.append(("mesh1d", "val", lambda x: f1(x).setIJ(0, 2, f1(x).getIJ(0, 2) + 0.01)))
        k.small = lambda x, dl: f1(x).setIJ(0, 2, f1(x).getIJ(0, 2) + dl)
    dress(rng, u)
    k.o = u
    k.which = which
    k.copies = [("deepCopy", lambda x: x.deepCopy()), ("clone", lambda x: x.clone(True)), ("pickle", roundtrip), ("serialize", serialize)]
    return k


def serialize(x):
    """The raw serialization used between processes."""
    a0, a1, a2 = x.getTinySerializationInformation()
    b0, b1 = [None if b is None else b.deepCopy() for b in x.serialize()]
    if type(x).__name__ in ("MEDCoupling1SGTUMesh", "MEDCoupling1DGTUMesh"):
        y = type(x)("", x.getCellModelEnum())
    else:
        y = type(x)()
    y.unserialization(a0, a1, b0, b1, a2)
    return y


def field_kind(rng, m, which=None):
    from props import C13
    which = which or rng.choice(["double"] * 3 + ["other", "template"])
    muts = []
    if which == "double":
        r = C13.build(rng, m)
        f = r.f
        if rng.random() < 0.15:
            f = f  # the support of a structured mesh
        f.getMesh().setName(name(rng))
        f.getMesh().setDescription(name(rng))
        times_ = r.time
        arrays = lambda x: x.getArrays()
        na = len(r.A)
    else:
        st = rng.choice(["cmesh", "umesh", "imesh", "curvi", "1sgt"])
        mesh = mesh_kind(rng, m, st).o
        typ = rng.choice([m.ON_CELLS, m.ON_NODES])
        n = mesh.getNumberOfCells() if typ == m.ON_CELLS else mesh.getNumberOfNodes()
        if which == "template":
            f = m.MEDCouplingFieldDouble(typ, m.ONE_TIME)
            f.setMesh(mesh)
            f = m.MEDCouplingFieldTemplate(f)
        else:
            cls = rng.choice(["Int32", "Int64", "Float", "Double"])
            f = getattr(m, "MEDCouplingField" + cls)(typ, m.ONE_TIME)
            f.setMesh(mesh)
            nc = rng.choice([1, 2])
            a = getattr(m, "DataArray" + cls)([rng.randint(-9, 9) if "Int" in cls else float(rng.randint(-99, 99)) / 8
                                              for _ in range(n * nc)], n, nc)
            a.setInfoOnComponents([name(rng) for _ in range(nc)])
            f.setArray(a)
            f.setTime(rng.uniform(-3, 3), rng.randint(-1, 5), rng.randint(-1, 5))
        arrays = lambda x: [x.getArray()]
        times_ = "one"
        na = 1
    f.setName(name(rng))
    f.setDescription(name(rng))
    muts += [("name", "str", lambda x: x.setName(x.getName() + "z")),
             ("description", "str", lambda x: x.setDescription(x.getDescription() + "z"))]
    on_nodes = f.getTypeOfField() == m.ON_NODES
    nat = f.getNature()
    for v in (m.IntensiveMaximum, m.ExtensiveMaximum, m.ExtensiveConservation, m.NoNature):
        if v != nat and not (on_nodes and v not in (m.IntensiveMaximum, m.NoNature)):
            muts.append(("nature", "val", lambda x, v=v: x.setNature(v)))
            break
    k = Kind(f, muts)
    if which == "double" and r.kind == "gauss":
        k.eps0 = 1e-14  # localizations are compared strictly
    k.which = which
    k.onmesh = False

    def onmesh(fn):
        def g(x):
            mm = x.getMesh().deepCopy()
            fn(mm)
            x.setMesh(mm)
        return g
    mm = f.getMesh()
    muts.append(("support-name", "str", onmesh(lambda y: y.setName(y.getName() + "z"))))
    muts.append(("support-moved", "val", onmesh(lambda y: y.translate([0.01] * mm.getSpaceDimension()))))
    cls = type(f).__name__
    if which != "template":
        f.setTimeUnit(name(rng))
        muts.append(("time-unit", "str" if False else "unit", lambda x: x.setTimeUnit(x.getTimeUnit() + "z")))
        for q in range(na):
            a = arrays(f)[q]
            n, nc = a.getNumberOfTuples(), a.getNumberOfComponents()
            i, j = rng.randrange(n), rng.randrange(nc)
            acls = type(a).__name__

            def one(x, q=q, i=i, j=j, acls=acls):
                b = arrays(x)[q]
                setij(b, i, j, other_value(rng, acls, getij(b, i, j)))
                b.declareAsNew()
            muts.append(("array%d" % q, "val", one))
            muts.append(("array%d-info" % q, "str", lambda x, q=q, j=j: arrays(x)[q].setInfoOnComponent(j, arrays(x)[q].getInfoOnComponent(j) + "z")))
            muts.append(("array%d-name" % q, "str", lambda x, q=q: arrays(x)[q].setName(arrays(x)[q].getName() + "z")))
        if times_ == "one":
            for nm, dt, di, do in (("time", 1., 0, 0), ("iteration", 0, 1, 0), ("order", 0, 0, 1)):
                def tm(x, dt=dt, di=di, do=do):
                    a, i, o = x.getTime()
                    x.setTime(a + dt, i + di, o + do)
                muts.append((nm, "val", tm))
        elif times_ in ("const", "linear"):
            for which_t in ("Start", "End"):
                for nm, dt, di, do in (("time", -.25 if which_t == "Start" else .25, 0, 0), ("iteration", 0, 1, 0), ("order", 0, 0, 1)):
                    def tm(x, dt=dt, di=di, do=do, w=which_t):
                        a, i, o = getattr(x, "get%sTime" % w)()
                        getattr(x, "set%sTime" % w)(a + dt, i + di, o + do)
                    muts.append((which_t + nm, "val", tm))
    if which == "double" and r.kind == "gauss":
        t = rng.choice(sorted(set(c[0] for c in r.pm.cells)))
        nl = f.getNbOfGaussLocalization()
        l = rng.randrange(nl)

        def gp(x):
            g = x.getGaussLocalization(l)
            g.setGaussCoord(0, 0, g.getGaussCoord(0, 0) + 0.01)

        def gw(x):
            g = x.getGaussLocalization(l)
            w = list(g.getWeights())
            w[-1] += 0.01
            g.setWeights(w)

        def gr(x):
            g = x.getGaussLocalization(l)
            g.setRefCoord(0, 0, g.getRefCoord(0, 0) + 0.01)
        muts += [("gauss-point", "val", gp), ("gauss-weight", "val", gw), ("gauss-ref", "val", gr)]
        if nl > 1:
            # a cell moves to another localization with as many points of the same cell type
            L_ = [locrepr(f.getGaussLocalization(i)) for i in range(nl)]
            for i in range(nl):
                for j in range(nl):
                    if i != j and L_[i][0] == L_[j][0] and len(L_[i][3]) == len(L_[j][3]):
                        c = G.L(f.getCellIdsHavingGaussLocalization(i))
                        if c:
                            def mv(x, c=c, j=j):
                                x.getDiscretization().getArrayOfDiscIds().setIJ(c[0], 0, j)
                            muts.append(("gauss-cell", "val", mv))
    k.copies = [("pickle", roundtrip)]
    if which != "template":
        k.copies += [("deepCopy", lambda x: x.deepCopy()), ("clone", lambda x: x.clone(True)),
                     ("cloneWithMesh", lambda x: x.cloneWithMesh(True))]
    if which == "template":
        k.eq = lambda a, b, e: a.isEqual(b, e)
        k.eqs = lambda a, b, e: a.isEqualWithoutConsideringStr(b, e)
        k.why = lambda a, b, e: a.isEqualIfNotWhy(b, e)
    elif "Int" in cls:
        k.eq = lambda a, b, e: a.isEqual(b, e, 0)
        k.eqs = lambda a, b, e: a.isEqualWithoutConsideringStr(b, e, 0)
        k.why = lambda a, b, e: a.isEqualIfNotWhy(b, e, 0)
    elif "Float" in cls:
        k.eq = lambda a, b, e: a.isEqual(b, e, e)
        k.eqs = lambda a, b, e: a.isEqualWithoutConsideringStr(b, e, 0.)
        k.why = lambda a, b, e: a.isEqualIfNotWhy(b, e, e)
    else:
        k.eq = lambda a, b, e: a.isEqual(b, e, e)
        k.eqs = lambda a, b, e: a.isEqualWithoutConsideringStr(b, e, e)
        k.why = lambda a, b, e: a.isEqualIfNotWhy(b, e, e)
        a = arrays(f)[-1]
        i, j = rng.randrange(a.getNumberOfTuples()), rng.randrange(a.getNumberOfComponents())
        arrays(f)[-1].setIJ(i, j, 0.)
        k.small = lambda x, dl: arrays(x)[-1].setIJ(i, j, dl)
    return k


# ---------------------------------------------------------------------------------------------- the monitor
EPS = 1e-7


def judge(rng, mon, k, key):
    o = k.o
    ref = k.deep(o)
    witness = k.copies[0][1](o)
    for cname, fn in k.copies:
        ck = key + ":" + cname
        c = fn(o)
        mon.eq(k.deep(c), ref, ck + ":content")
        mon.eq(k.deep(o), ref, ck + ":source-touched")
        mon.ok(k.eq(c, o, k.eps0) and k.eq(o, c, k.eps0), ck + ":equal")
        w1, w2 = k.why(c, o, k.eps0), k.why(o, c, k.eps0)
        mon.ok(w1[0] and w2[0], ck + ":equal-why", why=(w1, w2))
        mon.ok(k.eqs(c, o, k.eps0) and k.eqs(o, c, k.eps0), ck + ":equal-nostr")
        mon.ok(c.getHiddenCppPointer() != o.getHiddenCppPointer(), ck + ":same-object")
    mon.ok(k.eq(o, o, k.eps0), key + ":reflexive")
    for name_, kind, fn in k.muts:
        cname, cf = rng.choice(k.copies)
        mk = "%s:%s" % (key, name_)
        c = cf(o)
        fn(c)
        before = k.deep(o)
        mon.eq(before, ref, mk + ":shows-in-source", copy=cname)
        if before != ref:
            return
        changed = k.deep(c) != ref
        mon.ok(changed, mk + ":no-effect")
        if not changed:
            continue
        mon.ok(not k.eq(c, o, EPS), mk + ":unseen", copy=cname)
        mon.ok(not k.eq(o, c, EPS), mk + ":unseen-reverse", copy=cname)
        for w in (k.why(c, o, EPS), k.why(o, c, EPS)):
            mon.ok(not w[0], mk + ":why-unseen", copy=cname)
            mon.ok(bool(w[0]) or len(w) > 1 and len(w[1]) > 0, mk + ":no-reason")
        if kind == "str":
            mon.ok(k.eqs(c, o, EPS) and k.eqs(o, c, EPS), mk + ":nostr-sees-strings", copy=cname)
        elif kind == "val":
            mon.ok(not k.eqs(c, o, EPS), mk + ":nostr-unseen", copy=cname)
            mon.ok(not k.eqs(o, c, EPS), mk + ":nostr-unseen-reverse", copy=cname)
    mon.ok(k.eq(witness, o, k.eps0), key + ":witness")
    if k.small:
        d = rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2)
        c = rng.choice(k.copies)[1](o)
        k.small(c, d)
        for e in (abs(d) * 2, abs(d) / 2, abs(d) * 100, abs(d) / 100):
            want = e > abs(d)
            for a, b in ((c, o), (o, c)):
                mon.eq(bool(k.eq(a, b, e)), want, key + ":tolerance", eps=e, delta=d)
                mon.eq(bool(k.eqs(a, b, e)), want, key + ":tolerance-nostr", eps=e, delta=d)
                mon.eq(bool(k.why(a, b, e)[0]), want, key + ":tolerance-why", eps=e, delta=d)
    mon.nontrivial = len(k.muts) > 3


def t_array(rng, mon, m):
    k = arr_kind(rng, m)
    judge(rng, mon, k, "array:" + type(k.o).__name__)
    mon.mark("array", type(k.o).__name__)


def t_mesh(rng, mon, m):
    k = mesh_kind(rng, m)
    judge(rng, mon, k, "mesh:" + k.which)
    mon.mark("mesh", k.which)
    # two meshes of different classes are never equal, even when they stand for the same cells
    u = k.o
    other = mesh_kind(rng, m).o
    mon.ok(not u.isEqual(other, 1e-7), "mesh:other")
    w = u.isEqualIfNotWhy(other, 1e-7)
    mon.ok(not w[0] and len(w[1]) > 0, "mesh:other-reason", a=k.which, why=w)
    if type(other) is not type(u):
        mon.ok(not u.isEqual(other, 1e-7), "mesh:other-class")
        mon.ok(not u.isEqualIfNotWhy(other, 1e-7)[0], "mesh:other-class-why")
        mon.ok(not u.isEqualWithoutConsideringStr(other, 1e-7), "mesh:other-class-nostr")


def t_field(rng, mon, m):
    k = field_kind(rng, m)
    judge(rng, mon, k, "field:" + type(k.o).__name__)
    mon.mark("field", type(k.o).__name__)


def t_share(rng, mon, m):
    """Light copies share what they are said to share, deep ones nothing."""
    which = rng.choice(["mesh", "field", "alias"])
    key = "share:" + which
    if which == "mesh":
        k = mesh_kind(rng, m, rng.choice(["umesh", "1sgt", "1dgt", "curvi", "cmesh"]))
        u = k.o
        c = u.clone(False)
        mon.eq(deep(c), deep(u), key + ":content")
        mon.ok(c.isEqual(u, 0.), key + ":equal")
        if k.which == "cmesh":
            same = all(c.getCoordsAt(i).getHiddenCppPointer() == u.getCoordsAt(i).getHiddenCppPointer() for i in range(u.getSpaceDimension()))
            mon.ok(same, key + ":axes-shared")
        else:
            mon.ok(c.getCoords().getHiddenCppPointer() == u.getCoords().getHiddenCppPointer(), key + ":coords-shared")
        d = u.deepCopy()
        if k.which != "cmesh":
            mon.ok(d.getCoords().getHiddenCppPointer() != u.getCoords().getHiddenCppPointer(), key + ":deep-coords")
        before = deep(u)
        c.setName("changed")
        c.setTime(7., 8, 9)
        mon.eq(deep(u), before, key + ":name-of-clone")
        if k.which == "umesh":
            e = u.deepCopyConnectivityOnly()
            mon.ok(e.getCoords().getHiddenCppPointer() == u.getCoords().getHiddenCppPointer(), key + ":conn-only-coords")
            mon.ok(e.getNodalConnectivity().getHiddenCppPointer() != u.getNodalConnectivity().getHiddenCppPointer(), key + ":conn-only")
            e.getNodalConnectivity().setIJ(1, 0, 0)
            mon.eq(deep(u), before, key + ":conn-only-independent")
    elif which == "field":
        from props import C13
        r = C13.build(rng, m)
        f = r.f
        c = f.clone(False)
        mon.eq(deep(c), deep(f), key + ":content")
        p = lambda x: x.getHiddenCppPointer()
        mon.eq([p(a) for a in c.getArrays()], [p(a) for a in f.getArrays()], key + ":arrays-shared")
        mon.eq(p(c.getMesh()), p(f.getMesh()), key + ":mesh-shared")
        d = f.clone(True)
        mon.ok(all(p(a) != p(b) for a, b in zip(d.getArrays(), f.getArrays())), key + ":arrays-deep")
        mon.eq(p(d.getMesh()), p(f.getMesh()), key + ":mesh-shared-in-clone")
        e = f.cloneWithMesh(True)
        mon.ok(all(p(a) != p(b) for a, b in zip(e.getArrays(), f.getArrays())), key + ":with-mesh-arrays")
        mon.ok(p(e.getMesh()) != p(f.getMesh()), key + ":with-mesh")
        e = f.cloneWithMesh(False)
        mon.ok(all(p(a) == p(b) for a, b in zip(e.getArrays(), f.getArrays())), key + ":with-mesh-shallow-arrays")
        mon.ok(p(e.getMesh()) != p(f.getMesh()), key + ":with-mesh-shallow")
        e = f.deepCopy()
        mon.ok(p(e.getMesh()) != p(f.getMesh()), key + ":deep-copy-mesh")
        # change of a value of the shared arrays shows in both
        c.getArrays()[-1].setIJ(0, 0, 123.25)
        mon.eq(f.getArrays()[-1].getIJ(0, 0), 123.25, key + ":visible")
        mon.ok(d.getArrays()[-1].getIJ(0, 0) != 123.25, key + ":deep-not-visible")
    else:
        a = arr_obj(rng, m, "DataArrayDouble")
        b = a.performCopyOrIncrRef(False)
        mon.eq(b.getHiddenCppPointer(), a.getHiddenCppPointer(), key + ":same")
        n, nc = a.getNumberOfTuples(), a.getNumberOfComponents()
        c = m.DataArrayDouble.New()
        c.copyStringInfoFrom(a) if False else None
        d = a.deepCopy()
        if n:
            d.setIJ(0, 0, 77.5)
            mon.ok(a.getIJ(0, 0) != 77.5, key + ":deep")
        # string information is copied alone
        e = m.DataArrayDouble.New()
        e.alloc(n + 1, nc)
        e.fillWithValue(2.)
        e.copyStringInfoFrom(a)
        mon.eq((e.getName(), tuple(e.getInfoOnComponents()), e.getNumberOfTuples()), (a.getName(), tuple(a.getInfoOnComponents()), n + 1), key + ":strings")
    mon.nontrivial = True


def t_misc(rng, mon, m):
    which = rng.choice(["gaussloc", "multi", "overtime", "part", "slice", "dense", "template", "skyline"])
    key = "misc:" + which
    mon.mark("misc", which)
    if which == "gaussloc":
        from props import C13
        t = rng.choice([3, 4, 14, 18, 1])
        n = rng.randint(1, 4)
        pts = [C13.inside(rng, t) for _ in range(n)]
        mk = lambda: m.MEDCouplingGaussLocalization(t, C13.REFC[t], [x for p in pts for x in p], w)
        w = [rng.uniform(0.1, 1) for _ in range(n)]
        g, h = mk(), mk()
        mon.ok(g.isEqual(h, 1e-14) and h.isEqual(g, 1e-14), key + ":equal")
        d = 10 ** rng.uniform(-8, -2)
        i = rng.randrange(n)
        dim = len(pts[0])
        for what in ("point", "weight", "ref"):
            h = mk()
            if what == "point":
                j = rng.randrange(dim)
                h.setGaussCoord(i, j, h.getGaussCoord(i, j) + d)
            elif what == "weight":
                h.setWeight(i, h.getWeight(i) - d)
            else:
                j = rng.randrange(dim)
                h.setRefCoord(0, j, h.getRefCoord(0, j) + d)
            mon.ok(not g.isEqual(h, d / 2) and not h.isEqual(g, d / 2), key + ":" + what + ":unseen")
            mon.ok(g.isEqual(h, d * 2) and h.isEqual(g, d * 2), key + ":" + what + ":tolerance")
        mon.eq(locrepr(g), locrepr(mk()), key + ":content")
        if n > 1:
            h = m.MEDCouplingGaussLocalization(t, C13.REFC[t], [x for p in pts[:-1] for x in p], w[:-1])
            mon.ok(not g.isEqual(h, 1.) and not h.isEqual(g, 1.), key + ":count")
    elif which in ("multi", "overtime"):
        from props import C13
        n = rng.randint(1, 4)
        kd = rng.choice(["cells", "nodes"])
        fs = []
        for q in range(n):
            if which == "multi" or not fs:
                f = C13.build(rng, m, kd, "one", 2).f
            else:  # slices of one field
                f = fs[0].clone(True)
                f.getArray()[:] = f.getArray() * (q + 1.5)
            f.setTime(float(q), q, 0)
            f.setTimeUnit(rng.choice(["", "s"]))
            fs.append(f)
        C = m.MEDCouplingMultiFields if which == "multi" else m.MEDCouplingFieldOverTime
        x = C.New(fs)
        ref = [deep(f) for f in fs]
        c = x.deepCopy()
        mon.eq([deep(f) for f in c.getFields()], ref, key + ":content")
        mon.ok(c.isEqual(x, 0., 0.) and x.isEqual(c, 0., 0.), key + ":equal")
        mon.ok(c.isEqualWithoutConsideringStr(x, 0., 0.), key + ":equal-nostr")
        q = rng.randrange(n)
        a = c.getFields()[q].getArray()
        i, j = rng.randrange(a.getNumberOfTuples()), rng.randrange(a.getNumberOfComponents())
        a.setIJ(i, j, a.getIJ(i, j) + 1 + abs(a.getIJ(i, j)))
        mon.ok(not c.isEqual(x, 1e-9, 1e-9) and not x.isEqual(c, 1e-9, 1e-9), key + ":value")
        mon.ok(not c.isEqualWithoutConsideringStr(x, 1e-9, 1e-9), key + ":value-nostr")
        mon.eq([deep(f) for f in fs], ref, key + ":shows-in-source")
        c = x.deepCopy()
        c.getFields()[q].setName("zzz")
        mon.ok(not c.isEqual(x, 1e-9, 1e-9), key + ":name")
        mon.ok(c.isEqualWithoutConsideringStr(x, 1e-9, 1e-9), key + ":name-nostr")
        if n > 1:
            mon.ok(not C.New(fs[:-1]).isEqual(x, 1e-9, 1e-9) and not x.isEqual(C.New(fs[:-1]), 1e-9, 1e-9), key + ":shorter")
    elif which == "part":
        v = [rng.randint(0, 20) for _ in range(rng.randint(0, 6))]
        p = m.DataArrayPartDefinition.New(G.ids(m, v))
        c = p.deepCopy()
        mon.ok(p.isEqual(c)[0] and c.isEqual(p)[0], key + ":equal")
        for w in ([v + [1]] + ([v[:-1], v[:-1] + [v[-1] + 1]] if v else [])):
            r = p.isEqual(m.DataArrayPartDefinition.New(G.ids(m, w)))
            mon.ok(not r[0] and len(r[1]) > 0, key + ":unseen", other=w)
    elif which == "slice":
        s = (rng.randint(0, 5), rng.randint(6, 20), rng.randint(1, 3))
        p = m.SlicePartDefinition.New(*s)
        c = p.deepCopy()
        mon.ok(p.isEqual(c)[0] and c.isEqual(p)[0], key + ":equal")
        for q in range(3):
            w = list(s)
            w[q] += 1
            r = p.isEqual(m.SlicePartDefinition.New(*w))
            mon.ok(not r[0] and len(r[1]) > 0, key + ":unseen", other=w, this=s)
    elif which == "dense":
        r, c = rng.randint(1, 5), rng.randint(1, 5)
        A = np.array([[rng.gauss(0, 1) for _ in range(c)] for _ in range(r)])
        x = m.DenseMatrix.New(G.dbl(m, A.ravel().tolist()), r, c)
        y = x.deepCopy()
        mon.ok(x.isEqual(y, 0.) and y.isEqual(x, 0.), key + ":equal")
        d = 10 ** rng.uniform(-6, -1)
        B = A.copy()
        B[rng.randrange(r), rng.randrange(c)] += d
        z = m.DenseMatrix.New(G.dbl(m, B.ravel().tolist()), r, c)
        mon.ok(not x.isEqual(z, d / 2) and not z.isEqual(x, d / 2), key + ":unseen")
        mon.ok(x.isEqual(z, 2 * d), key + ":tolerance")
        w = x.isEqualIfNotWhy(z, d / 2)
        mon.ok(not w[0] and len(w[1]) > 0, key + ":reason")
        if r != c:
            z = m.DenseMatrix.New(G.dbl(m, A.ravel().tolist()), c, r)
            mon.ok(not x.isEqual(z, 1e3) and not z.isEqual(x, 1e3), key + ":shape")
    elif which == "template":
        from props import C13
        r = C13.build(rng, m)
        t = m.MEDCouplingFieldTemplate(r.f)
        mon.eq(t.getTypeOfField(), r.f.getTypeOfField(), key + ":type")
        mon.eq(gauss(t), gauss(r.f), key + ":gauss")
        mon.eq(deep(t.getMesh()), deep(r.f.getMesh()), key + ":mesh")
        g = m.MEDCouplingFieldDouble(t, m.ONE_TIME)
        mon.eq((g.getTypeOfField(), gauss(g), g.getMesh().getHiddenCppPointer()),
               (r.f.getTypeOfField(), gauss(r.f), r.f.getMesh().getHiddenCppPointer()), key + ":back")
        mon.eq(g.getNumberOfTuplesExpected(), r.nt, key + ":expected")
    else:
        rows = [[rng.randint(0, 9) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 5))]
        off = [0]
        for x in rows:
            off.append(off[-1] + len(x))
        s = m.MEDCouplingSkyLineArray(G.ids(m, off), G.ids(m, [v for x in rows for v in x]))
        c = s.deepCopy()
        rd = lambda y: (G.L(y.getIndexArray()), G.L(y.getValuesArray()))
        mon.eq(rd(c), rd(s), key + ":content")
        if c.getValuesArray().getNumberOfTuples():
            c.getValuesArray().setIJ(0, 0, 55)
            mon.eq(rd(s)[1], [v for x in rows for v in x], key + ":shows-in-source")


def t_exchange(rng, mon, m):
    """An object which went through pickle is usable like its source: services give the same results."""
    which = rng.choice(["mesh", "field", "list"])
    key = "exchange:" + which
    if which == "mesh":
        k = mesh_kind(rng, m)
        a, b = k.o, rng.choice(k.copies)[1](k.o)
        for s in ("getNumberOfCells", "getNumberOfNodes", "getSpaceDimension", "getMeshDimension"):
            mon.eq(getattr(b, s)(), getattr(a, s)(), key + ":" + s)
        mon.eq(deep(b.buildUnstructured()), deep(a.buildUnstructured()), key + ":unstructured:" + k.which)
        if k.which != "extruded":
            mon.eq(G.L(b.getMeasureField(True).getArray()), G.L(a.getMeasureField(True).getArray()), key + ":measure:" + k.which)
        mon.eq([b.getTypeOfCell(i) for i in range(a.getNumberOfCells())], [a.getTypeOfCell(i) for i in range(a.getNumberOfCells())], key + ":types")
    elif which == "field":
        k = field_kind(rng, m, "double")
        a = k.o
        b = rng.choice(k.copies)[1](a)
        mon.eq(G.np2(b.getLocalizationOfDiscr()).tolist(), G.np2(a.getLocalizationOfDiscr()).tolist(), key + ":places")
        mon.eq(list(b.accumulate()), list(a.accumulate()), key + ":sum")
        mon.eq(b.getTimeTolerance(), a.getTimeTolerance(), key + ":tolerance")
        b.checkConsistencyLight()
    else:
        # several objects which share a mesh in one pickle
        um = M.anymesh(rng).um(m)
        fs = [M.field(rng, m, um)[0] for _ in range(3)]
        back = roundtrip([um, fs, {"k": fs[0].getArray()}])
        mon.eq(deep(back[0]), deep(um), key + ":mesh")
        mon.eq([deep(f) for f in back[1]], [deep(f) for f in fs], key + ":fields")
        mon.eq(deep(back[2]["k"]), deep(fs[0].getArray()), key + ":array")
    mon.nontrivial = True


def t_meta(rng, mon, m):
    """Name, description, instant and unit of a mesh are copied with it and given to what is made of it."""
    pm = M.anymesh(rng)
    u = rng.choice([lambda: pm.um(m), lambda: M.cmesh(rng, m)[0], lambda: M.imesh(rng, m)[0], lambda: M.curvi(rng, m)[0]])()
    key = "meta:" + type(u).__name__
    t = [round(rng.uniform(-5, 5), 3), rng.randint(0, 9), rng.randint(0, 9)]
    u.setName("name %d" % rng.randint(0, 9))
    u.setDescription("desc %d" % rng.randint(0, 9))
    u.setTime(*t)
    u.setTimeUnit(rng.choice(["s", "ms"]))
    lab = lambda x: (x.getName(), x.getDescription(), x.getTime(), x.getTimeUnit())
    w = type(u)()
    w.copyTinyInfoFrom(u)
    mon.eq(lab(w), lab(u), key + ":copyTinyInfoFrom")
    w = type(u)()
    w.copyTinyStringsFrom(u)
    mon.eq((w.getName(), w.getDescription(), w.getTimeUnit()), (u.getName(), u.getDescription(), u.getTimeUnit()), key + ":copyTinyStringsFrom")
    mon.ok(w.getTime() == [0., -1, -1], key + ":copyTinyStringsFrom:time")
    for nm in ("buildUnstructured", "deepCopy", "buildPart", "build1SGTUnstructured"):
        if hasattr(u, nm):
            with G.Pure(mon, key + ":" + nm, u):
                w = getattr(u, nm)([0]) if nm == "buildPart" else getattr(u, nm)()
            mon.eq(lab(w), lab(u), key + ":" + nm)
    with G.Pure(mon, key + ":fields", u):
        f = u.getMeasureField(True)
        g = u.fillFromAnalytic(m.ON_CELLS, 1, "1")
    mon.eq((f.getTime(), f.getTimeUnit(), f.getName()), (u.getTime(), u.getTimeUnit(), "MeasureOfMesh_" + u.getName()), key + ":measure")
    mon.eq((g.getTime(), g.getTimeUnit()), (u.getTime(), u.getTimeUnit()), key + ":analytic")
    # any of them is seen by the comparison
    for ch in (lambda x: x.setName("z"), lambda x: x.setDescription("z"), lambda x: x.setTimeUnit("z"), lambda x: x.setTime(t[0] + 1, t[1], t[2]),
               lambda x: x.setTime(t[0], t[1] + 1, t[2]), lambda x: x.setTime(t[0], t[1], t[2] + 1)):
        w = u.deepCopy()
        mon.ok(w.isEqual(u, 0.), key + ":equal")
        ch(w)
        mon.ok(not w.isEqual(u, 0.) and not u.isEqual(w, 0.), key + ":change-not-seen", got=lab(w), was=lab(u))
        ok, why = u.isEqualIfNotWhy(w, 0.)
        mon.ok(not ok and len(why) > 0, key + ":reason")
    mon.nontrivial = True


def t_kind(rng, mon, m):
    """The kind of quantity goes with the field."""
    k = field_kind(rng, m, rng.choice(["double", "other"]))
    f = k.o
    key = "kind"
    allowed = list(m.QuantityKindEnum.AllowedValues())
    w = rng.choice(["undef", "enum", "user"])
    v = None
    if w == "enum":
        v = rng.choice(allowed)
        q = m.QuantityKindEnum(v)
    elif w == "user":
        v = rng.choice([rng.choice(allowed), "", "|", "QK1|ENUM|", "a b\n\t|%", "".join(chr(rng.randint(1, 127)) for _ in range(rng.randint(0, 40))),
                        "\u00e9\u20ac\u00ff"])
        q = m.QuantityKindUser(v)
    else:
        q = m.QuantityKindUnDef()
    see = lambda x: (type(x).__name__, None if isinstance(x, m.QuantityKindUnDef) else x.value(), x.getClassName(), str(x))
    want = (type(q).__name__, v)
    mon.eq(see(q)[:2], want, key + ":value")
    text = q.serialize()
    mon.eq(see(m.QuantityKindAbstract.Deserialize(text)), see(q), key + ":serialize", text=text)
    bad = rng.choice([text[:3], text[1:], "QK2" + text[3:], text.replace("|", "/"), text + "0", text + "xy", text[:4] + "Z" + text[4:], ""])
    mon.raises(lambda: m.QuantityKindAbstract.Deserialize(bad), key + ":bad-text")
    mon.raises(lambda: m.QuantityKindEnum(rng.choice(["", "displacement", "Speed ", rng.choice(allowed) + "x"])), key + ":unknown")
    mon.eq(m.QuantityKindEnum.MCIdOfValue(allowed[3]), 3, key + ":id")
    mon.eq(see(f.getQuantityKind())[0], "QuantityKindUnDef", key + ":default")
    f.setQuantityKind(q)
    if rng.random() < .3:
        f.setQuantityKind(q)
    mon.eq(see(f.getQuantityKind()), see(q), key + ":field")
    ways = {"deepCopy": lambda: f.deepCopy(), "clone": lambda: f.clone(rng.random() < .5), "cloneWithMesh": lambda: f.cloneWithMesh(rng.random() < .5),
            "copy": lambda: pycopy.copy(f) if hasattr(type(f), "__copy__") else pycopy.deepcopy(f), "deepcopy": lambda: pycopy.deepcopy(f),
            "pickle": lambda: roundtrip(f)}
    for nm in rng.sample(sorted(ways), 3):
        with G.Pure(mon, key, f):
            g = ways[nm]()
        mon.eq(see(g.getQuantityKind()), see(q), key + ":" + nm)
        g.setQuantityKind(m.QuantityKindUser("other"))
        mon.eq(see(f.getQuantityKind()), see(q), key + ":apart:" + nm)
    if hasattr(f, "copyTinyAttrFrom"):
        g = type(f)(f.getTypeOfField(), f.getTimeDiscretization())
        g.copyTinyAttrFrom(f)
        mon.eq(see(g.getQuantityKind()), see(q), key + ":copyTinyAttrFrom")
    n = q.getRCValue() if hasattr(q, "getRCValue") else None
    f.setQuantityKind(m.QuantityKindUnDef())
    if n is not None:
        mon.eq(q.getRCValue(), 1, key + ":references")
    mon.raises(lambda: f.setQuantityKind(None), key + ":none")
    mon.nontrivial = True
    mon.mark(key, w)


def t_refs(rng, mon, m):
    """What is given to an object lives exactly as long as it is used, however many times it is given."""
    D, I, F = m.DataArrayDouble, m.DataArrayInt64 if m.MEDCouplingUse64BitIDs() else m.DataArrayInt32, m.MEDCouplingFieldDouble
    dbl = lambda: D([float(rng.randint(0, 9)) for _ in range(8)], 4, 2)
    ax = lambda: D([0., 1., 2. + rng.random()])
    two = lambda: I([0, 1, 1, 2, 2, 3])

    def umesh():
        u = m.MEDCouplingUMesh("u", 1)
        u.setCoords(dbl())
        return u

    def dgt():
        u = m.MEDCoupling1DGTUMesh("u", m.NORM_POLYGON)
        u.setCoords(dbl())
        return u

    def sgt():
        u = m.MEDCoupling1SGTUMesh("u", m.NORM_SEG2)
        u.setCoords(dbl())
        return u

    def fld(t):
        f = F(m.ON_CELLS, t)
        c = m.MEDCouplingCMesh()
        c.setCoords(D([0., 1., 2., 3., 4.]))
        f.setMesh(c)
        return f
    vals = lambda: D([1., 2., 3., 4.])
    line = lambda: M.cmesh(rng, m, 1)[0]
    kinds = {
        "umesh:coords": (umesh, lambda o, x: o.setCoords(x), lambda o: o.getCoords(), dbl),
        "umesh:connectivity": (umesh, lambda o, x: o.setConnectivity(x, I([0, 3, 6, 9])), lambda o: o.getNodalConnectivity(),
                               lambda: I([1, 0, 1, 1, 1, 2, 1, 2, 3])),
        "umesh:index": (umesh, lambda o, x: o.setConnectivity(I([1, 0, 1, 1, 1, 2, 1, 2, 3]), x), lambda o: o.getNodalConnectivityIndex(),
                        lambda: I([0, 3, 6, 9])),
        "1sgt:connectivity": (sgt, lambda o, x: o.setNodalConnectivity(x), lambda o: o.getNodalConnectivity(), two),
        "1dgt:connectivity": (dgt, lambda o, x: o.setNodalConnectivity(x, I([0, 3, 6])), lambda o: o.getNodalConnectivity(), two),
        "1dgt:index": (dgt, lambda o, x: o.setNodalConnectivity(two(), x), lambda o: o.getNodalConnectivityIndex(), lambda: I([0, 3, 6])),
        "1dgt:coords": (dgt, lambda o, x: o.setCoords(x), lambda o: o.getCoords(), dbl),
        "cmesh:axis": (m.MEDCouplingCMesh, lambda o, x: o.setCoordsAt(0, x), lambda o: o.getCoordsAt(0), ax),
        "cmesh:axes": (m.MEDCouplingCMesh, lambda o, x: o.setCoords(x, ax()), lambda o: o.getCoordsAt(0), ax),
        "curvi:coords": (lambda: m.MEDCouplingCurveLinearMesh("c"), lambda o, x: o.setCoords(x), lambda o: o.getCoords(), dbl),
        "field:array": (lambda: fld(m.ONE_TIME), lambda o, x: o.setArray(x), lambda o: o.getArray(), vals),
        "field:end": (lambda: fld(m.LINEAR_TIME), lambda o, x: o.setEndArray(x), lambda o: o.getEndArray(), vals),
        "field:arrays": (lambda: fld(m.LINEAR_TIME), lambda o, x: o.setArrays([x, vals()]), lambda o: o.getArrays()[0], vals),
        "field:same": (lambda: fld(m.LINEAR_TIME), lambda o, x: o.setArrays([x, x]), lambda o: o.getArrays()[1], vals),
        "field:mesh": (lambda: fld(m.ONE_TIME), lambda o, x: o.setMesh(x), lambda o: o.getMesh(), line),
        "field:kind": (lambda: fld(m.NO_TIME), lambda o, x: o.setQuantityKind(x), lambda o: o.getQuantityKind(), lambda: m.QuantityKindUser("k")),
        "sky:values": (m.MEDCouplingSkyLineArray, lambda o, x: o.set(I([0, 2, 6]), x), lambda o: o.getValuesArray(), two),
        "sky:index": (m.MEDCouplingSkyLineArray, lambda o, x: o.set(x, two()), lambda o: o.getIndexArray(), lambda: I([0, 2, 6])),
        "sky:super": (m.MEDCouplingSkyLineArray, lambda o, x: o.set3(x, I([0, 2, 6]), two()), lambda o: o.getSuperIndexArray(), lambda: I([0, 1, 2])),
    }
    for which in rng.sample(sorted(kinds), 6):
        make, put, get, new = kinds[which]
        key = "refs:" + which
        xs = [new() for _ in range(3)]
        ptr = [x.getHiddenCppPointer() if hasattr(x, "getHiddenCppPointer") else None for x in xs]
        o = make()
        cur, log, keep = None, [], []
        for _ in range(rng.randint(2, 9)):
            a = rng.choice(["put", "put", "again", "get", "back", "clone", "none"])
            log.append(a)
            if a == "put" or cur is None:
                cur = rng.randrange(3)
                put(o, xs[cur])
            elif a == "again":
                put(o, xs[cur])
            elif a == "back":
                put(o, get(o))
            elif a == "get":
                g = get(o)
                if ptr[cur] is not None:
                    mon.eq(g.getHiddenCppPointer(), ptr[cur], key + ":given")
                del g
            elif a == "clone" and hasattr(o, "clone"):
                keep.append(o.clone(rng.random() < .5))
            elif a == "clone":
                keep.append(o.deepCopy())
        held = xs[cur].getRCValue()
        mon.ok(held >= 2, key + ":not-held", got=held)
        for k, x in enumerate(xs):
            if k != cur and not keep:
                mon.eq(x.getRCValue(), 1, key + ":released", log=log)
        txt = repr(deep(xs[cur])) if not which.endswith("kind") else str(xs[cur])
        if rng.random() < .3:
            xs[cur] = None
            gc.collect()
            mon.eq(repr(deep(get(o))) if not which.endswith("kind") else str(get(o)), txt, key + ":alive", log=log)
            xs[cur] = get(o)
        del o
        keep.clear()
        gc.collect()
        for x in xs:
            mon.eq(x.getRCValue(), 1, key + ":kept-for-ever", log=log)
    mon.nontrivial = True
    mon.mark("refs", which)


NOT_CONTENTS = ("iteration", "order", "time", "nature", "ids")


def t_label(rng, mon, m):
    """The time label of an object, once updated, rises with any change of its contents and with nothing else."""
    key = "label"
    k = rng.choice([arr_kind, mesh_kind, field_kind])(rng, m)
    if not hasattr(k.o, "getTimeOfThis"):
        return mon.mark(key, "none")
    muts = [x for x in k.muts if x[1] in ("val", "shape") and not x[0].startswith(("gauss-ref", "gauss-point", "gauss-weight")) and
            not any(x[0] in (p + n for p in ("", "Start", "End")) for n in NOT_CONTENTS)]

    def now(x):
        x.updateTime()
        return x.getTimeOfThis()

    seen = 0
    for nm, kind, fn in rng.sample(muts, min(len(muts), 6)):
        c = k.copies[0][1](k.o)
        t = now(c)
        for read in (lambda: k.deep(c), lambda: repr(c), lambda: c.simpleRepr(), lambda: c.getHeapMemorySize()):
            try:
                read()
            except (m.InterpKernelException, AttributeError):
                pass
        mon.eq(now(c), t, key + ":still", change=nm)
        fn(c)
        t2 = now(c)
        mon.ok(t2 > t, key + ":change", change=nm, cls=type(c).__name__, before=t, after=t2)
        mon.eq(now(c), t2, key + ":twice", change=nm)
        seen += 1
    # a chain array -> mesh -> field -> fields
    um = m.MEDCouplingCMesh()
    n = [rng.randint(3, 4) for _ in range(rng.choice([2, 3]))]
    um.setCoords(*[G.da(m.DataArrayDouble, [float(x) for x in range(v)], 1) for v in n])
    um = um.buildUnstructured()
    f = m.MEDCouplingFieldDouble(rng.choice([m.ON_CELLS, m.ON_NODES]))
    f.setMesh(um)
    nt = um.getNumberOfCells() if f.getTypeOfField() == m.ON_CELLS else um.getNumberOfNodes()
    a = m.DataArrayDouble(nt, 2)
    a.fillWithValue(1.)
    f.setArray(a)
    top = m.MEDCouplingMultiFields([f, f])
    xyz = um.getCoords()
    objs = {"field": f, "fields": top, "mesh": um, "coords": xyz, "array": a}
    of_array, of_mesh, of_coords = {"field", "fields", "array"}, {"field", "fields", "mesh"}, {"field", "fields", "mesh", "coords"}
    dim = len(n)
    half = sorted(rng.sample(range(a.getNumberOfTuples()), 2))
    perm = list(range(a.getNumberOfTuples()))
    rng.shuffle(perm)
    cperm = list(range(um.getNumberOfCells()))
    rng.shuffle(cperm)
    one = lambda: G.da(m.DataArrayDouble, [2., 3., 4., 5.], 2)
    ops = {"fillWithValue": (of_array, lambda: a.fillWithValue(2.)), "applyLin": (of_array, lambda: a.applyLin(2., 1.)),
           "applyLin1": (of_array, lambda: a.applyLin(2., 1., 1)), "applyPow": (of_array, lambda: a.applyPow(rng.choice([0, 2]))), "abs": (of_array, lambda: a.abs()),
           "setIJ": (of_array, lambda: a.setIJ(0, 1, 5.)), "fillWithZero": (of_array, lambda: a.fillWithZero()),
           "reverse": (of_array, lambda: a.reverse()), "renumberInPlace": (of_array, lambda: a.renumberInPlace(perm)),
           "renumberInPlaceR": (of_array, lambda: a.renumberInPlaceR(perm)), "addEqual": (of_array, lambda: a.addEqual(a.deepCopy())),
           "multiplyEqual": (of_array, lambda: a.multiplyEqual(a.deepCopy())), "divideEqual": (of_array, lambda: a.divideEqual(m.DataArrayDouble([2.] * 2 * len(perm), len(perm), 2))),
           "substractEqual": (of_array, lambda: a.substractEqual(a.deepCopy())),
           "setPartOfValues1": (of_array, lambda: a.setPartOfValues1(one(), 0, 2, 1, 0, 2, 1)),
           "setPartOfValuesSimple1": (of_array, lambda: a.setPartOfValuesSimple1(7., 0, 2, 1, 0, 1, 1)),
           "setPartOfValuesAdv": (of_array, lambda: a.setPartOfValuesAdv(one(), m.DataArrayInt64([(half[0], 0), (half[1], 1)]))),
           "setContigPartOfSelectedValues": (of_array, lambda: a.setContigPartOfSelectedValues(0, one(), m.DataArrayInt64([0, 1]))),
           "setContigPartOfSelectedValuesSlice": (of_array, lambda: a.setContigPartOfSelectedValuesSlice(0, one(), 0, 2, 1)),
           "setSelectedComponents": (of_array, lambda: a.setSelectedComponents(a.deepCopy(), [1, 0])), "setitem": (of_array, lambda: a.__setitem__(0, 3.)),
           "iadd": (of_array, lambda: a.__iadd__(1.)), "imul": (of_array, lambda: a.__imul__(2.)), "itruediv": (of_array, lambda: a.__itruediv__(2.)),
           "rearrange": (of_array, lambda: (a.rearrange(1), a.rearrange(2))), "field-lin": ({"field", "fields"}, lambda: f.applyLin(2., 0., 0)),
           "field-func": ({"field", "fields"}, lambda: f.applyFunc("2*x")), "field-value": ({"field", "fields"}, lambda: f.__imul__(2.)),
           "field-setArray": ({"field", "fields"}, lambda: f.setArray(a.deepCopy())), "field-setMesh": ({"field", "fields"}, lambda: f.setMesh(um.deepCopy())),
           "translate": (of_coords - {"coords"}, lambda: um.translate([1.] * dim)), "scale": (of_coords - {"coords"}, lambda: um.scale([0.] * dim, 2.)),
           "rotate": (of_coords - {"coords"}, lambda: um.rotate([0.] * dim, [1.] * dim, .5) if dim == 3 else um.rotate([0., 0.], .5)),
           "coords-setIJ": (of_coords, lambda: xyz.setIJ(0, 0, -.25)), "setCoords": (of_mesh, lambda: um.setCoords(xyz.deepCopy())),
           "renumberCells": (of_mesh, lambda: um.renumberCells(cperm, False)), "convertAllToPoly": (of_mesh, lambda: um.convertAllToPoly()),
           "convertToPolyTypes": (of_mesh, lambda: um.convertToPolyTypes([0])),
           "connectivity-setIJ": (of_mesh, lambda: um.getNodalConnectivity().setIJ(1, 0, um.getNodalConnectivity().getIJ(2, 0))),
           "setConnectivity": (of_mesh, lambda: um.setConnectivity(um.getNodalConnectivity().deepCopy(), um.getNodalConnectivityIndex().deepCopy())),
           "renumberNodesInConn": (of_mesh, lambda: um.renumberNodesInConn(m.DataArrayInt64(list(reversed(range(um.getNumberOfNodes()))))))}
    log = []
    for nm in rng.sample(sorted(ops), 5):
        moved, fn = ops[nm]
        log.append(nm)
        before = {q: now(x) for q, x in objs.items()}
        fn()
        after = {q: now(x) for q, x in objs.items()}
        for q in objs:
            if q in moved:
                mon.ok(after[q] > before[q], key + ":chain", log=log, seen_by=q, before=before[q], after=after[q])
        for q in objs:
            if after[q] != before[q]:
                continue
            mon.eq(now(objs[q]), after[q], key + ":chain-still", log=log)
        alone = set(objs) - {"field", "fields"} - moved
        for q in alone:
            if q in ("array", "coords", "mesh") and not nm.startswith(("field", "translate", "scale", "rotate")):
                mon.eq(after[q], before[q], key + ":chain-other", log=log, seen_by=q)
        if nm.startswith(("field-", "setC")):  # the objects at hand may not be those of the field any more
            seen += 1
            break
        seen += 1
    mon.nontrivial = seen > 0
    mon.mark(key, type(k.o).__name__)


OPS = [("array", t_array), ("mesh", t_mesh), ("field", t_field), ("share", t_share), ("misc", t_misc), ("exchange", t_exchange),
       ("mesh2", t_mesh), ("field2", t_field), ("meta", t_meta), ("kind", t_kind), ("refs", t_refs), ("label", t_label)]
FAMILIES = [G.table("copies", OPS, 1300, 3)]
