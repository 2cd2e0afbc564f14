"""DataArrayDouble against numpy definitions."""
import math

import numpy as np

from props import gen as G

RULE = ("Each case applies one group of DataArrayDouble operations to six freshly generated arrays (1 to 360 tuples, 1 "
        "to 9 components, values spread over several magnitudes, ties, zeros, negative values) and compares every "
        "result with its numpy definition; inputs are compared with a snapshot taken before the call. Non-trivial: "
        "the arrays were built and the operations ran.")
ASSUMPTIONS = ["numpy and scipy as reference", "finite values; no comparison closer than 1e-9 relative to a tolerance"]


def arr(rng, n=None, nc=None, kind=None):
    n = G.size(rng) if n is None else n
    nc = rng.choice([1, 1, 2, 3, 4, 5]) if nc is None else nc
    k = rng.random() if kind is None else kind
    if k < 0.25:
        a = np.array([rng.choice([-2., -1., 0., 0.5, 1., 3.]) for _ in range(n * nc)])
    elif k < 0.4:
        a = np.array([rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6) for _ in range(n * nc)])
    else:
        a = np.array([rng.uniform(-10, 10) for _ in range(n * nc)])
    return a.reshape(n, nc)


def nz(rng, n, nc):
    a = arr(rng, n, nc)
    a[np.abs(a) < 1e-3] = 1.25
    return a


def D(m, a):
    d = G.npd(m, a)
    return d


def same(mon, got, want, key, tol=1e-12, **kw):
    want = np.asarray(want, dtype=float)
    if want.ndim == 1:
        want = want.reshape(-1, 1)
    return mon.close(G.np2(got), want, key, tol, **kw)


# ------------------------------------------------------------------------------------------- arithmetic
def t_binary(rng, mon, m):
    op = rng.choice(["Add", "Substract", "Multiply", "Divide"])
    f = {"Add": np.add, "Substract": np.subtract, "Multiply": np.multiply, "Divide": np.divide}[op]
    n, nc = G.size(rng), rng.choice([1, 2, 3, 4])
    a = arr(rng, n, nc)
    mode = rng.choice(["same", "onecol", "onerow", "onecol-left", "onerow-left"])
    mon.mark(op, mode)
    b = {"same": (n, nc), "onecol": (n, 1), "onerow": (1, nc), "onecol-left": (n, nc), "onerow-left": (n, nc)}[mode]
    b = nz(rng, *b)
    if mode == "onecol-left":
        a = arr(rng, n, 1)
    if mode == "onerow-left":
        a = arr(rng, 1, nc)
    x, y = D(m, a), D(m, b)
    want = f(a, b)
    st = getattr(m.DataArrayDouble, op)
    legal = op in ("Add", "Multiply") or mode in ("same", "onecol", "onerow") or a.shape == b.shape
    with G.Pure(mon, op, x, y):
        try:
            r = st(x, y)
        except m.InterpKernelException:
            mon.ok(not legal, op + ":refused", mode=mode, a=a.shape, b=b.shape)
            return
        same(mon, r, want, f"{op}:{mode}")
    if mode in ("same", "onecol", "onerow"):
        z = D(m, a)
        getattr(z, {"Add": "addEqual", "Substract": "substractEqual", "Multiply": "multiplyEqual",
                    "Divide": "divideEqual"}[op])(y)
        same(mon, z, want, op + "Equal:" + mode)
    # operators with a scalar and a tuple
    s = rng.choice([2.0, -0.5, 3.0])
    row = nz(rng, 1, nc)[0]
    if a.shape[1] == nc:
        r = {"Add": lambda: x + s, "Substract": lambda: x - s, "Multiply": lambda: x * s, "Divide": lambda: x / s}[op]()
        same(mon, r, f(a, s), op + ":scalar")
        r = {"Add": lambda: s + x, "Substract": lambda: s - x, "Multiply": lambda: s * x, "Divide": lambda: s / y}[op]()
        same(mon, r, f(s, b if op == "Divide" else a), op + ":rscalar")
        if nc > 1:
            t = tuple(row.tolist())
            r = {"Add": lambda: x + t, "Substract": lambda: x - t, "Multiply": lambda: x * t, "Divide": lambda: x / t}[op]()
            same(mon, r, f(a, row), op + ":tuple")
    # shapes that agree in no way are refused
    if n > 1 and nc > 1:
        mon.raises(lambda: st(D(m, arr(rng, n, nc)), D(m, nz(rng, n + 1, nc))), op + ":bad-tuples")
        mon.raises(lambda: st(D(m, arr(rng, n, nc)), D(m, nz(rng, n, nc + 1))), op + ":bad-components")


def t_pow(rng, mon, m):
    n, nc = G.size(rng), rng.choice([1, 2, 3])
    a = np.abs(nz(rng, n, nc)) ** 0.5
    b = np.array([rng.choice([0., 1., 2., 0.5, -1., 3., rng.uniform(-2, 2)]) for _ in range(n)])
    x1 = D(m, a[:, 0])
    same(mon, m.DataArrayDouble.Pow(x1, D(m, b)), a[:, 0] ** b, "Pow", 1e-10)
    same(mon, x1 ** D(m, b), a[:, 0] ** b, "pow-operator", 1e-10)
    z = D(m, a)
    p = rng.choice([2.0, 3.0, 0.5, -1.0, 0.0, 1.7])
    z.applyPow(p)
    same(mon, z, a ** p, "applyPow", 1e-10)
    z = D(m, a)
    v = rng.choice([2.0, 0.5, 3.3])
    aa = np.clip(a, -5, 5)
    z = D(m, aa)
    z.applyRPow(v)
    same(mon, z, v ** aa, "applyRPow", 1e-10)
    z = D(m, a)
    z.applyInv(v)
    same(mon, z, v / a, "applyInv")
    bad = a.copy()
    bad[rng.randrange(n), rng.randrange(nc)] = 0.0
    mon.raises(lambda: D(m, bad).applyInv(2.), "applyInv:zero")
    mon.raises(lambda: D(m, bad).checkNoNullValues(), "checkNoNullValues")
    D(m, a).checkNoNullValues()
    mon.ok(True, "checkNoNullValues:ok")


def t_unary(rng, mon, m):
    a = arr(rng)
    n, nc = a.shape
    x = D(m, a)
    with G.Pure(mon, "unary", x):
        same(mon, x.negate(), -a, "negate")
        same(mon, -x, -a, "neg-operator")
        same(mon, x.computeAbs(), np.abs(a), "computeAbs")
        same(mon, abs(x) if hasattr(x, "__abs__") else x.computeAbs(), np.abs(a), "computeAbs")
        same(mon, x.magnitude(), np.sqrt((a * a).sum(1)), "magnitude", scale=max(1e-300, np.abs(a).max()))
        same(mon, x.sumPerTuple(), a.sum(1), "sumPerTuple", 1e-11, scale=max(1, np.abs(a).max()))
        same(mon, x.maxPerTuple(), a.max(1), "maxPerTuple", 0)
        same(mon, x.minPerTuple(), a.min(1), "minPerTuple", 0)
        r, c = x.maxPerTupleWithCompoId()
        same(mon, r, a.max(1), "maxPerTupleWithCompoId", 0)
        mon.eq(G.L(c), a.argmax(1).tolist(), "maxPerTupleWithCompoId:id")
    z = D(m, a)
    z.abs()
    same(mon, z, np.abs(a), "abs")
    z = D(m, a)
    p, q = rng.uniform(-3, 3), rng.uniform(-3, 3)
    z.applyLin(p, q)
    same(mon, z, a * p + q, "applyLin")
    z = D(m, a)
    k = rng.randrange(nc)
    z.applyLin(p, q, k)
    w = a.copy()
    w[:, k] = w[:, k] * p + q
    same(mon, z, w, "applyLin:component")
    z.fillWithZero()
    same(mon, z, 0 * a, "fillWithZero")
    z.fillWithValue(q)
    same(mon, z, 0 * a + q, "fillWithValue")
    one = G.dbl(m, [0.] * n)
    one.iota(q)
    same(mon, one, q + np.arange(n), "iota")
    z = D(m, a)
    z.reverse()
    same(mon, z, a[::-1], "reverse", 0)
    mon.raises(lambda: z.applyLin(1., 2., nc), "applyLin:bad-component")


def t_reduce(rng, mon, m):
    a = arr(rng)
    n, nc = a.shape
    x = D(m, a)
    sc = max(1.0, np.abs(a).max() * n)
    with G.Pure(mon, "reduce", x):
        mon.close(x.accumulate(), a.sum(0), "accumulate", 1e-12, scale=sc)
        k = rng.randrange(nc)
        mon.close(x.accumulate(k), a[:, k].sum(), "accumulate:component", 1e-12, scale=sc)
        mm = x.getMinMaxPerComponent()
        mon.close(mm, np.stack([a.min(0), a.max(0)], 1), "getMinMaxPerComponent", 0)
        mon.close(x.normMax(), np.abs(a).max(), "normMax", 0)
        mon.close(x.normMin(), np.abs(a).min(), "normMin", 0)
        mon.close(x.normMaxPerComponent(), np.abs(a).max(0), "normMaxPerComponent", 0)
        mon.close(x.norm2(), math.sqrt((a * a).sum()), "norm2", 1e-11, scale=max(1e-300, np.linalg.norm(a)))
        mon.raises(lambda: x.accumulate(nc), "accumulate:bad-component")
    v = a[:, 0]
    y = D(m, v)
    with G.Pure(mon, "reduce1", y):
        mx, i = y.getMaxValue()
        mon.eq((mx, i), (v.max(), int(v.argmax())), "getMaxValue")
        mn, i = y.getMinValue()
        mon.eq((mn, i), (v.min(), int(v.argmin())), "getMinValue")
        mx, t = y.getMaxValue2()
        mon.eq((mx, G.L(t)), (v.max(), np.flatnonzero(v == v.max()).tolist()), "getMaxValue2")
        mn, t = y.getMinValue2()
        mon.eq((mn, G.L(t)), (v.min(), np.flatnonzero(v == v.min()).tolist()), "getMinValue2")
        mon.close(y.getAverageValue(), v.mean(), "getAverageValue", 1e-12, scale=sc)
        same(mon, y.cumSum(), np.concatenate([[0.], np.cumsum(v)]), "cumSum", scale=sc)
        mon.eq((x.getMaxValueInArray(), x.getMinValueInArray()), (a.max(), a.min()), "getMax/MinValueInArray")
        idx = sorted(G.ints(rng, rng.randint(1, 8), 0, n - 1)) + [n]
        want = [a[p:q].sum(0) for p, q in zip(idx, idx[1:])]
        r = x.accumulatePerChunck(G.ids(m, idx))
        mon.eq((r.getNumberOfTuples(), r.getNumberOfComponents()), (len(idx) - 1, nc), "accumulatePerChunck:shape")
        if want:
            same(mon, r, want, "accumulatePerChunck", scale=sc)
        mon.raises(lambda: x.accumulatePerChunck(G.ids(m, [0, n + 2])), "accumulatePerChunck:bad")
        val = rng.choice(v.tolist())
        e = rng.choice([1e-12, 0.3])
        mon.eq(y.count(val, e), int((np.abs(v - val) <= e).sum()), "count")
    mon.raises(lambda: G.dbl(m, []).getMaxValue(), "getMaxValue:empty")


def t_ranges(rng, mon, m):
    v = arr(rng, nc=1)[:, 0]
    x = D(m, v)
    lo, hi = sorted([rng.choice(v.tolist() + [rng.uniform(-5, 5)]) for _ in range(2)])
    with G.Pure(mon, "ranges", x):
        ins = [i for i, t in enumerate(v) if lo <= t <= hi]
        mon.eq(G.L(x.findIdsInRange(lo, hi)), ins, "findIdsInRange")
        mon.eq(G.L(x.findIdsNotInRange(lo, hi)), sorted(set(range(len(v))) - set(ins)), "findIdsNotInRange")
        mon.eq(G.L(x.findIdsStrictlyNegative()), np.flatnonzero(v < 0).tolist(), "findIdsStrictlyNegative")
        for op, f in (("findIdsLowerThan", np.less), ("findIdsLowerOrEqualTo", np.less_equal),
                      ("findIdsGreaterThan", np.greater), ("findIdsGreaterOrEqualTo", np.greater_equal)):
            if hasattr(x, op):
                mon.eq(G.L(getattr(x, op)(lo)), np.flatnonzero(f(v, lo)).tolist(), op)
        eps = rng.choice([0., 1e-9, 0.01])
        inc = bool((np.diff(v) > eps).all()) if eps else bool((np.diff(v) >= 0).all())
        z = D(m, np.sort(v))
        d = np.diff(np.sort(v))
        if len(v) > 1 and eps and not ((np.abs(d - eps) < 1e-13).any()):
            mon.eq(z.isMonotonic(True, eps), bool((d >= eps).all()), "isMonotonic:sorted")
        d = np.diff(v)
        if len(v) > 1 and eps and not ((np.abs(np.abs(d) - eps) < 1e-13).any()):
            mon.eq(x.isMonotonic(True, eps), bool((d >= eps).all()), "isMonotonic:inc")
            mon.eq(x.isMonotonic(False, eps), bool((-d >= eps).all()), "isMonotonic:dec")
    u = v.copy()
    u[:] = v[0]
    e = 1e-6
    mon.ok(D(m, u).isUniform(float(v[0]), e), "isUniform")
    if len(v) > 1:
        u[rng.randrange(len(v))] += rng.choice([-1, 1]) * 3e-6
        mon.ok(not D(m, u).isUniform(float(v[0]), e), "isUniform:one-off")
    s = D(m, v)
    s.sort(True)
    same(mon, s, np.sort(v), "sort", 0)
    s.sort(False)
    same(mon, s, np.sort(v)[::-1], "sort:descending", 0)


# ------------------------------------------------------------------------------------------- tensors
def sym(t):
    return np.array([[t[0], t[3], t[5]], [t[3], t[1], t[4]], [t[5], t[4], t[2]]])


def t_tensor(rng, mon, m):
    nc = rng.choice([4, 6, 9])
    n = rng.randint(1, 20)
    a = np.array([rng.uniform(-3, 3) for _ in range(n * nc)]).reshape(n, nc)
    for i in range(n):
        if nc == 6 and rng.random() < 0.3:
            a[i, 3:] = 0.
        if nc == 6 and rng.random() < 0.2:
            a[i, 1] = a[i, 0]
    mats = [t.reshape(2, 2) if nc == 4 else sym(t) if nc == 6 else t.reshape(3, 3) for t in a]
    x = D(m, a)
    with G.Pure(mon, "tensor", x):
        same(mon, x.trace(), [np.trace(t) for t in mats], "trace")
        same(mon, x.determinant(), [np.linalg.det(t) for t in mats], "determinant", 1e-11, scale=100)
        good = [i for i, t in enumerate(mats) if np.linalg.cond(t) < 1e4]
        if good:
            y = D(m, a[good])
            r = G.np2(y.inverse())
            for k, i in enumerate(good):
                t = r[k].reshape(2, 2) if nc == 4 else sym(r[k]) if nc == 6 else r[k].reshape(3, 3)
                mon.close(t @ mats[i], np.eye(len(t)), "inverse", 1e-8, mat=mats[i])
        if nc == 6:
            same(mon, x.doublyContractedProduct(), [(t * t).sum() for t in mats], "doublyContractedProduct", 1e-11)
            dv = a.copy()
            dv[:, :3] -= a[:, :3].sum(1, keepdims=True) / 3
            same(mon, x.deviator(), dv, "deviator")
            ev = G.np2(x.eigenValues())
            ve = G.np2(x.eigenVectors())
            for i, t in enumerate(mats):
                w = np.linalg.eigvalsh(t)
                mon.close(sorted(ev[i]), w, "eigenValues", 1e-6, scale=10, mat=a[i])
                gap = np.diff(w).min()
                if gap > 0.05:
                    for j in range(3):
                        v = ve[i, 3 * j:3 * j + 3]
                        mon.close(np.linalg.norm(v), 1., "eigenVectors:unit", 1e-6)
                        mon.close(t @ v, ev[i, j] * v, "eigenVectors", 1e-5, scale=10, mat=a[i], j=j)
        for bad in (1, 2, 3, 5):
            mon.raises(lambda: D(m, np.ones((3, bad))).determinant(), "determinant:bad-components")


def t_vec(rng, mon, m):
    n = G.size(rng)
    a, b = arr(rng, n, 3), arr(rng, n, 3)
    x, y = D(m, a), D(m, b)
    sc = max(1.0, np.abs(a).max() * np.abs(b).max())
    with G.Pure(mon, "vec", x, y):
        same(mon, m.DataArrayDouble.CrossProduct(x, y), np.cross(a, b), "CrossProduct", scale=sc)
        nc = rng.randint(1, 5)
        c, d = arr(rng, n, nc), arr(rng, n, nc)
        p, q = D(m, c), D(m, d)
        same(mon, m.DataArrayDouble.Dot(p, q), (c * d).sum(1), "Dot", scale=max(1.0, np.abs(c).max() * np.abs(d).max()))
        same(mon, m.DataArrayDouble.Max(p, q), np.maximum(c, d), "Max", 0)
        same(mon, m.DataArrayDouble.Min(p, q), np.minimum(c, d), "Min", 0)
        mon.raises(lambda: m.DataArrayDouble.Dot(p, D(m, arr(rng, n + 1, nc))), "Dot:bad")
        mon.raises(lambda: m.DataArrayDouble.CrossProduct(x, D(m, arr(rng, n + 1, 3))), "CrossProduct:bad")


def t_coords(rng, mon, m):
    n = G.size(rng)
    a = np.array([rng.uniform(-5, 5) for _ in range(3 * n)]).reshape(n, 3)
    r, t = np.abs(a[:, 0]), a[:, 1]
    x = D(m, np.stack([r, t], 1))
    same(mon, x.fromPolarToCart(), np.stack([r * np.cos(t), r * np.sin(t)], 1), "fromPolarToCart")
    x = D(m, np.stack([r, t, a[:, 2]], 1))
    cyl = np.stack([r * np.cos(t), r * np.sin(t), a[:, 2]], 1)
    same(mon, x.fromCylToCart(), cyl, "fromCylToCart")
    same(mon, x.cartesianize(m.AX_CYL), cyl, "cartesianize:cyl")
    sph = np.stack([r * np.cos(a[:, 2]) * np.sin(t), r * np.sin(a[:, 2]) * np.sin(t), r * np.cos(t)], 1)
    same(mon, x.fromSpherToCart(), sph, "fromSpherToCart")
    same(mon, x.cartesianize(m.AX_SPHER), sph, "cartesianize:spher")
    same(mon, x.cartesianize(m.AX_CART), G.np2(x), "cartesianize:cart", 0)
    # inverses
    y = D(m, a)
    with G.Pure(mon, "coords", y):
        same(mon, y.fromCartToCyl().fromCylToCart(), a, "cart-cyl-cart", 1e-11, scale=10)
        same(mon, y.fromCartToSpher().fromSpherToCart(), a, "cart-spher-cart", 1e-11, scale=10)
        y2 = D(m, a[:, :2])
        same(mon, y2.fromCartToPolar().fromPolarToCart(), a[:, :2], "cart-polar-cart", 1e-11, scale=10)
        c = G.np2(y.fromCartToCyl())
        mon.close(c[:, 0], np.hypot(a[:, 0], a[:, 1]), "fromCartToCyl:radius", 1e-11)
        mon.ok(bool((c[:, 0] >= 0).all()), "fromCartToCyl:positive")
        s = G.np2(y.fromCartToSpher())
        mon.close(s[:, 0], np.linalg.norm(a, axis=1), "fromCartToSpher:radius", 1e-11)
    mon.raises(lambda: D(m, a).fromCartToPolar(), "fromCartToPolar:bad")
    mon.raises(lambda: D(m, a[:, :2]).fromCylToCart(), "fromCylToCart:bad")
    # vectors at points, in the local cylindrical basis of an axis
    ctr = np.array([rng.uniform(-1, 1) for _ in range(3)])
    k = np.array([rng.gauss(0, 1) for _ in range(3)])
    k /= np.linalg.norm(k)
    pts = np.array([rng.uniform(-5, 5) for _ in range(3 * n)]).reshape(n, 3)
    res = G.np2(D(m, a).fromCartToCylGiven(D(m, pts), ctr.tolist(), (k * rng.choice([1., 2.5])).tolist()))
    for i in range(n):
        w = pts[i] - ctr
        w = w - (w @ k) * k
        if np.linalg.norm(w) < 1e-3:
            continue
        er = w / np.linalg.norm(w)
        et = np.cross(k, er)
        mon.close(res[i], [a[i] @ er, a[i] @ et, a[i] @ k], "fromCartToCylGiven", 1e-8, scale=10)


# ------------------------------------------------------------------------------------------- points
def cloud(rng, n, d, dup=0.0, prec=1e-9):
    pts = [[rng.choice([rng.uniform(-4, 4), rng.uniform(-4, 4), float(rng.randint(-3, 3))]) for _ in range(d)]
           for _ in range(n)]
    for i in range(1, n):
        if rng.random() < dup:
            pts[i] = [v + rng.uniform(-1, 1) * prec * 0.3 for v in pts[rng.randrange(i)]]
    return np.array(pts).reshape(n, d)


def t_dist(rng, mon, m):
    d = rng.choice([1, 2, 3])
    a, b = cloud(rng, rng.randint(1, 40), d), cloud(rng, rng.randint(1, 40), d)
    if rng.random() < 0.3:
        a += 100.
        b += 100.
    x, y = D(m, a), D(m, b)
    dm = np.sqrt(((b[:, None, :] - a[None, :, :]) ** 2).sum(2))
    with G.Pure(mon, "dist", x, y):
        mon.close(np.array(G.L(x.buildEuclidianDistanceDenseMatrixWith(y))).reshape(len(b), len(a)), dm,
                  "distanceMatrixWith", 1e-11, scale=10)
        s = np.array(G.L(x.buildEuclidianDistanceDenseMatrix())).reshape(len(a), len(a))
        mon.close(s, np.sqrt(((a[:, None] - a[None]) ** 2).sum(2)), "distanceMatrix", 1e-11, scale=10)
        c = G.L(x.findClosestTupleId(y))
        mon.eq(len(c), len(b), "findClosestTupleId:size")
        mon.ok(all(0 <= i < len(a) for i in c), "findClosestTupleId:range", got=c)
        for j, i in enumerate(c):
            mon.close(dm[j, i], dm[j].min(), "findClosestTupleId", 1e-9, scale=1., a=a, b=b[j], i=i)
        dist, i, j = x.minimalDistanceTo(y)
        mon.close(dist, dm.min(), "minimalDistanceTo", 1e-9)
        mon.close(dm[j, i], dm.min(), "minimalDistanceTo:ids", 1e-9)
        p = b[rng.randrange(len(b))]
        dist, i = x.distanceToTuple(p.tolist())
        dd = np.linalg.norm(a - p, axis=1)
        mon.close(dist, dd.min(), "distanceToTuple", 1e-9)
        mon.close(dd[i], dd.min(), "distanceToTuple:id", 1e-9)
        mon.raises(lambda: x.distanceToTuple([1.] * (d + 1)), "distanceToTuple:bad")
        mon.raises(lambda: x.findClosestTupleId(D(m, np.ones((2, d + 1)))), "findClosestTupleId:bad")


def t_common(rng, mon, m):
    d = rng.choice([1, 2, 3, 4])
    prec = rng.choice([1e-9, 1e-4])
    base = cloud(rng, rng.randint(1, 30), d)
    # well separated classes of tuples, each with members within a small part of the precision
    keep = []
    for p in base:
        if all(np.abs(p - q).max() > 20 * prec for q in keep):
            keep.append(p)
    pts, cls = [], []
    for k, p in enumerate(keep):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            pts.append(p + np.array([rng.uniform(-1, 1) * prec * 0.2 for _ in range(d)]))
            cls.append(k)
    o = G.perm(rng, len(pts))
    pts, cls = np.array([pts[i] for i in o]), [cls[i] for i in o]
    n = len(pts)
    x = D(m, pts)
    dup = [i for i in range(n) if cls.index(cls[i]) < i] or [n]
    lim = rng.choice([-1, rng.randint(0, dup[0])])
    with G.Pure(mon, "common", x):
        c, ci = x.findCommonTuples(prec, -1)
        c, ci = G.L(c), G.L(ci)
        got = sorted(sorted(c[p:q]) for p, q in zip(ci, ci[1:]))
        want = sorted(g for g in ([i for i in range(n) if cls[i] == k] for k in set(cls)) if len(g) > 1)
        mon.eq(got, want, "findCommonTuples", prec=prec)
        mon.eq((ci[0], ci[-1]), (0, len(c)), "findCommonTuples:index")
        r = G.np2(x.getDifferentValues(prec, -1))
        mon.eq(len(r), len(set(cls)), "getDifferentValues:count")
        first = [i for i in range(n) if cls.index(cls[i]) == i]
        if len(r) == len(first):
            mon.close(r, pts[first], "getDifferentValues", 1.0, scale=prec)
        # limit: groups made only of ids at or after the limit may be left out, none else
        if lim >= 0 and len(set(cls[:lim])) == lim:
            c, ci = x.findCommonTuples(prec, lim)
            c, ci = G.L(c), G.L(ci)
            got = sorted(sorted(c[p:q]) for p, q in zip(ci, ci[1:]))
            mon.ok(all(g in want for g in got) and all(g in got for g in want if g[-1] >= lim), "findCommonTuples:limit",
                   got=got, want=want, lim=lim)
        if d <= 3 or True:
            # inclusion
            sel = [rng.randrange(n) for _ in range(rng.randint(1, 10))]
            oth = pts[sel] + prec * 0.1 * np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in sel])
            yes, tid = x.areIncludedInMe(D(m, oth), prec)
            mon.ok(yes, "areIncludedInMe")
            tid = G.L(tid)
            mon.ok(len(tid) == len(sel) and all(cls[t] == cls[s] for t, s in zip(tid, sel)), "areIncludedInMe:ids",
                   got=tid, sel=sel, n=n)
            oth2 = np.vstack([oth, pts[:1] + 1000.])
            no, _ = x.areIncludedInMe(D(m, oth2), prec)
            mon.ok(not no, "areIncludedInMe:no")
    if d <= 3:
        q = pts[[rng.randrange(n) for _ in range(5)]] + rng.choice([0., 0.05 * prec])
        q = np.vstack([q, q[:1] + 55.])
        c, ci = x.computeTupleIdsNearTuples(D(m, q), prec)
        c, ci = G.L(c), G.L(ci)
        mon.eq(len(ci), len(q) + 1, "computeTupleIdsNearTuples:size")
        for j in range(len(q)):
            dd = np.abs(pts - q[j]).max(1)
            must = set(np.flatnonzero(np.sqrt(((pts - q[j]) ** 2).sum(1)) < 0.95 * prec).tolist())
            may = set(np.flatnonzero(dd <= 1.05 * prec).tolist())
            g = set(c[ci[j]:ci[j + 1]])
            mon.ok(must <= g <= may, "computeTupleIdsNearTuples", got=g, must=must, may=may)


def t_geom(rng, mon, m):
    n = rng.randint(1, 30)
    d = rng.randint(1, 3)
    a = cloud(rng, n, d)
    e = rng.choice([0., 0.25])
    r = G.np2(D(m, a).computeBBoxPerTuple(e))
    w = np.empty((n, 2 * d))
    w[:, 0::2], w[:, 1::2] = a - e, a + e
    mon.close(r, w, "computeBBoxPerTuple", 1e-14, scale=4.)
    # boxes: number of boxes of other met by each box of this
    nb = rng.randint(1, 20)

    def boxes(k):
        lo = cloud(rng, k, d)
        hi = lo + np.array([[rng.uniform(0.05, 3) for _ in range(d)] for _ in range(k)])
        b = np.empty((k, 2 * d))
        b[:, 0::2], b[:, 1::2] = lo, hi
        return b
    b1, b2 = boxes(n), boxes(nb)
    over = ((b1[:, None, 0::2] < b2[None, :, 1::2] - 1e-9) & (b2[None, :, 0::2] < b1[:, None, 1::2] - 1e-9)).all(2)
    maybe = ((b1[:, None, 0::2] < b2[None, :, 1::2] + 1e-9) & (b2[None, :, 0::2] < b1[:, None, 1::2] + 1e-9)).all(2)
    if (over == maybe).all():
        got = D(m, b1).computeNbOfInteractionsWith(D(m, b2), 0.)
        mon.eq(G.L(got), over.sum(1).tolist(), "computeNbOfInteractionsWith")
    # symmetry
    a = cloud(rng, n, 3)
    pt = np.array([rng.uniform(-2, 2) for _ in range(3)])
    k = np.array([rng.gauss(0, 1) for _ in range(3)])
    s = D(m, a).symmetry3DPlane(pt.tolist(), k.tolist())
    u = k / np.linalg.norm(k)
    mon.close(G.np2(s), a - 2 * ((a - pt) @ u)[:, None] * u, "symmetry3DPlane", 1e-10, scale=10)
    base = np.array([list(r) for r in m.DataArrayDouble.GiveBaseForPlane(k.tolist())])
    mon.close(base @ base.T, np.eye(3), "GiveBaseForPlane:orthonormal", 1e-9)
    mon.close(np.abs(base[2] @ u), 1., "GiveBaseForPlane:normal", 1e-9, base=base)
    # rotations of points
    ctr = [rng.uniform(-2, 2) for _ in range(3)]
    ang = rng.uniform(-4, 4)
    z = m.DataArrayDouble.Rotate3DAlg if hasattr(m.DataArrayDouble, "Rotate3DAlg") else None
    # circle arc through three points
    R, t0, da = rng.uniform(0.1, 5), rng.uniform(-3, 3), rng.choice([-1, 1]) * rng.uniform(0.2, 2 * math.pi - 0.2)
    f = rng.uniform(0.15, 0.85)
    P = [[1 + R * math.cos(t), 2 + R * math.sin(t)] for t in (t0, t0 + da, t0 + f * da)]  # start, end, middle
    c, rad, an = D(m, np.array(P)).asArcOfCircle()
    mon.close(list(c) + [rad], [1, 2, R], "asArcOfCircle", 1e-7, scale=10)
    mon.close(abs(an), abs(da), "asArcOfCircle:angle", 1e-7, scale=10)
    for bad in (P[:2], P + P):
        mon.raises(lambda: D(m, np.array(bad)).asArcOfCircle(), "asArcOfCircle:bad")
    # integral of the barycentric coordinates of a triangle along a segment
    T = np.array([[0., 0.], [rng.uniform(1, 3), rng.uniform(-.5, .5)], [rng.uniform(-1, 1), rng.uniform(1, 3)]])
    S = np.array([[rng.uniform(0, 1) for _ in range(2)] for _ in range(2)])
    co, ln = m.DataArrayDouble.ComputeIntegralOfSeg2IntoTri3(S.ravel().tolist(), T.ravel().tolist())
    mid = S.mean(0)
    bary = np.linalg.solve(np.vstack([T.T, np.ones(3)]), np.append(mid, 1.))
    bad = np.linalg.solve(np.vstack([T.T, np.ones(3)]), np.array([mid[0], S[0, 1], 1.]))
    # known finding: the ordinate of the first end is used for the middle
    known = np.abs(np.array(list(co)) - bad).max() <= 1e-8 * max(1., np.abs(bad).max())
    mon.close(list(co), bary, "ComputeIntegralOfSeg2IntoTri3" + (":mid-ordinate" if known else ""), 1e-8)
    mon.close(ln, np.linalg.norm(S[1] - S[0]), "ComputeIntegralOfSeg2IntoTri3:length", 1e-10)


# ------------------------------------------------------------------------------------------- structure
def t_struct(rng, mon, m):
    a = arr(rng)
    n, nc = a.shape
    x = D(m, a)
    x.setName("nm")
    info = ["c%d [m]" % i for i in range(nc)]
    x.setInfoOnComponents(info)
    cs = [rng.randrange(nc) for _ in range(rng.randint(1, 5))]
    ids = [rng.randrange(n) for _ in range(rng.randint(1, 15))]
    with G.Pure(mon, "struct", x):
        r = x.keepSelectedComponents(cs)
        same(mon, r, a[:, cs], "keepSelectedComponents", 0)
        mon.eq(list(r.getInfoOnComponents()), [info[c] for c in cs], "keepSelectedComponents:info")
        same(mon, x.selectByTupleId(ids), a[ids], "selectByTupleId", 0)
        same(mon, x.selectByTupleIdSafe(ids), a[ids], "selectByTupleIdSafe", 0)
        mon.raises(lambda: x.selectByTupleIdSafe(ids + [n]), "selectByTupleIdSafe:bad")
        mon.raises(lambda: x.selectByTupleIdSafe([-1] + ids), "selectByTupleIdSafe:negative")
        b, e, s = rng.randint(0, n), 0, rng.randint(1, 3)
        e = rng.randint(b, n)
        r = x.selectByTupleIdSafeSlice(b, e, s)
        mon.close(G.np2(r).reshape(-1, nc), a[b:e:s], "selectByTupleIdSafeSlice", 0)
        same(mon, x[ids], a[ids], "getitem:list", 0)
        sl = slice(b, e, s)
        if len(range(*sl.indices(n))):
            same(mon, x[sl], a[sl], "getitem:slice", 0)
            same(mon, x[sl, cs[0]], a[sl, cs[0]], "getitem:slice-component", 0)
        if n:
            p = G.perm(rng, n)
            same(mon, x.renumber(p), a[np.argsort(p)], "renumber", 0)
            same(mon, x.renumberR(p), a[p], "renumberR", 0)
        k = x.deepCopy()
        same(mon, k, a, "deepCopy", 0)
        mon.eq((k.getName(), list(k.getInfoOnComponents())), ("nm", info), "deepCopy:strings")
        c2 = rng.randint(1, 8)
        r = x.changeNbOfComponents(c2, -7.5)
        w = np.full((n, c2), -7.5)
        w[:, :min(c2, nc)] = a[:, :c2]
        same(mon, r, w, "changeNbOfComponents", 0)
        for i, c in enumerate(x.explodeComponents()):
            same(mon, c, a[:, i], "explodeComponents", 0)
        if nc == 1:
            t = rng.randint(1, 4)
            same(mon, x.duplicateEachTupleNTimes(t), np.repeat(a, t, 0), "duplicateEachTupleNTimes", 0)
    y = D(m, arr(rng, n, rng.randint(1, 3)))
    ya = G.np2(y)
    with G.Pure(mon, "struct2", x, y):
        r = m.DataArrayDouble.Meld(x, y)
        same(mon, r, np.hstack([a, ya]), "Meld", 0)
        z = D(m, arr(rng, rng.randint(1, 20), nc))
        same(mon, m.DataArrayDouble.Aggregate([x, z, x]), np.vstack([a, G.np2(z), a]), "Aggregate", 0)
        mon.raises(lambda: m.DataArrayDouble.Aggregate(x, D(m, arr(rng, 3, nc + 1))), "Aggregate:bad")
        mon.raises(lambda: m.DataArrayDouble.Meld(x, D(m, arr(rng, n + 1, 2))), "Meld:bad")
    k = x.deepCopy()
    k.meldWith(y)
    same(mon, k, np.hstack([a, ya]), "meldWith", 0)
    k = x.deepCopy()
    k.aggregate(x)
    same(mon, k, np.vstack([a, a]), "aggregate", 0)
    divs = [d for d in range(1, n * nc + 1) if (n * nc) % d == 0]
    k = x.deepCopy()
    d = rng.choice(divs)
    k.rearrange(d)
    same(mon, k, a.reshape(-1, d), "rearrange", 0)
    k = x.deepCopy()
    k.transpose()
    same(mon, k, a.reshape(nc, n), "transpose", 0)
    # interlaces
    f = x.toNoInterlace()
    mon.close(G.L(f), a.T.ravel(), "toNoInterlace", 0)
    same(mon, f.fromNoInterlace(), a, "fromNoInterlace", 0)


def t_setpart(rng, mon, m):
    a = arr(rng)
    n, nc = a.shape
    x = D(m, a)
    b = rng.randrange(n)
    e = rng.randint(b + 1, n)
    st = rng.randint(1, 3)
    cb = rng.randrange(nc)
    ce = rng.randint(cb + 1, nc)
    T, C = list(range(b, e, st)), list(range(cb, ce))
    v = arr(rng, len(T), len(C))
    w = a.copy()
    w[np.ix_(T, C)] = v
    x.setPartOfValues1(D(m, v), b, e, st, cb, ce, 1)
    same(mon, x, w, "setPartOfValues1", 0)
    x = D(m, a)
    x.setPartOfValuesSimple1(5.5, b, e, st, cb, ce, 1)
    w = a.copy()
    w[np.ix_(T, C)] = 5.5
    same(mon, x, w, "setPartOfValuesSimple1", 0)
    T2 = rng.sample(range(n), rng.randint(1, n))
    C2 = rng.sample(range(nc), rng.randint(1, nc))
    v = arr(rng, len(T2), len(C2))
    w = a.copy()
    w[np.ix_(T2, C2)] = v
    x = D(m, a)
    x[T2, C2] = -3.
    w2 = a.copy()
    w2[np.ix_(T2, C2)] = -3.
    same(mon, x, w2, "setitem:list-list", 0)
    x = D(m, a)
    x[T2, C2] = D(m, v)
    same(mon, x, w, "setitem", 0)
    x = D(m, a)
    x[T2, cb:ce] = 7.
    w3 = a.copy()
    w3[np.ix_(T2, C)] = 7.
    same(mon, x, w3, "setitem:list-slice", 0)
    x = D(m, a)
    x[b:e:st, C2] = 8.
    w3 = a.copy()
    w3[np.ix_(T, C2)] = 8.
    same(mon, x, w3, "setitem:slice-list", 0)
    x = D(m, a)
    x[b:e:st, C2] = D(m, arr(rng, len(T), len(C2), 0.9))
    mon.close(np.delete(np.delete(G.np2(x), T, 0), [], 1), np.delete(a, T, 0), "setitem:slice-list-others", 0)
    x = D(m, a)
    x[b:e:st] = 8.
    w3 = a.copy()
    w3[T] = 8.
    same(mon, x, w3, "setitem:slice", 0)
    x = D(m, a)
    v3 = arr(rng, len(T2), nc)
    x.setPartOfValues3(D(m, v3), T2, 0, nc, 1) if hasattr(x, "setPartOfValues3") else x.__setitem__(T2, D(m, v3))
    w3 = a.copy()
    w3[T2] = v3
    same(mon, x, w3, "setitem:list", 0)
    x = D(m, a)
    pairs = [(i, rng.randrange(len(T2))) for i in T2]
    x.setPartOfValuesAdv(D(m, v3), m.DataArrayInt([p for q in pairs for p in q], len(pairs), 2))
    for i, j in pairs:
        w3[i] = v3[j]
    w4 = a.copy()
    w4[T2] = w3[T2]
    same(mon, x, w4, "setPartOfValuesAdv", 0)
    v = arr(rng, len(T2), nc)
    x = D(m, a)
    x.setSelectedComponents(D(m, arr(rng, n, len(C2))), C2)
    keep = [c for c in range(nc) if c not in C2]
    mon.close(G.np2(x)[:, keep], a[:, keep], "setSelectedComponents:others", 0)
    x = D(m, a)
    o2 = arr(rng, rng.randint(1, 20), nc)
    sel = [rng.randrange(len(o2)) for _ in range(rng.randint(1, n))]
    off = rng.randint(0, n - len(sel))
    x.setContigPartOfSelectedValues(off, D(m, o2), G.ids(m, sel))
    w = a.copy()
    w[off:off + len(sel)] = o2[sel]
    same(mon, x, w, "setContigPartOfSelectedValues", 0)
    mon.raises(lambda: x.setContigPartOfSelectedValues(n, D(m, o2), G.ids(m, sel)), "setContigPart:bad")
    mon.raises(lambda: D(m, a).setPartOfValuesSimple1(1., 0, n + 1, 1, 0, nc, 1), "setPartOfValuesSimple1:bad")
    mon.raises(lambda: D(m, a).__setitem__(([n], [0]), 1.), "setitem:bad")
    i, j = rng.randrange(n), rng.randrange(nc)
    x = D(m, a)
    x.setIJ(i, j, 9.)
    mon.eq((x.getIJ(i, j), x.getIJSafe(i, j)), (9., 9.), "setIJ/getIJ")
    mon.raises(lambda: x.getIJSafe(n, j), "getIJSafe:bad")
    mon.raises(lambda: x.getIJSafe(i, nc), "getIJSafe:bad")


def t_push(rng, mon, m):
    x = m.DataArrayDouble.New()
    x.alloc(0, 1)
    ref = []
    for _ in range(rng.randint(1, 60)):
        k = rng.random()
        if k < 0.6:
            v = rng.uniform(-1, 1)
            x.pushBackSilent(v)
            ref.append(v)
        elif k < 0.75:
            v = [rng.uniform(-1, 1) for _ in range(rng.randint(0, 9))]
            x.pushBackValsSilent(v)
            ref += v
        elif k < 0.9 and ref:
            mon.eq(x.popBackSilent(), ref.pop(), "popBackSilent")
        elif k < 0.95:
            x.reserve(rng.randint(0, 100))
            del ref[x.getNumberOfTuples():]
        else:
            x.pack()
        mon.eq(x.getNumberOfTuples(), len(ref), "push:size")
    mon.eq(G.L(x), ref, "push:values")


def t_convert(rng, mon, m):
    a = arr(rng)
    x = D(m, a)
    small = np.clip(a, -1e6, 1e6)
    y = D(m, small)
    i = y.convertToIntArr()
    mon.eq(G.L(i), [int(t) for t in small.ravel()], "convertToIntArr")
    f = x.convertToFloatArr()
    mon.close(np.array(f.getValues()), a.ravel().astype(np.float32).astype(float), "convertToFloatArr", 0)
    d = i.convertToDblArr()
    mon.close(G.L(d), [float(int(t)) for t in small.ravel()], "convertToDblArr", 0)
    v = x.toNumPyArray()
    mon.close(v.reshape(a.shape), a, "toNumPyArray", 0)
    z = m.DataArrayDouble(np.ascontiguousarray(a))
    same(mon, z, a, "fromNumPy", 0)


def t_center(rng, mon, m):
    n, d = rng.randint(2, 40), rng.randint(1, 3)
    a = cloud(rng, n, d) + rng.choice([0., 1e3])
    x = D(m, a)
    x.recenterForMaxPrecision(1e-12)
    r = G.np2(x)
    mon.ok(float(np.abs(r).max()) <= 1.0 + 1e-9, "recenterForMaxPrecision:box", got=np.abs(r).max())
    for c in range(d):
        lo, hi = a[:, c].min(), a[:, c].max()
        w = (a[:, c] - (lo + hi) / 2) / (hi - lo if hi - lo > 1e-12 else 1.)
        mon.close(r[:, c], w, "recenterForMaxPrecision", 1e-9)


def t_info(rng, mon, m):
    """Names and units of components, counts of slices, checks of shape, small services."""
    cls = rng.choice([m.DataArrayDouble, m.DataArrayInt32, m.DataArrayInt64, m.DataArrayFloat])
    mon.mark("info", cls.__name__)
    nc, n = rng.randint(1, 5), rng.randint(1, 9)
    word = lambda: "".join(rng.choice("abXY_/^2 ") for _ in range(rng.randint(1, 6))).strip() or "v"
    var, unit = [word() for _ in range(nc)], [rng.choice(["", word(), "m/s^2"]) for _ in range(nc)]
    A = m.DataArrayDouble
    for v, u in zip(var, unit):
        i = A.BuildInfoFromVarAndUnit(v, u)
        mon.eq((A.GetVarNameFromInfo(i), A.GetUnitFromInfo(i)), (v, u), "info:var-unit", info=i)
        mon.eq(i, f"{v} [{u}]", "info:build") if u else None
        mon.eq((A.GetVarNameFromInfo(v), A.GetUnitFromInfo(v)), (v, ""), "info:no-unit")
        pad = rng.choice(["%s[%s]", "%s [%s]", "%s   [%s]"]) % (v, u)
        mon.eq(A.GetVarNameFromInfo(pad), v, "info:padded")
        mon.eq(A.GetUnitFromInfo(pad), u, "info:padded-unit")
    infos = [A.BuildInfoFromVarAndUnit(v, u) for v, u in zip(var, unit)]
    x = cls([0] * (n * nc), n, nc)
    x.setInfoOnComponents(infos)
    x.setName("a")
    mon.eq(list(x.getInfoOnComponents()), infos, "info:components")
    mon.eq(list(x.getVarsOnComponent()), var, "info:vars")
    mon.eq(list(x.getUnitsOnComponent()), unit, "info:units")
    k = rng.randrange(nc)
    mon.eq((x.getInfoOnComponent(k), x.getVarOnComponent(k), x.getUnitOnComponent(k)), (infos[k], var[k], unit[k]), "info:component")
    for b in (-1, nc, nc + 3):
        mon.raises(lambda: x.getInfoOnComponent(b), "info:out-of-range")
        mon.raises(lambda: x.getVarOnComponent(b), "info:out-of-range")
        mon.raises(lambda: x.getUnitOnComponent(b), "info:out-of-range")
        mon.raises(lambda: x.setInfoOnComponent(b, "x"), "info:out-of-range")
    mon.raises(lambda: x.setInfoOnComponents(infos + ["x"]), "info:too-many")
    y = x.deepCopy()
    mon.ok(x.areInfoEquals(y), "info:equal")
    if rng.random() < .5:
        y.setInfoOnComponent(k, infos[k] + "z")
    else:
        y.setName("b")
    mon.ok(not x.areInfoEquals(y), "info:differ")
    # copies of a part of the names
    nc2 = rng.randint(1, 5)
    z = cls(1, nc2)
    z.setInfoOnComponents(["z%d" % i for i in range(nc2)])
    ids = [rng.randrange(nc) for _ in range(rng.randint(0, nc2))]
    z.copyPartOfStringInfoFrom(x, ids)
    mon.eq(list(z.getInfoOnComponents()), [infos[i] for i in ids] + ["z%d" % i for i in range(len(ids), nc2)], "info:copyPart")
    z = cls(1, nc2)
    z.setInfoOnComponents(["z%d" % i for i in range(nc2)])
    if nc <= nc2:
        ids = rng.sample(range(nc2), nc)
        z.copyPartOfStringInfoFrom2(ids, x)
        mon.eq(list(z.getInfoOnComponents()), [infos[ids.index(i)] if i in ids else "z%d" % i for i in range(nc2)], "info:copyPart2")
        bad = list(ids)
        bad[rng.randrange(nc)] = nc2
        mon.raises(lambda: z.copyPartOfStringInfoFrom2(bad, x), "info:copyPart2-range")
    mon.raises(lambda: z.copyPartOfStringInfoFrom(x, [nc]), "info:copyPart-range")
    w = cls()
    w.setInfoAndChangeNbOfCompo(infos)
    mon.eq((w.getNumberOfComponents(), list(w.getInfoOnComponents())), (nc, infos), "info:change")
    mon.raises(lambda: x.setInfoAndChangeNbOfCompo(infos + ["x"]), "info:change-allocated")
    # shape
    mon.eq((x.getNumberOfTuples(), x.getNumberOfComponents(), x.getNbOfElems()), (n, nc, n * nc), "info:shape")
    for f, good, wrong in ((x.checkNbOfTuples, (n,), (n + 1,)), (x.checkNbOfComps, (nc,), (nc + 1,)), (x.checkNbOfTuplesAndComp, (n, nc), (n, nc + 1)),
                           (x.checkNbOfTuplesAndComp, (n, nc), (n - 1, nc)), (x.checkNbOfElems, (n * nc,), (n * nc + 1,))):
        f(*good, "") if True else None
        mon.raises(lambda: f(*wrong, "msg"), "info:check")
    # slices
    for _ in range(4):
        lo, hi, st = rng.randint(0, 9), rng.randint(0, 9), rng.choice([1, 2, 3, -1, -2, -3])
        try:
            got = A.GetNumberOfItemGivenBESRelative(lo, hi, st, "m")
        except m.InterpKernelException:
            got = None
        want = len(range(lo, hi, st))
        if (hi - lo) * st >= 0:
            mon.eq(got, want, "info:slice-relative", lo=lo, hi=hi, st=st)
        if st > 0 and hi >= lo:
            mon.eq(A.GetNumberOfItemGivenBES(lo, hi, st, "m"), want, "info:slice")
        if st > 0 and hi < lo:
            mon.raises(lambda: A.GetNumberOfItemGivenBES(lo, hi, st, "m"), "info:slice-reversed")
    # numbers
    v = np.array([rng.choice([-1, 1]) * round(rng.uniform(0, 9), 2) for _ in range(n)])
    a = D(m, v.reshape(-1, 1))
    t = a.getMaxAbsValue()
    t = t if isinstance(t, (list, tuple)) else [t]
    mon.eq(t[0], float(v[np.argmax(np.abs(v))]), "getMaxAbsValue")
    if len(t) > 1:
        mon.eq(t[1], int(np.argmax(np.abs(v))), "getMaxAbsValue:place")
    inc = rng.random() < .5
    eps = rng.choice([0., .5])
    q = np.sort(v)[::1 if inc else -1] if rng.random() < .7 else v
    d = np.diff(q) * (1 if inc else -1)
    if not (np.abs(d - eps) < 1e-9).any():
        f = lambda: D(m, q.reshape(-1, 1)).checkMonotonic(inc, eps)
        if bool((d >= eps).all()):
            f()
            mon.note("checkMonotonic")
        else:
            mon.raises(f, "checkMonotonic")
    e = np.array([float(rng.randint(0, 3)) for _ in range(n)])
    b = D(m, np.abs(v).reshape(-1, 1))
    b.powEqual(D(m, e.reshape(-1, 1)))
    mon.close(G.np2(b)[:, 0], np.abs(v) ** e, "powEqual", 1e-12, scale=1e3)
    one = D(m, np.array([[v[0]]]))
    mon.eq(one.doubleValue(), float(v[0]), "doubleValue")
    if n * nc > 1:
        mon.raises(lambda: D(m, np.zeros((n, nc))).doubleValue(), "doubleValue:shape")
    # planes
    p = np.array([[rng.gauss(0, 2) for _ in range(3)] for _ in range(rng.randint(4, 12))])
    no = np.array([rng.gauss(0, 1) for _ in range(3)])
    no /= np.linalg.norm(no)
    c = rng.uniform(-2, 2)
    flat = p - np.outer(p @ no - c, no)
    x = D(m, flat)
    s_ = np.linalg.svd(flat - flat.mean(0), compute_uv=False)
    P = x.fitPlaneL2()
    mon.close(np.linalg.norm(P[:3]), 1., "fitPlaneL2:unit")
    mon.close(x.maxDistanceToPlane(*P), 0., "fitPlaneL2:on-plane", 1e-9, scale=10)
    if s_[1] > 1e-3 * s_[0]:
        mon.close(abs(float(np.array(P[:3]) @ no)), 1., "fitPlaneL2:normal", 1e-9)
    f = rng.uniform(.5, 3)
    mon.close(D(m, p).maxDistanceToPlane(*(f * no), -f * c), float(np.abs(p @ no - c).max()), "maxDistanceToPlane", 1e-9)
    P = D(m, p).fitPlaneL2()
    best = float(((p @ np.array(P[:3]) + P[3]) ** 2).sum())
    for _ in range(4):
        k = np.array(P[:3]) + np.array([rng.gauss(0, .1) for _ in range(3)])
        k /= np.linalg.norm(k)
        mon.ok(best <= float((((p - p.mean(0)) @ k) ** 2).sum()) * (1 + 1e-9) + 1e-12, "fitPlaneL2:least")


OPS = [(f.__name__[2:], f) for f in (t_binary, t_binary, t_pow, t_unary, t_reduce, t_ranges, t_tensor, t_vec, t_coords,
                                     t_dist, t_common, t_geom, t_struct, t_setpart, t_push, t_convert, t_center, t_info)]
FAMILIES = [G.table("dbl", OPS, 900, 12)]
