"""Fields: sums weighted by the measure, algebra, evaluation, parts, renumbering, change of support, time."""
import itertools
import math

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("Each case builds a mesh described in Python, a field on it with one of the spatial discretizations (cells, nodes, "
        "Gauss points with several localizations, Gauss points on nodes of elements, kriging) and one of the time "
        "discretizations, and compares each service with a computation on numpy arrays (own measures, own shape "
        "functions, own numbering of the tuples). Non-trivial: more than one cell.")
ASSUMPTIONS = ["cells have a strictly positive measure and planar faces",
               "values are ordinary numbers (magnitude between 1e-3 and 1e3 or 0)"]

# ------------------------------------------------------------------ reference elements used on Gauss points
REFC = {
    M.SEG2: [-1., 1.],
    M.TRI3: [0., 0., 1., 0., 0., 1.],
    M.QUAD4: [-1., -1., 1., -1., 1., 1., -1., 1.],
    M.TETRA4: [0., 1., 0., 0., 0., 1., 0., 0., 0., 1., 0., 0.],
    M.HEXA8: [-1., -1., -1., 1., -1., -1., 1., 1., -1., -1., 1., -1., -1., -1., 1., 1., -1., 1., 1., 1., 1., -1., 1., 1.],
}
RD = {M.SEG2: 1, M.TRI3: 2, M.QUAD4: 2, M.TETRA4: 3, M.HEXA8: 3}


def shape(t, x):
    """Shape functions of the reference cell REFC[t] at x, from their defining property (1 on its node, 0 on others)."""
    r = np.array(REFC[t]).reshape(-1, RD[t])
    if t in (M.TRI3, M.TETRA4):
        A = np.vstack([r.T, np.ones(len(r))])
        return np.linalg.solve(A, np.append(x, 1.))
    return np.prod((1 + r * np.asarray(x)) / 2, axis=1)


def dshape(t, x):
    r = np.array(REFC[t]).reshape(-1, RD[t])
    if t in (M.TRI3, M.TETRA4):
        A = np.vstack([r.T, np.ones(len(r))])
        return np.linalg.inv(A)[:, :-1]
    out = np.zeros(r.shape)
    f = (1 + r * np.asarray(x)) / 2
    for k in range(r.shape[1]):
        g = f.copy()
        g[:, k] = r[:, k] / 2
        out[:, k] = np.prod(g, axis=1)
    return out


def inside(rng, t):
    if t in (M.TRI3, M.TETRA4):
        w = np.array([rng.random() + 0.05 for _ in range(RD[t] + 1)])
        w /= w.sum()
        return (np.array(REFC[t]).reshape(-1, RD[t]) * w[:, None]).sum(0).tolist()
    return [rng.uniform(-1, 1) for _ in range(RD[t])]


TIMES = ("no", "one", "const", "linear")


class Ref:
    """A field of the library and its numpy counterpart."""


def mesh_for(rng, kind):
    if kind == "gauss":
        k = rng.choice(["line", "2", "2", "tet", "hex"])
        if k == "line":
            pm = M.line(rng, n=rng.randint(1, 8))
        elif k == "2":
            pm = M.any2(rng, rng.choice([2, 3]), False)
        elif k == "tet":
            pm = M.affine(rng, M.tetras(rng, rng.randint(1, 2), 1, rng.randint(1, 2)))
        else:
            pm = M.affine(rng, M.extrude(rng, M.grid2(rng, rng.randint(1, 3), rng.randint(1, 2), "q"), rng.randint(1, 2)))
    elif kind == "ne":
        k = rng.choice(["line", "2", "2", "3", "3"])
        if k == "line":
            pm = M.line(rng, n=rng.randint(1, 8))
        elif k == "2":
            pm = M.any2(rng, rng.choice([2, 3]), False)
        else:
            pm = M.any3(rng, False)
            if any(t == M.PYRA5 for t, _ in pm.cells):
                pm = M.affine(rng, M.tetras(rng, 1, rng.randint(1, 2), 1))
    else:
        pm = M.anymesh(rng, shuf=False)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 0, 2]) if kind in ("cells",) else 0)
    if kind in ("gauss", "ne") or rng.random() < 0.5:
        pm = M.sort_by_type(pm)
    return pm


def build(rng, m, kind=None, time=None, nc=None, pm=None, mag=None):
    r = Ref()
    r.kind = kind = kind or rng.choice(["cells", "cells", "nodes", "gauss", "ne"])
    r.pm = pm = pm or mesh_for(rng, kind)
    r.nc = nc = rng.choice([1, 1, 2, 3]) if nc is None else nc
    r.time = time = time or rng.choice(TIMES)
    r.mesh = mesh = pm.um(m, "support")
    n = len(pm.cells)
    disc = {"cells": m.ON_CELLS, "nodes": m.ON_NODES, "gauss": m.ON_GAUSS_PT, "ne": m.ON_GAUSS_NE}[kind]
    td = {"no": m.NO_TIME, "one": m.ONE_TIME, "const": m.CONST_ON_TIME_INTERVAL, "linear": m.LINEAR_TIME}[time]
    f = r.f = m.MEDCouplingFieldDouble(disc, td)
    f.setName("field %d" % rng.randint(0, 99))
    f.setDescription("text")
    f.setMesh(mesh)
    r.locs = None
    if kind == "cells":
        r.tuples = [[i] for i in range(n)]
    elif kind == "nodes":
        r.tuples = [pm.nodes(i) for i in range(n)]
    elif kind == "gauss":
        r.locs = []  # (type, gauss points, weights)
        r.loc_of = [None] * n

        def newloc(t):
            k = rng.randint(1, 4)
            pts = [inside(rng, t) for _ in range(k)]
            w = [rng.uniform(0.1, 1) for _ in range(k)]
            r.locs.append((t, pts, w))
            return len(r.locs) - 1
        for t in sorted(set(t for t, _ in pm.cells)):
            all_ = [i for i in range(n) if pm.cells[i][0] == t]
            if rng.random() < 0.5:
                l = newloc(t)
                f.setGaussLocalizationOnType(t, REFC[t], [x for p in r.locs[l][1] for x in p], r.locs[l][2])
                for i in all_:
                    r.loc_of[i] = l
            else:
                rng.shuffle(all_)
                cut = rng.randint(1, len(all_))
                for part in (all_[:cut], all_[cut:]):
                    if part:
                        l = newloc(t)
                        f.setGaussLocalizationOnCells(part, REFC[t], [x for p in r.locs[l][1] for x in p], r.locs[l][2])
                        for i in part:
                            r.loc_of[i] = l
        sizes = [len(r.locs[l][1]) for l in r.loc_of]
        off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
        r.tuples = [list(range(off[i], off[i + 1])) for i in range(n)]
    else:
        off = np.concatenate([[0], np.cumsum([len(c) for t, c in pm.cells])]).astype(int)
        r.tuples = [list(range(off[i], off[i + 1])) for i in range(n)]
    r.nt = len(pm.coords) if kind == "nodes" else int(sum(len(x) for x in r.tuples))
    mag = mag or rng.choice(["normal", "ints", "signed"])
    gen = {"normal": lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3), "ints": lambda: float(rng.randint(-4, 4)),
           "signed": lambda: rng.gauss(0, 2), "pos": lambda: rng.uniform(0.2, 3)}[mag]
    r.A = [np.array([gen() for _ in range(r.nt * nc)]).reshape(r.nt, nc) for _ in range(2 if time == "linear" else 1)]
    r.info = ["x%d [m]" % k for k in range(nc)]
    for k, a in enumerate(r.A):
        d = G.npd(m, a)
        d.setInfoOnComponents(r.info)
        if k == 0:
            f.setArray(d)
        else:
            f.setEndArray(d)
    t0 = round(rng.uniform(-5, 5), 2)
    t1 = t0 + round(rng.uniform(0.5, 5), 2)
    r.t = None
    f.setTimeUnit(rng.choice(["", "s", "ms"]))
    f.setTimeTolerance(10. ** rng.randint(-13, -11))
    OF[0] = None
    if time == "one":
        f.setTime(t0, 3, 4)
        r.t = (t0, t0)
    elif time in ("const", "linear"):
        f.setStartTime(t0, 3, 4)
        f.setEndTime(t1, 5, 6)
        r.t = (t0, t1)
    f.checkConsistencyLight()
    r.td = td
    return r


def arrays(f):
    return [G.np2(a) for a in f.getArrays() if a is not None]


OF = [None]  # operand of the operation, from which the result takes its support and its time


def meta(mon, x, f, key):
    mon.ok(x.getMesh() is not None and x.getMesh().getHiddenCppPointer() == f.getMesh().getHiddenCppPointer(), key + ":support-of-result")
    if x.getTimeDiscretization() != f.getTimeDiscretization():
        return
    mon.eq([x.getTimeUnit(), x.getTimeTolerance()], [f.getTimeUnit(), f.getTimeTolerance()], key + ":unit-of-result")
    if f.getTimeDiscretization() != 4:
        mon.eq(x.getTime(), f.getTime(), key + ":time-of-result")
    if f.getTimeDiscretization() in (6, 7):
        mon.eq([x.getStartTime(), x.getEndTime()], [f.getStartTime(), f.getEndTime()], key + ":time-of-result")


def same(mon, f, arrs, key, tol=1e-12, scale=None, **kw):
    g = arrays(f)
    if OF[0] is not None:
        meta(mon, f, OF[0], key)
    mon.eq([x.shape for x in g], [x.shape for x in arrs], key + ":shape", **kw)
    for k, (x, y) in enumerate(zip(g, arrs)):
        if x.shape == y.shape:
            s = max(1e-30, float(np.abs(y).max()) if y.size else 1.) if scale is None else scale
            mon.close(x, y, key + ":values", tol, s, which=k, **kw)


def signed(pm):
    """Whether the measure has a sign in the library's convention, and that sign for the generated orientation."""
    if pm.mdim == 2 and pm.sdim == 2:
        return -1
    if pm.mdim == 3:
        return 1
    if pm.mdim == 1 and pm.sdim == 1:
        return 1
    return 0


def weights(r, absolute):
    pm = r.pm
    n = len(pm.cells)
    meas = np.array([pm.measure_centre(i)[0] for i in range(n)])
    s = signed(pm)
    if pm.mdim == 1 and pm.sdim == 1:
        meas = np.array([pm.coords[c[1]][0] - pm.coords[c[0]][0] for t, c in pm.cells])
    if absolute or s == 0:
        meas = np.abs(meas)
    else:
        meas = meas * s
    w = np.zeros(r.nt)
    if r.kind == "cells":
        return meas
    if r.kind == "ne":
        for i in range(n):
            w[r.tuples[i]] = meas[i] / len(r.tuples[i])
        return w
    if r.kind == "nodes":
        for i in range(n):
            c = r.tuples[i]
            w[c] += meas[i] / len(c)
        return w
    for i, (t, c) in enumerate(pm.cells):
        X = pm.coords[c]
        _, pts, ww = r.locs[r.loc_of[i]]
        for k, p in enumerate(pts):
            J = X.T @ dshape(t, p)
            d = abs(np.linalg.det(J)) if J.shape[0] == J.shape[1] else math.sqrt(np.linalg.det(J.T @ J))
            w[r.tuples[i][k]] = d * ww[k]
    return w


def t_reduce(rng, mon, m):
    r = build(rng, m)
    f, A = r.f, r.A[0]
    key = "reduce:" + r.kind
    linear = all(t not in M.LINEAR for t, _ in r.pm.cells)
    if r.kind != "nodes" or linear:
        for isabs in (True, False):
            w = weights(r, isabs)
            S = float(np.abs(w).sum())
            with G.Pure(mon, key, f):
                mf = f.buildMeasureField(isabs)
            mon.eq(mf.getTypeOfField(), f.getTypeOfField(), key + ":measure-type")
            got = G.np2(mf.getArray())[:, 0]
            mon.close(got, w, key + ":measure", 1e-9, max(abs(w)), isabs=isabs, types=sorted(set(t for t, _ in r.pm.cells)))
            with G.Pure(mon, key, f):
                g = list(f.integral(isabs))
            mon.close(g, (A * w[:, None]).sum(0), key + ":integral", 1e-9, S * np.abs(A).max() + 1e-30, isabs=isabs)
            c = rng.randrange(r.nc)
            mon.close([f.integral(c, isabs)], [(A[:, c] * w).sum()], key + ":integral1", 1e-9, S * np.abs(A).max() + 1e-30)
            den = float(w.sum())
            if abs(den) > 1e-3 * S:
                mon.close(list(f.getWeightedAverageValue(isabs)), (A * w[:, None]).sum(0) / den, key + ":waverage", 1e-9,
                          S * np.abs(A).max() / abs(den) + 1e-30)
        w = weights(r, True)
        S = w.sum()
        mx = np.abs(A).max() + 1e-30
        mon.close(list(f.normL1()), (np.abs(A) * w[:, None]).sum(0) / S, key + ":l1", 1e-9, mx)
        mon.close(list(f.normL2()), np.sqrt((A ** 2 * w[:, None]).sum(0) / S), key + ":l2", 1e-9, mx)
        c = rng.randrange(r.nc)
        mon.close([f.normL1(c), f.normL2(c)], [(np.abs(A[:, c]) * w).sum() / S, math.sqrt((A[:, c] ** 2 * w).sum() / S)],
                  key + ":l1l2-one", 1e-9, mx)
        mon.raises(lambda: f.integral(r.nc, True), key + ":integral-bad-component")
        mon.raises(lambda: f.normL1(r.nc), key + ":l1-bad-component")
        mon.raises(lambda: f.normL2(r.nc), key + ":l2-bad-component")
    mon.eq(list(f.normMax()), np.abs(A).max(0).tolist(), key + ":max")
    c = rng.randrange(r.nc)
    mon.eq(f.normMax(c), float(np.abs(A[:, c]).max()), key + ":max1")
    mon.close(list(f.accumulate()), A.sum(0), key + ":accumulate", 1e-12, np.abs(A).sum() + 1e-30)
    mon.close([f.accumulate(c)], [A[:, c].sum()], key + ":accumulate1", 1e-12, np.abs(A).sum() + 1e-30)
    mon.eq(f.getNumberOfTuples(), r.nt, key + ":tuples")
    mon.eq(f.getNumberOfTuplesExpected(), r.nt, key + ":tuples-expected")
    mon.eq(f.getNumberOfComponents(), r.nc, key + ":components")
    mon.eq(f.getNumberOfValues(), r.nc * r.nt, key + ":values")
    if r.nc == 1:
        v = A[:, 0]
        both = np.concatenate([a[:, 0] for a in r.A])
        mon.eq(f.getMaxValue(), float(both.max()), key + ":maxv", time=r.time)
        mon.eq(f.getMinValue(), float(both.min()), key + ":minv", time=r.time)
        if len(r.A) == 1:
            x, i = f.getMaxValue2()
            mon.eq((x, G.L(i)), (float(v.max()), np.flatnonzero(v == v.max()).tolist()), key + ":max2")
            x, i = f.getMinValue2()
            mon.eq((x, G.L(i)), (float(v.min()), np.flatnonzero(v == v.min()).tolist()), key + ":min2")
        mon.close([f.getAverageValue()], [v.mean()], key + ":average", 1e-12, np.abs(v).max() + 1e-30)
        mon.close([f.norm2()], [math.sqrt((v ** 2).sum())], key + ":norm2", 1e-12, np.abs(v).sum() + 1e-30)
        a, b = sorted(rng.choice([float(x) for x in v] + [rng.gauss(0, 2)]) for _ in range(2))
        mon.eq(G.L(f.findIdsInRange(a, b)), np.flatnonzero((v >= a) & (v <= b)).tolist(), key + ":range", a=a, b=b)
    else:
        mon.raises(f.getMaxValue, key + ":max-components")
        mon.raises(f.getAverageValue, key + ":average-components")
    mon.nontrivial = len(r.pm.cells) > 1


def twin(rng, m, r, nc=None, mag=None):
    """Another field on the same support with the same times and discretization."""
    q = Ref()
    q.__dict__.update(r.__dict__)
    q.nc = r.nc if nc is None else nc
    q.f = r.f.clone(True)
    gen = (lambda: rng.gauss(0, 2)) if mag is None else mag
    q.A = [np.array([gen() for _ in range(r.nt * q.nc)]).reshape(r.nt, q.nc) for _ in r.A]
    ds = []
    for a in q.A:
        d = G.npd(m, a)
        d.setInfoOnComponents(["y%d [s]" % k for k in range(q.nc)])
        ds.append(d)
    q.f.setArrays(ds)
    q.f.setName("other")
    return q


def t_algebra(rng, mon, m):
    r = build(rng, m, mag="signed")
    key = "algebra:" + r.kind + ":" + r.time
    q = twin(rng, m, r)
    f, g = r.f, q.f
    A, B = r.A, q.A
    F = m.MEDCouplingFieldDouble

    def fin(x, arrs, k):
        mon.eq(x.getTypeOfField(), f.getTypeOfField(), key + ":type:" + k)
        mon.eq(x.getTimeDiscretization(), f.getTimeDiscretization(), key + ":time:" + k)
        mon.ok(x.getMesh().getHiddenCppPointer() == f.getMesh().getHiddenCppPointer(), key + ":support:" + k)
        if r.kind == "gauss":
            mon.eq(x.getNbOfGaussLocalization(), f.getNbOfGaussLocalization(), key + ":gauss:" + k)
        OF[0] = f
        same(mon, x, arrs, key + ":" + k, 1e-13)
        OF[0] = None
        x.checkConsistencyLight()
    with G.Pure(mon, key, f, g):
        fin(f + g, [a + b for a, b in zip(A, B)], "add")
        fin(f - g, [a - b for a, b in zip(A, B)], "sub")
        fin(f * g, [a * b for a, b in zip(A, B)], "mul")
        fin(f / g, [a / b for a, b in zip(A, B)], "div")
        fin(F.MaxFields(f, g), [np.maximum(a, b) for a, b in zip(A, B)], "maxf")
        fin(F.MinFields(f, g), [np.minimum(a, b) for a, b in zip(A, B)], "minf")
        fin(F.DotFields(f, g), [(a * b).sum(1).reshape(-1, 1) for a, b in zip(A, B)], "dot")
        fin(F.MeldFields(f, g), [np.hstack([a, b]) for a, b in zip(A, B)], "meld")
        fin(f.negate() if hasattr(f, "negate") else -f, [-a for a in A], "negate")
        fin(-f, [-a for a in A], "minus")
        s = rng.uniform(0.3, 2)
        fin(f * s, [a * s for a in A], "muls")
        fin(s * f, [a * s for a in A], "rmuls")
        fin(f + s, [a + s for a in A], "adds")
        fin(s + f, [a + s for a in A], "radds")
        fin(f - s, [a - s for a in A], "subs")
        fin(s - f, [s - a for a in A], "rsubs")
        fin(f / s, [a / s for a in A], "divs")
        fin(s / g, [s / a for a in B], "rdivs")
        if r.nc == 3:
            fin(F.CrossProductFields(f, g), [np.cross(a, b) for a, b in zip(A, B)], "cross")
    mon.eq(list(F.MeldFields(f, g).getArray().getInfoOnComponents()), r.info + ["y%d [s]" % k for k in range(r.nc)],
           key + ":meld-info")
    # broadcast of one component
    h = twin(rng, m, r, 1)
    with G.Pure(mon, key, f, h.f):
        fin(f * h.f, [a * b for a, b in zip(A, h.A)], "mul1")
        fin(f / h.f, [a / b for a, b in zip(A, h.A)], "div1")
    # in place
    for op, fn in (("+=", lambda a, b: a + b), ("-=", lambda a, b: a - b), ("*=", lambda a, b: a * b), ("/=", lambda a, b: a / b)):
        x = f.clone(True)
        y = g
        Y = B
        if op in ("*=", "/=") and rng.random() < 0.4:
            y, Y = h.f, h.A
        d = {"x": x, "y": y}
        with G.Pure(mon, key, y):
            exec("x %s y" % op, d)
        fin(d["x"], [fn(a, b) for a, b in zip(A, Y)], "inplace" + op)
        x = f.clone(True)
        d = {"x": x, "y": s}
        exec("x %s y" % op, d)
        fin(d["x"], [fn(a, s) for a in A], "inplace-scalar" + op)
    # a field with itself
    x = f.clone(True)
    x += x
    fin(x, [2 * a for a in A], "twice")
    p = twin(rng, m, r, 1, mag=lambda: rng.uniform(0.3, 2))
    e = twin(rng, m, r, 1, mag=lambda: rng.uniform(-2, 2))
    with G.Pure(mon, key, p.f, e.f):
        fin(p.f ** e.f, [a ** b for a, b in zip(p.A, e.A)], "pow")
        fin(p.f ** s, [a ** s for a in p.A], "pows")
    x = p.f.clone(True)
    x **= e.f
    fin(x, [a ** b for a, b in zip(p.A, e.A)], "inplace-pow")
    # component-wise services
    c = rng.randrange(r.nc)
    x = f.clone(True)
    a_, b_ = rng.uniform(-2, 2), rng.uniform(-2, 2)
    x.applyLin(a_, b_, c)
    want = [a.copy() for a in A]
    for w in want:
        w[:, c] = a_ * w[:, c] + b_
    fin(x, want, "applylin1")
    x = f.clone(True)
    x.applyLin(a_, b_)
    fin(x, [a_ * a + b_ for a in A], "applylin")
    with G.Pure(mon, key, f):
        fin(f.magnitude(), [np.sqrt((a ** 2).sum(1)).reshape(-1, 1) for a in A], "magnitude")
        fin(f.maxPerTuple(), [a.max(1).reshape(-1, 1) for a in A], "maxpertuple")
        sel = [rng.randrange(r.nc) for _ in range(rng.randint(1, 4))]
        k = f.keepSelectedComponents(sel)
        fin(k, [a[:, sel] for a in A], "keep")
        mon.eq(list(k.getArray().getInfoOnComponents()), [r.info[i] for i in sel], key + ":keep-info")
    x = f.clone(True)
    x.sortPerTuple(True)
    fin(x, [np.sort(a, axis=1) for a in A], "sortasc")
    x.sortPerTuple(False)
    fin(x, [np.sort(a, axis=1)[:, ::-1] for a in A], "sortdesc")
    n2 = rng.randint(1, 4)
    x = f.clone(True)
    x.changeNbOfComponents(n2, 7.5)
    fin(x, [np.hstack([a[:, :n2], np.full((r.nt, max(0, n2 - r.nc)), 7.5)]) for a in A], "changenb")
    x = f.clone(True)
    x.assign(3.25) if hasattr(x, "assign") else None
    fin(x, [np.full(a.shape, 3.25) for a in A], "assign")
    big = twin(rng, m, r, r.nc + 2)
    perm = rng.sample(range(r.nc + 2), r.nc)
    bf = big.f.clone(True)
    with G.Pure(mon, key, f):
        bf.setSelectedComponents(f, perm)
    want = [b.copy() for b in big.A]
    for w, a in zip(want, A):
        w[:, perm] = a
    fin(bf, want, "setselected")
    # refusals: the operands do not live on the same support
    o = g.clone(True)
    o.setMesh(g.getMesh().deepCopy())
    for nm, fn in (("add", F.AddFields), ("sub", F.SubstractFields), ("mul", F.MultiplyFields), ("div", F.DivideFields),
                   ("max", F.MaxFields), ("dot", F.DotFields), ("meld", F.MeldFields)):
        mon.raises(lambda: fn(f, o), key + ":other-mesh:" + nm)
    o = g.clone(True)
    o.setNature(m.IntensiveMaximum)
    for nm, fn in (("add", F.AddFields), ("sub", F.SubstractFields), ("max", F.MaxFields), ("min", F.MinFields)):
        mon.raises(lambda: fn(f, o), key + ":other-nature:" + nm)
    before = [a.copy() for a in arrays(f)]

    def ip():
        x = f
        x += o
    mon.raises(ip, key + ":other-mesh:inplace")
    mon.eq([a.tolist() for a in arrays(f)], [a.tolist() for a in before], key + ":refused-untouched")
    if r.nc != 2:
        two = twin(rng, m, r, r.nc + 1)
        mon.raises(lambda: F.AddFields(f, two.f), key + ":other-components")
    mon.nontrivial = len(r.pm.cells) > 1


def t_tensor(rng, mon, m):
    time = rng.choice(TIMES)
    key = "tensor:" + time
    pm = M.line(rng, 1)
    for nc in (4, 6, 9):
        r = build(rng, m, rng.choice(["cells", "nodes"]), time, nc, pm, mag="signed")
        OF[0] = f = r.f

        def mats(a):
            if nc == 4:
                return a.reshape(-1, 2, 2)
            if nc == 9:
                return a.reshape(-1, 3, 3)
            x = np.zeros((len(a), 3, 3))
            for k, (i, j) in enumerate([(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]):
                x[:, i, j] = x[:, j, i] = a[:, k]
            return x
        T = [mats(a) for a in r.A]
        col = lambda v: np.asarray(v).reshape(-1, 1)
        with G.Pure(mon, key, f):
            same(mon, f.determinant(), [col(np.linalg.det(t)) for t in T], key + ":det%d" % nc, 1e-10, 100.)
            if nc == 6:
                vals = arrays(f.eigenValues())
                mon.close([np.sort(v, axis=1) for v in vals], [np.linalg.eigvalsh(t) for t in T], key + ":eigenvalues", 1e-6, 10.)
                ev = f.eigenVectors()
                for a, t, w in zip(arrays(ev), T, vals):
                    gap = np.min(np.abs(np.diff(np.sort(w, axis=1), axis=1)), axis=1)
                    for k in range(len(t)):
                        if gap[k] > 0.1:
                            for i in range(3):
                                v = a[k].reshape(3, 3)[i]
                                mon.ok(abs(np.linalg.norm(v) - 1) < 1e-6 and np.linalg.norm(t[k] @ v - w[k, i] * v) < 1e-4,
                                       key + ":eigenvector", got=a[k].tolist(), tensor=r.A[0][k].tolist())
                same(mon, f.trace(), [col(np.trace(t, axis1=1, axis2=2)) for t in T], key + ":trace6", 1e-12)
                same(mon, f.doublyContractedProduct(), [col((t * t).sum((1, 2))) for t in T], key + ":doubly", 1e-12)
                dv = []
                for a, t in zip(r.A, T):
                    w = a.copy()
                    w[:, :3] -= (np.trace(t, axis1=1, axis2=2) / 3)[:, None]
                    dv.append(w)
                same(mon, f.deviator(), dv, key + ":deviator", 1e-12)
            else:
                same(mon, f.trace(), [col(np.trace(t, axis1=1, axis2=2)) for t in T], key + ":trace%d" % nc, 1e-12)
            if all(abs(np.linalg.det(t)).min() > 0.05 for t in T):
                def unm(x):
                    if nc == 6:
                        return np.stack([x[:, i, j] for i, j in [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]], 1)
                    return x.reshape(-1, nc)
                same(mon, f.inverse(), [unm(np.linalg.inv(t)) for t in T], key + ":inverse%d" % nc, 1e-9)


def t_meta(rng, mon, m):
    """Name, description, nature, unit and instants go with the values."""
    r = build(rng, m, rng.choice(["cells", "nodes"]))
    key = "meta:" + r.time
    f = r.f
    f.setNature(rng.choice([m.IntensiveMaximum, m.ExtensiveConservation, m.IntensiveConservation]) if r.kind == "cells" else m.IntensiveMaximum)
    lab = lambda x: (x.getName(), x.getDescription(), x.getNature())
    n = len(r.pm.cells)
    sel = sorted(G.subset(rng, n)) or [0]
    for nm, fn in (("buildSubPart", lambda: f.buildSubPart(sel)), ("buildSubPartRange", lambda: f.buildSubPartRange(0, n, 1)),
                   ("clone", lambda: f.clone(rng.random() < 0.5)), ("cloneWithMesh", lambda: f.cloneWithMesh(rng.random() < 0.5)),
                   ("getitem", lambda: f[sel]), ("merge", lambda: m.MEDCouplingFieldDouble.MergeFields([f, f])),
                   ("convert", lambda: f.cellToNodeDiscretization() if r.kind == "cells" else f.nodeToCellDiscretization()),
                   ("sametime", lambda: f.buildNewTimeReprFromThis(f.getTimeDiscretization(), rng.random() < 0.5))):
        with G.Pure(mon, key + ":" + nm, f):
            x = fn()
        mon.eq(lab(x), lab(f), key + ":labels:" + nm)
        mon.eq(x.getTimeUnit(), f.getTimeUnit(), key + ":unit:" + nm)
        if nm != "sametime":
            mon.eq(x.getTimeTolerance(), f.getTimeTolerance(), key + ":tolerance:" + nm)
        if r.time != "no" and nm != "sametime":
            mon.eq(x.getTime(), f.getTime(), key + ":time:" + nm)
            if r.time != "one":
                mon.eq([x.getStartTime(), x.getEndTime()], [f.getStartTime(), f.getEndTime()], key + ":times:" + nm)
    x = m.MEDCouplingFieldDouble(f.getTypeOfField(), f.getTimeDiscretization())
    x.copyTinyAttrFrom(f)
    x.copyTinyStringsFrom(f)
    mon.eq([x.getName(), x.getDescription(), x.getTimeUnit()], [f.getName(), f.getDescription(), f.getTimeUnit()], key + ":copyTiny")
    if r.time != "no":
        mon.eq(x.getTime(), f.getTime(), key + ":copyTiny:time")
        if r.time != "one":
            mon.eq([x.getStartTime(), x.getEndTime()], [f.getStartTime(), f.getEndTime()], key + ":copyTiny:times")
    for td, other in ((m.ONE_TIME, "one"), (m.NO_TIME, "no"), (m.CONST_ON_TIME_INTERVAL, "const")):
        with G.Pure(mon, key, f):
            x = f.buildNewTimeReprFromThis(td, rng.random() < 0.5)
        mon.eq(x.getTimeDiscretization(), td, key + ":newrepr")
        mon.eq(lab(x), lab(f), key + ":newrepr:labels")
        mon.eq(x.getTimeUnit(), f.getTimeUnit(), key + ":newrepr:unit")
        mon.eq(G.np2(x.getArray()).tolist(), r.A[0].tolist(), key + ":newrepr:values")
    if r.time == "one":
        f.setArray(G.npd(m, np.rint(r.A[0])))
        for nm, fn in (("float", lambda: f.convertToFloatField()), ("int", lambda: f.convertToIntField()),
                       ("int-double", lambda: f.convertToIntField().convertToDblField()),
                       ("float-double", lambda: f.convertToFloatField().convertToDblField()),
                       ("float-int", lambda: f.convertToFloatField().convertToIntField() if hasattr(m.MEDCouplingFieldFloat, "convertToIntField") else f)):
            with G.Pure(mon, key + ":" + nm, f):
                x = fn()
            mon.eq(lab(x), lab(f), key + ":labels:" + nm)
            mon.eq([x.getTime(), x.getTimeUnit()], [f.getTime(), f.getTimeUnit()], key + ":time:" + nm)
            mon.ok(x.getMesh().getHiddenCppPointer() == f.getMesh().getHiddenCppPointer(), key + ":support:" + nm)
            if "float" not in nm or np.abs(r.A[0]).max() < 2 ** 24:
                mon.eq(np.array(x.getArray().getValues(), dtype=float).reshape(-1, r.nc).tolist(), np.rint(r.A[0]).tolist(), key + ":values:" + nm)
    # the instant of a field taken from its support
    if r.time != "no":
        f.getMesh().setTime(7.25, 11, 12)
        f.getMesh().setTimeUnit("h")
        f.synchronizeTimeWithSupport()
        mon.eq([f.getTime(), f.getTimeUnit()], [[7.25, 11, 12], "h"], key + ":synchronizeTimeWithSupport")
    mon.nontrivial = True


def t_labels(rng, mon, m):
    """Instants set one at a time, supports of parts, compatibility of fields."""
    r = build(rng, m)
    f = r.f
    n = len(r.pm.cells)
    key = "labels:" + r.kind
    # support of a range of cells
    a = rng.randint(0, n - 1)
    b = rng.randint(a + 1, n)
    st = rng.choice([1, 1, 2, 3])
    cells = list(range(a, b, st))
    want = sorted({x for i in cells for x in r.tuples[i]}) if r.kind == "nodes" else [x for i in cells for x in r.tuples[i]]
    with G.Pure(mon, key, f):
        if r.kind != "nodes" or True:
            sub, ids = f.buildSubMeshDataRange(a, b, st)
            sub2, ids2 = f.buildSubMeshData(cells)
        places = G.L(ids) if not isinstance(ids, slice) else list(range(ids.start, ids.stop, ids.step))
        mon.eq(M.read(sub).cells if r.kind != "nodes" else None, M.read(sub2).cells if r.kind != "nodes" else None, key + ":sub-cells")
        mon.eq(sub.getNumberOfCells(), len(cells), key + ":sub-number")
        if r.kind == "nodes":
            # numbering of the places: new numbers of the nodes of the part
            o = G.L(ids2)
            mon.eq(places, o, key + ":sub-nodes")
            mon.eq(sorted(x for x in o if x >= 0), want, key + ":sub-nodes-kept")
        else:
            mon.eq(places, want, key + ":sub-places")
            mon.eq(G.L(ids2), want, key + ":sub-places2")
        mon.eq(f.getNumberOfMeshPlacesExpected(), len(r.pm.coords) if r.kind == "nodes" else n, key + ":mesh-places")
        mon.eq(f.getNumberOfTuplesExpected(), r.nt, key + ":tuples-expected")
    # compatibility: same mesh object, discretization, nature
    g = f.clone(True)
    mon.ok(f.areStrictlyCompatible(g) and f.areStrictlyCompatibleForMulDiv(g), key + ":compatible")
    g.setNature(m.IntensiveMaximum)
    h = f.clone(True)
    if r.kind == "cells":
        h.setNature(m.IntensiveConservation)
    mon.ok(not g.areStrictlyCompatible(h) and g.areStrictlyCompatibleForMulDiv(h), key + ":compatible-nature")
    h = f.cloneWithMesh(True)
    mon.ok(not f.areStrictlyCompatible(h) and not f.areStrictlyCompatibleForMulDiv(h), key + ":compatible-mesh")
    h = m.MEDCouplingFieldDouble(m.ON_NODES if r.kind != "nodes" else m.ON_CELLS, r.td)
    h.setMesh(f.getMesh())
    mon.ok(not f.areStrictlyCompatible(h) and not f.areStrictlyCompatibleForMulDiv(h), key + ":compatible-kind")
    # instants
    g = f.clone(True)
    t = [rng.uniform(-5, 5), rng.randint(0, 9), rng.randint(0, 9)]
    if r.time == "one":
        if rng.random() < .5:
            g.setTime(*t)
        else:
            g.setTimeValue(t[0])
            g.setIteration(t[1])
            g.setOrder(t[2])
        mon.eq(g.getTime(), t, key + ":time")
        mon.eq([g.getStartTime(), g.getEndTime()], [t, t], key + ":time-both")
    elif r.time in ("const", "linear"):
        w = {"s": list(g.getStartTime()), "e": list(g.getEndTime())}
        S = [("s", 0, lambda v: g.setTimeValue(v)), ("s", 1, lambda v: g.setIteration(v)), ("s", 2, lambda v: g.setOrder(v)),
             ("e", 0, lambda v: g.setEndTimeValue(v)), ("e", 1, lambda v: g.setEndIteration(v)), ("e", 2, lambda v: g.setEndOrder(v))]
        for k, i, fn in rng.sample(S, rng.randint(1, len(S))):
            v = rng.uniform(-5, 5) if i == 0 else rng.randint(0, 9)
            fn(v)
            w[k][i] = v
        mon.eq([g.getStartTime(), g.getEndTime()], [w["s"], w["e"]], key + ":times")
        mon.eq(g.getTime(), w["s"], key + ":time-is-start")
    if r.time == "one":
        mesh = g.getMesh().deepCopy()
        mesh.setTime(*t)
        mesh.setTimeUnit("us")
        h = g.clone(True)
        h.setTime(9., 9, 9)
        h.setMesh(mesh)
        h.synchronizeTimeWithMesh()
        mon.eq((h.getTime(), h.getTimeUnit()), (t, "us"), key + ":synchronizeTimeWithMesh")
    h = m.MEDCouplingFieldDouble(f.getTypeOfField(), r.td)
    h.copyAllTinyAttrFrom(f)
    mon.eq((h.getName(), h.getDescription(), h.getTimeUnit(), h.getTimeTolerance()),
           (f.getName(), f.getDescription(), f.getTimeUnit(), f.getTimeTolerance()), key + ":copyAllTinyAttrFrom")
    if r.time != "no":
        mon.eq(h.getTime(), f.getTime(), key + ":copyAllTinyAttrFrom:time")
    if r.kind == "gauss":
        h = f.clone(True)
        h.clearGaussLocalizations()
        mon.eq(h.getNbOfGaussLocalization(), 0, key + ":clearGaussLocalizations")
        mon.eq(f.getNbOfGaussLocalization(), len(r.locs), key + ":clearGaussLocalizations:source")
        x = m.MEDCouplingFieldDouble(m.ON_GAUSS_PT, r.td)
        x.setMesh(f.getMesh())
        x.setDiscretization(f.getDiscretization())
        mon.eq(x.getNumberOfTuplesExpected(), r.nt, key + ":setDiscretization")
    # cylindrical frame at each node
    if r.kind == "nodes" and r.pm.sdim == 3 and r.time in ("no", "one", "const"):
        A = np.array([[rng.gauss(0, 2) for _ in range(3)] for _ in range(r.nt)])
        v = f.clone(False)
        v.setArray(G.npd(m, A))
        c = np.array([rng.uniform(-3, 3) for _ in range(3)])
        k = np.array([rng.gauss(0, 1) for _ in range(3)])
        with G.Pure(mon, key, v):
            w = v.computeVectorFieldCyl(c.tolist(), k.tolist())
        k = k / np.linalg.norm(k)
        P = np.asarray(r.pm.coords) - c
        R = P - np.outer(P @ k, k)
        l = np.linalg.norm(R, axis=1)
        ok = l > 1e-3
        er = R[ok] / l[ok][:, None]
        et = np.cross(k, er)
        B = A[ok]
        mon.close(G.np2(w.getArray())[ok], np.stack([np.sum(B * er, 1), np.sum(B * et, 1), B @ k], 1), key + ":computeVectorFieldCyl", 1e-8, scale=10)
        mon.ok(w.getMesh().getHiddenCppPointer() == v.getMesh().getHiddenCppPointer() and w.getTypeOfField() == m.ON_NODES, key + ":computeVectorFieldCyl:support")
    g, h = build(rng, m, "cells", "one", 3), None
    h = g.f.clone(True)
    h.setArray(G.npd(m, np.array([[rng.gauss(0, 2) for _ in range(3)] for _ in range(g.nt)])))
    mon.close(G.np2(g.f.crossProduct(h).getArray()), np.cross(g.A[0], G.np2(h.getArray())), "labels:crossProduct", 1e-10, scale=1e3)


def t_func(rng, mon, m):
    """Expressions applied to a field, and fields filled from expressions of the positions."""
    r = build(rng, m, mag="pos")
    key = "func:" + r.kind + ":" + r.time
    f = r.f
    a, b = rng.randint(1, 5), rng.uniform(0.5, 2)
    if r.nc == 1:
        x = f.clone(True)
        x.applyFunc("%d*x*x+sqrt(x)-%r" % (a, b))
        same(mon, x, [a * v * v + np.sqrt(v) - b for v in r.A], key + ":one", 1e-12)
    x = f.clone(True)
    x.applyFunc("%r*x+cos(x)" % b)
    same(mon, x, [b * v + np.cos(v) for v in r.A], key + ":each", 1e-12)
    x = f.clone(True)
    vs = "abc"[:r.nc]
    x.applyFunc(2, "IVec*(%s)+JVec*%s*%d" % ("+".join(vs), vs[-1], a))
    same(mon, x, [np.stack([v.sum(1), v[:, -1] * a], 1) for v in r.A], key + ":vectors", 1e-12)
    x = f.clone(True)
    names = ["p%d" % k for k in range(r.nc)]
    x.getArray().setInfoOnComponents(names)
    if len(r.A) > 1:
        x.getEndArray().setInfoOnComponents(names)
    x.applyFuncCompo(1, "%d*%s" % (a, names[-1]))
    same(mon, x, [a * v[:, -1:] for v in r.A], key + ":compo", 1e-12)
    order = list(names)
    rng.shuffle(order)
    x = f.clone(True)
    x.applyFuncNamedCompo(1, order, "+".join("%d*%s" % (k + 2, nm) for k, nm in enumerate(order)))
    same(mon, x, [sum((k + 2) * v[:, k:k + 1] for k in range(r.nc)) for v in r.A], key + ":named", 1e-12)
    x = f.clone(True)
    x.applyFunc(3, 1.5)
    same(mon, x, [np.full((r.nt, 3), 1.5) for _ in r.A], key + ":const")
    pos = G.np2(f.getLocalizationOfDiscr())
    sd = r.pm.sdim
    vs = "xyz"[:sd]
    x = f.clone(True)
    x.fillFromAnalytic(1, "+".join("%d*%s" % (k + 1, c) for k, c in enumerate(vs)) + "+%d" % a)
    same(mon, x, [(pos * np.arange(1, sd + 1)).sum(1).reshape(-1, 1) + a for _ in r.A], key + ":fill", 1e-12)
    mon.raises(lambda: f.clone(True).applyFunc(1, "foo(a)"), key + ":unknown-function")
    mon.nontrivial = len(r.pm.cells) > 1


def t_values(rng, mon, m):
    which = rng.choice(["cells", "simplex", "struct", "ijk"])
    key = "values:" + which
    if which == "cells":
        pm = rng.choice([lambda: M.shuffle(rng, M.affine(rng, M.grid2(rng))), lambda: M.shuffle(rng, M.affine(rng, M.tetras(rng))),
                         lambda: M.line(rng, 1)])()
        r = build(rng, m, "cells", None, None, pm)
        pts, own = [], []
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(len(pm.cells))
            pts.append(pm.measure_centre(i)[1].tolist())
            own.append(i)
        with G.Pure(mon, key, r.f):
            got = G.np2(r.f.getValueOnMulti([x for p in pts for x in p]))
            one = list(r.f.getValueOn(pts[0]))
        mon.eq(got.tolist(), r.A[0][own].tolist(), key + ":multi")
        mon.eq(one, r.A[0][own[0]].tolist(), key + ":one")
        out = (pm.coords.max(0) + 1.).tolist()
        mon.raises(lambda: r.f.getValueOn(out), key + ":outside")
        mon.raises(lambda: r.f.getValueOnMulti([x for p in pts for x in p] + out), key + ":multi-outside")
    elif which == "simplex":
        d = rng.choice([1, 2, 3])
        pm = [M.line(rng, 1), M.affine(rng, M.grid2(rng, kinds="tT")), M.affine(rng, M.tetras(rng))][d - 1]
        pm = M.shuffle(rng, pm)
        r = build(rng, m, "nodes", None, None, pm)
        pts, want = [], []
        for _ in range(rng.randint(1, 6)):
            t, c = pm.cells[rng.randrange(len(pm.cells))]
            w = np.array([rng.random() for _ in c])
            if rng.random() < 0.2:
                w[rng.randrange(len(c))] = 0.
            if rng.random() < 0.15:
                w[:] = 0
                w[rng.randrange(len(c))] = 1.
            w /= w.sum()
            pts.append((pm.coords[c] * w[:, None]).sum(0).tolist())
            want.append((r.A[0][c] * w[:, None]).sum(0).tolist())
        with G.Pure(mon, key, r.f):
            got = G.np2(r.f.getValueOnMulti([x for p in pts for x in p]))
            one = list(r.f.getValueOn(pts[0]))
        S = np.abs(r.A[0]).max() + 1e-30
        mon.close(got, want, key + ":p1-multi:%d" % d, 1e-7, S)
        mon.close(one, want[0], key + ":p1-one:%d" % d, 1e-7, S)
        mon.raises(lambda: r.f.getValueOn((pm.coords.max(0) + 1.).tolist()), key + ":outside")
    elif which == "struct":
        s, ax = M.cmesh(rng, m)
        dims = [len(a) - 1 for a in ax]
        d = len(dims)
        typ = rng.choice([m.ON_CELLS, m.ON_NODES])
        f, A = M.field(rng, m, s, typ)
        st = dims if typ == m.ON_CELLS else [x + 1 for x in dims]
        p = [rng.randrange(x) for x in st]
        ids = np.arange(int(np.prod(st))).reshape(st, order="F")
        p3 = p + [0] * (3 - d)
        mon.eq(list(f.getValueOnPos(*p3)), A[ids[tuple(p)]].tolist(), key + ":pos:%d" % d, at=p, st=st)
        if typ == m.ON_CELLS:
            c = [rng.randrange(n) for n in dims]
            pt = [0.5 * (a[i] + a[i + 1]) for a, i in zip(ax, c)]
            mon.eq(list(f.getValueOn(pt)), A[ids[tuple(c)]].tolist(), key + ":at:%d" % d)
            mon.raises(lambda: f.getValueOn([a[-1] + 1 for a in ax]), key + ":at-outside")
    else:
        r = build(rng, m)
        if r.kind not in ("gauss", "ne"):
            raise Skip("getIJK")
        i = rng.randrange(len(r.pm.cells))
        k = rng.randrange(len(r.tuples[i]))
        c = rng.randrange(r.nc)
        mon.eq(r.f.getIJK(i, k, c), float(r.A[0][r.tuples[i][k], c]), key + ":ijk:" + r.kind)


def t_part(rng, mon, m):
    r = build(rng, m)
    key = "part:" + r.kind
    f = r.f
    n = len(r.pm.cells)
    rg = rng.random() < 0.4
    if rg:
        a, s = rng.randint(0, n - 1), rng.randint(1, 3)
        b = rng.randint(a + 1, n)
        cells = list(range(a, b, s))
        with G.Pure(mon, key, f):
            g = f.buildSubPartRange(a, b, s)
    else:
        cells = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < 0.4:
            cells.sort()
        with G.Pure(mon, key, f):
            g = f.buildSubPart(G.ids(m, cells)) if rng.random() < 0.5 else f[cells]
    g.checkConsistencyLight()
    if r.kind == "nodes":
        t = sorted(set(x for c in cells for x in r.pm.nodes(c)))
    else:
        t = [x for c in cells for x in r.tuples[c]]
    same(mon, g, [a[t] for a in r.A], key + ":part", cells=cells, range=rg)
    mon.eq(g.getName(), f.getName(), key + ":name")
    mon.eq(list(g.getArray().getInfoOnComponents()), r.info, key + ":info")
    mon.eq(G.times(g), G.times(f), key + ":time")
    mon.eq(g.getMesh().getNumberOfCells(), len(cells), key + ":cells")
    got = M.read(g.getMesh().buildUnstructured())
    if r.kind != "nodes":
        mon.eq([(x, got.coords[sorted(set(got.nodes(k)))].sum(0).round(9).tolist()) for k, (x, _) in enumerate(got.cells)],
               [(r.pm.cells[i][0], r.pm.coords[r.pm.nodes(i)].sum(0).round(9).tolist()) for i in cells], key + ":mesh")
    else:
        mon.close(got.coords, r.pm.coords[t], key + ":nodes", 0., 1.)
    with G.Pure(mon, key, f):
        ti = f.computeTupleIdsToSelectFromCellIds(cells)
    mon.eq(sorted(G.L(ti)) if r.kind == "nodes" else G.L(ti), t, key + ":tuples", cells=cells)
    # positions of the tuples of the part = positions of the selected tuples
    p, q = G.np2(g.getLocalizationOfDiscr()), G.np2(f.getLocalizationOfDiscr())[t]
    mon.close(p, q, key + ":positions", 1e-12, 10.)
    if r.kind == "gauss":
        for j, c in enumerate(cells):
            l = g.getGaussLocalization(g.getGaussLocalizationIdOfOneCell(j))
            mon.eq(list(l.getGaussCoords()), [x for pt in r.locs[r.loc_of[c]][1] for x in pt], key + ":loc")
    with G.Pure(mon, key, f):
        sub, di = f.buildSubMeshData(cells)
    mon.eq(sorted(G.L(di)) if r.kind == "nodes" else G.L(di), t, key + ":submesh-data")
    mon.nontrivial = n > 1


def multi(pm):
    """A multiset of cells: type and coordinates of the nodes (in the order of the connectivity)."""
    return sorted((t, [pm.coords[x].round(9).tolist() for x in (sum(c, []) if t == M.POLYHED else c)])
                  for t, c in pm.cells)


def t_renumber(rng, mon, m):
    r = build(rng, m)
    key = "renumber:" + r.kind
    f = r.f
    n = len(r.pm.cells)
    which = rng.choice(["cells", "nodes"])
    key += ":" + which
    pos0 = G.np2(f.getLocalizationOfDiscr())
    w0 = G.np2(f.buildMeasureField(True).getArray())[:, 0] if all(t not in M.LINEAR for t, _ in r.pm.cells) else None
    mesh0 = f.getMesh()
    snap0 = G.snap(mesh0)
    if which == "cells":
        o2n = G.perm(rng, n)
        if r.kind in ("gauss", "ne") and rng.random() < 0.5:
            pass
        f.renumberCells(o2n, rng.choice([True, False]))
        n2o = [0] * n
        for i, j in enumerate(o2n):
            n2o[j] = i
        t = list(range(r.nt)) if r.kind == "nodes" else [x for i in n2o for x in r.tuples[i]]
    else:
        N = len(r.pm.coords)
        o2n = G.perm(rng, N)
        f.renumberNodes(o2n)
        n2o = [0] * N
        for i, j in enumerate(o2n):
            n2o[j] = i
        t = n2o if r.kind == "nodes" else list(range(r.nt))
    mon.eq(G.snap(mesh0), snap0, key + ":mesh-shared")
    same(mon, f, [a[t] for a in r.A], key + ":values")
    f.checkConsistencyLight()
    mon.close(G.np2(f.getLocalizationOfDiscr()), pos0[t], key + ":positions", 1e-12, 10.)
    if w0 is not None:
        mon.close(G.np2(f.buildMeasureField(True).getArray())[:, 0], w0[t], key + ":measure", 1e-10, max(w0))
    got = M.read(f.getMesh())
    if which == "cells":
        want = [r.pm.cells[i] for i in n2o]
    else:
        want = M.PM(r.pm.coords, r.pm.cells, r.pm.mdim).map_nodes(o2n)
        mon.close(got.coords, r.pm.coords[n2o], key + ":coords", 0., 1.)
    mon.eq(got.cells, want, key + ":connectivity")
    # without mesh
    q = build(rng, m)
    if which == "cells":
        p = G.perm(rng, len(q.pm.cells))
        q.f.renumberCellsWithoutMesh(p, rng.choice([True, False]))
        n2o = [p.index(i) for i in range(len(p))]
        t = list(range(q.nt)) if q.kind == "nodes" else [x for i in n2o for x in q.tuples[i]]
        same(mon, q.f, [a[t] for a in q.A], "renumber:without:" + q.kind)
    elif q.kind == "nodes":
        p = G.perm(rng, q.nt)
        q.f.renumberNodesWithoutMesh(p, q.nt, 1e-12)
        t = [p.index(i) for i in range(len(p))]
        same(mon, q.f, [a[t] for a in q.A], "renumber:without-nodes")
    mon.nontrivial = n > 1


def t_support(rng, mon, m):
    """Services which replace the support: the value attached to each place stays."""
    which = rng.choice(["mergenodes", "zipcoords", "zipconn", "simplexize", "change", "subdm", "quad"])
    key = "support:" + which
    kind = rng.choice(["cells", "nodes"])
    if which == "mergenodes":
        base = M.anymesh(rng, shuf=False)
        pm = base.copy()
        # split some nodes in two
        co = [list(x) for x in pm.coords]
        dup = {}
        for i in range(len(pm.cells)):
            t, c = pm.cells[i]
            mp = {}
            for x in pm.nodes(i):
                if rng.random() < 0.3:
                    co.append(list(pm.coords[x]))
                    mp[x] = len(co) - 1
                    dup[len(co) - 1] = x
            f_ = lambda x: mp.get(x, x)
            pm.cells[i] = (t, [[f_(x) for x in y] for y in c] if t == M.POLYHED else [f_(x) for x in c])
        pm.coords = np.array(co)
        r = build(rng, m, kind, None, None, pm)
        if kind == "nodes":
            for a in r.A:
                for x, y in dup.items():
                    a[x] = a[y]
            r.f.setArrays([G.npd(m, a) for a in r.A])
        f = r.f
        mesh0, s0 = f.getMesh(), G.snap(f.getMesh())
        ok = f.mergeNodes(1e-9)
        mon.eq(bool(ok), bool(dup), key + ":merged?")
        mon.eq(G.snap(mesh0), s0, key + ":mesh-shared")
        check_places(mon, f, r, key, lambda p: tuple(np.round(p, 7) + 0.))
        mon.eq(f.getMesh().getNumberOfNodes(), len(base.coords), key + ":count")
        if kind == "nodes" and dup:
            q = build(rng, m, "nodes", "one", 1, pm)
            x = rng.choice(sorted(dup))
            a = np.zeros((q.nt, 1))
            a[x] = 1.
            q.f.setArray(G.npd(m, a))
            mon.raises(lambda: q.f.mergeNodes(1e-9), key + ":different-values")
    elif which == "zipcoords":
        pm = M.anymesh(rng, shuf=False)
        pm = M.shuffle(rng, pm, orphans=rng.choice([0, 1, 3]))
        r = build(rng, m, kind, None, None, pm)
        used = sorted(set(x for i in range(len(pm.cells)) for x in pm.nodes(i)))
        mesh0, s0 = r.f.getMesh(), G.snap(r.f.getMesh())
        ok = r.f.zipCoords()
        mon.eq(bool(ok), len(used) < len(pm.coords), key + ":zipped?")
        mon.eq(G.snap(mesh0), s0, key + ":mesh-shared")
        mon.eq(r.f.getMesh().getNumberOfNodes(), len(used), key + ":count")
        same(mon, r.f, [a[used] for a in r.A] if kind == "nodes" else r.A, key + ":values")
    elif which == "zipconn":
        base = M.anymesh(rng, shuf=False)
        pm = base.copy()
        rep = [rng.randrange(len(base.cells)) for _ in range(rng.randint(0, 3))]
        for i in rep:
            t, c = base.cells[i]
            pm.cells.append((t, [list(x) for x in c] if t == M.POLYHED else list(c)))
        r = build(rng, m, kind, None, None, pm)
        if kind == "cells":
            for a in r.A:
                for k, i in enumerate(rep):
                    a[len(base.cells) + k] = a[i]
            r.f.setArrays([G.npd(m, a) for a in r.A])
        ok = r.f.zipConnectivity(0)
        mon.eq(bool(ok), bool(rep), key + ":merged?")
        mon.eq(r.f.getMesh().getNumberOfCells(), len(base.cells), key + ":count")
        check_places(mon, r.f, r, key, lambda p: tuple(np.round(p, 7) + 0.))
    elif which == "simplexize":
        d = rng.choice([2, 3])
        pm = M.any2(rng, 2, False) if d == 2 else M.affine(rng, M.extrude(rng, M.grid2(rng, rng.randint(1, 2), rng.randint(1, 2), "q"), 1))
        pm = M.shuffle(rng, pm)
        r = build(rng, m, kind, None, None, pm)
        r.f.simplexize(rng.choice([0, 1]) if d == 2 else m.PLANAR_FACE_5)
        g = M.read(r.f.getMesh())
        if kind == "nodes":
            same(mon, r.f, r.A, key + ":values")
        else:
            # each simplex carries the value of the cell it comes from: the integral per value is kept
            par = parents(pm, g, d)
            mon.ok(None not in par, key + ":parents")
            if None not in par:
                same(mon, r.f, [a[par] for a in r.A], key + ":values")
    elif which in ("change", "subdm"):
        lev = rng.choice([0, 1, 2, 10, 11, 12, 20, 21, 22])
        pm = M.anymesh(rng, shuf=False)
        r = build(rng, m, kind, None, None, pm, mag="signed")
        if lev in (11, 21) and pm.mdim == 3:
            lev -= 1  # documented as not implemented
        # levels : 0,1,2 nothing moves ; 10,11,12 cells and nodes are permuted ; 20,21,22 cells only, same coordinates
        q = pm.copy()
        n = len(pm.cells)
        n2o_c, n2o_n = list(range(n)), list(range(len(pm.coords)))
        if lev >= 10:
            rng.shuffle(n2o_c)
            q.cells = [pm.cells[i] for i in n2o_c]
        if 10 <= lev < 20:
            rng.shuffle(n2o_n)
            o2n = [n2o_n.index(i) for i in range(len(n2o_n))]
            q = M.PM(q.coords[n2o_n], M.PM(q.coords, q.cells, q.mdim).map_nodes(o2n), q.mdim)
        other = q.um(m, r.f.getMesh().getName() if lev == 0 else "other")
        if lev == 0:
            other.copyTinyStringsFrom(r.f.getMesh())
        if lev >= 20:
            other.setCoords(r.f.getMesh().getCoords())
        t = n2o_c if kind == "cells" else n2o_n
        key += ":%s:lev%d" % (kind, lev)
        if which == "change":
            r.f.changeUnderlyingMesh(other, lev, 1e-9)
            same(mon, r.f, [a[t] for a in r.A], key + ":values", perm=t)
            mon.ok(r.f.getMesh().getHiddenCppPointer() == other.getHiddenCppPointer(), key + ":mesh")
        else:
            g = r.f.clone(True)
            g.setMesh(other)
            B = [np.array([rng.gauss(0, 1) for _ in range(a.size)]).reshape(a.shape) for a in r.A]
            g.setArrays([G.npd(m, b) for b in B])
            with G.Pure(mon, key, g):
                r.f.substractInPlaceDM(g, lev, 1e-9)
            same(mon, r.f, [a[t] - b for a, b in zip(r.A, B)], key + ":values", 1e-13)
        if lev in (1, 11, 21):
            return  # these levels look at a sample of the cells
        # a mesh with other geometry is refused
        bad = pm.copy()
        bad.coords = bad.coords.copy()
        used = sorted(set(x for i in range(n) for x in bad.nodes(i)))
        bad.coords[rng.choice(used)] += 0.3
        z = build(rng, m, kind, "one", 1, pm)
        mon.raises(lambda: z.f.changeUnderlyingMesh(bad.um(m), lev, 1e-9), key + ":other-geometry")
        mon.eq([x.tolist() for x in arrays(z.f)], [x.tolist() for x in z.A], key + ":refused-untouched")
    else:
        pm = M.quadratic(rng, rng.choice([M.any2(rng, 2, False), M.affine(rng, M.tetras(rng, 1, 1, 2)), M.line(rng)]))
        pm = M.shuffle(rng, pm)
        r = build(rng, m, kind, None, None, pm)
        with G.Pure(mon, key, r.f):
            g = r.f.convertQuadraticCellsToLinear()
        got = M.read(g.getMesh())
        mon.eq([t for t, _ in got.cells], [pm.linear(i)[0] for i in range(len(pm.cells))], key + ":types")
        used = sorted(set(x for i in range(len(pm.cells)) for x in pm.linear(i)[1]))
        same(mon, g, [a[used] for a in r.A] if kind == "nodes" else r.A, key + ":values:" + kind)
        mon.close(got.coords, pm.coords[used], key + ":coords", 0., 1.)


def parents(pm, g, d):
    """For each simplex of g the cell of pm whose nodes contain its nodes."""
    by = {}
    for i in range(len(pm.cells)):
        for x in pm.nodes(i):
            by.setdefault(tuple(np.round(pm.coords[x], 8)), []).append(i)
    par = []
    for k in range(len(g.cells)):
        s = None
        for x in g.nodes(k):
            o = set(by.get(tuple(np.round(g.coords[x], 8)), []))
            s = o if s is None else s & o
        par.append(s.pop() if s and len(s) == 1 else (min(s) if s else None))
        if s:
            par[-1] = None
    return par


def check_places(mon, f, r, key, k):
    """The value attached to each place (node, or centre of cell) is kept."""
    d = {}
    pm = r.pm
    ps = pm.coords if r.kind == "nodes" else [np.concatenate([pm.coords[pm.nodes(i)].sum(0) / len(pm.nodes(i)), [len(pm.nodes(i))]])
                                              for i in range(len(pm.cells))]
    cell = None
    if r.kind != "nodes":
        # nodes split in two count twice: use distinct positions
        ps = []
        for i in range(len(pm.cells)):
            q = np.unique(np.round(pm.coords[pm.nodes(i)], 8), axis=0)
            ps.append(np.concatenate([q.mean(0), [len(q)]]))
    for i, p in enumerate(ps):
        d[k(p)] = i
    got = M.read(f.getMesh())
    if r.kind == "nodes":
        qs = got.coords
    else:
        qs = []
        for i in range(len(got.cells)):
            q = np.unique(np.round(got.coords[got.nodes(i)], 8), axis=0)
            qs.append(np.concatenate([q.mean(0), [len(q)]]))
    ids = [d.get(k(p)) for p in qs]
    mon.ok(None not in ids, key + ":places")
    if None not in ids:
        same(mon, f, [a[ids] for a in r.A], key + ":values:" + r.kind)


def t_gauss(rng, mon, m):
    r = build(rng, m, "gauss")
    key = "gauss"
    f = r.f
    n = len(r.pm.cells)
    used = []
    for i in range(n):
        l = f.getGaussLocalizationIdOfOneCell(i)
        o = f.getGaussLocalization(l)
        t, pts, w = r.locs[r.loc_of[i]]
        mon.eq((o.getType(), list(o.getRefCoords()), list(o.getGaussCoords()), list(o.getWeights())),
               (t, REFC[t], [x for p in pts for x in p], w), key + ":of-cell", cell=i)
        used.append(l)
        mon.eq((o.getNumberOfGaussPt(), o.getNumberOfPtsInRefCell(), o.getDimension()), (len(pts), len(REFC[t]) // RD[t], RD[t]),
               key + ":sizes")
    for l in sorted(set(used)):
        mon.eq(sorted(f.getCellIdsHavingGaussLocalization(l).getValues()), [i for i in range(n) if used[i] == l], key + ":cells-of")
    for t in set(t for t, _ in r.pm.cells):
        ls = sorted(set(used[i] for i in range(n) if r.pm.cells[i][0] == t))
        mon.eq(sorted(f.getGaussLocalizationIdsOfOneType(t)), ls, key + ":ids-of-type")
        if len(ls) == 1:
            mon.eq(f.getGaussLocalizationIdOfOneType(t), ls[0], key + ":id-of-type")
        else:
            mon.raises(lambda: f.getGaussLocalizationIdOfOneType(t), key + ":several")
    off = [0]
    for i in range(n):
        off.append(off[-1] + len(r.tuples[i]))
    mon.eq(G.L(f.getDiscretization().getOffsetArr(f.getMesh())), off, key + ":offsets")
    P = G.np2(f.getLocalizationOfDiscr())
    want = []
    for i, (t, c) in enumerate(r.pm.cells):
        for p in r.locs[r.loc_of[i]][1]:
            want.append(shape(t, p) @ r.pm.coords[c])
    mon.close(P, want, key + ":positions", 1e-11, 10.)
    # shape functions and derivatives of one localization, and localization of points in the reference cell
    i = rng.randrange(n)
    t, pts, w = r.locs[r.loc_of[i]]
    o = f.getGaussLocalization(used[i])
    sf = G.np2(o.getShapeFunctionValues())
    mon.close(sf, [shape(t, p) for p in pts], key + ":shape:%d" % t, 1e-12, 1.)
    ds = G.np2(o.getDerivativeOfShapeFunctionValues())
    mon.close(ds, [dshape(t, p).ravel() for p in pts], key + ":dshape:%d" % t, 1e-12, 1.)
    ne = build(rng, m, "ne")
    P = G.np2(ne.f.getLocalizationOfDiscr())
    mon.close(P, [ne.pm.coords[x] for t, c in ne.pm.cells for x in c], "gaussne:positions", 1e-12, 10.)
    mon.eq(G.L(ne.f.getDiscretization().getOffsetArr(ne.mesh)), [0] + np.cumsum([len(c) for t, c in ne.pm.cells]).tolist(), "gaussne:offsets")
    # a wrong number of tuples is refused, an orphan cell too
    a = G.npd(m, np.zeros((r.nt + rng.choice([-1, 1]), 1)))
    g = f.clone(True)
    if a.getNumberOfTuples():
        g.setArray(a)
        mon.raises(g.checkConsistencyLight, key + ":wrong-size")
    g = m.MEDCouplingFieldDouble(m.ON_GAUSS_PT, m.ONE_TIME)
    g.setMesh(r.mesh)
    if n > 1:
        part = [i for i in range(n) if r.pm.cells[i][0] == r.pm.cells[0][0]]
        if len(part) > 1 or len(part) < n:
            t = r.pm.cells[0][0]
            g.setGaussLocalizationOnCells(part[:max(1, len(part) - 1)], REFC[t], inside(rng, t), [1.])
            b = G.npd(m, np.zeros((n, 1)))
            g.setArray(b)
            mon.raises(g.checkConsistencyLight, key + ":orphan-cell")
    mon.nontrivial = n > 1


def t_conv(rng, mon, m):
    pm = M.shuffle(rng, M.anymesh(rng, shuf=False))
    r = build(rng, m, "nodes", None, None, pm)
    key = "conv"
    with G.Pure(mon, key, r.f):
        c = r.f.nodeToCellDiscretization()
    same(mon, c, [np.array([a[pm.nodes(i)].mean(0) for i in range(len(pm.cells))]) for a in r.A], key + ":tocell", 1e-12)
    mon.eq(c.getTypeOfField(), m.ON_CELLS, key + ":tocell-type")
    q = build(rng, m, "cells", None, None, pm)
    with G.Pure(mon, key, q.f):
        d = q.f.cellToNodeDiscretization()
    own = [[i for i in range(len(pm.cells)) if x in pm.nodes(i)] for x in range(len(pm.coords))]
    same(mon, d, [np.array([a[o].mean(0) for o in own]) for a in q.A], key + ":tonode", 1e-12)
    mon.eq(d.getTypeOfField(), m.ON_NODES, key + ":tonode-type")
    mon.raises(q.f.nodeToCellDiscretization, key + ":wrong-type")
    mon.raises(r.f.cellToNodeDiscretization, key + ":wrong-type2")
    # other value types
    b = build(rng, m, rng.choice(["cells", "nodes"]), "one", None, None, mag="ints")
    with G.Pure(mon, key, b.f):
        i = b.f.convertToIntField()
        fl = b.f.convertToFloatField()
    mon.eq(i.getArray().getValues(), [int(x) for x in b.A[0].ravel()], key + ":int")
    mon.eq([float(x) for x in fl.getArray().getValues()], b.A[0].ravel().tolist(), key + ":float")
    mon.eq((tuple(i.getTime()), tuple(fl.getTime())), (tuple(b.f.getTime()),) * 2, key + ":conv-time")
    mon.eq((i.getTypeOfField(), fl.getTypeOfField()), (b.f.getTypeOfField(),) * 2, key + ":conv-type")
    same(mon, i.convertToDblField(), b.A, key + ":int-back")
    same(mon, fl.convertToDblField(), b.A, key + ":float-back")
    # selection in fields of integers
    n = len(b.pm.cells)
    cells = rng.sample(range(n), rng.randint(1, n))
    s = i.buildSubPart(G.ids(m, cells))
    t = [x for c in cells for x in b.tuples[c]] if b.kind == "cells" else sorted(set(x for c in cells for x in b.pm.nodes(c)))
    mon.eq(s.getArray().getValues(), [int(x) for x in b.A[0][t].ravel()], key + ":int-part")
    mon.nontrivial = n > 1


def t_merge(rng, mon, m):
    r = build(rng, m, mag="signed")
    key = "merge:" + r.kind
    parts = [r]
    for _ in range(rng.randint(1, 2)):
        # same dimensions, other support
        for _ in range(30):
            q = build(rng, m, r.kind, r.time, r.nc)
            if (q.pm.mdim, q.pm.sdim) == (r.pm.mdim, r.pm.sdim):
                break
        else:
            raise Skip("no support")
        q.f.copyTinyStringsFrom(r.f)
        q.f.setTimeUnit(r.f.getTimeUnit())
        q.f.setTimeTolerance(r.f.getTimeTolerance())
        for a, b in zip(q.f.getArrays(), r.f.getArrays()):
            if a is not None:
                a.copyStringInfoFrom(b)
        if r.time == "one":
            q.f.setTime(*r.f.getTime())
        elif r.time != "no":
            q.f.setStartTime(*r.f.getStartTime())
            q.f.setEndTime(*r.f.getEndTime())
        parts.append(q)
    fs = [p.f for p in parts]
    with G.Pure(mon, key, *fs):
        g = m.MEDCouplingFieldDouble.MergeFields(fs)
    g.checkConsistencyLight()
    same(mon, g, [np.vstack([p.A[k] for p in parts]) for k in range(len(r.A))], key + ":values")
    mon.eq(g.getMesh().getNumberOfCells(), sum(len(p.pm.cells) for p in parts), key + ":cells")
    mon.close(G.np2(g.getLocalizationOfDiscr()), np.vstack([G.np2(p.f.getLocalizationOfDiscr()) for p in parts]), key + ":positions", 1e-12, 10.)
    if r.kind != "nodes":
        tot = sum(np.array(p.f.integral(True)) for p in parts)
        mon.close(list(g.integral(True)), tot, key + ":integral", 1e-9, np.abs(tot).max() + sum(np.abs(p.A[0]).max() * abs(weights(p, True)).sum() for p in parts))


def t_time(rng, mon, m):
    pm = M.affine(rng, M.grid2(rng, 2, 2))
    kind = "cells"
    r = build(rng, m, kind, rng.choice(["one", "const", "linear"]), None, pm, mag="signed")
    f = r.f
    key = "time:" + r.time
    t0, t1 = r.t
    i = rng.randrange(len(pm.cells))
    pt = pm.measure_centre(i)[1].tolist()
    tol = 10 ** rng.uniform(-9, -3)
    f.setTimeTolerance(tol)
    mon.eq(f.getTimeTolerance(), tol, key + ":tolerance")
    if r.time == "one":
        mon.eq(tuple(f.getTime()), (t0, 3, 4), key + ":get")
        mon.eq(list(f.getValueOn(pt, t0 + tol / 2)), r.A[0][i].tolist(), key + ":at")
        mon.raises(lambda: f.getValueOn(pt, t0 + 2 * tol), key + ":after")
        mon.raises(lambda: f.getValueOn(pt, t0 - 2 * tol), key + ":before")
    else:
        mon.eq((tuple(f.getStartTime()), tuple(f.getEndTime())), ((t0, 3, 4), (t1, 5, 6)), key + ":get")
        x = rng.choice([0., 1., rng.random()])
        t = t0 + x * (t1 - t0)
        want = r.A[0][i] if r.time == "const" else (1 - x) * r.A[0][i] + x * r.A[1][i]
        mon.close(list(f.getValueOn(pt, t)), want, key + ":at", 1e-12, 10.)
        mon.raises(lambda: f.getValueOn(pt, t1 + 2 * tol), key + ":after")
        mon.raises(lambda: f.getValueOn(pt, t0 - 2 * tol), key + ":before")
    # other representation of time, same arrays
    td = rng.choice([m.NO_TIME, m.ONE_TIME, m.CONST_ON_TIME_INTERVAL])
    deep = rng.random() < 0.5
    if r.time != "linear":
        with G.Pure(mon, key, f):
            g = f.buildNewTimeReprFromThis(td, deep)
        mon.eq(g.getTimeDiscretization(), td, key + ":newrepr")
        same(mon, g, [r.A[0]], key + ":newrepr-values")
        shared = g.getArray().getHiddenCppPointer() == f.getArray().getHiddenCppPointer()
        mon.eq(shared, not deep, key + ":newrepr-shared")
    # compatibility: another time of definition is refused by the algebra with strict compatibility
    q = f.clone(True)
    F = m.MEDCouplingFieldDouble
    if r.time == "one":
        q.setTime(t0 + 2 * tol, 3, 4)
    elif rng.random() < 0.5:
        q.setStartTime(t0 + 2 * tol, 3, 4)
    else:
        q.setEndTime(t1 + 2 * tol, 5, 6)
    mon.ok(not f.isEqual(q, 1e-12, 1e-12), key + ":equal-other-time")
    # shallow and deep copies
    c = f.clone(False)
    d = f.clone(True)
    f.getArray().setIJ(0, 0, 99.)
    mon.eq(c.getArray().getIJ(0, 0), 99., key + ":shallow")
    mon.eq(d.getArray().getIJ(0, 0), float(r.A[0][0, 0]), key + ":deep")
    d2 = f.deepCopy()
    mon.eq(d2.getTimeTolerance(), tol, key + ":copy-tolerance")
    mon.eq(G.times(d2), G.times(f), key + ":copy-times")


def t_multi(rng, mon, m):
    """Sets of fields over time: hot spots and the slices which contain an instant."""
    key = "multi"
    meshes = [M.affine(rng, M.grid2(rng, 2, 1)) for _ in range(rng.randint(1, 2))]
    ums = [p.um(m, "m%d" % k) for k, p in enumerate(meshes)]
    fs, sl = [], []
    t = round(rng.uniform(-2, 2), 2)
    for k in range(rng.randint(1, 6)):
        time = rng.choice(["one", "const", "linear"])
        um = rng.choice(ums)
        td = {"one": m.ONE_TIME, "const": m.CONST_ON_TIME_INTERVAL, "linear": m.LINEAR_TIME}[time]
        f = m.MEDCouplingFieldDouble(m.ON_CELLS, td)
        f.setMesh(um)
        f.setName("f")
        n = um.getNumberOfCells()
        a = G.npd(m, np.array([rng.gauss(0, 1) for _ in range(n)]))
        f.setArray(a)
        arrs = [a]
        if time == "linear":
            b = G.npd(m, np.array([rng.gauss(0, 1) for _ in range(n)]))
            f.setEndArray(b)
            arrs.append(b)
        touch = rng.random() < 0.5
        if not touch and fs:
            t = round(t + rng.uniform(0.2, 1), 2)
        if time == "one":
            if touch and fs:
                t = round(t + rng.uniform(0.2, 1), 2)
            f.setTime(t, k, 0)
            sl.append((time, t, t, um, arrs))
        else:
            e = round(t + rng.uniform(0.3, 2), 2)
            f.setStartTime(t, k, 0)
            f.setEndTime(e, k, 1)
            sl.append((time, t, e, um, arrs))
            t = e
        f.checkConsistencyLight()
        fs.append(f)
    fo = m.MEDCouplingFieldOverTime(fs)
    mf = m.MEDCouplingMultiFields(fs)
    mon.eq(len(fo.getFields()), len(fs), key + ":count")
    ptr = lambda o: o.getHiddenCppPointer()
    want = []
    for s in sl:
        if ptr(s[3]) not in [ptr(x) for x in want]:
            want.append(s[3])
    dm, ids = mf.getDifferentMeshes()
    mon.eq(sorted(ptr(x) for x in dm), sorted(ptr(x) for x in want), key + ":meshes")
    mon.eq([ptr(dm[i]) for i in ids], [ptr(s[3]) for s in sl], key + ":mesh-of")
    da, ids = mf.getDifferentArrays()
    mon.eq([[ptr(da[i]) for i in x] for x in ids], [[ptr(a) for a in s[4]] for s in sl], key + ":arrays")
    dt = fo.getDefinitionTimeZone()
    hs = []
    for ti, a, b, _, _ in sl:
        new = [a] if ti == "one" else ([(a + b) / 2.] if ti == "const" else [a, b])
        if hs and abs(hs[-1] - new[0]) <= 1e-9:
            new = new[1:]
        hs += new
    got = list(dt.getHotSpotsTime())
    mon.close(got, hs, key + ":hotspots", 1e-12, 10.) if len(got) == len(hs) else mon.eq(got, hs, key + ":hotspots-count")
    arrs = fo.getDifferentArrays()[0]
    dmesh = fo.getDifferentMeshes()[0]
    for x in hs:
        inside = [k for k, (ti, a, b, _, _) in enumerate(sl) if a - 1e-10 <= x <= b + 1e-10]
        for side, k in (("right", inside[-1]), ("left", inside[0])):
            ti, a, b, um, ar = sl[k]
            if ti == "linear" and min(abs(x - a), abs(x - b)) > 1e-10:
                continue
            if any(sl[j][0] == "linear" and min(abs(x - sl[j][1]), abs(x - sl[j][2])) > 1e-10 for j in inside):
                continue
            meshId, arrId, inField, fid = (dt.getIdsOnTimeRight if side == "right" else dt.getIdsOnTimeLeft)(x)
            e = 1 if ti == "linear" and abs(x - b) < 1e-10 else 0
            mon.eq((inField, fid), (e, k), key + ":" + side, t=x, slices=[s[:3] for s in sl])
            mon.eq(ptr(arrs[arrId]), ptr(ar[e]), key + ":" + side + "-array")
            mon.eq(ptr(dmesh[meshId]), ptr(um), key + ":" + side + "-mesh")
    mon.raises(lambda: dt.getIdsOnTimeRight(sl[-1][2] + 3), key + ":outside")
    # overlapping or unordered fields are refused
    if len(fs) > 1 and sl[0][2] - sl[0][1] > 0.1:
        mon.raises(lambda: m.MEDCouplingFieldOverTime([fs[1], fs[0]]), key + ":unordered")
    c = fo.deepCopy()
    mon.ok(c.isEqual(fo, 1e-12, 1e-12), key + ":copy")
    mon.nontrivial = len(fs) > 1


def t_kriging(rng, mon, m):
    d = rng.choice([1, 2, 3])
    n = {1: rng.randint(2, 8), 2: rng.randint(4, 12), 3: rng.randint(6, 14)}[d]
    for _ in range(20):
        X = np.array([[rng.uniform(0, 3) for _ in range(d)] for _ in range(n)])
        D = np.linalg.norm(X[:, None] - X[None], axis=2) + 10 * np.eye(n)
        if D.min() > 0.15:
            break
    else:
        raise Skip("points too near")
    if np.linalg.svd(np.hstack([X, np.ones((n, 1))]))[1].min() < 0.2:
        raise Skip("degenerate")
    key = "kriging:%dd" % d
    pm = M.PM(X, [(1, [i]) for i in range(n)], 0)
    mesh = m.MEDCouplingUMesh("pts", 0)
    mesh.setCoords(G.npd(m, X))
    mesh.allocateCells(n)
    for i in range(n):
        mesh.insertNextCell(m.NORM_POINT1, [i])
    mesh.finishInsertingCells()
    f = m.MEDCouplingFieldDouble(m.ON_NODES_KR, m.ONE_TIME)
    f.setMesh(mesh)
    nc = rng.choice([1, 2])
    A = np.array([[rng.uniform(-3, 3) for _ in range(nc)] for _ in range(n)])
    f.setArray(G.npd(m, A))
    with G.Pure(mon, key, f):
        got = G.np2(f.getValueOnMulti(X.ravel().tolist()))
    mon.close(got, A, key + ":exact", 1e-6, 10.)
    i = rng.randrange(n)
    mon.close(list(f.getValueOn(X[i].tolist())), A[i], key + ":one", 1e-6, 10.)
    C = np.array([[rng.uniform(-2, 2) for _ in range(nc)] for _ in range(d + 1)])
    f.setArray(G.npd(m, np.hstack([X, np.ones((n, 1))]) @ C))
    P = np.array([[rng.uniform(-1, 4) for _ in range(d)] for _ in range(4)])
    mon.close(G.np2(f.getValueOnMulti(P.ravel().tolist())), np.hstack([P, np.ones((4, 1))]) @ C, key + ":affine", 1e-6, 20.)
    # linear in the values
    B = np.array([[rng.uniform(-3, 3) for _ in range(nc)] for _ in range(n)])
    def ev(V):
        f.setArray(G.npd(m, V))
        return G.np2(f.getValueOnMulti(P.ravel().tolist()))
    mon.close(ev(A + 2 * B), ev(A) + 2 * ev(B), key + ":linear", 1e-6, 50.)
    # the generalized covariance that documentation gives: h^3 in 1-D, h^2 log(h) in 2-D, h in 3-D
    ker = {1: lambda h: h ** 3, 2: lambda h: h * h * np.log(np.where(h == 0, 1., h)), 3: lambda h: h}[d]
    dist = lambda a, b: np.sqrt(((a[:, None] - b[None]) ** 2).sum(2))
    one = lambda a: np.hstack([np.ones((len(a), 1)), a])
    K = np.block([[ker(dist(X, X)), one(X)], [one(X).T, np.zeros((d + 1, d + 1))]])
    if np.linalg.cond(K) > 1e7:
        return
    co = np.linalg.solve(K, np.vstack([A, np.zeros((d + 1, nc))]))
    T = np.hstack([ker(dist(P, X)), one(P)])
    mon.close(ev(A), T @ co, key + ":values", 1e-6, 50.)
    di = m.MEDCouplingFieldDiscretization.New(m.ON_NODES_KR)
    mat, drift, sz = di.computeMatrix(mesh)
    mon.eq([drift, sz], [d + 1, n + d + 1], key + ":sizes")
    mon.close(G.np2(mat).reshape(K.shape), K, key + ":matrix", 1e-12, 50.)
    inv, drift, sz = di.computeInverseMatrix(mesh)
    mon.close(G.np2(inv).reshape(K.shape) @ K, np.eye(len(K)), key + ":inverse", 1e-6, 1.)
    v, drift = di.computeVectorOfCoefficients(mesh, G.npd(m, A[:, 0].copy()))
    mon.close(G.np2(v)[:, 0], co[:, 0], key + ":coefficients", 1e-6, 1. + np.abs(co).max())
    E, cols = di.computeEvaluationMatrixOnGivenPts(mesh, G.npd(m, P))
    mon.eq(cols, n, key + ":columns")
    mon.close(G.np2(E).reshape(len(P), n) @ A, T @ co, key + ":evaluation", 1e-6, 50.)
    R, delta = m.MEDCouplingFieldDiscretizationKriging.PerformDriftRect(G.npd(m, ker(dist(P, X)).ravel()), G.npd(m, P))
    mon.eq(delta, d + 1, key + ":rect")
    mon.close(G.np2(R).reshape(len(P), -1), T, key + ":rect", 1e-12, 50.)


def t_disc(rng, mon, m):
    """The spatial discretizations themselves: places, offsets, parts, restrictions, numbering of tuples."""
    r = build(rng, m)
    pm, f, mesh = r.pm, r.f, r.mesh
    d = f.getDiscretization()
    key = "disc:" + r.kind
    n = len(pm.cells)
    enum = {"cells": m.ON_CELLS, "nodes": m.ON_NODES, "gauss": m.ON_GAUSS_PT, "ne": m.ON_GAUSS_NE}[r.kind]
    mon.eq(d.getEnum(), enum, key + ":enum")
    mon.eq(m.MEDCouplingFieldDiscretization.GetTypeOfFieldFromStringRepr(d.getRepr()), enum, key + ":repr")
    mon.raises(lambda: m.MEDCouplingFieldDiscretization.GetTypeOfFieldFromStringRepr("P9"), "disc:repr-unknown")
    mon.eq(d.getNumberOfTuples(mesh), r.nt, key + ":tuples")
    mon.eq(d.getNumberOfMeshPlaces(mesh), len(pm.coords) if r.kind == "nodes" else n, key + ":places")
    d.checkCoherencyBetween(mesh, f.getArray())
    w = f.getArray().deepCopy()
    w.reAlloc(r.nt + rng.choice([-1, 1]) if r.nt else 1)
    mon.raises(lambda: d.checkCoherencyBetween(mesh, w), key + ":coherency")
    p0 = rng.choice([1e-12, 1e-7, 0.5])
    d2 = d.clone()
    d2.setPrecision(p0)
    mon.eq(d2.getPrecision(), p0, key + ":precision")
    mon.ok(d2.isEqual(d, 1e-12) and d.isEqualWithoutConsideringStr(d2, 1e-12), key + ":clone")
    # tuples -> cells (nodes) which they define
    k = rng.randint(0, 2 * n)
    if r.kind == "cells":
        ask = [rng.randrange(n) for _ in range(k)]
    elif r.kind == "nodes":
        ask = sorted(set(x for i in G.subset(rng, n) for x in r.tuples[i]) | set(rng.sample(range(r.nt), rng.randint(0, min(3, r.nt)))))
        rng.shuffle(ask)
    else:
        ask = [x for i in G.subset(rng, n) for x in r.tuples[i]]
        ask += [rng.choice(ask) for _ in range(rng.randint(0, 2)) if ask]
        rng.shuffle(ask)
        if ask and rng.random() < 0.3:
            ask.pop()
    with G.Pure(mon, key, f):
        ce, tu = d.computeMeshRestrictionFromTupleIds(mesh, G.ids(m, ask))
    s = set(ask)
    if r.kind == "cells":
        mon.eq([G.L(ce), G.L(tu)], [ask, ask], key + ":restriction")
    else:
        wc = [i for i in range(n) if s.issuperset(r.tuples[i])]
        mon.eq(G.L(ce), wc, key + ":restriction:cells", asked=ask)
        if r.kind == "nodes":
            mon.eq(G.L(tu), sorted(set(x for i in wc for x in r.tuples[i])), key + ":restriction:tuples")
        else:
            mon.eq(G.L(tu), [x for i in wc for x in r.tuples[i]], key + ":restriction:tuples")
    # part of a discretization
    if r.kind == "gauss":
        ids = G.subset(rng, n)
        rng.shuffle(ids)
        q = d.clonePart(G.ids(m, ids))
        full = G.L(d.getArrayOfDiscIds())
        mon.eq(full, r.loc_of, key + ":ids")
        mon.eq(G.L(q.getArrayOfDiscIds()), [full[i] for i in ids], key + ":clonePart")
        mon.eq(q.getNbOfGaussLocalization(), d.getNbOfGaussLocalization(), key + ":clonePart")
        st = rng.choice([1, 1, 2, 3])
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        q = d.clonePartRange(a, b, st)
        mon.eq(G.L(q.getArrayOfDiscIds()), full[a:b:st], key + ":clonePartRange")
        parts, locs = d.splitIntoSingleGaussDicrPerCellType()
        mon.eq(sorted(locs), sorted(set(full)), key + ":split")
        for c, l in zip(parts, locs):
            mon.eq(sorted(G.L(c)), [i for i in range(n) if full[i] == l], key + ":split")
        for l in range(d.getNbOfGaussLocalization()):
            mon.eq(sorted(G.L(d.getCellIdsHavingGaussLocalization(l))), [i for i in range(n) if full[i] == l], key + ":cells-of")
        d.checkNoOrphanCells()
        z = d.deepCopy()
        bad = list(full)
        bad[rng.randrange(n)] = -1
        z.setArrayOfDiscIds(G.ids(m, bad))
        mon.eq(G.L(z.getArrayOfDiscIds()), bad, key + ":set-ids")
        mon.raises(z.checkNoOrphanCells, key + ":orphan")
        mon.eq(G.L(d.getArrayOfDiscIds()), full, key + ":ids")
    elif r.kind == "ne":
        q = d.clonePart(G.ids(m, G.subset(rng, n)))
        mon.ok(q.isEqual(d, 0.), key + ":clonePart")
        GN = m.MEDCouplingFieldDiscretizationGaussNE
        for t in sorted(set(t for t, _ in pm.cells)):
            nn = m.MEDCouplingUMesh.GetNumberOfNodesOfGeometricType(t) if hasattr(m.MEDCouplingUMesh, "GetNumberOfNodesOfGeometricType") else None
            W = np.array(GN.GetWeightArrayFromGeometricType(t))
            R = np.array(GN.GetRefCoordsFromGeometricType(t))
            Lc = np.array(GN.GetLocsFromGeometricType(t))
            dim = m.MEDCouplingUMesh.GetDimensionOfGeometricType(t)
            if nn is None:
                nn = len(R) // dim
            mon.eq([len(W), len(R), len(Lc)], [nn, nn * dim, nn * dim], "disc:ne:sizes:%d" % t)
            mon.ok((W > 0).all(), "disc:ne:weights:%d" % t)
            # as many points as nodes, in the reference cell
            R, Lc = R.reshape(nn, dim), Lc.reshape(nn, dim)
            mon.ok((Lc >= R.min(0) - 1e-9).all() and (Lc <= R.max(0) + 1e-9).all(), "disc:ne:inside:%d" % t, locs=Lc)
    # renumbering of values of cells: several cells can merge when they have the same values
    if r.kind == "cells":
        nn = rng.randint(1, n)
        o2n = list(range(nn)) + [rng.randrange(nn) for _ in range(n - nn)]
        rng.shuffle(o2n)
        V = np.array([[float(x) + c for c in range(r.nc)] for x in range(nn)])
        a = G.npd(m, V[o2n])
        d.renumberValuesOnCells(1e-9, mesh, G.ids(m, o2n), nn, a)
        mon.close(G.np2(a), V, key + ":renumberValuesOnCells", 0.)
        if nn < n:
            a = G.npd(m, V[o2n] + np.arange(n)[:, None])
            mon.raises(lambda: d.renumberValuesOnCells(1e-9, mesh, G.ids(m, o2n), nn, a), key + ":renumberValuesOnCells:conflict")
        n2o = [rng.randrange(n) for _ in range(rng.randint(1, 2 * n))]
        B = np.array([[rng.uniform(-1, 1) for _ in range(r.nc)] for _ in range(n)])
        a = G.npd(m, B)
        d.renumberValuesOnCellsR(mesh, G.ids(m, n2o), len(n2o), a)
        mon.close(G.np2(a), B[n2o], key + ":renumberValuesOnCellsR", 0.)
    elif r.kind == "nodes":
        N = r.nt
        nn = rng.randint(1, N)
        o2n = list(range(nn)) + [rng.randrange(nn) for _ in range(N - nn)]
        rng.shuffle(o2n)
        V = np.array([[float(x) + c for c in range(r.nc)] for x in range(nn)])
        a = G.npd(m, V[o2n])
        d.renumberValuesOnNodes(1e-9, G.ids(m, o2n), nn, a)
        mon.close(G.np2(a), V, key + ":renumberValuesOnNodes", 0.)
        if nn < N:
            a = G.npd(m, V[o2n] + np.arange(N)[:, None])
            mon.raises(lambda: d.renumberValuesOnNodes(1e-9, G.ids(m, o2n), nn, a), key + ":renumberValuesOnNodes:conflict")
    mon.nontrivial = n > 1
    mon.mark(key)


def t_signs(rng, mon, m):
    """Along a curve with tangents: the segment where a point is passed."""
    n = rng.randint(2, 12)
    key = "dot-sign"
    kind = rng.choice(["line", "arc", "any"])
    if kind == "line":
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        v = v / np.linalg.norm(v)
        t = np.cumsum([rng.uniform(.2, 1) for _ in range(n)])
        P, T = np.outer(t, v) + rng.uniform(-2, 2), np.tile(v * rng.uniform(.2, 3), (n, 1))
    elif kind == "arc":
        t = np.cumsum([rng.uniform(.02, .15) for _ in range(n)])
        P, T = np.c_[np.cos(t), np.sin(t), 0 * t], np.c_[-np.sin(t), np.cos(t), 0 * t] * rng.uniform(.2, 3)
    else:
        P, T = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(n)]), np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(n)])
    c = m.MEDCouplingCurveLinearMesh("c")
    c.setCoords(G.npd(m, P))
    c.setNodeGridStructure([n])
    f = m.MEDCouplingFieldDouble(m.ON_NODES)
    f.setMesh(c)
    f.setArray(G.npd(m, T))
    k = rng.randint(1, 8)
    X = np.array([P[rng.randrange(n)] * rng.uniform(.7, 1.3) + [rng.gauss(0, .3) for _ in range(3)] for _ in range(k)])
    with G.Pure(mon, key, f):
        got = G.L(f.locateDotSignChangeFor(G.npd(m, X)))
    mon.eq(len(got), k, key + ":number")
    for x, g in zip(X, got):
        s = ((x - P) * T).sum(1)
        if np.abs(s).min() < 1e-9:
            continue
        ch = [i for i in range(n - 1) if (s[i] > 0) != (s[i + 1] > 0)]
        if len(ch) > 1:
            D = np.linalg.norm(P[ch] - x, axis=1)
            ch = [i for i, q in zip(ch, D) if q <= D.min() + 1e-9]
        elif not ch:
            a, z = np.linalg.norm(x - P[0]), np.linalg.norm(x - P[-1])
            ch = [0] * (a < z + 1e-9) + [n - 2] * (z < a + 1e-9)
        mon.ok(g in ch, key + ":" + kind, got=g, want=ch, n=n)
    mon.nontrivial = True
    mon.mark(key, kind)


OPS = [("reduce", t_reduce), ("algebra", t_algebra), ("tensor", t_tensor), ("func", t_func), ("values", t_values),
       ("part", t_part), ("renumber", t_renumber), ("support", t_support), ("gauss", t_gauss), ("conv", t_conv),
       ("merge", t_merge), ("time", t_time), ("multi", t_multi), ("kriging", t_kriging), ("disc", t_disc), ("meta", t_meta), ("labels", t_labels), ("signs", t_signs)]
FAMILIES = [G.table("fields", OPS, 480, 3)]
