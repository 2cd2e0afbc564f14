"""Remapping of nodal, Gauss and finite element fields: dual cells, barycentric functions, point location."""
import math
import re

import numpy as np

from props import clip as C
from props import gen as G
from props import mesh as M
from props.refcells import DEGS, REFS
from props.C07 import compare, matrix, mixup, placed, to_box, transfers
from vt.worker import Skip

RULE = ("Each case builds source and target meshes of simplices (or quadrangles, hexahedra, quadratic cells where the "
        "method takes them) in 1-D, 2-D, 3-D or on a plane of space, prepares P0P1, P1P0, P1P1, GAUSSGAUSS or FEFE with "
        "each intersector which documents it, and compares the crude matrix with measures of the dual cells, integrals "
        "of the barycentric functions over the intersections, or values of the shape functions computed in Python; then "
        "fields: constants and linear fields must be reproduced and the natures give the products of the definition. "
        "Non-trivial: at least one non-zero coefficient.")
ASSUMPTIONS = ["P1 methods are specified on simplices; quadrangles and hexahedra with the mapped barycentric one only"]


# ------------------------------------------------------------------------------------------------- references
def duals2(p):
    """The three dual cells of a triangle: where one barycentric coordinate is the largest."""
    p = [np.asarray(x, float) for x in p]
    g = sum(p) / 3
    return [[p[i], (p[i] + p[(i + 1) % 3]) / 2, g, (p[i] + p[i - 1]) / 2] for i in range(3)]


def duals3(p):
    """The four dual cells of a tetrahedron, as convex polyhedra."""
    p = [np.asarray(x, float) for x in p]
    g = sum(p) / 4
    r = []
    for i in range(4):
        o = [j for j in range(4) if j != i]
        mid = {j: (p[i] + p[j]) / 2 for j in o}
        fac = {j: sum(p[k] for k in range(4) if k != j) / 3 for j in o}  # the face without j
        F = []
        for j in o:
            a, b = [k for k in o if k != j]
            F.append([p[i], mid[a], fac[j], mid[b]])  # on the face without j
            F.append([mid[j], fac[a], g, fac[b]])     # inside, half way to j
        r.append(C.Poly3([[tuple(map(float, q)) for q in f] for f in F]))
    return r


def tri_mesh(rng, n=3):
    return to_box(M.grid2(rng, rng.randint(1, n), rng.randint(1, n), "tT", 0.25))


def tet_mesh(rng):
    p = to_box(M.tetras(rng, 1, 1, rng.randint(1, 2)))
    if rng.random() < 0.5 and len(p.cells) > 6:
        p = M.PM(p.coords, p.cells[:6], 3)
        p = zipped(p)
    return p


def zipped(p):
    ids = sorted({n for _, c in p.cells for n in c})
    pos = {n: i for i, n in enumerate(ids)}
    return M.PM(p.coords[ids], [(t, [pos[n] for n in c]) for t, c in p.cells], p.mdim)


def simplices(pm):
    return [list(c) for _, c in pm.cells]


def pieces(pm, dual):
    """Per cell: [(column or row of the piece, geometry)]."""
    r = []
    for i, c in enumerate(simplices(pm)):
        q = pm.coords[c]
        if pm.mdim == 1:
            a, b = q[:, 0]
            l = [(c[0], (a, (a + b) / 2)), (c[1], ((a + b) / 2, b))] if dual else [(i, (a, b))]
        elif pm.mdim == 2:
            if C.area2([tuple(x) for x in q]) < 0:
                c = [c[0], c[2], c[1]]
                q = pm.coords[c]
            l = list(zip(c, [[tuple(x) for x in d] for d in duals2(q)])) if dual else [(i, [tuple(x) for x in q])]
        else:
            F = [[0, 1, 2], [0, 1, 3], [1, 2, 3], [0, 2, 3]]
            l = list(zip(c, duals3(q))) if dual else [(i, C.Poly3([[tuple(q[k]) for k in f] for f in F]))]
        r.append(l)
    return r


def inter(x, y, d):
    if d == 1:
        return max(0., min(max(x), max(y)) - max(min(x), min(y)))
    if d == 2:
        return C.area2(q) if len(q := C.clip2(x, y)) > 2 else 0.
    return C.vol_convex(x, y, 1e-12)


def duals_matrix(sp, tp, ds, dt):
    A = np.zeros((len(tp.coords) if dt else len(tp.cells), len(sp.coords) if ds else len(sp.cells)))
    S = [x for l in pieces(sp, ds) for x in l]
    for l in pieces(tp, dt):
        for r, x in l:
            for c, y in S:
                A[r, c] += inter(x, y, sp.mdim)
    return A


def bary(q, x):
    """Barycentric coordinates of x in the simplex q."""
    T = np.vstack([np.asarray(q).T, np.ones(len(q))])
    return np.linalg.solve(T, np.append(x, 1.))


def bary_matrix(sp, tp, src, mean=False):
    """Integrals over the intersections of the barycentric functions of the source (or target) cells; with mean,
    by the value at the mean of the vertices of the intersection."""
    A = np.zeros((len(tp.cells), len(sp.coords)) if src else (len(tp.coords), len(sp.cells)))
    span = np.zeros(A.shape)
    S, T = pieces(sp, False), pieces(tp, False)
    for i, [(_, x)] in enumerate(T):
        for j, [(_, y)] in enumerate(S):
            if sp.mdim == 2:
                q = C.clip2(x, y)
                v = C.area2(q) if len(q) > 2 else 0.
                g = C.centroid2(q) if v > 0 else None
                if mean and v > 0:
                    q = [a for k, a in enumerate(q) if math.dist(a, q[k - 1]) > 1e-9]
                    g = np.mean(q, axis=0)
                if g is not None and len(g) == 3:
                    g = g[1:]
            else:
                pts = []
                v, mo = C.moments_convex(x, y, 1e-12, pts)
                g = [t / v for t in mo] if v > 1e-15 else None
            if g is None:
                continue
            pm, k = (sp, j) if src else (tp, i)
            c = simplices(pm)[k]
            w = v * bary(pm.coords[c], np.array(g))
            for n, e in zip(c, w):
                A[(i, n) if src else (n, j)] += e
            if sp.mdim == 3:
                b = np.array([bary(pm.coords[c], np.array(p)) for p in pts])
                for n, e in zip(c, v * (b.max(0) - b.min(0))):
                    span[(i, n) if src else (n, j)] += e
    return (A, span) if sp.mdim == 3 else A


def dual_measure(pm):
    v = np.zeros(len(pm.coords))
    for i, c in enumerate(simplices(pm)):
        q = pm.coords[c]
        e = abs(np.linalg.det(q[1:] - q[0])) / math.factorial(pm.mdim)
        v[c] += e / len(c)
    return v


def cell_measure(pm):
    return np.array([abs(np.linalg.det(pm.coords[c][1:] - pm.coords[c][0])) / math.factorial(pm.mdim)
                     for c in simplices(pm)])


def pair(rng, d):
    if d == 1:
        def line():
            n = rng.randint(1, 6)
            x = np.cumsum([0.] + [rng.uniform(0.2, 1) for _ in range(n)])
            return M.PM((x / x[-1])[:, None], [(M.SEG2, [i, i + 1] if rng.random() < 0.7 else [i + 1, i])
                                               for i in range(n)], 1)
        mk = line
    else:
        mk = (lambda: tri_mesh(rng)) if d == 2 else (lambda: tet_mesh(rng))
    a = mk()
    b = a.copy() if rng.random() < 0.12 else mk()
    if d == 1:
        b.coords = b.coords * rng.choice([1., 0.5, 1.3]) + rng.choice([0., 0.3, -0.2, 2.])
        return (a, b, "line") if rng.random() < 0.5 else (b, a, "line")
    return placed(rng, a, b)


def prep(rng, mon, m, key, s, t, meth, opts):
    r = m.MEDCouplingRemapper()
    for k, v in opts.items():
        if k == "type":
            r.setIntersectionType(v)
        elif k == "split":
            r.setSplittingPolicy(v)
        elif isinstance(v, float):
            r.setOptionDouble(k, v)
        elif isinstance(v, int):
            r.setOptionInt(k, v)
        else:
            r.setOptionString(k, v)
    with G.Pure(mon, key + ":prepare", s, t):
        mon.eq(r.prepare(s, t, meth), 1, key + ":prepare-returns")
    return r


TYP = {"P0": "ON_CELLS", "P1": "ON_NODES"}


def go(rng, mon, m, key, sp, tp, meth, opts, ref, tol=1e-8, natures=None, lift=None, exact=True, span=None):
    s, t = sp.um(m), tp.um(m)
    if lift is not None:
        s, t = lift(s), lift(t)
    r = prep(rng, mon, m, key, s, t, meth, opts)
    A = matrix(r, *ref.shape)
    mon.eq(r.getNumberOfColsOfMatrix(), ref.shape[1], key + ":columns")
    mon.eq(len(r.getCrudeMatrix()), ref.shape[0], key + ":rows")
    mon.nontrivial = mon.nontrivial or bool(ref.any())
    mon.mark(key, min(5, int((ref > 0).sum()).bit_length()))
    ms = cell_measure(sp) if meth[:2] == "P0" else dual_measure(sp)
    mt = cell_measure(tp) if meth[2:] == "P0" else dual_measure(tp)
    sc = max(cell_measure(sp).max(), cell_measure(tp).max())
    if span is not None:  # the barycentre is the one of pyramids whose bases are replaced by their mean vertex
        mon.ok((np.abs(A - ref) <= 0.3 * span + 1e-4 * span.max() + tol * sc).all(), key + ":crude",
               worst=(np.abs(A - ref) / (span + 1e-4 * span.max() + tol * sc)).max())
        mon.close(A.sum(1), ref.sum(1), key + ":sums", tol=tol, scale=sc)
    elif exact:
        compare(mon, key, A, ref, sc, tol, opts=str(opts))
    else:  # the measure of the intersections is shared by the nodes
        ax = 1 if meth[:2] == "P1" else 0
        mon.close(A.sum(ax), ref.sum(ax), key + ":sums", tol=tol, scale=sc)
        mon.ok(not A[ref.sum(1) == 0].any() or np.abs(A[ref.sum(1) == 0]).max() <= tol * sc, key + ":support")
    stored = np.zeros(A.shape, bool)
    for i, row in enumerate(r.getCrudeMatrix()):
        for j in row:
            stored[i, j] = True
    if natures and not (stored & (np.abs(A) < 1e-12 * np.abs(A).max())).any():
        transfers(rng, mon, m, r, s, t, A, mt, ms, key, (getattr(m, TYP[meth[:2]]), getattr(m, TYP[meth[2:]])),
                  natures, stored)
    return r, A


# ------------------------------------------------------------------------------------------------- dual cells
def t_dual(rng, mon, m):
    d = rng.choice([1, 2, 2, 2, 3])
    meth = rng.choice(["P0P1", "P1P0", "P1P1"])
    sp, tp, k = pair(rng, d)
    sp, tp = mixup(rng, sp), mixup(rng, tp)
    lift = None
    opts = {}
    if d == 2:
        typ = rng.choice(["Triangulation", "Triangulation", "Geometric2D"])
        if typ == "Geometric2D" and k in ("same", "tiny"):
            typ = "Triangulation"
        opts = {"type": getattr(m, typ)}
        if k != "tiny" and rng.random() < 0.25:  # in a plane of space
            R, t = G.rotation(rng, 3), np.array([rng.uniform(-2, 2) for _ in range(3)])

            def lift(u):
                u = u.deepCopy()
                c = G.np2(u.getCoords())
                u.setCoords(G.npd(m, np.hstack([c, np.zeros((len(c), 1))]) @ R.T + t))
                return u
            opts["Orientation"] = 2
    elif d == 3:
        opts = {"split": getattr(m, rng.choice(["PLANAR_FACE_5", "PLANAR_FACE_6"]))}
    ref = duals_matrix(sp, tp, meth[:2] == "P1", meth[2:] == "P1")
    go(rng, mon, m, "dual:%d:%s%s" % (d, meth, ":lift" if lift else ""), sp, tp, meth, opts, ref, 1e-6 if d == 3 else 1e-7,
       ["IntensiveMaximum"] if rng.random() < 0.5 else None, lift)


def t_hexa(rng, mon, m):
    """P1P0 from hexahedra or polyhedra: each intersection is shared once by the nodes of the source cell."""
    sp = to_box(M.extrude(rng, M.grid2(rng, rng.randint(1, 2), rng.randint(1, 2), "q", 0.), rng.randint(1, 2)))
    tp = tet_mesh(rng)
    cover = rng.random() < 0.5
    cover = cover and abs(cell_measure(tp).sum() - 1) < 1e-9  # not the shortened ones
    tp.coords = (tp.coords - 0.5) * (rng.uniform(1.2, 2) if cover else rng.uniform(0.3, 0.9)) + 0.5
    sp, tp = mixup(rng, sp), mixup(rng, tp)
    pol = rng.choice(["PLANAR_FACE_5", "PLANAR_FACE_6", "GENERAL_24", "GENERAL_24"])
    s, t = sp.um(m), tp.um(m)
    poly = rng.random() < 0.3
    if poly:
        s.convertAllToPoly()
    r = prep(rng, mon, m, "hexa", s, t, "P1P0", {"split": getattr(m, pol)})
    A = matrix(r, len(tp.cells), len(sp.coords))
    mon.nontrivial = True
    key = "hexa:%s:%s" % (pol, "poly" if poly else "hexa")
    mon.mark(key, cover)
    mon.ok(A.min() >= 0, key + ":negative")
    vt = cell_measure(tp)
    vs = np.abs(G.np2(s.getMeasureField(True).getArray()).ravel())
    if cover:
        mon.close(A.sum(), vs.sum(), key + ":total", tol=1e-8, scale=1)
        near = [[j for j, (_, c) in enumerate(sp.cells) if n in c] for n in range(len(sp.coords))]
        up = np.array([sum(vs[j] for j in l) for l in near])
        mon.ok(bool((A.sum(0) <= up + 1e-8).all()), key + ":column-sums")
        if pol == "GENERAL_24" or poly:
            mon.close(A.sum(0), up / 8, key + ":dual", tol=1e-8, scale=1)
    else:
        mon.close(A.sum(1), vt, key + ":row-sums", tol=1e-8, scale=vt.max())


# ------------------------------------------------------------------------------------------------- barycentric
def t_bary(rng, mon, m):
    d = rng.choice([2, 2, 3])
    src = d == 3 or rng.random() < 0.5
    meth = "P1P0" if src else "P0P1"
    sp, tp, k = pair(rng, d)
    if d == 2 and rng.random() < 0.4:  # the other mesh of any polygon
        o = to_box(M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "q", 0.2))
        if src:
            o.coords = o.coords * np.ptp(tp.coords, axis=0) + tp.coords.min(0)
        else:
            o.coords = o.coords * np.ptp(sp.coords, axis=0) + sp.coords.min(0)
        k = "quad"
    sp, tp = mixup(rng, sp), mixup(rng, tp)
    if d == 2:
        typ = rng.choice(["Barycentric", "BarycentricGeo2D"])
        if typ == "BarycentricGeo2D" and k in ("same", "tiny"):
            typ = "Barycentric"
        opts = {"type": getattr(m, typ)}
    else:
        typ, opts = "Barycentric", {"type": m.Barycentric, "split": m.PLANAR_FACE_5}
    mean = typ == "Barycentric"
    exact = not mean or (d == 2 and k != "quad" and k not in ("same", "tiny"))
    ref, span = bary_matrix(sp, tp, src, mean), None
    if d == 3:
        ref, span = ref if k != "tiny" else (ref[0], None)
    go(rng, mon, m, "bary:%d:%s:%s" % (d, meth, typ), sp, tp, meth, opts, ref, 1e-6 if d == 3 else 1e-7,
       ["IntensiveMaximum"] if rng.random() < 0.5 else None, exact=exact, span=span)


def t_bary_pair(rng, mon, m):
    """Two tetrahedra with coplanar faces, whose barycentre was found out of them."""
    a, b = PAIR[:4], PAIR[4:]
    r = prep(rng, mon, m, "bary-pair", M.PM(np.array(a), [(M.TETRA4, [0, 1, 2, 3])], 3).um(m),
             M.PM(np.array(b), [(M.TETRA4, [0, 1, 2, 3])], 3).um(m), "P1P0",
             {"type": m.Barycentric, "split": m.PLANAR_FACE_5})
    A = matrix(r, 1, 4)[0]
    mon.nontrivial = True
    mon.ok(A.min() >= 0, "bary-pair:coplanar-faces", got=A)


PAIR = [[-38.395759114747804, 18.976581460934906, 33.865240750804546],
        [-38.82294278559244, 128.19385791524977, 45.37746033298202],
        [-70.32143734890424, 34.75541349015666, 62.02383962890696],
        [-102.56257166299609, 136.02446048127342, -31.27722885185409],
        [0.0, 0.0, 0.0], [-38.82294278559244, 128.19385791524977, 45.37746033298202],
        [-70.32143734890424, 34.75541349015666, 62.02383962890696],
        [-102.56257166299609, 136.02446048127342, -31.27722885185409]]


# ------------------------------------------------------------------------------------------------- point location
def locate(pm, x):
    """(cells strictly containing x, or None when x is near a border)."""
    r = []
    for j, c in enumerate(simplices(pm)):
        q = pm.coords[c]
        if pm.cells[j][0] in (M.QUAD4,):
            p = [tuple(y) for y in q]
            if C.area2(p) < 0:
                p = p[::-1]
            b = [C.cross2(p[i], p[(i + 1) % 4], x) / max(1e-30, math.dist(p[i], p[(i + 1) % 4])) for i in range(4)]
        elif len(c) == 8:
            T = np.stack([q[1] - q[0], q[3] - q[0], q[4] - q[0]], 1)  # parallelepiped
            u = np.linalg.solve(T, x - q[0])
            b = np.concatenate([u, 1 - u])
        else:
            b = bary(q, x)
        if np.abs(b).min() < 1e-6 and min(b) > -1e-6:
            return None
        if min(b) > 0:
            r.append(j)
    return r


def t_locate(rng, mon, m):
    """Values of a linear field at the points of the target."""
    d = rng.choice([1, 2, 2, 3, 3])
    meth = rng.choice(["P0P1", "P1P0", "P1P1", "P1P1"])
    typ, same = "PointLocator", False
    if meth == "P1P1" and d > 1:
        typ = rng.choice(["PointLocator", "MappedBarycentric", "MappedBarycentric"] + ["Barycentric"] * (d == 3))
    if d == 1:
        meth = "P1P1"
    if typ == "MappedBarycentric":
        if d == 2:
            sp = to_box(M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "q", 0.2))
        else:
            sp = to_box(M.extrude(rng, M.grid2(rng, rng.randint(1, 2), 1, "q", 0.), rng.randint(1, 2)))
        if d == 3 or rng.random() < 0.3:
            B = np.eye(d) + np.array([[rng.uniform(-0.3, 0.3) for _ in range(d)] for _ in range(d)])
            sp.coords = sp.coords @ B.T
        tp = tri_mesh(rng) if d == 2 else tet_mesh(rng)
        tp.coords = tp.coords * rng.uniform(0.4, 1.3) + np.array([rng.uniform(-0.2, 0.3) for _ in range(d)])
        if same := rng.random() < 0.2:
            tp = sp.copy()  # each node is on the border of several cells
    else:
        sp, tp, _ = pair(rng, d)
        if rng.random() < 0.5:
            tp.coords = tp.coords + np.ptp(sp.coords) * np.array([rng.uniform(-0.1, 0.1) for _ in range(d)])
    sp, tp = mixup(rng, sp), mixup(rng, tp)
    s, t = sp.um(m), tp.um(m)
    key = "locate:%d:%s:%s" % (d, meth, typ)
    r = prep(rng, mon, m, key, s, t, meth, {"type": getattr(m, typ)})
    if meth[2:] == "P1":
        used = {n for _, c in tp.cells for n in c}
        pts = tp.coords
    else:
        used = set(range(len(tp.cells)))
        pts = np.array([tp.coords[c].mean(0) for c in simplices(tp)])
    where = [locate(sp, x) if i in used else [] for i, x in enumerate(pts)]
    k, g = rng.uniform(-3, 3), np.array([rng.uniform(-3, 3) for _ in range(d)])
    lin = lambda x: k + np.asarray(x) @ g
    cols = len(sp.coords) if meth[:2] == "P1" else len(sp.cells)
    f = m.MEDCouplingFieldDouble(getattr(m, TYP[meth[:2]]), m.ONE_TIME)
    f.setMesh(s)
    v = lin(sp.coords) if meth[:2] == "P1" else np.array([rng.uniform(-5, 5) for _ in sp.cells])
    w = np.array([rng.uniform(-5, 5)] * cols)
    f.setArray(G.npd(m, np.stack([v, w], 1)))
    f.setNature(m.IntensiveMaximum)
    with G.Pure(mon, key + ":transfer", f):
        o = G.np2(r.transferField(f, -1e30).getArray())
    mon.eq(len(o), len(pts), key + ":rows")
    sc = np.abs(v).max() + 10
    for i, l in enumerate(where):
        if l is None:
            if same and i in used:  # the field is continuous
                mon.close(o[i, 0], lin(pts[i]), key + ":value", tol=1e-8, scale=sc, i=i)
            continue
        if not l:
            mon.eq(o[i].tolist(), [-1e30, -1e30], key + ":outside", i=i, x=pts[i])
            continue
        if len(l) > 1:
            continue
        mon.nontrivial = True
        mon.close(o[i, 0], lin(pts[i]) if meth[:2] == "P1" else v[l[0]], key + ":value", tol=1e-8, scale=sc, i=i)
        mon.close(o[i, 1], w[0], key + ":constant", tol=1e-8, scale=10, i=i)
    mon.mark(key, sum(l is None for l in where) > 0, sum(l == [] for l in where) > 0)


# ------------------------------------------------------------------------------------------------- Gauss points
def t_gauss(rng, mon, m):
    d = rng.choice([2, 2, 3])
    mk = (lambda: to_box(M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "tTq", 0.2))) if d == 2 else \
        (lambda: tet_mesh(rng))
    sp, tp = mixup(rng, mk()), mixup(rng, mk())
    tp.coords = tp.coords * rng.uniform(0.5, 1.2) + np.array([rng.uniform(-0.1, 0.3) for _ in range(d)])
    sp, tp = M.sort_by_type(sp), M.sort_by_type(tp)
    s, t = sp.um(m), tp.um(m)
    REF = {M.TRI3: [0., 0., 1., 0., 0., 1.], M.QUAD4: [-1., -1., 1., -1., 1., 1., -1., 1.],
           M.TETRA4: [0., 1., 0., 0., 0., 1., 0., 0., 0., 1., 0., 0.]}

    def fld(pm, u, kind):
        f = m.MEDCouplingFieldDouble(getattr(m, kind), m.ONE_TIME)
        f.setMesh(u)
        if kind == "ON_GAUSS_PT":
            for ty in dict.fromkeys(c[0] for c in pm.cells):
                n = rng.randint(1, 4)
                gs = []
                for _ in range(n):
                    if ty == M.QUAD4:
                        gs += [rng.uniform(-0.9, 0.9), rng.uniform(-0.9, 0.9)]
                    else:
                        x = [rng.uniform(0.05, 1) for _ in range(d + 1)]
                        gs += [y / sum(x) for y in x[:d]]
                w = [rng.uniform(0.1, 1) for _ in range(n)]
                f.setGaussLocalizationOnType(ty, REF[ty], gs, w)
        n = f.getNumberOfTuplesExpected()
        f.setArray(G.npd(m, np.array([[rng.uniform(-5, 5)] for _ in range(n)])))
        f.setNature(m.IntensiveMaximum)
        return f
    f = fld(sp, s, rng.choice(["ON_GAUSS_PT", "ON_GAUSS_PT", "ON_CELLS"]))
    g = fld(tp, t, "ON_GAUSS_PT")
    r = m.MEDCouplingRemapper()
    r.setIntersectionType(m.PointLocator)
    sl, tl = G.np2(f.getLocalizationOfDiscr()), G.np2(g.getLocalizationOfDiscr())
    try:
        mon.eq(r.prepareEx(m.MEDCouplingFieldTemplate(f), m.MEDCouplingFieldTemplate(g)), 1, "gauss:prepare")
    except m.InterpKernelException as e:
        if f.getTypeOfField() == m.ON_CELLS:
            raise Skip("cells to gauss not supported")
        raise
    off = G.L(f.getDiscretization().getOffsetArr(s))
    A = matrix(r, len(tl), len(sl))
    # position of the gauss points: the shape functions are linear (bilinear)
    got = r.transferField(f, -1e30)
    o, v = G.np2(got.getArray()).ravel(), G.np2(f.getArray()).ravel()
    D = ((tl[:, None, :] - sl[None, :, :]) ** 2).sum(2)
    for i, x in enumerate(tl):
        l = locate(sp, x)
        if l is None or len(l) > 1:
            continue
        if l:
            ids = np.arange(off[l[0]], off[l[0] + 1])
            want = 1.
            mon.nontrivial = True
        else:
            ids, want = np.arange(len(sl)), 2.
        q = np.sort(D[i, ids])
        if len(q) > 1 and q[1] - q[0] < 1e-9:
            continue
        j = int(ids[D[i, ids].argmin()])
        e = np.zeros(len(sl))
        e[j] = want
        mon.eq(A[i].tolist(), e.tolist(), "gauss:row", i=i, inside=bool(l))
        mon.close(o[i], v[j], "gauss:value", tol=1e-12, scale=10, i=i)
    mon.mark("gauss", d, f.getTypeOfField())


# ------------------------------------------------------------------------------------------------- shape functions
CD = {"SEG": 1, "TRI": 2, "QUA": 2}


def t_shape(rng, mon, m):
    """Shape functions: 1 at their node and 0 at the others, sum 1, derivatives are those of the values."""
    tn, nm, k, ref = rng.choice(list(DEGS) if rng.random() < 0.1 else [(t, n, None, r) for t, n, r in REFS])
    ct = getattr(m, "NORM_" + tn)
    n = {"SEG2": 2, "SEG3": 3, "SEG4": 4}.get(tn) or int(re.sub(r"\D", "", tn))
    k = k or n  # number of nodes which count
    X = np.array(ref).reshape(n, -1)
    d = X.shape[1]
    w = np.array([[rng.random() ** 3 + 0.01 for _ in range(k)] for _ in range(4)])
    P = (w / w.sum(1)[:, None]) @ X[:k]  # inside
    key = "shape:" + nm

    def vals(p, f="getShapeFunctionValues"):
        g = m.MEDCouplingGaussLocalization(ct, ref, np.asarray(p).ravel().tolist(), [1.] * len(p))
        return G.np2(getattr(g, f)()).reshape(len(p), n, -1)
    mon.nontrivial = True
    mon.mark(nm)
    try:
        Q = X[:k] if "PYRA" not in tn else np.where(np.arange(n)[:, None] == 4, X - [[0, 0, 1e-9]], X)
        mon.close(vals(Q)[:, :, 0], np.eye(n)[:k], key + ":at-nodes", tol=1e-7, scale=1)
        V = vals(P)[:, :, 0]
        D = vals(P, "getDerivativeOfShapeFunctionValues")
        E = G.np2(m.MEDCouplingGaussLocalization.GetDefaultReferenceCoordinatesOf(ct))
    except m.InterpKernelException as e:
        mon.bad(key + ":refused", why=str(e))
        return
    mon.close(V.sum(1), np.ones(4), key + ":sum", tol=1e-10, scale=1)
    mon.close(V @ X, P, key + ":isoparametric", tol=1e-10, scale=1)
    mon.ok(E.shape == X.shape and any(np.abs(np.array(r).reshape(n, -1) - E).max() < 1e-12 for t, _, r in REFS if t == tn),
           "shape:default-reference:" + tn, got=E.tolist())
    mon.eq(D.shape, (4, n, d), key + ":derivative-shape")
    h = 1e-5
    for i in range(d):
        e = np.eye(d)[i] * h
        fd = (vals(P + e)[:, :, 0] - vals(P - e)[:, :, 0]) / (2 * h)
        mon.close(D[:, :, i], fd, key + ":derivative", tol=1e-5, scale=1 + np.abs(fd).max(), comp=i)
    g = m.MEDCouplingGaussLocalization(ct, ref, P.ravel().tolist(), [1.] * 4)
    Y = np.array([[rng.uniform(-3, 3) for _ in range(d)] for _ in range(n)])
    o = G.np2(g.localizePtsInRefCooForEachCell(G.npd(m, P), M.PM(Y, [(ct, list(range(n)))], CD.get(tn[:3], 3)).um(m)))
    mon.close(o, V @ Y, key + ":localize", tol=1e-9, scale=10)


# ------------------------------------------------------------------------------------------------- finite elements
def t_fe(rng, mon, m):
    """FEFE: polynomials of the space of the elements are reproduced at the nodes of the target."""
    k = rng.choice(["tri", "quad", "tet", "hexa", "tri6", "quad8", "quad9", "tet10", "mix2"])
    d = 3 if k in ("tet", "hexa", "tet10") else 2
    deg = 1
    if k in ("tri", "tri6"):
        sp = tri_mesh(rng)
    elif k in ("quad", "quad8", "quad9", "mix2"):
        sp = to_box(M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "q" if k != "mix2" else "qt", 0.2 if k in ("quad", "mix2") else 0.))
    elif k in ("tet", "tet10"):
        sp = tet_mesh(rng)
    else:
        sp = to_box(M.extrude(rng, M.grid2(rng, rng.randint(1, 2), 1, "q", 0.), rng.randint(1, 2)))
    sp = mixup(rng, sp)
    base = sp.copy()
    n = rng.randint(2, 15)
    lo, hi = sp.coords.min(0), sp.coords.max(0)
    pts = np.array([[rng.uniform(lo[i] - 0.05, hi[i] + 0.05) for i in range(d)] for _ in range(n)])
    where = [locate(base, x) for x in pts]
    keep = [i for i, l in enumerate(where) if l is not None]
    if not keep:
        raise Skip("no point")
    pts, where = pts[keep], [where[i] for i in keep]
    s = sp.um(m)
    if k in ("tri6", "quad8", "quad9", "tet10"):
        s.convertLinearCellsToQuadratic(1 if k == "quad9" else 0)
        deg = 2
    tu = m.MEDCouplingUMesh.Build0DMeshFromCoords(G.npd(m, pts))
    src = m.MEDCouplingFieldDouble(m.ON_NODES_FE, m.ONE_TIME)
    src.setMesh(s)
    xs = G.np2(s.getCoords())
    co = [rng.uniform(-2, 2) for _ in range(10)]

    def poly(x):
        v = co[0] + sum(co[1 + i] * x[:, i] for i in range(d))
        if deg == 2:
            v = v + co[4] * x[:, 0] * x[:, 1] + co[5] * x[:, 0] ** 2 + co[6] * x[:, 1] ** 2
            if d == 3:
                v = v + co[7] * x[:, 2] ** 2 + co[8] * x[:, 0] * x[:, 2]
        return v
    src.setArray(G.npd(m, np.stack([poly(xs), np.ones(len(xs))], 1)))
    src.setNature(m.IntensiveMaximum)
    trg = m.MEDCouplingFieldTemplate(m.ON_NODES_FE)
    trg.setMesh(tu)
    r = m.MEDCouplingRemapper()
    r.setIntersectionType(m.PointLocator)
    with G.Pure(mon, "fe:prepare", s, tu):
        r.prepareEx(m.MEDCouplingFieldTemplate(src), trg)
    A = matrix(r, len(pts), len(xs))
    o = G.np2(r.transferField(src, -1e30).getArray())
    want = poly(pts)
    sc = np.abs(src.getArray().toNumPyArray()).max() + 10
    for i, l in enumerate(where):
        if len(l) > 1:
            continue
        if not l:
            mon.eq(o[i].tolist(), [-1e30, -1e30], "fe:%s:outside" % k, i=i)
            mon.ok(not A[i].any(), "fe:%s:outside-row" % k)
            continue
        mon.nontrivial = True
        mon.close(o[i, 0], want[i], "fe:%s:value" % k, tol=1e-7, scale=sc, i=i)
        mon.close(o[i, 1], 1., "fe:%s:constant" % k, tol=1e-9, scale=1, i=i)
        mon.close(A[i].sum(), 1., "fe:%s:partition-of-unity" % k, tol=1e-9, scale=1, i=i)
    # the field itself
    ins = [i for i, l in enumerate(where) if l]
    if ins:
        vals = G.np2(src.getValueOnMulti(G.npd(m, pts[ins])))
        mon.close(vals[:, 0], want[ins], "fe:%s:getValueOnMulti" % k, tol=1e-7, scale=sc)
    mon.mark("fe", k)


OPS = [("dual", t_dual), ("dual", t_dual), ("bary", t_bary), ("hexa", t_hexa), ("locate", t_locate), ("locate", t_locate),
       ("gauss", t_gauss), ("shape", t_shape), ("fe", t_fe)]
FAMILIES = [G.table("remap", OPS, 300), G.table("pair", [("bary-pair", t_bary_pair)], 1)]
