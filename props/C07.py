"""Conservative cell to cell remapping: the matrix holds the measures of the intersections, and transfers follow it."""
import math

import numpy as np

from props import clip as C
from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("Each case builds a source and a target mesh in Python over the same box, shifted, nested or disjoint (1-D, 2-D "
        "convex and non-convex polygons and arcs, 3-D with planar faces, curves, surfaces of space in one plane, mixed "
        "dimensions, Cartesian, extruded), prepares the remapper with every intersection type and splitting policy that "
        "accepts them, and compares the crude matrix with intersection measures computed in Python, then the transfers "
        "of random fields in the four natures with the products written from the definition. Non-trivial: at least one "
        "pair of cells intersects.")
ASSUMPTIONS = ["clipping reference in props/clip.py (checked against cell volumes)", "planar faces in 3-D"]


# ------------------------------------------------------------------------------------------------- helpers
def matrix(rem, nt, ns):
    a = np.zeros((nt, ns))
    for i, row in enumerate(rem.getCrudeMatrix()):
        for j, v in row.items():
            a[i, j] = v
    return a


def pieces2(pm):
    return [C.parts2(pm.coords[list(pm.linear(i)[1])][:, :2]) for i in range(len(pm.cells))]


def pieces3(pm, eps):
    return [C.parts3([pm.coords[list(f)].tolist() for f in pm.sub(i)], eps) for i in range(len(pm.cells))]


def to_box(pm):
    """Scales the mesh to the unit box."""
    lo, hi = pm.coords.min(0), pm.coords.max(0)
    pm.coords = (pm.coords - lo) / (hi - lo)
    return pm


def placed(rng, a, b):
    """Two meshes of the unit box brought into a relation, then to a common frame."""
    d = a.sdim
    k = rng.choice(["same", "same", "shift", "inside", "turn", "apart", "tiny"])
    if k == "shift":
        b.coords = b.coords + np.array([rng.uniform(-0.7, 0.7) for _ in range(d)])
    elif k == "inside":
        b.coords = b.coords * rng.uniform(0.2, 0.8) + np.array([rng.uniform(0, 0.2) for _ in range(d)])
    elif k == "turn":
        R = G.rotation(rng, d)
        if np.linalg.det(R) < 0:
            R[:, 0] *= -1
        b.coords = (b.coords - 0.5) @ R.T + 0.5
    elif k == "apart":
        b.coords = b.coords + np.array([rng.choice([1.5, 2.5])] + [0.] * (d - 1))
    elif k == "tiny":
        b.coords = b.coords * 1e-3 + np.array([rng.uniform(0.1, 0.9) for _ in range(d)])
    s = rng.choice([1., 1., 1., 100., 0.01])
    R = np.eye(d) if rng.random() < 0.4 else G.rotation(rng, d)
    if np.linalg.det(R) < 0:
        R = R.copy()
        R[:, 0] *= -1
    t = np.array([rng.uniform(-2, 2) for _ in range(d)]) if rng.random() < 0.6 else np.zeros(d)
    for x in (a, b):
        x.coords = s * (x.coords @ R.T + t)
    x, y = a.coords / s, b.coords / s
    near = np.abs(x[:, None, :] - y[None, :, :]).max(2)
    if ((near > 1e-9) & (near < 1e-3 * (1e-3 if k == "tiny" else 1))).any():
        raise Skip("nodes nearly but not quite the same")
    if rng.random() < 0.5:
        a, b = b, a
    return a, b, k


def mixup(rng, pm):
    return M.shuffle(rng, pm, orphans=rng.choice([0, 0, 2]))


def sweep_ok(P, Q):
    """The pairs for which the sweep of intersectConvexPolygons is checked (elsewhere see known finding
    KF-convex-sweep): disjoint boxes, one cell strictly inside the other, the same cell."""
    P, Q = P[:, :2], Q[:, :2]
    if (P.max(0) < Q.min(0)).any() or (Q.max(0) < P.min(0)).any():
        return True
    if len(P) == len(Q) and np.abs(P[np.lexsort(P.T)] - Q[np.lexsort(Q.T)]).max() < 1e-12:
        return True

    def inside(A, B):
        d = np.roll(B, -1, 0) - B
        c = d[None, :, 0] * (A[:, None, 1] - B[None, :, 1]) - d[None, :, 1] * (A[:, None, 0] - B[None, :, 0])
        e = 1e-6 * np.ptp(B, axis=0).max() ** 2
        return bool((c > e).all() or (c < -e).all())
    return inside(P, Q) or inside(Q, P)


def compare(mon, key, got, ref, scale, tol=1e-9, mask=None, **kw):
    """Coefficients within tol of the measure scale; and the sums of rows and columns."""
    if mask is not None and not mask.all():
        mon.close(got[mask], ref[mask], key + ":crude", tol=tol, scale=scale, **kw)
        return
    mon.close(got, ref, key + ":crude", tol=tol, scale=scale, **kw)
    mon.close(got.sum(0), ref.sum(0), key + ":column-sums", tol=2 * tol, scale=scale)
    mon.close(got.sum(1), ref.sum(1), key + ":row-sums", tol=2 * tol, scale=scale)


NATURES = ["IntensiveMaximum", "IntensiveConservation", "ExtensiveMaximum", "ExtensiveConservation"]


def weights(A, nat, volT, volS):
    """The interpolation matrix and the reverse one, as documented for the natures."""
    with np.errstate(all="ignore"):
        if nat == "IntensiveMaximum":
            W, R = A / A.sum(1)[:, None], A.T / A.sum(0)[:, None]
        elif nat == "IntensiveConservation":
            W, R = A / volT[:, None], A.T / volS[:, None]
        elif nat == "ExtensiveMaximum":
            W, R = A / volS[None, :], A.T / volT[None, :]
        else:
            W, R = A / A.sum(0)[None, :], A.T / A.sum(1)[None, :]
    W[A == 0] = 0
    R[A.T == 0] = 0
    return W, R


def transfers(rng, mon, m, rem, src, trg, A, volT, volS, key, typ=None, natures=NATURES, stored=None):
    """A: dense crude matrix as the library gave it; stored: the entries present in it."""
    typ = (m.ON_CELLS, m.ON_CELLS) if typ is None else typ
    nt, ns = A.shape
    nz = (A != 0) if stored is None else stored
    for nat in rng.sample(natures, rng.randint(1, len(natures))):
        W, R = weights(A, nat, volT, volS)
        W[~nz] = 0
        R[~nz.T] = 0
        nc = rng.choice([1, 1, 2, 3])
        dft = rng.choice([0., -7.5, 1e30])
        f = m.MEDCouplingFieldDouble(typ[0], rng.choice([m.ONE_TIME, m.NO_TIME, m.CONST_ON_TIME_INTERVAL]))
        f.setMesh(src)
        f.setName("src")
        a = np.array([rng.uniform(-5, 5) for _ in range(ns * nc)]).reshape(ns, nc)
        arr = G.npd(m, a)
        arr.setInfoOnComponents(["c%d [u]" % i for i in range(nc)])
        f.setArray(arr)
        f.setNature(getattr(m, nat))
        hit, rhit = nz.any(1), nz.any(0)
        with G.Pure(mon, key + ":transferField", f):
            g = rem.transferField(f, dft)
        want = W @ a
        want[~hit] = dft
        sc = 5. * max(1., np.abs(W).sum(1).max())
        got = G.np2(g.getArray())
        mon.close(got[hit], want[hit], key + ":transferField:" + nat, tol=1e-8, scale=sc)
        mon.ok(bool((got[~hit] == dft).all()), key + ":transferField:default", got=got[~hit], dft=dft)
        mon.eq(str(g.getNature()), str(getattr(m, nat)), key + ":transferField:nature")
        mon.eq(g.getArray().getInfoOnComponents(), arr.getInfoOnComponents(), key + ":transferField:components")
        mon.ok(g.getMesh().getHiddenCppPointer() == trg.getHiddenCppPointer(), key + ":transferField:mesh")
        g.checkConsistencyLight()
        # into an existing field
        h = m.MEDCouplingFieldDouble(typ[1], m.ONE_TIME)
        h.setMesh(trg)
        old = np.array([rng.uniform(50, 60) for _ in range(nt * nc)]).reshape(nt, nc)
        h.setArray(G.npd(m, old))
        h.setNature(getattr(m, nat))
        rem.partialTransfer(f, h)
        part = want.copy()
        part[~hit] = old[~hit]
        mon.close(G.np2(h.getArray()), part, key + ":partialTransfer", tol=1e-8, scale=max(sc, 60.))
        rem.transfer(f, h, dft)
        mon.close(G.np2(h.getArray())[hit], want[hit], key + ":transfer", tol=1e-8, scale=sc)
        # reverse
        b = np.array([rng.uniform(-5, 5) for _ in range(nt * nc)]).reshape(nt, nc)
        h.setArray(G.npd(m, b))
        with G.Pure(mon, key + ":reverseTransferField", h):
            r = rem.reverseTransferField(h, dft)
        want = R @ b
        want[~rhit] = dft
        sc = 5. * max(1., np.abs(R).sum(1).max())
        got = G.np2(r.getArray())
        mon.close(got[rhit], want[rhit], key + ":reverseTransferField:" + nat, tol=1e-8, scale=sc)
        mon.ok(bool((got[~rhit] == dft).all()), key + ":reverseTransferField:default")
        rem.reverseTransfer(f, h, dft)
        mon.close(G.np2(f.getArray())[rhit], want[rhit], key + ":reverseTransfer", tol=1e-8, scale=sc)
        # what the natures promise on the whole
        if nat.startswith("Ext") and nz.any():
            e = rem.transferField(g if False else f, 0.)
            if nat == "ExtensiveConservation":
                mon.close(G.np2(e.getArray()).sum(0), G.np2(f.getArray())[rhit].sum(0), key + ":sum-preserved", tol=1e-9,
                          scale=np.abs(G.np2(f.getArray())).sum() + 1)
        if nat == "IntensiveMaximum" and hit.any() and (A >= 0).all():
            e = G.np2(rem.transferField(f, 0.).getArray())[hit]
            v = G.np2(f.getArray())[rhit]
            mon.ok(bool((e.max(0) <= v.max(0) + 1e-9 * (1 + np.abs(v).max())).all() and
                        (e.min(0) >= v.min(0) - 1e-9 * (1 + np.abs(v).max())).all()), key + ":maximum-principle")


def measures(pm):
    return np.array([abs(pm.measure_centre(i)[0]) for i in range(len(pm.cells))])


def run(rng, mon, m, key, sp, tp, ref, opts, tol=1e-9, natures=True, mask=None):
    s, t = sp.um(m), tp.um(m)
    return run_u(rng, mon, m, key, s, t, measures(sp), measures(tp), ref, opts, tol, natures, mask)


def run_u(rng, mon, m, key, s, t, vs, vt, ref, opts, tol=1e-9, natures=True, mask=None):
    r = m.MEDCouplingRemapper()
    for k, v in opts.items():
        if k == "type":
            r.setIntersectionType(v)
        elif k == "split":
            r.setSplittingPolicy(v)
        elif isinstance(v, float):
            r.setOptionDouble(k, v)
        elif isinstance(v, int):
            r.setOptionInt(k, v)
        else:
            r.setOptionString(k, v)
    with G.Pure(mon, key + ":prepare", s, t):
        mon.eq(r.prepare(s, t, "P0P0"), 1, key + ":prepare-returns")
    A = matrix(r, len(vt), len(vs))
    mon.eq(r.getNumberOfColsOfMatrix(), len(vs), key + ":columns")
    mon.nontrivial = mon.nontrivial or bool(ref.any())
    mon.mark(key, "pairs", min(5, int((ref > 0).sum()).bit_length()))
    compare(mon, key, A, ref, max(vs.max(), vt.max()), tol, mask, opts=opts)
    if natures:
        stored = np.zeros(A.shape, bool)
        for i, row in enumerate(r.getCrudeMatrix()):
            for j in row:
                stored[i, j] = True
        if not (stored & (np.abs(A) < 1e-12 * np.abs(A).max())).any():
            transfers(rng, mon, m, r, s, t, A, vt, vs, key, stored=stored)
    return r, A


# ------------------------------------------------------------------------------------------------- 2-D
def pair2(rng, kinds="qtT", jitter=0.25, generic=False):
    a = to_box(M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), kinds, jitter))
    r = rng.random()
    if generic:  # no superposed edges unless all of them are
        while True:
            sp, tp, k = placed(rng, a.copy(), a.copy() if r < 0.15 else to_box(
                M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), kinds, jitter)))
            if k not in ("same", "tiny") or r < 0.15 and k == "same":
                return sp, tp, k
    if r < 0.15:
        b = a.copy()
    elif r < 0.3:  # a refinement of the same lines
        b = to_box(M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), kinds, 0.))
        a = to_box(M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), kinds, 0.))
    else:
        b = to_box(M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), kinds, jitter))
    return placed(rng, a, b)


def ref2(sp, tp, fn=None):
    S, T = pieces2(sp), pieces2(tp)
    return np.array([[C.inter2(t, s, fn) for s in S] for t in T]).reshape(len(T), len(S))


def t_2d(rng, mon, m):
    typ = rng.choice(["Triangulation", "Convex", "Geometric2D", "Geometric2D"])
    kinds = "qtTp" if typ == "Geometric2D" or rng.random() < 0.3 else "qtT"
    sp, tp, k = pair2(rng, kinds, 0.25 if kinds == "qtT" or typ == "Geometric2D" else 0., typ == "Convex")
    sp, tp = mixup(rng, sp), mixup(rng, tp)
    for x in (sp, tp):
        if rng.random() < 0.3:  # clockwise cells, as the library prefers
            x.cells = [(t, c[::-1]) for t, c in x.cells]
    mon.mark("2d", typ, k)
    opts = {"type": getattr(m, typ)} if rng.random() < 0.5 else {"IntersectionType": {
        "Triangulation": "Triangulation", "Convex": "Convex", "Geometric2D": "Geometric2D"}[typ]}
    mask = None
    if typ == "Convex":
        mask = np.array([[sweep_ok(sp.coords[list(sp.linear(j)[1])], tp.coords[list(tp.linear(i)[1])])
                          for j in range(len(sp.cells))] for i in range(len(tp.cells))])
    run(rng, mon, m, "2d:" + typ, sp, tp, ref2(sp, tp), opts, tol=1e-8, mask=mask)


def t_2dc(rng, mon, m):
    """The smallest pair of triangles on which the Convex intersector is known to be wrong."""
    def one(P):
        u = m.MEDCouplingUMesh("a", 2)
        u.setCoords(G.npd(m, P))
        u.allocateCells(1)
        u.insertNextCell(m.NORM_TRI3, [0, 1, 2])
        return u
    P, Q, want = [([[0., 0.], [0., 1.], [1., 1.]], [[0., 0.], [0., 1.], [2., 0.]], 1 / 3.),
                  ([[-0.4427, 1.1007], [0.0457, 0.9002], [-0.3991, 0.8522]],
                   [[-0.4596, 0.4633], [-0.162, 1.0737], [-0.3958, 1.0737]], None)][mon.index % 2]
    P, Q = np.array(P), np.array(Q)
    if want is None:
        want = C.inter2(C.parts2(P), C.parts2(Q))
    r = m.MEDCouplingRemapper()
    r.setIntersectionType(m.Convex)
    r.prepare(one(P), one(Q), "P0P0")
    mon.close(r.getCrudeMatrix()[0].get(0, 0.), want, "2d:Convex-known:%d" % (mon.index % 2), tol=1e-9, scale=1.)



# ------------------------------------------------------------------------------------------------- arcs
def t_arc(rng, mon, m):
    """Disks, rings and quadratic cells: closed forms."""
    k = rng.choice(["disks", "sectors", "straight"])
    s = rng.choice([1., 10., 0.1])
    c = np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]) * s
    th = rng.uniform(0, 2 * math.pi)

    def disk(c, r, n):
        """A disk as one quadratic polygon of n arcs, anticlockwise."""
        t0 = rng.uniform(0, 7)
        p = [c + r * np.array([math.cos(t0 + 2 * math.pi * i / n), math.sin(t0 + 2 * math.pi * i / n)]) for i in range(n)]
        q = [c + r * np.array([math.cos(t0 + 2 * math.pi * (i + .5) / n), math.sin(t0 + 2 * math.pi * (i + .5) / n)])
             for i in range(n)]
        return np.array(p + q)

    def um(P, typ):
        u = m.MEDCouplingUMesh("q", 2)
        u.setCoords(G.npd(m, P))
        u.allocateCells(1)
        u.insertNextCell(typ, list(range(len(P))))
        u.orientCorrectly2DCells([0., 0., 1.], False) if False else None
        return u
    if k == "disks":
        r1, r2 = s * rng.uniform(0.5, 2), s * rng.uniform(0.5, 2)
        d = rng.choice([rng.uniform(abs(r1 - r2) * 1.05, 0.95 * (r1 + r2)), rng.uniform(0, 0.9) * abs(r1 - r2),
                        1.1 * (r1 + r2)])
        n1, n2 = rng.randint(2, 5), rng.randint(2, 5)
        u1 = um(disk(c, r1, n1), m.NORM_QPOLYG)
        u2 = um(disk(c + d * np.array([math.cos(th), math.sin(th)]), r2, n2), m.NORM_QPOLYG)
        if d >= r1 + r2:
            want = 0.
        elif d <= abs(r1 - r2):
            want = math.pi * min(r1, r2) ** 2
        else:
            a1 = math.acos((d * d + r1 * r1 - r2 * r2) / (2 * d * r1))
            a2 = math.acos((d * d + r2 * r2 - r1 * r1) / (2 * d * r2))
            want = r1 * r1 * (a1 - math.sin(2 * a1) / 2) + r2 * r2 * (a2 - math.sin(2 * a2) / 2)
        vs, vt = [math.pi * r1 * r1], [math.pi * r2 * r2]
        ref = np.array([[want]])
    elif k == "sectors":
        # rings cut in sectors of the same centre: radii and angles intersect independently
        def ring(rs, ts):
            co, cells = [], []
            for i in range(len(rs) - 1):
                for j in range(len(ts) - 1):
                    r0, r1, t0, t1 = rs[i], rs[i + 1], ts[j], ts[j + 1]
                    e = [(r0, t0), (r1, t0), (r1, t1), (r0, t1), ((r0 + r1) / 2, t0), (r1, (t0 + t1) / 2),
                         ((r0 + r1) / 2, t1), (r0, (t0 + t1) / 2)]
                    b = len(co)
                    co += [c + r * np.array([math.cos(t + th), math.sin(t + th)]) for r, t in e]
                    cells.append(list(range(b, b + 8)))
            u = m.MEDCouplingUMesh("r", 2)
            u.setCoords(G.npd(m, np.array(co)))
            u.allocateCells(len(cells))
            for x in cells:
                u.insertNextCell(m.NORM_QUAD8, x)
            return u

        def cuts(lo, hi, n):
            return np.cumsum([lo] + [(hi - lo) / n * rng.uniform(0.6, 1.4) for _ in range(n)])
        r1, r2 = cuts(s * 1., s * 3., rng.randint(1, 3)), cuts(s * rng.uniform(0.8, 2), s * 3.3, rng.randint(1, 3))
        a1, a2 = cuts(0., 3., rng.randint(1, 4)), cuts(rng.uniform(-0.5, 1.), 3.2, rng.randint(1, 4))
        for x in r1:
            if np.abs(r2 - x).min() < 1e-3 * s:
                raise Skip("radii too close")
        for x in a1:
            if np.abs(a2 - x).min() < 1e-3:
                raise Skip("angles too close")
        u1, u2 = ring(r1, a1), ring(r2, a2)

        def area(x, y, i, j):
            return (y[j + 1] - y[j]) * (x[i + 1] ** 2 - x[i] ** 2) / 2
        S = [(i, j) for i in range(len(r1) - 1) for j in range(len(a1) - 1)]
        T = [(i, j) for i in range(len(r2) - 1) for j in range(len(a2) - 1)]
        ref = np.zeros((len(T), len(S)))
        for y, (k2, l2) in enumerate(T):
            for x, (k1, l1) in enumerate(S):
                lo, hi = max(r1[k1], r2[k2]), min(r1[k1 + 1], r2[k2 + 1])
                t = min(a1[l1 + 1], a2[l2 + 1]) - max(a1[l1], a2[l2])
                if hi > lo and t > 0:
                    ref[y, x] = t * (hi ** 2 - lo ** 2) / 2
        vs, vt = [area(r1, a1, *e) for e in S], [area(r2, a2, *e) for e in T]
    else:
        sp, tp, k2 = pair2(rng, "qtT", 0.25, True)  # middle nodes rounded off the edge make superposed ones fragile
        if k2 == "same":
            raise Skip("superposed edges")
        ref = ref2(sp, tp)
        sp, tp = M.quadratic(rng, sp), M.quadratic(rng, tp) if rng.random() < 0.6 else tp
        u1, u2, vs, vt = sp.um(m), tp.um(m), measures(sp), measures(tp)
    if rng.random() < 0.3:
        u1, u2, vs, vt, ref = u2, u1, vt, vs, ref.T
    run_u(rng, mon, m, "arc:" + k, u1, u2, np.array(vs), np.array(vt), ref,
          {"type": m.Geometric2D}, tol=1e-6 if k == "straight" else 1e-7, natures=rng.random() < 0.4)


# ------------------------------------------------------------------------------------------------- lines
def segs(rng, a, b):
    """Intervals cutting [a,b], possibly with a hole."""
    n = rng.randint(1, 8)
    x = sorted(rng.uniform(a, b) for _ in range(n + 1))
    x[0], x[-1] = (a, b) if rng.random() < 0.7 else (x[0], x[-1])
    l = [(x[i], x[i + 1]) for i in range(n) if x[i + 1] - x[i] > 1e-6]
    return [e for e in l if rng.random() < 0.9] or [(a, b)]


def t_line(rng, mon, m):
    """1-D, and collinear segments of the plane and of space."""
    d = rng.choice([1, 1, 2, 3])
    a = segs(rng, 0., 1.)
    b = a if rng.random() < 0.15 else segs(rng, rng.choice([0., 0., 0.3, 1.2]), rng.choice([1.7, 2.5, 1.3]))
    L = rng.choice([1., 1., 50., 0.02])
    org = np.array([rng.uniform(-3, 3) for _ in range(d)]) * L
    u = np.array([rng.uniform(-1, 1) for _ in range(d)])
    if d > 1 and rng.random() < 0.3:
        u = np.eye(d)[rng.randrange(d)] * rng.choice([-1, 1])
    u = L * u / np.linalg.norm(u)

    def mesh(l):
        co, ids, cells = [], {}, []
        for x in l:
            c = []
            for v in x:
                if v not in ids:
                    ids[v] = len(co)
                    co.append(org + v * u)
                c.append(ids[v])
            cells.append((M.SEG2, c if rng.random() < 0.7 else c[::-1]))
        return M.PM(co, cells, 1)
    sp, tp = mesh(a), mesh(b)
    ok = lambda l: L >= 1 and min(y - x for x, y in l) > 0.02  # middle nodes seen as collinear
    if rng.random() < 0.4 and ok(a):
        sp = M.quadratic(rng, sp)
    if rng.random() < 0.3 and ok(b):
        tp = M.quadratic(rng, tp)
    ref = np.array([[max(0., min(x[1], y[1]) - max(x[0], y[0])) * L for x in a] for y in b])
    mon.mark("line", d, sp.cells[0][0], tp.cells[0][0])
    run(rng, mon, m, "line:%d" % d, sp, tp, ref, {}, tol=1e-9, natures=not ((ref > 0) & (ref < 1e-6 * L)).any() and (d != 2 or len(sp.cells[0][1]) + len(tp.cells[0][1]) < 5))


# ------------------------------------------------------------------------------------------------- 3-D
def mesh3(rng, small=False):
    n = 2 if small else 3
    k = rng.choice(["tet", "ext", "ext", "ext", "pyr", "poly"])
    if k == "tet":
        p = M.tetras(rng, 1, 1, rng.randint(1, 2))
    elif k == "pyr":
        p = M.pyramids(rng)
    else:
        p = M.extrude(rng, M.grid2(rng, rng.randint(1, n), rng.randint(1, 2), "qtT" if k == "ext" else "qtp",
                                   0.2 if k == "ext" else 0.), rng.randint(1, 2))
        if k == "poly":
            p = M.to_polyhedra(rng, p)
    if k != "pyr" and rng.random() < 0.3:
        p.coords = p.coords @ np.array([[1, 0.2, 0.1], [0, 1, -0.3], [0, 0, 1]])
    if len(p.cells) > 12:
        p = M.PM(p.coords, p.cells[:12], 3)
    return to_box(p)


def ref3(sp, tp):
    sc = max(np.ptp(sp.coords, axis=0).max(), np.ptp(tp.coords, axis=0).max())
    lo = sp.coords.min(0)
    f = lambda pm: M.PM((pm.coords - lo) / sc, pm.cells, 3)
    S, T = pieces3(f(sp), 1e-11), pieces3(f(tp), 1e-11)
    return np.array([[C.inter3(t, s, 1e-11) for s in S] for t in T]).reshape(len(T), len(S)) * sc ** 3


def t_3d(rng, mon, m):
    a = mesh3(rng)
    b = a.copy() if rng.random() < 0.1 else mesh3(rng, True)
    sp, tp, k = placed(rng, a, b)
    if len(sp.cells) * len(tp.cells) > 100:
        sp = M.PM(sp.coords, sp.cells[:6], 3)
    sp, tp = mixup(rng, sp), mixup(rng, tp)
    pol = rng.choice(["PLANAR_FACE_5", "PLANAR_FACE_6", "GENERAL_24", "GENERAL_48"])
    mon.mark("3d", pol, k)
    opts = {"split": getattr(m, pol)} if rng.random() < 0.5 else {"SplittingPolicy": pol}
    run(rng, mon, m, "3d:" + pol, sp, tp, ref3(sp, tp), opts, tol=1e-7, natures=rng.random() < 0.5)


# ------------------------------------------------------------------------------------------------- surfaces
def t_surf(rng, mon, m):
    """Surfaces of space lying in one plane; orientation option."""
    typ = rng.choice(["Triangulation", "Geometric2D"])
    sp, tp, k = pair2(rng, "qtT", 0.25, typ == "Geometric2D")
    if k == "tiny":
        raise Skip("far apart sizes")
    ref = ref2(sp, tp)
    R, t = G.rotation(rng, 3), np.array([rng.uniform(-2, 2) for _ in range(3)])
    if rng.random() < 0.3:
        R = np.eye(3)[G.perm(rng, 3)]
    for x in (sp, tp):
        x.coords = np.hstack([x.coords, np.zeros((len(x.coords), 1))]) @ R.T + t
        x.mdim = 2
    flip = [rng.random() < 0.3, rng.random() < 0.3]
    for x, f in zip((sp, tp), flip):
        if f:
            x.cells = [(c, n[::-1]) for c, n in x.cells]
    o = rng.choice([0, 0, 1, -1, 2])
    same = flip[0] == flip[1]
    if o in (1, -1) and (o == 1) != same:
        ref = np.zeros(ref.shape)
    elif o == 0 and not same:
        ref = -ref
    opts = {"type": getattr(m, typ), "Orientation": o}
    if rng.random() < 0.4:
        opts["MedianPlane"] = rng.choice([0., 0.3, 1.])
    if rng.random() < 0.3:
        opts["BoundingBoxAdjustmentAbs"] = rng.uniform(0, 0.5)
    if rng.random() < 0.3:
        opts["MaxDistance3DSurfIntersect"] = 1e-3
    if rng.random() < 0.3:
        opts["MinDotBetween3DSurfIntersect"] = 0.9
    if rng.random() < 0.15 and o in (0, 2):
        # the target moved away along the normal: nothing left within the maximal distance
        n = R[:, 2]
        tp.coords = tp.coords + 0.2 * n
        opts.update(MaxDistance3DSurfIntersect=0.01, BoundingBoxAdjustmentAbs=10.)
        ref = np.zeros(ref.shape)
    mon.mark("surf", typ, o, same)
    run(rng, mon, m, "surf:%s:%d" % (typ, o), sp, tp, ref, opts, tol=1e-7, natures=o == 2 and rng.random() < 0.6)


# ------------------------------------------------------------------------------------------------- mixed dimensions
def t_2d1d(rng, mon, m):
    """Lengths of segments inside plane cells (segments in general position)."""
    pm = to_box(M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), "qtT", 0.2))
    n = rng.randint(1, 6)
    pts = np.array([[rng.uniform(-0.3, 1.3), rng.uniform(-0.3, 1.3)] for _ in range(n + 1)])
    ln = M.PM(pts, [(M.SEG2, [i, i + 1]) for i in range(n)], 1)
    A = G.rotation(rng, 2) * rng.choice([1., 20.])
    for x in (pm, ln):
        x.coords = x.coords @ A.T + 1.
    pm = mixup(rng, pm)
    ref = np.array([[sum(s * C.seg_in_convex(ln.coords[c[0]], ln.coords[c[1]], p) for s, p in P) for P in pieces2(pm)]
                    for _, c in ln.cells])
    sp, tp = pm, ln
    if rng.random() < 0.5:
        sp, tp, ref = ln, pm, ref.T
    run(rng, mon, m, "2d1d", sp, tp, ref, {"type": m.Geometric2D} if rng.random() < 0.7 else {"IntersectionType": "Geometric2D"},
        tol=1e-8, natures=False)


def t_3d2d(rng, mon, m):
    """Areas of plane polygons inside 3-D cells (general position, or faces of the cells)."""
    v = to_box(mesh3(rng, True))
    f = to_box(M.grid2(rng, rng.randint(1, 2), rng.randint(1, 2), "qtT", 0.2))
    R = G.rotation(rng, 3)
    f = M.PM(np.hstack([f.coords - 0.5, np.zeros((len(f.coords), 1))]) @ R.T * rng.uniform(0.5, 2) +
             np.array([rng.uniform(0.2, 0.8) for _ in range(3)]), f.cells, 2)
    A = G.rotation(rng, 3) * rng.choice([1., 5.])
    for x in (v, f):
        x.coords = x.coords @ A.T + 1.
    if np.linalg.det(A) < 0:
        M.orient(v)
    S = pieces3(v, 1e-11)
    ref = np.zeros((len(f.cells), len(v.cells)))
    for i, (_, c) in enumerate(f.cells):
        q = [tuple(f.coords[k]) for k in c]
        for j, P in enumerate(S):
            for s, p in P:
                g = C.face_in(q, p, 1e-12)
                if len(g) > 2:
                    a = C.areavec(g)
                    ref[i, j] += s * math.sqrt(C.dot(a, a))
    pol = rng.choice(["PLANAR_FACE_5", "PLANAR_FACE_6", "GENERAL_24", "GENERAL_48"])
    sp, tp = v, f
    if rng.random() < 0.5:
        sp, tp, ref = f, v, ref.T
    run(rng, mon, m, "3d2d", sp, tp, ref, {"type": m.Triangulation, "split": getattr(m, pol)}, tol=1e-7, natures=False)


def t_locate(rng, mon, m):
    """Point locator: the centre of each target cell in the source cells."""
    d = rng.choice([2, 2, 3])
    if d == 2:
        src = to_box(M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), "qtT", 0.2))
        pc = pieces2(src)
    else:
        src = mesh3(rng)
    td = rng.choice([0, 1, d, d])
    if td == d:
        trg = to_box(M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "qtT", 0.2)) if d == 2 else mesh3(rng, True)
        trg.coords = trg.coords * rng.uniform(0.5, 1.3) + rng.uniform(-0.3, 0.3)
    else:
        n = rng.randint(1, 8)
        P = np.array([[rng.uniform(-0.2, 1.2) for _ in range(d)] for _ in range(n + td)])
        trg = M.PM(P, [(M.SEG2, [i, i + 1]) if td else (0, [i]) for i in range(n)], td)
    A = G.rotation(rng, d)
    if np.linalg.det(A) < 0:
        A[:, 0] *= -1
    for x in (src, trg):
        x.coords = x.coords @ A.T + 1.
    src = mixup(rng, src)
    cen = np.array([trg.coords[c[0]] if td == 0 else trg.coords[c].mean(0) if td == 1 else trg.measure_centre(i)[1]
                    for i, (_, c) in enumerate(trg.cells)])
    # the library takes the mean of the nodes: a cell whose centres do not lie in the same cell proves nothing
    means = [cen]
    if td == 3:
        means += [np.array([trg.coords[sorted({n for f in trg.sub(i) for n in f})].mean(0) for i in range(len(cen))]),
                  np.array([trg.coords[[n for f in trg.sub(i) for n in f]].mean(0) for i in range(len(cen))])]
    elif td == 2 and d == 2:
        means.append(np.array([trg.coords[list(trg.linear(i)[1])].mean(0) for i in range(len(cen))]))

    def margins(cen):
        margin = np.full((len(cen), len(src.cells)), -1.)  # > 0 inside
        for j in range(len(src.cells)):
            if d == 2:
                q = src.coords[list(src.linear(j)[1])]
                if C.area2([tuple(x) for x in q]) < 0:
                    q = q[::-1]
                e = np.roll(q, -1, 0) - q
                w = cen[:, None, :] - q[None, :, :]
                margin[:, j] = ((e[None, :, 0] * w[:, :, 1] - e[None, :, 1] * w[:, :, 0]) /
                                np.linalg.norm(e, axis=1)).min(1)
            else:
                P = C.parts3([src.coords[list(f)].tolist() for f in src.sub(j)], 1e-9)
                if len(P) != 1:
                    raise Skip("not convex")
                margin[:, j] = np.array([[h - C.dot(u, tuple(x)) for _, u, h in P[0][1].faces] for x in cen]).min(1)
        if (np.abs(margin) < 1e-6).any():
            raise Skip("centre on a border")
        return margin > 0
    inside = margins(means[0])
    sure = np.ones(len(cen), bool)
    for x in means[1:]:
        sure &= (margins(x) == inside).all(1)
    s, t = src.um(m), trg.um(m)
    r = m.MEDCouplingRemapper()
    r.setIntersectionType(m.PointLocator)
    mon.eq(r.prepare(s, t, "P0P0"), 1, "locate:prepare")
    A = matrix(r, len(cen), len(src.cells))
    mon.eq(A[sure].tolist(), inside[sure].astype(float).tolist(), "locate:%d-%d:matrix" % (d, td))
    mon.nontrivial = bool(inside.any())
    mon.mark("locate", d, td)
    # values are those of the cell met
    f = m.MEDCouplingFieldDouble(m.ON_CELLS, m.ONE_TIME)
    f.setMesh(s)
    v = np.array([rng.uniform(-5, 5) for _ in src.cells])
    f.setArray(G.npd(m, v))
    f.setNature(m.IntensiveMaximum)
    g = G.np2(r.transferField(f, -99.).getArray()).ravel()
    want = np.where(inside.any(1), inside.astype(float) @ v, -99.)
    mon.close(g[sure], want[sure], "locate:values", tol=1e-12, scale=100.)


# ------------------------------------------------------------------------------------------------- structured
def t_cart(rng, mon, m):
    """Cartesian meshes with each other and with unstructured ones."""
    d = rng.choice([1, 2, 2, 3])
    k = rng.choice(["UC", "CU", "CC", "CC"])

    def axes():
        o = []
        for _ in range(d):
            n = rng.randint(1, 3)
            x = np.cumsum([rng.uniform(-0.3, 0.4)] + [rng.uniform(0.2, 0.7) for _ in range(n)])
            o.append(x.tolist())
        return o

    def boxes(ax):
        n = [len(x) - 1 for x in ax]
        r = []
        for q in range(int(np.prod(n))):
            b = []
            for x, k in zip(ax, n):
                b.append((x[q % k], x[q % k + 1]))
                q //= k
            r.append(b)
        return r

    def cart(ax):
        c = m.MEDCouplingCMesh("c")
        c.setCoords(*[G.dbl(m, x) for x in ax])
        return c
    A, B = axes(), axes()
    bA, bB = boxes(A), boxes(B)
    if k == "CC":
        s, t = cart(A), cart(B)
        ref = np.array([[np.prod([max(0., min(p[1], q[1]) - max(p[0], q[0])) for p, q in zip(x, y)]) for x in bA]
                        for y in bB])
        vs = np.array([np.prod([q - p for p, q in x]) for x in bA])
        vt = np.array([np.prod([q - p for p, q in x]) for x in bB])
    else:
        if d == 1:
            u = M.line(rng, 1, rng.randint(1, 5))
            u.coords = u.coords / 4
            ref = np.array([[max(0., min(x[0][1], max(u.coords[c, 0])) - max(x[0][0], min(u.coords[c, 0])))
                             for x in bA] for _, c in u.cells])
        elif d == 2:
            u = to_box(M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "qtT", 0.2))
            u = mixup(rng, M.PM(u.coords @ G.rotation(rng, 2).T, u.cells, 2))
            q = [C.parts2(np.array([[x[0], y[0]], [x[1], y[0]], [x[1], y[1]], [x[0], y[1]]])) for x, y in bA]
            ref = np.array([[C.inter2(t, s) for s in q] for t in pieces2(u)])
        else:
            u = mesh3(rng, True)
            R = G.rotation(rng, 3)
            if np.linalg.det(R) < 0:
                R[:, 0] *= -1
            u = mixup(rng, M.PM(u.coords @ R.T, u.cells, 3))
            cu = cart(A).buildUnstructured()
            pm = M.read(cu)
            M.orient(pm)
            ref = ref3(pm, u)
        s, t = cart(A), u.um(m)
        vs, vt = np.array([np.prod([q - p for p, q in x]) for x in bA]), measures(u)
        if k == "UC":
            s, t, vs, vt, ref = t, s, vt, vs, ref.T
    opts = {"type": m.Triangulation}
    if d == 3 and k != "CC":
        opts["split"] = getattr(m, rng.choice(["PLANAR_FACE_5", "PLANAR_FACE_6", "GENERAL_24", "GENERAL_48"]))
    mon.mark("cart", k, d)
    run_u(rng, mon, m, "cart:%s:%d" % (k, d), s, t, vs, vt, ref, opts, tol=1e-8)


def t_extruded(rng, mon, m):
    """Extruded meshes: product of the plane intersections and of the heights."""
    def ext(b, z):
        u = M.PM(np.hstack([b.coords, np.zeros((len(b.coords), 1))]), b.cells, 2).um(m)
        z1 = m.MEDCouplingUMesh("z", 1)
        z1.setCoords(G.npd(m, np.array([[0., 0., x] for x in z])))
        z1.allocateCells(len(z) - 1)
        for i in range(len(z) - 1):
            z1.insertNextCell(m.NORM_SEG2, [i, i + 1])
        e = u.buildExtrudedMesh(z1, 0)
        return m.MEDCouplingMappedExtrudedMesh(e, u, 0), e

    def hs(o):
        return np.cumsum([o] + [rng.uniform(0.2, 0.6) for _ in range(rng.randint(1, 3))]).tolist()
    a, b, k = pair2(rng, "qtT", 0.2)
    if k in ("tiny", "apart") or len(a.cells) * len(b.cells) > 150:
        raise Skip("size")
    sc = 1. / max(np.ptp(a.coords, axis=0).max(), np.ptp(b.coords, axis=0).max())
    a.coords, b.coords = a.coords * sc, b.coords * sc
    za = hs(0.)
    zb = hs(0.)
    (ma, ea), (mb, eb) = ext(a, za), ext(b, zb)
    # cells of a mapped extruded mesh keep the numbering of the 3-D mesh
    P = ref2(a, b)
    ref = np.zeros((eb.getNumberOfCells(), ea.getNumberOfCells()))
    na, nb = len(a.cells), len(b.cells)
    for j in range(len(zb) - 1):
        for i in range(len(za) - 1):
            h = max(0., min(za[i + 1], zb[j + 1]) - max(za[i], zb[j]))
            ref[j * nb:(j + 1) * nb, i * na:(i + 1) * na] = h * P
    vs = np.array([h * v for h in np.diff(za) for v in measures(a)])
    vt = np.array([h * v for h in np.diff(zb) for v in measures(b)])
    run_u(rng, mon, m, "extruded", ma, mb, vs, vt, ref, {"type": m.Triangulation}, tol=1e-8, natures=rng.random() < 0.5)


def t_m1(rng, mon, m):
    """Meshes of dimension -1: everything at once."""
    pm = mixup(rng, M.affine(rng, M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "qtT"))) if rng.random() < 0.6 \
        else mixup(rng, mesh3(rng, True))
    pt = m.MEDCouplingUMesh("all", -1)
    u, v = pm.um(m), measures(pm)
    r = m.MEDCouplingRemapper()
    rev = rng.random() < 0.5
    s, t = (pt, u) if rev else (u, pt)
    mon.eq(r.prepare(s, t, "P0P0"), 1, "m1:prepare")
    A = matrix(r, *((len(v), 1) if rev else (1, len(v))))
    mon.close(A.ravel(), v, "m1:crude", tol=1e-9, scale=v.max())
    mon.nontrivial = True
    f = m.MEDCouplingFieldDouble(m.ON_CELLS, m.ONE_TIME)
    f.setMesh(s)
    a = np.array([rng.uniform(-5, 5) for _ in range(1 if rev else len(v))])
    f.setArray(G.npd(m, a))
    for nat in NATURES:
        f.setNature(getattr(m, nat))
        g = G.np2(r.transferField(f, 0.).getArray()).ravel()
        if rev:
            want = np.full(len(v), a[0]) if nat.startswith("Int") else a[0] * v / v.sum()
        else:
            want = np.array([a @ v / v.sum()]) if nat.startswith("Int") else np.array([a.sum()])
        mon.close(g, want, "m1:" + nat, tol=1e-9, scale=50. * len(v))


# ------------------------------------------------------------------------------------------------- the object
def small(rng, n=3):
    a = to_box(M.grid2(rng, rng.randint(1, n), rng.randint(1, n), "qt", 0.2))
    a.coords = a.coords * rng.uniform(0.6, 1.2) + rng.uniform(-0.2, 0.2)
    return mixup(rng, a)


def t_hist(rng, mon, m):
    """One remapper through a history of prepares, matrices set by hand, natures and refused calls."""
    r = m.MEDCouplingRemapper()
    cur = None
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["prepare", "set", "use", "use", "bad", "tiny", "csr"])
        if cur is None and op in ("use", "bad", "tiny", "csr"):
            f = m.MEDCouplingFieldDouble(m.ON_CELLS, m.ONE_TIME)
            u = small(rng).um(m)
            f.setMesh(u)
            f.setArray(G.npd(m, np.zeros(u.getNumberOfCells())))
            f.setNature(m.IntensiveMaximum)
            mon.raises(lambda: r.transferField(f, 0.), "hist:not-prepared")
            continue
        if op == "prepare":
            sp, tp = small(rng), small(rng)
            s, t = sp.um(m), tp.um(m)
            r.setIntersectionType(rng.choice([m.Triangulation, m.Geometric2D]))
            r.prepare(s, t, "P0P0")
            cur = (s, t, measures(sp), measures(tp))
            A = matrix(r, len(cur[3]), len(cur[2]))
            compare(mon, "hist:prepare", A, ref2(sp, tp), 1.)
        elif op == "set":
            sp, tp = small(rng), small(rng)
            s, t = sp.um(m), tp.um(m)
            ns, nt = len(sp.cells), len(tp.cells)
            rows = [{j: rng.uniform(0.1, 2) for j in G.subset(rng, ns)} for _ in range(nt)]
            if rng.random() < 0.5:
                r.setCrudeMatrix(s, t, "P0P0", rows)
            else:
                from scipy.sparse import csr_matrix
                I = [i for i, w in enumerate(rows) for _ in w]
                J = [j for w in rows for j in w]
                V = [w[j] for w in rows for j in w]
                r.setCrudeMatrix(s, t, "P0P0", csr_matrix((V, (I, J)), shape=(nt, ns)))
            cur = (s, t, measures(sp), measures(tp))
            mon.eq([dict(w) for w in r.getCrudeMatrix()], rows, "hist:set-get")
            bad = rng.choice(["rows", "columns", "negative"])
            q = rows + [{}] if bad == "rows" else rows[:-1] + [{ns if bad == "columns" else -1: 1.}]
            r2 = m.MEDCouplingRemapper()
            mon.raises(lambda: r2.setCrudeMatrix(s, t, "P0P0", q), "hist:set-bad:" + bad)
        elif op == "csr":
            c = r.getCrudeCSRMatrix()
            want = matrix(r, len(cur[3]), len(cur[2]))
            got = np.zeros(want.shape)
            g = c.toarray()
            mon.ok(g.shape[0] == want.shape[0] and g.shape[1] <= want.shape[1], "hist:csr-shape", shape=g.shape)
            got[:, :g.shape[1]] = g
            mon.eq(got.tolist(), want.tolist(), "hist:csr")
        elif op == "tiny":
            rows = [dict(w) for w in r.getCrudeMatrix()]
            mx = max([abs(v) for w in rows for v in w.values()] or [0.])
            mon.close(r.getMaxValueInCrudeMatrix(), mx, "hist:max", tol=1e-15, scale=1.)
            lim = rng.choice([0., 0.1, 0.5, 1.])
            keep = [{j: v for j, v in w.items() if abs(v) > lim * mx} for w in rows]
            gone = sum(map(len, rows)) - sum(map(len, keep))
            # as documented, right after a preparation
            s, t, vs, vt = cur
            r.setCrudeMatrix(s, t, "P0P0", rows)
            if rng.random() < 0.5 or mx == 0:
                mon.eq(r.nullifiedTinyCoeffInCrudeMatrix(lim), gone if mx else -1, "hist:nullified")
            else:
                mon.eq(r.nullifiedTinyCoeffInCrudeMatrixAbs(lim * mx), gone, "hist:nullified")
            mon.eq([dict(w) for w in r.getCrudeMatrix()], keep, "hist:nullified-matrix")
        elif op == "use":
            s, t, vs, vt = cur
            A = matrix(r, len(vt), len(vs))
            if (A < 1e-9)[A != 0].any():
                continue
            transfers(rng, mon, m, r, s, t, A, vt, vs, "hist")
        else:
            s, t, vs, vt = cur
            nat = m.IntensiveMaximum

            def fld(mesh, n, nc=1, nat=nat, typ=m.ON_CELLS):
                f = m.MEDCouplingFieldDouble(typ, m.ONE_TIME)
                f.setMesh(mesh)
                f.setArray(G.npd(m, np.ones((n, nc))))
                f.setNature(nat)
                return f
            o = None
            for _ in range(20):
                o = small(rng).um(m)
                if o.getNumberOfCells() not in (len(vs), len(vt)):
                    break
            else:
                continue
            no = o.getNumberOfCells()
            a, b = fld(s, len(vs)), fld(t, len(vt))
            for key, fn in [
                    ("source-size", lambda: r.transferField(fld(o, no), 0.)),
                    ("target-size", lambda: r.transfer(a, fld(o, no), 0.)),
                    ("target-size-partial", lambda: r.partialTransfer(a, fld(o, no))),
                    ("reverse-target-size", lambda: r.reverseTransferField(fld(o, no), 0.)),
                    ("reverse-source-size", lambda: r.reverseTransfer(fld(o, no), b, 0.)),
                    ("nature", lambda: r.transfer(a, fld(t, len(vt), nat=m.ExtensiveMaximum), 0.)),
                    ("components", lambda: r.transfer(a, fld(t, len(vt), nc=2), 0.)),
                    ("reverse-components", lambda: r.reverseTransfer(fld(s, len(vs), nc=2), b, 0.)),
                    ("no-nature", lambda: r.transferField(fld(s, len(vs), nat=m.NoNature), 0.)),
                    ("nodes", lambda: r.transferField(fld(s, s.getNumberOfNodes(), typ=m.ON_NODES), 0.))]:
                mon.raises(fn, "hist:refused:" + key)
        mon.mark("hist", op)
    mon.nontrivial = True


def t_opts(rng, mon, m):
    """The options of a remapper keep what is given to them, by whatever name, and nothing else changes."""
    inter = ["Triangulation", "Convex", "Geometric2D", "PointLocator", "Barycentric", "BarycentricGeo2D"]
    split = ["PLANAR_FACE_5", "PLANAR_FACE_6", "GENERAL_24", "GENERAL_48"]
    D = [("Precision", "Precision", "Precision"), ("MedianPlane",) * 3, ("BoundingBoxAdjustment",) * 3,
         ("BoundingBoxAdjustmentAbs",) * 3, ("MaxDistance3DSurfIntersect",) * 3,
         ("MinDotBetween3DSurfIntersect", "MinDotBtwPlane3DSurfIntersect", "MinDot")]
    r = m.MEDCouplingRemapper()

    def state(x):
        return {"print": x.getPrintLevel(), "type": x.getIntersectionType(), "typeR": x.getIntersectionTypeRepr(),
                "rotate": x.getDoRotate(), "orientation": x.getOrientation(), "abs": x.getMeasureAbsStatus(),
                "split": x.getSplittingPolicy(), "splitR": x.getSplittingPolicyRepr(),
                "fe": (x.getProjectionMaxDistance(), x.getProjectionOnSurfStatus(), x.getMaxDistanceStatus()),
                "policy": x.getInterpolationMatrixPolicy(),
                **{d[1]: getattr(x, "get" + d[1])() for d in D}}
    w = {"print": 0, "type": m.Triangulation, "typeR": "Triangulation", "rotate": True, "orientation": 0, "abs": True,
         "split": m.PLANAR_FACE_5, "splitR": "PLANAR_FACE_5", "fe": state(r)["fe"], "policy": 0, "Precision": 1e-12,
         "MedianPlane": 0.5, "BoundingBoxAdjustment": 1e-4, "BoundingBoxAdjustmentAbs": 0.,
         "MaxDistance3DSurfIntersect": -1., "MinDotBtwPlane3DSurfIntersect": -1.}
    mon.eq(state(r), w, "opts:default")
    for _ in range(rng.randint(4, 14)):
        op = rng.choice(["double", "int", "type", "split", "unknown", "policy", "bad", "all", "fe"])
        if op == "double":
            k, g, _ = rng.choice(D)
            v = rng.choice([0., 1e-9, -1., rng.uniform(-3, 3)])
            if rng.random() < 0.6:
                mon.eq(r.setOptionDouble(k, v), True, "opts:double")
            else:
                getattr(r, "set" + g)(v)
            w[g] = v
        elif op == "int":
            k, g, s = rng.choice([("PrintLevel", "print", "PrintLevel"), ("DoRotate", "rotate", "DoRotate"),
                                  ("Orientation", "orientation", "Orientation"),
                                  ("MeasureAbs", "abs", "MeasureAbsStatus")])
            v = rng.choice([0, 1, 2, -1])
            if rng.random() < 0.6 or g in ("rotate", "abs"):
                mon.eq(r.setOptionInt(k, v), True, "opts:int")
            else:
                getattr(r, "set" + s)(v)
            w[g] = bool(v) if g in ("rotate", "abs") else v
        elif op == "type":
            v = rng.choice(inter)
            if rng.random() < 0.5:
                mon.eq(r.setOptionString("IntersectionType", v), True, "opts:string")
            else:
                r.setIntersectionType(getattr(m, v))
            w["type"], w["typeR"] = getattr(m, v), v
        elif op == "split":
            v = rng.choice(split)
            if rng.random() < 0.5:
                mon.eq(r.setOptionString("SplittingPolicy", v), True, "opts:string")
            else:
                r.setSplittingPolicy(getattr(m, v))
            w["split"], w["splitR"] = getattr(m, v), v
        elif op == "policy":
            v = rng.randint(0, 3)
            r.setInterpolationMatrixPolicy(v)
            w["policy"] = v
        elif op == "fe":
            v = (rng.uniform(0, 2), rng.random() < 0.5, rng.random() < 0.5)
            r.setProjectionMaxDistance(v[0])
            r.setProjectionOnSurfStatus(v[1])
            r.setMaxDistanceStatus(v[2])
            w["fe"] = v
            o = r.getFEOptions()
            mon.eq((o.getProjectionMaxDistance(), o.getProjectionOnSurfStatus(), o.getMaxDistanceStatus()), v, "opts:fe")
        elif op == "all":
            t, q = rng.choice(inter), rng.choice(split)
            v = [rng.randint(0, 3), t, rng.uniform(0, 1), rng.uniform(0, 1), rng.random() < 0.5, rng.uniform(0, 1),
                 rng.uniform(0, 1), rng.uniform(-1, 1), rng.randint(-1, 2), rng.random() < 0.5, q]
            mon.eq(r.setInterpolationOptions(*v), True, "opts:all")
            w.update({"print": v[0], "type": getattr(m, t), "typeR": t, "Precision": v[2], "MedianPlane": v[3],
                      "rotate": v[4], "BoundingBoxAdjustment": v[5], "BoundingBoxAdjustmentAbs": v[6],
                      "MaxDistance3DSurfIntersect": v[7], "orientation": v[8], "abs": v[9],
                      "split": getattr(m, q), "splitR": q})
        elif op == "unknown":
            mon.eq([r.setOptionDouble("Nothing", 2.), r.setOptionInt("Precision", 2), r.setOptionDouble("PrintLevel", 2.),
                    r.setOptionString("IntersectionType", "Nothing"), r.setOptionString("SplittingPolicy", "Convex"),
                    r.setOptionString("Precision", "Convex")], [False] * 6, "opts:unknown")
        else:
            mon.raises(lambda: r.setInterpolationMatrixPolicy(rng.choice([-1, 4, 99])), "opts:policy-bad")
        mon.eq(state(r), w, "opts:" + op)
        mon.mark("opts", op)
    txt = r.printOptions()
    for v in (w["typeR"], w["splitR"]):
        mon.ok(v in txt, "opts:print", text=txt)
    c = m.MEDCouplingRemapper()
    c.copyOptions(r)
    mon.eq(state(c), {**w, "policy": 0}, "opts:copy")
    # options do not leave with a use of the remapper, which obeys its policy
    r = m.MEDCouplingRemapper()
    r.setIntersectionType(rng.choice([m.Triangulation, m.Geometric2D]))
    r.setPrecision(1e-11)
    pol = rng.randint(0, 3)
    r.setInterpolationMatrixPolicy(pol)
    before = state(r)
    sp, tp = small(rng), small(rng)
    s, t = sp.um(m), tp.um(m)
    if pol == 3:
        mon.raises(lambda: r.prepare(s, t, "P0P0"), "opts:forced")
    else:
        r.prepare(s, t, "P0P0")
        compare(mon, "opts:prepare", matrix(r, len(tp.cells), len(sp.cells)), ref2(sp, tp), 1.)
        if rng.random() < 0.5:
            f = m.MEDCouplingFieldTemplate(m.ON_CELLS)
            f.setMesh(s)
            g = m.MEDCouplingFieldTemplate(m.ON_CELLS)
            g.setMesh(t)
            r.prepareEx(f, g)
            compare(mon, "opts:prepareEx", matrix(r, len(tp.cells), len(sp.cells)), ref2(sp, tp), 1.)
    mon.eq(state(r), before, "opts:after-use")
    mon.nontrivial = True


def t_given(rng, mon, m):
    """Matrices given for any pair of discretizations, by meshes or by field templates."""
    sp, tp = small(rng), small(rng)
    s, t = sp.um(m), tp.um(m)
    meth = rng.choice(["P0P0", "P0P1", "P1P0", "P1P1"])
    typ = {"P0": m.ON_CELLS, "P1": m.ON_NODES}
    size = {"P0": lambda u: u.getNumberOfCells(), "P1": lambda u: u.getNumberOfNodes()}
    a, b = meth[:2], meth[2:]
    ns, nt = size[a](s), size[b](t)
    rows = [{j: rng.uniform(0.1, 2) for j in G.subset(rng, ns)} for _ in range(nt)]
    r = m.MEDCouplingRemapper()
    ft = []
    for x, u in ((a, s), (b, t)):
        f = m.MEDCouplingFieldTemplate(typ[x])
        f.setMesh(u)
        ft.append(f)

    def give(x, q):
        if rng.random() < 0.5:
            x.setCrudeMatrix(s, t, meth, q)
        else:
            x.setCrudeMatrixEx(ft[0], ft[1], q)
    if rng.random() < 0.5:
        r.prepare(t, s, "P0P0")
    give(r, rows)
    mon.eq([dict(w) for w in r.getCrudeMatrix()], rows, "given:get:" + meth)
    mon.eq(r.getNumberOfColsOfMatrix(), ns, "given:columns:" + meth)
    bad = rng.choice(["rows", "columns", "negative"])
    q = rows + [{}] if bad == "rows" else rows[:-1] + [{ns if bad == "columns" else -1: 1.}]
    mon.raises(lambda: give(m.MEDCouplingRemapper(), q), "given:bad:" + bad)
    mon.raises(lambda: r.setCrudeMatrix(s, t, rng.choice(["P0P7", "P0", "", "P0P0P0"]), rows), "given:method")
    give(r, rows)
    for _ in range(1):
        f = m.MEDCouplingFieldDouble(typ[a], m.ONE_TIME)
        f.setMesh(s)
        v = np.array([rng.uniform(-5, 5) for _ in range(ns)])
        f.setArray(G.npd(m, v))
        f.setNature(m.IntensiveMaximum)
        g = r.transferField(f, -9.)
        want = np.array([sum(w * v[j] for j, w in q.items()) / sum(q.values()) if q else -9. for q in rows])
        mon.close(G.np2(g.getArray())[:, 0], want, "given:transfer:" + meth, tol=1e-11, scale=5.)
        mon.ok(g.getTypeOfField() == typ[b] and g.getMesh().getHiddenCppPointer() == t.getHiddenCppPointer(),
               "given:support:" + meth)
    mon.mark("given", meth)
    mon.nontrivial = True


OPS = [("opts", t_opts), ("given", t_given), ("2d", t_2d), ("2d", t_2d), ("arc", t_arc), ("line", t_line), ("3d", t_3d), ("3d", t_3d), ("surf", t_surf),
       ("2d1d", t_2d1d), ("3d2d", t_3d2d), ("locate", t_locate), ("cart", t_cart), ("extruded", t_extruded),
       ("m1", t_m1), ("hist", t_hist)]
FAMILIES = [G.table("remap", OPS, 320), G.table("known", [("convex", t_2dc)], 2)]
