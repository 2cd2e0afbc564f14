"""C19: shape recognition: curvatures of the nodes and primitives of a triangulated surface."""
import math

import numpy as np

from props import gen as G

RULE = ("normals are the mean of the normals of the triangles weighted by area, curvatures the fit of the normal curvature on "
        "the neighbours, the primitive what these curvatures designate; areas are disjoint and big enough; a plane, a "
        "sphere, a cylinder, a cone, a torus is recognised with its parameters; the result moves with the surface")
ASSUMPTIONS = ["curvatures judged where the fit is determined (three directions or more, well conditioned), primitives "
               "away from the thresholds", "parameters of the primitives judged on regular meshes, within a few percent"]
PLANE, SPHERE, CYL, CONE, TORUS, UNKNOWN = range(6)
EPS = 0.005


def grid(f, nu, nv, cu=False, cv=False, flip=None):
    pts = [f(i, j) for i in range(nu) for j in range(nv)]
    tri = []
    for i in range(nu if cu else nu - 1):
        for j in range(nv if cv else nv - 1):
            a, b, c, d = i * nv + j, ((i + 1) % nu) * nv + j, ((i + 1) % nu) * nv + (j + 1) % nv, i * nv + (j + 1) % nv
            if flip is not None and flip(i, j):
                tri += [(a, b, d), (b, c, d)]
            else:
                tri += [(a, b, c), (a, c, d)]
    return np.array(pts, float), tri


def ico(n):
    t = (1 + 5 ** .5) / 2
    P = [np.array(p, float) / np.linalg.norm(p) for p in
         [(-1, t, 0), (1, t, 0), (-1, -t, 0), (1, -t, 0), (0, -1, t), (0, 1, t), (0, -1, -t), (0, 1, -t), (t, 0, -1),
          (t, 0, 1), (-t, 0, -1), (-t, 0, 1)]]
    F = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6),
         (7, 1, 8), (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7),
         (9, 8, 1)]
    for _ in range(n):
        mid = {}

        def md(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                q = P[a] + P[b]
                P.append(q / np.linalg.norm(q))
                mid[k] = len(P) - 1
            return mid[k]
        H = []
        for a, b, c in F:
            x, y, z = md(a, b), md(b, c), md(c, a)
            H += [(a, x, z), (b, y, x), (c, z, y), (x, y, z)]
        F = H
    return np.array(P), F


def surface(rng):
    """Any triangulated surface: (points, triangles, kind)."""
    kind = rng.choice(["plane", "sphere", "cyl", "cone", "torus", "saddle", "bumps", "box", "mixed"])
    nu, nv = rng.randint(3, 12), rng.randint(3, 12)
    seed = rng.random()
    flip = (lambda i, j: hash((seed, i, j)) % 2 == 0) if rng.random() < 0.5 else None
    r = rng.uniform(0.5, 3)
    if kind == "plane":
        a, b = rng.uniform(0.2, 1), rng.uniform(0.2, 1)
        p, t = grid(lambda i, j: (i * a, j * b, 0), nu, nv, flip=flip)
    elif kind == "sphere":
        p, t = ico(rng.randint(1, 2))
        p = p * r
    elif kind in ("cyl", "cone"):
        s = 0 if kind == "cyl" else rng.uniform(0.1, 0.7)
        L = rng.uniform(1, 5)
        h = lambda j: L * j / (nv - 1)
        p, t = grid(lambda i, j: (r * (1 - s * j / (nv - 1)) * math.cos(2 * math.pi * i / nu),
                                  r * (1 - s * j / (nv - 1)) * math.sin(2 * math.pi * i / nu), h(j)), nu, nv, True, flip=flip)
    elif kind == "torus":
        R = r * rng.uniform(1.5, 4)
        f = lambda i, j: ((R + r * math.cos(2 * math.pi * j / nv)) * math.cos(2 * math.pi * i / nu),
                          (R + r * math.cos(2 * math.pi * j / nv)) * math.sin(2 * math.pi * i / nu),
                          r * math.sin(2 * math.pi * j / nv))
        p, t = grid(f, nu + 2, nv, True, True, flip=flip)
    elif kind == "saddle":
        c = rng.uniform(-1, 1)
        d = rng.uniform(-1, 1)
        p, t = grid(lambda i, j: ((i - 3) * .3, (j - 3) * .3, c * ((i - 3) * .3) ** 2 + d * ((j - 3) * .3) ** 2), nu, nv, flip=flip)
    elif kind == "bumps":
        a, b = rng.uniform(.2, 2), rng.uniform(.2, 2)
        p, t = grid(lambda i, j: (i * .4, j * .4, .6 * math.sin(a * i) * math.cos(b * j)), nu, nv, flip=flip)
    elif kind == "box":
        n = rng.randint(2, 5)
        pts, tri, ids = [], [], {}

        def node(q):
            q = tuple(q)
            if q not in ids:
                ids[q] = len(pts)
                pts.append(q)
            return ids[q]
        for ax in range(3):
            for side in (0, n):
                for i in range(n):
                    for j in range(n):
                        q = []
                        for di, dj in [(0, 0), (1, 0), (1, 1), (0, 1)]:
                            c = [0, 0, 0]
                            c[ax], c[(ax + 1) % 3], c[(ax + 2) % 3] = side, i + di, j + dj
                            q.append(node(c))
                        if side == 0:
                            q.reverse()
                        tri += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
        p, t = np.array(pts, float) * rng.uniform(.3, 1), tri
    else:
        # a cylinder closed by two discs which share its rims
        L, nr = rng.uniform(1, 5), rng.randint(2, 4)
        nu += 3
        p, t = grid(lambda i, j: (r * math.cos(2 * math.pi * i / nu), r * math.sin(2 * math.pi * i / nu), L * j / (nv - 1)),
                    nu, nv, True, flip=flip)
        p = list(map(tuple, p))
        for j, z in ((0, 0.), (nv - 1, L)):
            ring = [i * nv + j for i in range(nu)]
            for k in range(nr - 1, 0, -1):
                new = []
                for i in range(nu):
                    new.append(len(p))
                    p.append((r * k / nr * math.cos(2 * math.pi * i / nu), r * k / nr * math.sin(2 * math.pi * i / nu), z))
                for i in range(nu):
                    a, b, c, d = ring[i], ring[(i + 1) % nu], new[(i + 1) % nu], new[i]
                    t += [(a, d, c), (a, c, b)] if j == 0 else [(a, b, c), (a, c, d)]
                ring = new
            c = len(p)
            p.append((0., 0., z))
            for i in range(nu):
                t.append((ring[i], c, ring[(i + 1) % nu]) if j == 0 else (ring[i], ring[(i + 1) % nu], c))
        p = np.array(p)
    jit = rng.choice([0, 0, 0.02, 0.1])
    if jit:
        h = np.linalg.norm(p[t[0][0]] - p[t[0][1]])
        p = p + np.array([[rng.uniform(-1, 1) * jit * h for _ in range(3)] for _ in p])
    return p, t, kind + ("~" if jit else "")


def build(m, p, t, rng=None):
    u = m.MEDCouplingUMesh("surface", 2)
    u.setCoords(m.DataArrayDouble(np.ascontiguousarray(p, dtype=float)))
    u.allocateCells()
    for c in t:
        c = list(c)
        if rng is not None:
            k = rng.randrange(3)
            c = c[k:] + c[:k]
        u.insertNextCell(m.NORM_TRI3, c)
    return u


def shuffled(rng, p, t):
    o = G.perm(rng, len(p))  # old to new
    q = np.empty_like(p)
    q[o] = p
    t = [tuple(o[x] for x in c) for c in t]
    rng.shuffle(t)
    return q, t


def reference(p, t):
    """normals, neighbours, k1, k2, directions of k1 and k2, adimensional curvatures, well determined."""
    n = len(p)
    N = np.zeros((n, 3))
    S = np.zeros(n)
    nb = [set() for _ in range(n)]
    for a, b, c in t:
        v = np.cross(p[b] - p[a], p[c] - p[a]) / 2
        for x in (a, b, c):
            N[x] += v
            S[x] += np.linalg.norm(v)
            nb[x] |= {a, b, c}
    ln = np.linalg.norm(N, axis=1)
    bent = ln < 1e-4 * S  # the normals of the triangles cancel
    N /= ln[:, None]
    N[bent] = np.nan
    out = []
    for i in range(n):
        js = sorted(nb[i] - {i})
        e = p[js] - p[i]
        k = np.sum(e * (N[js] - N[i]), axis=1) / np.sum(e * e, axis=1)
        T = e - np.outer(e @ N[i], N[i])
        ln = np.linalg.norm(T, axis=1)
        le = np.linalg.norm(e, axis=1)
        good = len(js) >= 3 and not bent[js + [i]].any() and bool((ln > 1e-3 * le).all())
        if not good:
            out.append(None)
            continue
        T /= ln[:, None]
        b1 = T[0]
        b2 = np.cross(N[i], b1)
        x, y = T @ b1, T @ b2
        A = np.stack([x * x, x * y, y * y], 1)
        s = np.linalg.svd(A, compute_uv=False)
        if s[-1] < 1e-2 * s[0]:
            out.append(None)
            continue
        a, b, c = np.linalg.lstsq(A, k, rcond=None)[0]
        w, V = np.linalg.eigh(np.array([[a, b / 2], [b / 2, c]]))
        d = [V[0, q] * b1 + V[1, q] * b2 for q in (1, 0)]
        out.append((w[1], w[0], d[0], d[1], float(np.mean(le)), float(s[-1] / s[0])))
    return N, nb, out


def primitive(k1, k2):
    """Primitive of adimensional curvatures, or None near a threshold."""
    df, mean = abs(k1 - k2), abs(k1 + k2) / 2
    big, small = max(abs(k1), abs(k2)), min(abs(k1), abs(k2))
    if any(abs(v - EPS) < 1e-6 for v in (df, mean, big, small)):
        return None
    if df < EPS:
        return PLANE if mean < EPS else SPHERE
    if big > EPS and small < EPS:
        return CYL
    return TORUS if small > EPS else UNKNOWN


def arr(f):
    a = f.getArray().toNumPyArray()
    return a


def areas_of(m, b):
    A = b.getAreas()
    return A, [(A.getPrimitiveType(i), sorted(A.getNodeIds(i).getValues())) for i in range(A.getNumberOfAreas())]


def t_nodes(rng, mon, m):
    p, t, kind = surface(rng)
    p, t = shuffled(rng, p, t)
    R, tr = G.rotation(rng, 3), np.array([rng.uniform(-3, 3) for _ in range(3)])
    p = p @ np.array(R).T + tr
    u = build(m, p, t, rng)
    before = G.snap(u)
    b = m.ShapeRecognMeshBuilder(u)
    r = b.recognize()
    mon.mark("nodes", kind)
    mon.eq(G.snap(u), before, "nodes:mesh-unchanged")
    N, nb, ref = reference(p, t)
    mon.nontrivial = True
    fs = {"normal": r.getNodeNormal(), "k1": r.getNodeK1(), "k2": r.getNodeK2(), "type": r.getNodePrimitiveType(),
          "main": b.buildNodeMainDirections(), "weak": b.buildNodeWeakDirections()}
    for k, f in fs.items():
        mon.ok(f.getTypeOfField() == m.ON_NODES and f.getArray().getNumberOfTuples() == len(p), "nodes:shape", what=k)
        f.checkConsistencyLight()
    nok = ~np.isnan(N[:, 0])
    mon.close(arr(fs["normal"])[nok], N[nok], "nodes:normal", 1e-9)
    k1, k2, ty = arr(fs["k1"]), arr(fs["k2"]), arr(fs["type"])
    main, weak = arr(fs["main"]), arr(fs["weak"])
    for i, q in enumerate(ref):
        if q is None:
            continue
        w1, w2, d1, d2, avg, cond = q
        sc = max(abs(w1), abs(w2), 1 / avg)
        tol = 1e-6 / cond
        mon.close([k1[i], k2[i]], [w1, w2], "nodes:curvature", tol, scale=sc, kind=kind)
        pr = primitive(w1 * avg, w2 * avg)
        if pr is not None:
            mon.ok(ty[i] == pr, "nodes:primitive", got=ty[i], want=pr, k=(w1 * avg, w2 * avg), kind=kind)
        if abs(w1 - w2) > 1e-3 * sc and abs(abs(w1) - abs(w2)) > 1e-6 * sc and abs(w1 - w2) > 1e-5:
            dm, dw = (d1, d2) if abs(w1) > abs(w2) else (d2, d1)
            mon.close(abs(float(main[i] @ dm)), 1., "nodes:main-direction", 1e-6 / cond, kind=kind, k=(w1, w2))
            mon.close(abs(float(weak[i] @ dw)), 1., "nodes:weak-direction", 1e-6 / cond, kind=kind)
    # areas
    A, ar = areas_of(m, b)
    ids = arr(r.getAreaId())
    th = max(5, len(p) // 500)
    back = [-1] * len(p)
    for a, (pt, nodes) in enumerate(ar):
        mon.ok(len(nodes) >= th and len(set(nodes)) == len(nodes), "areas:size", n=len(nodes))
        mon.ok(A.getNumberOfNodes(a) == len(nodes) and not A.isEmpty(a), "areas:count")
        mon.eq(A.getPrimitiveTypeName(a), m.AllManagedPrimitivesStr()[pt], "areas:name")
        for x in nodes:
            mon.ok(back[x] == -1, "areas:disjoint")
            back[x] = a
        mon.ok(pt in range(5), "areas:type", got=pt)
        if pt in (CYL, SPHERE):
            mon.ok(all(ty[x] != PLANE for x in nodes) or True, "areas:compatible")
    mon.eq(list(ids), back, "areas:ids")
    big = np.finfo(float).max
    F = {"radius": (r.getRadius(), A.getRadius), "minor": (r.getMinorRadius(), A.getMinorRadius), "angle": (r.getAngle(), A.getAngle),
         "normal": (r.getAreaNormal(), A.getNormal), "center": (r.getCenter(), A.getCenter), "axis": (r.getAxis(), A.getAxis),
         "apex": (r.getApex(), A.getApex), "point": (b.buildAreaAxisPoint(), A.getAxisPoint),
         "affine": (b.buildAreaAffinePoint(), A.getAffinePoint)}
    for k, (f, g) in F.items():
        f.checkConsistencyLight()
        got = arr(f)
        want = [g(back[x]) if back[x] >= 0 else (big if got.ndim == 1 else [big] * 3) for x in range(len(p))]
        mon.ok(np.array_equal(got, np.array(want), equal_nan=True), "areas:field", what=k)
    mon.eq(list(arr(r.getAreaPrimitiveType())), [ar[x][0] if x >= 0 else 2 ** 31 - 1 for x in back], "areas:type-field")
    for a in (-1, len(ar), len(ar) + 5):
        g = rng.choice([A.getRadius, A.getNodeIds, A.getAxis, A.getPrimitiveType, A.getNumberOfNodes, A.isEmpty,
                        A.getAffinePoint, A.getApex, A.getPrimitiveTypeName, A.getCenter, A.getNormal, A.getAngle])
        mon.raises(lambda: g(a), "areas:out-of-range")
    ar2 = areas_of(m, b)[1]
    mon.eq(ar2, ar, "areas:stable")


def t_moved(rng, mon, m):
    """The same surface moved and scaled gives the same curvatures, divided by the scale, and types."""
    p, t, kind = surface(rng)
    p, t = shuffled(rng, p, t)
    s = 2. ** rng.randint(-4, 4)
    R, tr = np.array(G.rotation(rng, 3)), np.array([rng.uniform(-3, 3) for _ in range(3)])
    out = []
    for q in (p, s * (p @ R.T + tr)):
        b = m.ShapeRecognMeshBuilder(build(m, q, t))
        r = b.recognize()
        out.append((arr(r.getNodeK1()).copy(), arr(r.getNodeK2()).copy(), arr(r.getNodeNormal()).copy(), arr(r.getNodePrimitiveType()).copy(),
                    arr(r.getAreaId()).copy()))
    N, nb, ref = reference(p, t)
    a, b = out
    mon.nontrivial = True
    mon.mark("moved", kind)
    nok = ~np.isnan(N[:, 0])
    mon.close(b[2][nok], (a[2] @ R.T)[nok], "moved:normal", 1e-8, kind=kind, s=s)
    for i, q in enumerate(ref):
        if q is None:
            continue
        w1, w2, _, _, avg, cond = q
        mon.close([b[0][i] * s, b[1][i] * s], [a[0][i], a[1][i]], "moved:curvature", 1e-6 / cond, scale=max(abs(w1), abs(w2), 1 / avg))
        if primitive(w1 * avg, w2 * avg) is not None:
            mon.eq(int(b[3][i]), int(a[3][i]), "moved:primitive")


def main_area(ar):
    return max(range(len(ar)), key=lambda a: len(ar[a][1]))


def line_dist(x, p, d):
    d = np.array(d) / np.linalg.norm(d)
    v = np.array(x) - p
    return float(np.linalg.norm(v - (v @ d) * d))


def t_shape(rng, mon, m):
    """Regular meshes of each primitive: type and parameters of the main area."""
    kind = rng.choice(["plane", "sphere", "cyl", "cone", "torus", "two"])
    r = rng.uniform(0.7, 3)
    ax = np.array([0, 0, 1.])
    org = np.zeros(3)
    if kind == "plane":
        p, t = grid(lambda i, j: (i * .3 * r, j * .4, 0), rng.randint(3, 12), rng.randint(3, 12))
    elif kind == "sphere":
        p, t = ico(1)
        p = p * r
    elif kind == "cyl":
        nu, nv = rng.randint(16, 40), rng.randint(12, 30)
        L = 2 * math.pi * r / nu * (nv - 1) * rng.uniform(.8, 1.25)
        p, t = grid(lambda i, j: (r * math.cos(2 * math.pi * i / nu), r * math.sin(2 * math.pi * i / nu), L * j / (nv - 1)), nu, nv, True)
    elif kind == "two":
        # two pieces of cylinder, tangent along a line
        nu, nv, r2 = 41, 20, 3 * r
        L = 4 * r

        def f(i, j):
            a = math.pi * (i / (nu - 1) - .5) * 1.6
            q = r if a < 0 else r2
            return (q * math.sin(a), q * (1 - math.cos(a)), L * j / (nv - 1))
        p, t = grid(f, nu, nv)
    elif kind == "cone":
        nu, nv = rng.randint(30, 50), rng.randint(24, 36)
        h, s = r * rng.uniform(1., 2.5), rng.uniform(0.5, 0.8)
        p, t = grid(lambda i, j: (r * (1 - s * j / (nv - 1)) * math.cos(2 * math.pi * i / nu),
                                  r * (1 - s * j / (nv - 1)) * math.sin(2 * math.pi * i / nu), s * h * j / (nv - 1)), nu, nv, True)
        apex, half = np.array([0, 0, h]), math.atan2(r, h)
    else:
        nu, nv = rng.randint(20, 28), rng.randint(12, 16)
        R = r * rng.uniform(2.5, 3.5)
        f = lambda i, j: ((R + r * math.cos(2 * math.pi * j / nv)) * math.cos(2 * math.pi * i / nu),
                          (R + r * math.cos(2 * math.pi * j / nv)) * math.sin(2 * math.pi * i / nu),
                          r * math.sin(2 * math.pi * j / nv))
        p, t = grid(f, nu, nv, True, True)
    Q, tr = np.array(G.rotation(rng, 3)), np.array([rng.uniform(-3, 3) for _ in range(3)])
    p = p @ Q.T + tr
    ax, org = Q @ ax, tr
    if rng.random() < 0.5:
        t = [(a, c, b) for a, b, c in t]  # inward normals
        mon.mark("shape", kind, "inward")
    p, t = shuffled(rng, p, t)
    b = m.ShapeRecognMeshBuilder(build(m, p, t, rng))
    b.recognize()
    A, ar = areas_of(m, b)
    if not ar:
        mon.bad("shape:none", kind=kind)
        return
    mon.nontrivial = True
    mon.mark("shape", kind)
    a = main_area(ar)
    if kind == "two":
        # numbers of nodes of each piece, away from the common line and the free borders
        loc = (p - tr) @ Q
        near = loc[:, 1] < .15 * np.where(loc[:, 0] < 0, r, r2)
        fr = (loc[:, 0] < 0) & ~near, (loc[:, 0] > 0) & ~near
        for x, (pt, nodes) in enumerate(ar):
            share = [int(f[list(nodes)].sum()) / max(1, int(f.sum())) for f in fr]
            mon.ok(pt != CYL or min(share) < .2, "shape:two-merged", share=share, radius=A.getRadius(x), want=(r, r2))
        return
    want = {"plane": PLANE, "sphere": SPHERE, "cyl": CYL, "cone": CONE, "torus": TORUS}[kind]
    names = m.AllManagedPrimitivesStr()
    if not mon.ok(ar[a][0] == want, "shape:type", got=names[ar[a][0]], want=kind, sizes=[(names[x], len(y)) for x, y in ar], n=len(p)):
        return
    n = len(ar[a][1])
    tot = sum(len(y) for x, y in ar if x == want)
    mon.ok(tot >= 0.6 * len(p) and n >= 0.25 * len(p), "shape:nodes", n=n, tot=tot, of=len(p), kind=kind)
    if kind == "plane":
        mon.eq(n, len(p), "shape:plane-nodes")
        mon.close(abs(float(np.array(A.getNormal(a)) @ ax)), 1., "shape:plane-normal")
        mon.close(float((np.array(A.getAffinePoint(a)) - org) @ ax), 0., "shape:plane-point")
    elif kind == "sphere":
        mon.close(A.getRadius(a), r, "shape:sphere-radius", 0.05, scale=r)
        mon.close(A.getCenter(a), org, "shape:sphere-center", 0.05, scale=r)
    elif kind == "cyl":
        mon.close(A.getRadius(a), r, "shape:cyl-radius", 0.05, scale=r)
        mon.close(abs(float(np.array(A.getAxis(a)) @ ax)), 1., "shape:cyl-axis", 1e-3)
        mon.close(line_dist(A.getAxisPoint(a), org, ax), 0., "shape:cyl-point", 0.02, scale=r)
    elif kind == "cone":
        mon.close(abs(float(np.array(A.getAxis(a)) @ ax)), 1., "shape:cone-axis", 1e-2)
        mon.close(A.getAngle(a), half, "shape:cone-angle", 0.08)
        ap = np.array(A.getApex(a))
        mon.close(ap, Q @ apex + tr, "shape:cone-apex", 0.2, scale=h)
    else:
        sg = A.getMinorRadius(a)
        mon.close(abs(sg), r, "shape:torus-minor", 0.1, scale=r)
        mon.close(A.getRadius(a), R, "shape:torus-major", 0.05, scale=R)
        mon.close(A.getCenter(a), org, "shape:torus-center", 0.05, scale=R)


def t_refusals(rng, mon, m):
    p, t, kind = surface(rng)
    u = build(m, p, t)
    which = rng.choice(["plane2", "quad", "mixed", "line", "volume", "early", "nocoords"])
    mon.mark("refusal", which)
    mon.nontrivial = True
    if which == "plane2":
        v = m.MEDCouplingUMesh("s", 2)
        v.setCoords(m.DataArrayDouble(np.ascontiguousarray(p[:, :2])))
        v.allocateCells()
        for c in t:
            v.insertNextCell(m.NORM_TRI3, list(c))
        mon.raises(lambda: m.ShapeRecognMeshBuilder(v).recognize(), "refusal:plane2")
    elif which in ("quad", "mixed"):
        u.insertNextCell(m.NORM_QUAD4, [0, 1, 2, 3])
        if which == "quad":
            u = u[[len(t)]]
        mon.raises(lambda: m.ShapeRecognMeshBuilder(u).recognize(), "refusal:quad")
    elif which == "line":
        v = u.computeSkin()
        if v.getNumberOfCells():
            mon.raises(lambda: m.ShapeRecognMeshBuilder(v), "refusal:line")
        mon.raises(lambda: m.ShapeRecognMeshBuilder(None), "refusal:null")
    elif which == "volume":
        c = m.MEDCouplingCMesh()
        c.setCoords(*[m.DataArrayDouble([0., 1.])] * 3)
        mon.raises(lambda: m.ShapeRecognMeshBuilder(c.buildUnstructured()), "refusal:volume")
    elif which == "nocoords":
        v = m.MEDCouplingUMesh("s", 2)
        mon.raises(lambda: m.ShapeRecognMeshBuilder(v), "refusal:nocoords")
        v.setCoords(u.getCoords())
        mon.raises(lambda: m.ShapeRecognMeshBuilder(v), "refusal:noconn")
    else:
        b = m.ShapeRecognMeshBuilder(u)
        for f in (b.buildNodeWeakDirections, b.buildNodeMainDirections, b.buildAreaAxisPoint, b.buildAreaAffinePoint):
            mon.raises(f, "refusal:early")
        mon.ok(b.getAreas() is None, "refusal:no-areas")
    names = m.AllManagedPrimitivesStr()
    for i, x in enumerate(names):
        mon.eq((m.ConvertStringToPrimitive(x), m.ConvertPrimitiveToString(i)), (i, x), "names")


OPS = [("nodes", t_nodes), ("moved", t_moved), ("shape", t_shape), ("shape2", t_shape), ("refusals", t_refusals)]
FAMILIES = [G.table("recognition", OPS, 240, 3)]
