"""Cutting meshes with planes gives the exact sections."""
import math

import numpy as np

from props import clip as C
from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("Each case cuts a generated mesh (any linear cells and polyhedra with planar faces, or a surface of triangles "
        "and planar polygons) with planes in general position, through nodes and edges, or along faces, and compares "
        "the section of each cell with a reference clip. Non-trivial: at least one cell is cut.")
ASSUMPTIONS = ["convex cells with planar faces are judged cell by cell; nodes are on the plane or clearly out of it"]


def plane(rng, pm):
    """(origin, normal) and the distances of the nodes."""
    X = pm.coords
    used = sorted({n for i in range(len(pm.cells)) for n in pm.nodes(i)})
    for _ in range(6):
        k = rng.choice(["any", "any", "nodes", "face", "node", "near"])
        if k == "any":
            o = X[used].mean(0) + np.array([rng.gauss(0, .3) for _ in range(3)])
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
        elif k == "nodes":
            a, b, c = X[rng.choice(used)], X[rng.choice(used)], X[rng.choice(used)]
            o, v = a, np.cross(b - a, c - a)
        elif k == "face":
            f = list(rng.choice(pm.sub(rng.randrange(len(pm.cells)))))
            o, v = X[f[0]], pm.poly_area_vec(f) if len(f) > 2 else np.array([rng.gauss(0, 1) for _ in range(3)])
        elif k == "node":
            o, v = X[rng.choice(used)], np.array([rng.gauss(0, 1) for _ in range(3)])
        else:
            o = X[used].mean(0)
            v = np.array(rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 0]]), float)
        n = np.linalg.norm(v)
        if n < 1e-3:
            continue
        v = v / n
        D = (X - o) @ v
        if ((np.abs(D[used]) > 1e-11) & (np.abs(D[used]) < 1e-3)).any():
            continue
        return o, v * rng.choice([1., 1., 10., 0.2]), v, D, k
    raise Skip("no clear plane")


def square(o, v, r):
    a = np.array([1., 0, 0]) if abs(v[0]) < 0.7 else np.array([0., 1, 0])
    e = np.cross(v, a)
    e = e / np.linalg.norm(e)
    f = np.cross(v, e)
    return [tuple(o + x * e * r + y * f * r) for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1))]


def poly3(pm, i):
    P = C.Poly3([[tuple(x) for x in pm.coords[list(f)]] for f in pm.sub(i)])
    for f in pm.sub(i):
        q = pm.coords[list(f)]
        a = pm.poly_area_vec(f)
        if np.linalg.norm(a) < 1e-9 or np.abs((q - q.mean(0)) @ (a / np.linalg.norm(a))).max() > 1e-9:
            return None
    return P if P.convex(1e-9) else None


def t_slice(rng, mon, m):
    pm = M.shuffle(rng, M.any3(rng), orphans=rng.choice([0, 1]))
    o, v, w, D, kind = plane(rng, pm)
    u = pm.um(m)
    r = np.abs(pm.coords - o).max() * 3 + 1
    want, judge = [], []
    for i in range(len(pm.cells)):
        d = D[pm.nodes(i)]
        P = poly3(pm, i)
        judge.append(P is not None)
        a = 0.
        if P is not None and d.min() < 1e-10 and d.max() > -1e-10:
            on = [f for f in pm.sub(i) if np.abs(D[list(f)]).max() < 1e-10]
            if on:
                a = np.linalg.norm(pm.poly_area_vec(on[0]))
            elif d.min() < -1e-10 and d.max() > 1e-10:
                f = C.face_in(square(o, w, r), P, 1e-12)
                a = math.sqrt(sum(x * x for x in C.areavec(f))) if f else 0.
        want.append(a)
    if not all(judge) and rng.random() < 0.7:
        raise Skip("not planar")
    key = "slice:" + kind
    if max(want) == 0. and all(judge):
        return
    with G.Pure(mon, key, u):
        try:
            s, ids = u.buildSlice3D(o.tolist(), v.tolist(), 1e-10)
        except m.InterpKernelException as e:
            if "unexpected situation" in str(e) and any(sum(abs(D[n]) < 1e-10 for n in f) > 2 and max(abs(D[list(f)])) > 1e-10
                                                        for i in range(len(pm.cells)) for f in pm.sub(i)):
                raise Skip("plane along several colinear edges of a face: not managed")
            mon.ok(max(want) == 0. or not all(judge), key + ":refused", want=want, what=str(e))
            return
    s.checkConsistency()
    ids = G.L(ids)
    q = M.read(s)
    mon.need(len(ids) == len(q.cells) and all(0 <= i < len(pm.cells) for i in ids) and s.getMeshDimension() == 2, key + ":ids", ids=ids)
    got = np.zeros(len(pm.cells))
    sc = np.ptp(pm.coords, axis=0).max()
    for (t, c), i in zip(q.cells, ids):
        mon.ok(np.abs((q.coords[c] - o) @ w).max() < 1e-9 * sc, key + ":on-plane", cell=i)
        lo, hi = pm.coords[pm.nodes(i)].min(0), pm.coords[pm.nodes(i)].max(0)
        mon.ok((q.coords[c] > lo - 1e-9 * sc).all() and (q.coords[c] < hi + 1e-9 * sc).all(), key + ":in-cell", cell=i)
        mon.eq(len(set(c)), len(c), key + ":repeated")
        got[i] += np.linalg.norm(q.poly_area_vec(c))
    for i in range(len(pm.cells)):
        if judge[i]:
            mon.close(got[i], want[i], key + ":area", tol=1e-8, scale=sc * sc, cell=pm.cells[i][0])
    if all(judge):
        mon.nontrivial = True
        mon.mark(key, *sorted({pm.cells[i][0] for i in ids}))
    # the same cells of a field
    f = m.MEDCouplingFieldDouble(m.ON_CELLS, m.ONE_TIME)
    f.setName("f")
    f.setTime(1.5, 2, 3)
    f.setMesh(u)
    arr = m.DataArrayDouble([rng.gauss(0, 1) for _ in range(2 * len(pm.cells))], len(pm.cells), 2)
    arr.setInfoOnComponents(["a [m]", "b"])
    f.setArray(arr)
    with G.Pure(mon, key, f):
        g = f.extractSlice3D(o.tolist(), v.tolist(), 1e-10)
    g.checkConsistencyLight()
    mon.eq(G.L(g.getArray()), G.L(arr.selectByTupleId(m.DataArrayInt(ids))) if ids else [], key + ":field")
    mon.eq((g.getName(), list(g.getTime()), list(g.getArray().getInfoOnComponents())), ("f", [1.5, 2, 3], ["a [m]", "b"]), key + ":field-info")
    mon.ok(g.getMesh().isEqualWithoutConsideringStr(s, 1e-14), key + ":field-mesh")


def t_surf(rng, mon, m):
    tri = rng.random() < 0.6
    pm = M.embed(rng, M.grid2(rng, None, None, "tT" if tri else "qtp", 0.2 if tri else rng.choice([0., 0.2])), curved=tri)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 1]))
    o, v, w, D, kind = plane(rng, pm)
    u = pm.um(m)
    sc = np.ptp(pm.coords, axis=0).max()
    key = "surf:" + kind
    want, judge = [], []
    for i in range(len(pm.cells)):
        c = pm.cells[i][1]
        q, d = pm.coords[c], D[c]
        n = len(c)
        a = pm.poly_area_vec(c)
        a = a / np.linalg.norm(a)
        conv = all(np.cross(q[(k + 1) % n] - q[k], q[(k + 2) % n] - q[(k + 1) % n]) @ a >= -1e-12 for k in range(n))
        on = np.abs(d) < 1e-10
        L = 0.
        if on.all():
            L = sum(np.linalg.norm(q[k] - q[(k + 1) % n]) for k in range(n))
        elif d.min() < 1e-10 and d.max() > -1e-10:
            P = [q[k] for k in range(n) if on[k]]
            for k in range(n):
                j = (k + 1) % n
                if not on[k] and not on[j] and d[k] * d[j] < 0:
                    t = d[k] / (d[k] - d[j])
                    P.append(q[k] + t * (q[j] - q[k]))
            if len(P) > 1:
                L = max(np.linalg.norm(x - y) for x in P for y in P)
        want.append(L)
        judge.append(conv)
    if max(want) == 0.:
        return
    with G.Pure(mon, key, u):
        try:
            s, ids = u.buildSlice3DSurf(o.tolist(), v.tolist(), 1e-10)
        except m.InterpKernelException as e:
            mon.ok(not all(judge), key + ":refused", want=want, what=str(e))
            return
    ids = G.L(ids)
    q = M.read(s)
    mon.need(len(ids) == len(q.cells) and all(0 <= i < len(pm.cells) for i in ids) and s.getMeshDimension() == 1, key + ":ids", ids=ids)
    got = np.zeros(len(pm.cells))
    for (t, c), i in zip(q.cells, ids):
        mon.ok(np.abs((q.coords[c] - o) @ w).max() < 1e-9 * sc, key + ":on-plane", cell=i)
        lo, hi = pm.coords[pm.nodes(i)].min(0), pm.coords[pm.nodes(i)].max(0)
        mon.ok((q.coords[c] > lo - 1e-9 * sc).all() and (q.coords[c] < hi + 1e-9 * sc).all(), key + ":in-cell", cell=i)
        got[i] += np.linalg.norm(q.coords[c[0]] - q.coords[c[1]])
    for i in range(len(pm.cells)):
        if judge[i]:
            mon.close(got[i], want[i], key + ":length", tol=1e-8, scale=sc, cell=pm.cells[i][0])
    mon.nontrivial = True
    mon.mark(key, *sorted({pm.cells[i][0] for i in ids}))


def t_clip(rng, mon, m):
    pm = M.any3(rng)
    i = rng.randrange(len(pm.cells))
    P = poly3(pm, i)
    if P is None:
        raise Skip("not convex")
    pm.cells = [pm.cells[i]]
    used = pm.nodes(0)
    back = {n: k for k, n in enumerate(used)}
    pm.cells = pm.map_nodes([back.get(n, 0) for n in range(len(pm.coords))])
    pm.coords = pm.coords[used]
    pm = M.shuffle(rng, pm)
    o, v, w, D, kind = plane(rng, pm)
    if kind == "near" or kind == "any":
        pass
    u = pm.um(m)
    key = "clip:" + kind
    if D.min() > -1e-10 or D.max() < 1e-10:
        mon.raises(lambda: u.clipSingle3DCellByPlane(o.tolist(), v.tolist(), 1e-10), key + ":not-clipped") if D.min() > 1e-3 or D.max() < -1e-3 else None
        return
    if any(sum(abs(D[n]) < 1e-10 for n in f) > 2 and max(abs(D[list(f)])) > 1e-10 for f in pm.sub(0)):
        raise Skip("plane along several colinear edges of a face: not managed")
    with G.Pure(mon, key, u):
        r = u.clipSingle3DCellByPlane(o.tolist(), v.tolist(), 1e-10)
    r.checkConsistency()
    q = M.read(r)
    mon.need(len(q.cells) == 2, key + ":number", got=len(q.cells))
    sc = np.ptp(pm.coords, axis=0).max()
    big = np.abs(pm.coords - o).max() * 3 + 1
    B = square(o, w, big)
    top = [tuple(np.array(x) + w * big) for x in B]
    H = C.Poly3([B, top] + [[B[k], B[(k + 1) % 4], top[(k + 1) % 4], top[k]] for k in range(4)])
    pos = C.vol_convex(P, H, 1e-12)
    tot = abs(pm.measure_centre(0)[0])
    for k, x in ((0, tot - pos), (1, pos)):
        vol, g = q.measure_centre(k)
        mon.close(vol, x, key + ":volume", tol=1e-8, scale=sc ** 3, part=k)
        d = (q.coords[q.nodes(k)] - o) @ w * (1 if k else -1)
        mon.ok(d.min() > -1e-9 * sc and d.max() > 1e-9 * sc, key + ":side", part=k)
    mon.nontrivial = True
    mon.mark(key, pm.cells[0][0])


def t_planeeq(rng, mon, m):
    """Plane of faces, mean plane, projection on a line."""
    pm = M.embed(rng, M.any2(rng), curved=False)
    u = pm.um(m)
    with G.Pure(mon, "equation", u):
        e = G.np2(u.computePlaneEquationOf3DFaces())
        vec, pos = u.getFastAveragePlaneOfThis()
    sc = np.abs(pm.coords).max() + 1
    for i in range(len(pm.cells)):
        n = np.linalg.norm(e[i, :3])
        mon.ok(n > 0 and np.abs(pm.coords[pm.nodes(i)] @ e[i, :3] + e[i, 3]).max() < 1e-8 * sc * n, "equation:on")
    w = np.array(vec) / np.linalg.norm(vec)
    mon.ok(np.abs((pm.coords[sorted(set(sum((pm.nodes(i) for i in range(len(pm.cells))), [])))] - pos) @ w).max() < 1e-8 * sc, "equation:fast-average")
    mon.nontrivial = True
    mon.mark("equation")


REF = {M.SEG2: [[-1.], [1.]], M.TRI3: [[0., 0], [1, 0], [0, 1]], M.QUAD4: [[-1., -1], [1, -1], [1, 1], [-1, 1]],
       M.TETRA4: [[0., 1, 0], [0, 0, 1], [0, 0, 0], [1, 0, 0]]}


def t_voronoi(rng, mon, m):
    """One cell for each Gauss point: the part of the cell nearest to it in the reference cell."""
    t = rng.choice([M.SEG2, M.TRI3, M.TRI3, M.QUAD4, M.TETRA4])
    md = len(REF[t][0])
    sd = rng.choice([d for d in (1, 2, 3) if d >= md])
    n = rng.randint(1, 4)
    R = np.array(REF[t])
    X, cells, maps = [], [], []
    for k in range(n):
        A = np.array([[rng.uniform(-1, 1) for _ in range(md)] for _ in range(sd)])
        if md == sd and md > 1 and np.linalg.det(A) < 0 and md == 3:
            A[:, 0] *= -1
        o = np.array([rng.uniform(-3, 3) for _ in range(sd)]) + 5 * k
        if np.linalg.svd(A)[1].min() < 0.15:
            raise Skip("flat")
        cells.append((t, list(range(len(X), len(X) + len(R)))))
        X += (R @ A.T + o).tolist()
        maps.append((A, o))
    pm = M.PM(np.array(X), cells, md)
    u = pm.um(m)
    f = m.MEDCouplingFieldDouble(m.ON_GAUSS_PT, m.ONE_TIME)
    f.setName("g")
    f.setTime(2.5, 3, 4)
    f.setMesh(u)
    nl = rng.randint(1, min(2, n))
    locs = []
    which = [k if k < nl else rng.randrange(nl) for k in range(n)]
    rng.shuffle(which)
    for i in range(nl):
        q = rng.randint(1, 5 if md < 3 else 3)
        P = []
        while len(P) < q:
            w = np.array([rng.random() + 0.1 for _ in R])
            p = (w / w.sum()) @ R
            if t == M.QUAD4:
                p = np.array([rng.uniform(-.9, .9) for _ in "xy"])
            if all(np.linalg.norm(p - z) > 0.12 for z in P):
                P.append(p)
        P = np.array(P)
        locs.append(P)
        f.setGaussLocalizationOnCells([k for k in range(n) if which[k] == i], R.ravel().tolist(), P.ravel().tolist(), [1.] * q)
    tot = sum(len(locs[w]) for w in which)
    arr = m.DataArrayDouble([rng.gauss(0, 1) for _ in range(tot)], tot, 1)
    f.setArray(arr)
    f.checkConsistencyLight()
    key = f"voronoi:{md}d"
    with G.Pure(mon, key, f):
        g = f.voronoize(1e-10)
    g.checkConsistencyLight()
    mon.eq(G.L(g.getArray()), G.L(arr), key + ":values")
    mon.eq((g.getName(), list(g.getTime())), ("g", [2.5, 3, 4]), key + ":name")
    r = M.read(g.getMesh())
    mon.need(len(r.cells) == tot, key + ":number", got=len(r.cells), want=tot)
    off = 0
    for k in range(n):
        P = locs[which[k]]
        A, o = maps[k]
        inv = np.linalg.pinv(A)
        J = math.sqrt(abs(np.linalg.det(A.T @ A)))
        vol = 0.
        ref = []
        for c in range(len(P)):
            no = r.nodes(off + c)
            Y = (r.coords[no] - o) @ inv.T
            mon.close(Y @ A.T + o, r.coords[no], key + ":in-plane", tol=1e-9, scale=10.)
            back = dict(zip(no, range(len(no))))
            # in the reference cell every vertex is at least as near to its point as to the others
            D = np.linalg.norm(Y[:, None, :] - P[None, :, :], axis=2)
            mon.ok((D[:, c] <= D.min(1) + 1e-7).all(), key + ":nearest", cell=k, point=c)
            tt, cc = r.cells[off + c]
            if md == 1:
                v = abs(Y[back[cc[0]], 0] - Y[back[cc[1]], 0])
            elif md == 2:
                v = abs(C.area2([tuple(Y[back[x]]) for x in cc]))
            else:
                q = M.PM(Y, [(tt, [[back[x] for x in fc] for fc in cc])] if tt == M.POLYHED else [(tt, [back[x] for x in cc])], 3)
                v = abs(q.measure_centre(0)[0])
            vol += v
            ref.append(v)
        full = {M.SEG2: 2., M.TRI3: .5, M.QUAD4: 4., M.TETRA4: 1 / 6.}[t]
        mon.close(vol, full, key + ":cover", tol=1e-7)
        mon.ok(min(ref) > 0, key + ":empty")
        off += len(P)
        del J
    mon.nontrivial = True
    mon.mark(key, sd, nl, tot)


OPS = [("voronoi", t_voronoi), ("slice", t_slice), ("slice2", t_slice), ("surf", t_surf), ("clip", t_clip), ("plane", t_planeeq)]
FAMILIES = [G.table("section", OPS, 300)]
