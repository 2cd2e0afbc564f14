"""Spatial searches return exactly what a brute force search over the geometry gives."""
import math

import numpy as np

from props import clip as C
from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("Each case builds a mesh (any cell types in 1-D, 2-D, 3-D, polygons which are not convex, arcs, polyhedra, "
        "structured meshes, lines and surfaces in a space of one dimension more), draws points in, out, far from and "
        "next to it, planes, lines and boxes, and compares every spatial search of the library with a direct search over "
        "the geometry of every cell or node; points or cells within a small margin of the decision are not judged. "
        "Non-trivial: at least one point, node or cell is found.")
ASSUMPTIONS = ["cells have planar faces; QUAD4 cells are convex when points are looked up, as documented"]


def seg_dist(p, a, b):
    p, a, b = map(np.asarray, (p, a, b))
    u = b - a
    n = u @ u
    t = 0. if n == 0 else min(1., max(0., (p - a) @ u / n))
    return float(np.linalg.norm(p - a - t * u))


def winding(poly, x):
    """(inside, distance to the border)"""
    q = np.asarray(poly)
    r = np.roll(q, -1, axis=0)
    u, w = q - x, r - x
    ang = np.arctan2(u[:, 0] * w[:, 1] - u[:, 1] * w[:, 0], (u * w).sum(1)).sum()
    e = r - q
    n = (e * e).sum(1)
    t = np.clip(((x - q) * e).sum(1) / np.where(n == 0, 1, n), 0, 1)
    d = np.sqrt(((q + t[:, None] * e - x) ** 2).sum(1)).min()
    return abs(ang) > math.pi, float(d)


def arc_points(a, b, c, n=600):
    """The arc a -> b (end) through c."""
    a, b, c = map(np.asarray, (a, b, c))
    A = 2 * np.array([b - a, c - a])
    if abs(np.linalg.det(A)) < 1e-9 * (np.abs(b - a).max() ** 2):
        return np.array([a, c])
    o = np.linalg.solve(A, [b @ b - a @ a, c @ c - a @ a])
    ang = [math.atan2(*(q - o)[::-1]) for q in (a, c, b)]
    r = np.linalg.norm(a - o)
    d = (ang[2] - ang[0]) % (2 * math.pi)
    if (ang[1] - ang[0]) % (2 * math.pi) > d:
        d -= 2 * math.pi
    t = ang[0] + d * np.arange(n) / n
    return o + r * np.stack([np.cos(t), np.sin(t)], 1)


def border(pm, i):
    """The polygon of a 2-D cell, arcs replaced by many segments."""
    t, c = pm.cells[i]
    if t in M.MIDS or t == M.QPOLYG:
        n = len(c) // 2
        return np.concatenate([arc_points(pm.coords[c[k]], pm.coords[c[(k + 1) % n]], pm.coords[c[n + k]])
                               for k in range(n)])
    return pm.coords[c]


class Cells:
    """Where is a point: inside(i, x) -> signed margin (> 0 inside)."""

    def __init__(self, pm, mon=None):
        self.pm, self.g = pm, []
        d = pm.mdim
        for i in range(len(pm.cells)):
            if d == 1:
                q = pm.coords[pm.cells[i][1][:2], 0]
                self.g.append((q.min(), q.max()))
            elif d == 2:
                self.g.append(border(pm, i))
            else:
                c = pm.coords[pm.nodes(i)].mean(0)
                H = []
                for f in pm.sub(i):
                    f = list(f)
                    q = pm.coords[f]
                    n = pm.poly_area_vec(f)
                    a = np.linalg.norm(n)
                    if a < 1e-12 * np.ptp(q, axis=0).max() ** 2:
                        raise Skip("flat face")
                    n = n / a
                    o = q.mean(0)
                    if np.abs((q - o) @ n).max() > 1e-9 * np.ptp(q, axis=0).max():
                        raise Skip("not planar")
                    s = (c - o) @ n
                    H.append((n if s < 0 else -n, o))
                q = pm.coords[pm.nodes(i)]
                if max(((q - o) @ n).max() for n, o in H) > 1e-9 * np.ptp(q, axis=0).max():
                    raise Skip("not convex")
                self.g.append(H)

    def margin(self, i, x):
        g = self.g[i]
        if self.pm.mdim == 1:
            return min(x[0] - g[0], g[1] - x[0])
        if self.pm.mdim == 2:
            lo, hi = g.min(0), g.max(0)
            far = max((lo - x).max(), (x - hi).max())
            if far > 0.5 * (hi - lo).max():
                return -far
            ins, d = winding(g, x)
            return d if ins else -d
        return -max(float((x - o) @ n) for n, o in g)


def ccw(q):
    q = [tuple(x) for x in q]
    return q if C.area2(q) > 0 else q[::-1]


def star(rng, n=None):
    """One polygon, not convex in general."""
    n = n or rng.randint(4, 9)
    a = np.sort([2 * math.pi * (i + rng.uniform(0.1, 0.9)) / n for i in range(n)])
    r = np.array([rng.uniform(0.3, 1.) for _ in range(n)])
    return np.stack([r * np.cos(a), r * np.sin(a)], 1)


def pick_mesh(rng):
    k = rng.choice(["1", "2", "2", "2", "star", "arc", "3", "3", "3"])
    if k == "1":
        pm = M.line(rng, 1)
    elif k == "2":
        pm = M.any2(rng)
    elif k == "star":
        polys, at = [], 0.
        for _ in range(rng.randint(1, 3)):
            polys.append(star(rng) + [at, rng.uniform(-0.5, 0.5)])
            at += rng.choice([2.5, 0.4])  # apart, or overlapping
        X = np.concatenate(polys)
        cells, s = [], 0
        for p in polys:
            cells.append((M.POLYGON, list(range(s, s + len(p)))))
            s += len(p)
        pm = M.PM(X, cells, 2)
    elif k == "arc":
        pm = M.quadratic(rng, M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "qT", 0.1))
        bend(rng, pm)
    else:
        pm = M.any3(rng)
    if k != "1" and rng.random() < 0.6:
        pm = M.affine(rng, pm, rigid=k == "arc", positive=False)
    return M.shuffle(rng, pm, orphans=rng.choice([0, 0, 2])), k


def bend(rng, pm):
    """Move the middle nodes of a quadratic 2-D mesh out of their segments."""
    done = set()
    for t, c in pm.cells:
        n = len(c) // 2
        for k in range(n):
            if c[n + k] in done:
                continue
            done.add(c[n + k])
            a, b = pm.coords[c[k]], pm.coords[c[(k + 1) % n]]
            s = rng.choice([0., 0., 0.12, -0.12, 0.2]) * rng.random()
            pm.coords[c[n + k]] = (a + b) / 2 + s * np.array([a[1] - b[1], b[0] - a[0]])


def points(rng, pm, n):
    d = pm.sdim
    used = pm.coords[sorted({x for i in range(len(pm.cells)) for x in pm.nodes(i)})]
    lo, hi = used.min(0), used.max(0)
    r = []
    for _ in range(n):
        k = rng.choice(["box", "box", "cell", "cell", "out", "edge"])
        if k == "box":
            r.append([rng.uniform(lo[i], hi[i]) for i in range(d)])
        elif k == "out":
            r.append([rng.uniform(2 * lo[i] - hi[i], 2 * hi[i] - lo[i]) for i in range(d)])
        else:
            q = pm.coords[pm.nodes(rng.randrange(len(pm.cells)))]
            w = np.array([rng.random() + 1e-3 for _ in q])
            x = (w / w.sum()) @ q
            if k == "edge":
                a = q[rng.randrange(len(q))]
                x = a + (x - a) * rng.choice([0.02, 1e-3, 1., 1.2])
            r.append(x)
    return np.array(r, float)


def check_where(mon, key, CE, pts, got, eps, size, first=False):
    """got: per point the ids found (or the id when first)."""
    pm = CE.pm
    for k, x in enumerate(pts):
        sure, perhaps = [], []
        for i in range(len(pm.cells)):
            g = CE.margin(i, x)
            tol = 4 * eps * max(size[i], 1 / size[i]) + 4e-9 * size[i] + (1e-5 * size[i] if len(pm.cells) and pm.mdim == 2 and len(CE.g[i]) > 100 else 0.)
            if g > tol:
                sure.append(i)
            elif g >= -tol:
                perhaps.append(i)
        if first:
            ok = got[k] in sure + perhaps if got[k] >= 0 else not sure
            if sure and not perhaps:
                ok = ok and got[k] == min(sure)
            mon.ok(ok, key, x=x, got=got[k], inside=sure, border=perhaps)
        else:
            s = set(got[k])
            mon.ok(set(sure) <= s <= set(sure) | set(perhaps) and len(s) == len(got[k]), key, x=x, got=got[k], inside=sure,
                   border=perhaps)
        if sure:
            mon.nontrivial = True
            mon.mark(key, pm.cells[sure[0]][0], len(sure) > 1)


def sizes(pm):
    return [float(np.ptp(pm.coords[pm.nodes(i)], axis=0).max()) for i in range(len(pm.cells))]


def groups(e, ei):
    e, ei = G.L(e), G.L(ei)
    return [e[ei[i]:ei[i + 1]] for i in range(len(ei) - 1)]


# ------------------------------------------------------------------------------------------------- containing
def t_contains(rng, mon, m):
    pm, k = pick_mesh(rng)
    if pm.mdim == 2:
        for i, (t, c) in enumerate(pm.cells):
            if t == M.QUAD4 and not C.convex2(ccw(pm.coords[c])):
                pm.cells[i] = (M.POLYGON, c)
    CE = Cells(pm)
    u = pm.um(m)
    if pm.mdim == 2 and k == "2" and rng.random() < 0.3:
        u.convertAllToPoly()
    size = sizes(pm)
    eps = rng.choice([1e-12, 1e-12, 1e-10, 1e-6])
    pts = points(rng, pm, rng.randint(1, 25))
    key = "containing:" + k
    with G.Pure(mon, key, u):
        e, ei = u.getCellsContainingPoints(G.npd(m, pts), eps)
    got = groups(e, ei)
    mon.eq(len(got), len(pts), key + ":index")
    check_where(mon, key + ":points", CE, pts, got, eps, size)
    x = pts[0].tolist()
    check_where(mon, key + ":point", CE, pts[:1], [G.L(u.getCellsContainingPoint(x, eps))], eps, size)
    check_where(mon, key + ":cell", CE, pts[:1], [u.getCellContainingPoint(x, eps)], eps, size, True)
    e, ei = u.getCellsContainingPoints(pts.ravel().tolist(), len(pts), eps)
    mon.eq(groups(e, ei), got, key + ":list-and-array")
    if k in "123":
        e, ei = u.getCellsContainingPointsLinearPartOnlyOnNonDynType(G.npd(m, pts), eps)
        check_where(mon, key + ":linear", CE, pts, groups(e, ei), eps, size)
    # renumbering cells only renames the answers
    p = G.perm(rng, len(pm.cells))
    v = u.deepCopy()
    v.renumberCells(p, True)
    e, ei = v.getCellsContainingPoints(G.npd(m, pts), eps)
    mon.eq([sorted(l) for l in groups(e, ei)], [sorted(p[i] for i in l) for l in got], key + ":renumbered")


def t_structured(rng, mon, m):
    k = rng.choice(["c", "c", "i", "curvi"])
    d = rng.choice([1, 2, 3])
    if k == "c":
        s = M.cmesh(rng, m, d)
    elif k == "i":
        s = M.imesh(rng, m, d)
    else:
        s = M.curvi(rng, m, rng.choice([2, 3]))
    s = s[0]
    if s.getNumberOfCells() == 0 or s.getSpaceDimension() != s.getMeshDimension():
        raise Skip("no cell")
    u = s.buildUnstructured()
    pm = M.read(u)
    CE = Cells(pm)
    pts = points(rng, pm, rng.randint(1, 20))
    size = sizes(pm)
    eps = 1e-11
    key = "structured:" + k
    with G.Pure(mon, key, s):
        check_where(mon, key + ":cell", CE, pts, [s.getCellContainingPoint(x.tolist(), eps) for x in pts], eps, size, True)
        check_where(mon, key + ":point", CE, pts, [G.L(s.getCellsContainingPoint(x.tolist(), eps)) for x in pts], eps, size)
        e, ei = s.getCellsContainingPoints(G.npd(m, pts), eps)
    check_where(mon, key + ":points", CE, pts, groups(e, ei), eps, size)


# ------------------------------------------------------------------------------------------------- distances
def tri_dist(p, a, b, c):
    n = np.cross(b - a, c - a)
    n2 = n @ n
    if n2 > 0:
        q = p - ((p - a) @ n) / n2 * n
        if all(np.cross(v - u_, q - u_) @ n >= 0 for u_, v in ((a, b), (b, c), (c, a))):
            return abs((p - a) @ n) / math.sqrt(n2)
    return min(seg_dist(p, a, b), seg_dist(p, b, c), seg_dist(p, c, a))


def poly_dist(p, q):
    """Distance to a planar polygon of space."""
    n = sum(np.cross(q[i] - q[0], q[i + 1] - q[0]) for i in range(1, len(q) - 1))
    n = n / np.linalg.norm(n)
    h = (p - q[0]) @ n
    e1 = q[1] - q[0]
    e1 = e1 / np.linalg.norm(e1)
    e2 = np.cross(n, e1)
    P = np.stack([(q - q[0]) @ e1, (q - q[0]) @ e2], 1)
    ins, d = winding(P, np.array([(p - q[0]) @ e1, (p - q[0]) @ e2]))
    return abs(h) if ins else math.hypot(h, d)


def t_distance(rng, mon, m):
    k = rng.choice(["line", "tri", "planar"])
    if k == "line":
        pm = M.line(rng, 2)
        pm = M.PM(pm.coords, [(M.SEG2, c[:2]) for _, c in pm.cells], 1)
    elif k == "tri":
        pm = M.embed(rng, M.grid2(rng, None, None, "tT", 0.2), curved=True)
    else:
        pm = M.any2(rng)
        pm.cells = [(t, c) for t, c in pm.cells if C.convex2(ccw(pm.coords[c]))]  # the library's distance to a polygon
        if not pm.cells:                                                             # is for convex ones
            raise Skip("not convex")
        pm = M.embed(rng, pm, curved=False)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 1]))
    if k == "planar":  # several planes
        q = pm.copy()
        R = G.rotation(rng, 3)
        off = len(pm.coords)
        pm = M.PM(np.concatenate([pm.coords, q.coords @ R.T + [rng.uniform(-1, 1) for _ in range(3)]]),
                  pm.cells + [(t, [n + off for n in c]) for t, c in q.cells], 2)
    if k != "planar":
        pm.coords = pm.coords * rng.choice([1., 1., 1e-4, 1e4])
    u = pm.um(m)
    n = rng.randint(1, 15)
    ctr, ext = pm.coords.mean(0), np.ptp(pm.coords, axis=0).max()
    pts = []
    for _ in range(n):
        x = ctr + np.array([rng.gauss(0, 1) for _ in ctr]) * ext * rng.choice([0.3, 0.3, 1, 10])
        if rng.random() < 0.3:
            q = pm.coords[pm.cells[rng.randrange(len(pm.cells))][1]]
            w = np.array([rng.random() for _ in q])
            x = (w / w.sum()) @ q
            if rng.random() < 0.5:
                x = q[0].copy()
        pts.append(x)
    pts = np.array(pts)
    f = {"line": lambda p, q: seg_dist(p, *q), "tri": lambda p, q: tri_dist(p, *q), "planar": poly_dist}[k]
    D = np.array([[f(p, pm.coords[pm.cells[i][1]]) for i in range(len(pm.cells))] for p in pts])
    key = "distance:" + k
    with G.Pure(mon, key, u):
        d, ids = u.distanceToPoints(G.npd(m, pts))
    d, ids = G.np2(d).ravel(), G.L(ids)
    sc = ext * 10
    mon.nontrivial = True
    mon.mark(key)
    mon.close(d, D.min(1), key + ":distance", tol=1e-9, scale=sc)
    for i in range(n):
        mon.ok(0 <= ids[i] < len(pm.cells) and abs(D[i, ids[i]] - D[i].min()) <= 1e-9 * sc, key + ":cell", got=ids[i],
               want=int(D[i].argmin()))
        e, j = u.distanceToPoint(pts[i].tolist())
        mon.close(e, D[i].min(), key + ":point", tol=1e-9, scale=sc)
        mon.ok(0 <= j < len(pm.cells) and abs(D[i, j] - D[i].min()) <= 1e-9 * sc, key + ":point-cell", got=j)


# ------------------------------------------------------------------------------------------------- boxes and planes
def t_box(rng, mon, m):
    pm = M.anymesh(rng)
    if rng.random() < 0.3:
        pm = M.affine(rng, pm) if pm.mdim == pm.sdim and pm.mdim > 1 else pm
    u = pm.um(m)
    lo = np.array([pm.coords[pm.nodes(i)].min(0) for i in range(len(pm.cells))])
    hi = np.array([pm.coords[pm.nodes(i)].max(0) for i in range(len(pm.cells))])
    eps = rng.choice([1e-12, 1e-9, 0.01, 0.3])
    for _ in range(3):
        if rng.random() < 0.3:  # the box of one cell
            j = rng.randrange(len(pm.cells))
            b = np.stack([lo[j], hi[j]], 1)
        else:
            a = np.array([rng.uniform(x - 0.2, y + 0.2) for x, y in zip(lo.min(0), hi.max(0))])
            b = np.stack([a, a + np.array([rng.choice([0., 0.1, 1.]) * rng.random() for _ in a])], 1)
        with G.Pure(mon, "box", u):
            got = G.L(u.getCellsInBoundingBox(b.ravel().tolist(), eps))
        ext = (hi - lo).max(1)
        gap = np.maximum(lo - b[:, 1], b[:, 0] - hi).max(1)  # > 0: apart
        pos = gap - eps * ext
        sure = set(np.nonzero(pos < -1e-13 * (1 + np.abs(b).max()))[0].tolist())
        maybe = set(np.nonzero(np.abs(pos) <= 1e-13 * (1 + np.abs(b).max()))[0].tolist())
        mon.ok(sure <= set(got) <= sure | maybe and got == sorted(set(got)), "box:cells", got=got, want=sorted(sure),
               box=b.tolist(), eps=eps, d=pm.mdim)
        if sure:
            mon.nontrivial = True
            mon.mark("box", pm.mdim, pm.sdim, len(sure) == len(pm.cells))
    bb = u.getBoundingBox()
    mon.close(np.array(bb), np.stack([pm.coords.min(0), pm.coords.max(0)], 1), "box:whole", tol=1e-12, scale=10) \
        if len({x for i in range(len(pm.cells)) for x in pm.nodes(i)}) == len(pm.coords) else None


def t_plane(rng, mon, m):
    pm = M.any3(rng) if rng.random() < 0.6 else M.embed(rng, M.any2(rng), curved=rng.random() < 0.5)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 1]))
    u = pm.um(m)
    o = pm.coords[rng.randrange(len(pm.coords))] if rng.random() < 0.5 else \
        pm.coords.mean(0) + np.array([rng.gauss(0, 1) for _ in range(3)])
    v = np.array(rng.choice([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, 2, 0], None, None, None]) or
                 [rng.gauss(0, 1) for _ in range(3)], float)
    nv = np.linalg.norm(v)
    D = (pm.coords - o) @ v / nv
    eps = rng.choice([1e-10, 1e-10, 1e-3, 0.1 if list(v).count(0.) == 2 else 1e-4])
    sc = 1e-11 * (1 + np.abs(pm.coords).max() + np.abs(o).max())
    with G.Pure(mon, "plane", u):
        got = G.L(u.findNodesOnPlane(o.tolist(), v.tolist(), eps))
    sure = set(np.nonzero(np.abs(D) < eps - sc)[0].tolist())
    may = set(np.nonzero(np.abs(np.abs(D) - eps) <= sc)[0].tolist())
    mon.ok(sure <= set(got) <= sure | may and got == sorted(set(got)), "plane:nodes", got=got, want=sorted(sure), eps=eps)
    a = np.array([D[pm.nodes(i)].min() for i in range(len(pm.cells))])
    b = np.array([D[pm.nodes(i)].max() for i in range(len(pm.cells))])
    with G.Pure(mon, "plane", u):
        got = G.L(u.getCellIdsCrossingPlane(o.tolist(), v.tolist(), eps))
    pos = np.maximum(a, -b) - eps
    ext = 2 * np.array([np.linalg.norm(np.ptp(pm.coords[pm.nodes(i)], axis=0)) for i in range(len(pm.cells))])
    sure = set(np.nonzero(pos < -sc)[0].tolist())
    may = set(np.nonzero((pos >= -sc) & (pos <= sc + eps * ext))[0].tolist())  # eps also grows the boxes of the cells
    mon.ok(sure <= set(got) <= sure | may and got == sorted(set(got)), "plane:cells", got=got, want=sorted(sure),
           border=sorted(may), eps=eps, v=v)
    if sure:
        mon.nontrivial = True
        mon.mark("plane", pm.mdim, v.tolist().count(0.) == 2)


def t_line(rng, mon, m):
    pm = M.anymesh(rng, dims=(2, 3)) if rng.random() < 0.7 else M.line(rng, rng.choice([2, 3]))
    if pm.sdim not in (2, 3):
        raise Skip("1d")
    u = pm.um(m)
    o = pm.coords[rng.randrange(len(pm.coords))]
    e = pm.coords[rng.randrange(len(pm.coords))]
    v = e - o
    if np.linalg.norm(v) < 1e-3:
        v = np.array([rng.gauss(0, 1) for _ in range(pm.sdim)])
    o = o + v * rng.uniform(-1, 2)
    v = v * rng.choice([1., 1., 0.1, 30.])
    w = v / np.linalg.norm(v)
    X = pm.coords - o
    D = np.linalg.norm(X - (X @ w)[:, None] * w, axis=1)
    eps = min(rng.choice([1e-9, 1e-9, 1e-3, 0.1]), 0.09 * np.linalg.norm(v))
    sc = 1e-10 * (1 + np.abs(pm.coords).max() + np.abs(o).max())
    with G.Pure(mon, "line", u):
        got = G.L(u.findNodesOnLine(o.tolist(), v.tolist(), eps))
    sure = set(np.nonzero(D < eps - sc)[0].tolist())
    may = set(np.nonzero(np.abs(D - eps) <= sc)[0].tolist())
    mon.ok(sure <= set(got) <= sure | may and got == sorted(set(got)), "line:nodes", got=got, want=sorted(sure), eps=eps,
           d=pm.sdim, border=sorted(may))
    if sure:
        mon.nontrivial = True
        mon.mark("line", pm.sdim, len(sure) > 2)
    # nodes near points
    pts = np.array([pm.coords[rng.randrange(len(pm.coords))] + np.array([rng.gauss(0, 1) for _ in range(pm.sdim)]) *
                    rng.choice([0., 1e-12, 0.05, 0.5]) for _ in range(rng.randint(1, 8))])
    eps = rng.choice([1e-9, 0.01, 0.2, 0.6])
    c, ci = u.getNodeIdsNearPoints(G.npd(m, pts), eps)
    for x, l in zip(pts, groups(c, ci)):
        D = np.abs(pm.coords - x).max(1)
        sure, may = set(np.nonzero(D < eps * (1 - 1e-9))[0].tolist()), set(np.nonzero(D <= eps * (1 + 1e-9))[0].tolist())
        mon.ok(sure <= set(l) <= may and len(l) == len(set(l)), "near:points", got=l, want=sorted(sure), eps=eps)
        l = G.L(u.getNodeIdsNearPoint(x.tolist(), eps))
        mon.ok(sure <= set(l) <= may and len(l) == len(set(l)), "near:point", got=l, want=sorted(sure), eps=eps)


def t_closest(rng, mon, m):
    """Boxes that can hold what is the closest to a point."""
    d = rng.choice([1, 2, 3])
    n = rng.choice([1, 5, 14, 15, 16, 40, 120, 300])
    if rng.random() < .5:
        c = np.array([[rng.uniform(-2, 2) for _ in range(d)] for _ in range(n)])
    else:
        c = np.array([[float(rng.randint(-3, 3)) for _ in range(d)] for _ in range(n)])
    h = np.array([[rng.choice([0., .05, .3]) * rng.random() if rng.random() < .9 else rng.uniform(0, 2) for _ in range(d)] for _ in range(n)])
    b = np.stack([c - h, c + h], axis=2).reshape(n, 2 * d)
    B = b.reshape(n, d, 2)
    k = rng.choice([1, 3, 12])
    sp = rng.choice([2., 2., 10.])
    X = np.array([[rng.uniform(-sp, sp) for _ in range(d)] for _ in range(k)])
    if rng.random() < .3:
        X[0] = c[0]
    key = f"closest:{d}d"
    ba, xa = G.npd(m, b), G.npd(m, X)
    with G.Pure(mon, key, ba, xa):
        l = groups(*xa.candidatesClosestTo(ba))
    mon.need(len(l) == k, key + ":number")
    for i, x in enumerate(X):
        lo = np.maximum(np.maximum(B[:, :, 0] - x, x - B[:, :, 1]), 0)
        hi = np.maximum(np.abs(B[:, :, 0] - x), np.abs(B[:, :, 1] - x))
        a, z = np.linalg.norm(lo, axis=1), np.linalg.norm(hi, axis=1)
        # whatever the objects that fill the boxes, the closest is one of these
        # the object touches every side of its box: one point of each side
        must = set(np.nonzero(a <= reach(B, x).min() - 1e-9)[0].tolist()) | {int(reach(B, x).argmin())}
        may = set(np.nonzero(a <= z.min() + 1e-9)[0].tolist())
        mon.ok(must <= set(l[i]), key + ":missing", missing=sorted(must - set(l[i]))[:5], n=n, x=x)
        mon.ok(set(l[i]) <= may, key + ":useless", extra=sorted(set(l[i]) - may)[:5], n=n, x=x, at=i, total=len(l[i]))
        mon.eq(len(l[i]), len(set(l[i])), key + ":twice", n=n, at=i)
    bins = m.MEDCouplingCMesh.ComputeBinsOfCells(ba)
    bm = M.read(bins.buildUnstructured())
    L = np.array([bm.coords[bm.nodes(i)].min(0) for i in range(len(bm.cells))])
    H = np.array([bm.coords[bm.nodes(i)].max(0) for i in range(len(bm.cells))])
    mon.close(np.concatenate([L.min(0), H.max(0)]), np.concatenate([B[:, :, 0].min(0), B[:, :, 1].max(0)]), key + ":bins-box", tol=1e-12, scale=10)
    for q in range(n):
        mon.ok(((L <= B[q, :, 0] + 1e-12) & (H >= B[q, :, 1] - 1e-12)).all(1).any(), key + ":bins", n=n, bins=len(L), box=q)
    mon.nontrivial = n > 15
    mon.mark(key, n > 15, n > 100)


def reach(B, x):
    """Greatest possible distance of the point to the closest point of an object that touches every side of its box."""
    hi = np.maximum(np.abs(B[:, :, 0] - x), np.abs(B[:, :, 1] - x))
    return np.linalg.norm(hi, axis=1)


OPS = [("contains", t_contains), ("contains", t_contains), ("structured", t_structured), ("distance", t_distance),
       ("box", t_box), ("plane", t_plane), ("line", t_line), ("closest", t_closest)]
FAMILIES = [G.table("search", OPS, 270)]
