"""Intersecting, splitting and conformizing meshes partitions the same geometry."""
import math

import numpy as np

from props import clip as C
from props import gen as G
from props import mesh as M
from props.C09 import bend, border, ccw, groups, winding, seg_dist
from vt.worker import Skip

RULE = ("Each case builds clean meshes (conform, oriented, straight edges or arcs of circle, in general position or "
        "sharing nodes and edges), cuts or repairs them with the library and checks the result against the inputs: "
        "measures cell by cell, exact clips of pairs of convex cells, and the cells which hold random points; points "
        "close to a border are not judged. Non-trivial: something was cut, split or merged.")
ASSUMPTIONS = ["the meshes given are clean, as documented: conform, same orientation, each point covered at most once, nodes "
               "apart by much more than eps"]


# ------------------------------------------------------------------------------------------------- geometry with arcs
def arc_bulge(a, b, c):
    """Signed area between the chord a-b and the arc a-c-b (positive when the arc is on the right of a-b)."""
    h = C.cross2(a, b, c) / np.linalg.norm(b - a)  # > 0: c on the left
    A = 2 * np.array([b - a, c - a])
    if abs(C.cross2(a, b, c)) < 1e-12 * ((b - a) @ (b - a)):
        return 0.
    o = np.linalg.solve(A, [b @ b - a @ a, c @ c - a @ a])
    r = np.linalg.norm(a - o)
    L = np.linalg.norm(b - a) / 2
    s = math.sqrt(max(0., r * r - L * L))
    up = C.cross2(a, b, o) * h > 0  # the centre is on the side of the arc: more than half a circle
    t = 2 * (math.pi - math.asin(min(1., L / r))) if up else 2 * math.asin(min(1., L / r))
    del s
    A = r * r * (t - math.sin(t)) / 2
    return -A if h > 0 else A


def area_cell(pm, i):
    """Signed area, positive when clockwise: the orientation the library takes for the right one."""
    return -area_ccw(pm, i)


def area_ccw(pm, i):
    t, c = pm.cells[i]
    if t in M.MIDS or t == M.QPOLYG:
        n = len(c) // 2
        q = pm.coords[c]
        return C.area2([tuple(x) for x in q[:n]]) + sum(arc_bulge(q[k], q[(k + 1) % n], q[n + k]) for k in range(n))
    return C.area2([tuple(x) for x in pm.coords[c]])


def edges_ok(pm, i):
    """No edge of the cell crosses another one, no angle is nearly flat or nul."""
    q = border(pm, i)
    ok = pm.cells[i][0] in M.MIDS or pm.cells[i][0] == M.QPOLYG
    n = len(pm.cells[i][1]) // 2 if ok else len(q)
    st = [int(np.argmin(((q - pm.coords[c]) ** 2).sum(1))) for c in pm.cells[i][1][:n]]
    for k in st:
        u, w = q[k - 1] - q[k], q[(k + 1) % len(q)] - q[k]
        a = (math.atan2(w[1], w[0]) - math.atan2(u[1], u[0])) % (2 * math.pi)  # the cell is clockwise
        if not 0.1 < a < 2 * math.pi - 0.1:
            return False
    q = border(pm, i)[::20 if pm.cells[i][0] in M.MIDS else 1]
    n = len(q)
    for a in range(n):
        for b in range(a + 2, n):
            if (b + 1) % n == a:
                continue
            p, r, s, t = q[a], q[a + 1], q[b], q[(b + 1) % n]
            if C.cross2(p, r, s) * C.cross2(p, r, t) <= 0 and C.cross2(s, t, p) * C.cross2(s, t, r) <= 0:
                return False
    return True


def locate(borders, x):
    """(cells which hold x, distance to the nearest border)"""
    r, d = [], math.inf
    for i, q in enumerate(borders):
        lo, hi = q.min(0), q.max(0)
        far = max((lo - x).max(), (x - hi).max())
        if far > 0:
            d = min(d, far)
            continue
        ins, e = winding(q, x)
        d = min(d, e)
        if ins:
            r.append(i)
    return r, d


def clean2(rng, big=False, arcs=None):
    """A conform 2-D mesh, clockwise cells."""
    n = 4 if big else 3
    arcs = rng.random() < 0.4 if arcs is None else arcs
    if arcs:
        pm = M.quadratic(rng, M.grid2(rng, rng.randint(1, n), rng.randint(1, n), rng.choice(["q", "T", "qT"]), rng.choice([0., 0.1])))
        bend(rng, pm)
    else:
        pm = M.grid2(rng, rng.randint(1, n), rng.randint(1, n), rng.choice(["q", "T", "qtpT"]), rng.choice([0., 0., 0.25]))
    orient2(pm)
    for i in range(len(pm.cells)):
        if arcs and not edges_ok(pm, i):
            raise Skip("arcs cross")
    return pm


def orient2(pm):
    for i, (t, c) in enumerate(pm.cells):
        if area_cell(pm, i) < 0:
            if t in M.MIDS or t == M.QPOLYG:
                n = len(c) // 2
                a, b = c[:n][::-1], c[n:][::-1]
                pm.cells[i] = (t, a + b[1:] + b[:1])
            else:
                pm.cells[i] = (t, c[::-1])


def place(rng, pm, lo, hi, exact=False):
    """Put pm over the box lo-hi."""
    q = pm.copy()
    a, b = q.coords.min(0), q.coords.max(0)
    x = q.coords - (a + b) / 2
    if not exact:
        t = rng.choice([0., 0., math.pi / 4, rng.uniform(0, 6.28)])
        x = x @ np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])
        x = x * rng.choice([0.3, 0.7, 1., 1.5]) * (hi - lo).max() / (b - a).max()
        x = x + (lo + hi) / 2 + np.array([rng.uniform(-0.6, 0.6) for _ in lo]) * (hi - lo)
    else:  # aligned: nodes and edges coincide
        x = np.round((x + (b - a) / 2)) * rng.choice([0.5, 1., 1.]) + np.array([rng.choice([-1., 0., 0., 0.5, 1.]) for _ in lo])
    q.coords = x
    return q


def pts_in(rng, pms, n):
    lo = np.min([p.coords.min(0) for p in pms], 0)
    hi = np.max([p.coords.max(0) for p in pms], 0)
    return [lo + (hi - lo) * np.array([rng.random(), rng.random()]) for _ in range(n)]


def pair2(rng):
    exact = rng.random() < 0.35
    if exact:
        a = M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), rng.choice(["q", "qt", "T"]), 0.)
        b = M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), rng.choice(["q", "qt", "T"]), 0.)
        orient2(a), orient2(b)
        n = np.array([max(1., np.ptp(a.coords[:, 0])), max(1., np.ptp(a.coords[:, 1]))])
        del n
        b = place(rng, b, None, None, True) if False else b
        b.coords = b.coords * rng.choice([1., 1., 0.5, 2.]) + np.array([rng.choice([-1., 0., 0., 0.5, 1.]) for _ in "xy"])
    else:
        a = clean2(rng)
        b = clean2(rng)
        b = place(rng, b, a.coords.min(0), a.coords.max(0))
    return M.shuffle(rng, a, orphans=0, rotate=not quadr(a)), M.shuffle(rng, b, orphans=0, rotate=not quadr(b)), exact


def quadr(pm):
    return pm.cells[0][0] in M.MIDS or pm.cells[0][0] == M.QPOLYG


def t_inter(rng, mon, m):
    a, b, exact = pair2(rng)
    u, v = a.um(m), b.um(m)
    eps = 1e-10
    key = "inter:" + ("aligned" if exact else "arcs" if quadr(a) or quadr(b) else "straight")
    with G.Pure(mon, key, u, v):
        try:
            w, c1, c2 = m.MEDCouplingUMesh.Intersect2DMeshes(u, v, eps)
        except m.InterpKernelException as e:
            if "fully included in source polygon" in str(e):  # a cell with a hole cannot be described
                raise Skip("hole")
            raise
    w.checkConsistency()
    r = M.read(w)
    c1, c2 = G.L(c1), G.L(c2)
    mon.need(len(c1) == len(c2) == len(r.cells), key + ":maps", got=(len(c1), len(c2), len(r.cells)))
    mon.need(all(0 <= i < len(a.cells) for i in c1) and all(-1 <= j < len(b.cells) for j in c2), key + ":ids", c1=c1, c2=c2)
    mon.need(len(r.coords) >= len(a.coords) and (r.coords[:len(a.coords)] == a.coords).all(), key + ":nodes-first")
    A = np.array([area_cell(r, i) for i in range(len(r.cells))])
    sc = max(np.ptp(a.coords, axis=0).max(), np.ptp(b.coords, axis=0).max()) ** 2
    mon.ok((A > -1e-9 * sc).all(), key + ":orientation", areas=A)
    per1 = np.zeros(len(a.cells))
    np.add.at(per1, c1, A)
    mon.close(per1, [area_cell(a, i) for i in range(len(a.cells))], key + ":area", tol=1e-7, scale=sc)
    if not quadr(a) and not quadr(b):
        pairs = {}
        for x, i, j in zip(A, c1, c2):
            if j >= 0:
                pairs[i, j] = pairs.get((i, j), 0.) + x
        for i in range(len(a.cells)):
            for j in range(len(b.cells)):
                want = C.inter2(C.parts2(a.coords[a.cells[i][1]]), C.parts2(b.coords[b.cells[j][1]]))
                mon.close(pairs.get((i, j), 0.), want, key + ":pair", tol=1e-8, scale=sc)
    B = [[border(p, i) for i in range(len(p.cells))] for p in (a, b, r)]
    n = 0
    for x in pts_in(rng, [a, b], 60):
        L = [locate(q, x) for q in B]
        if min(l[1] for l in L) < 2e-3 * math.sqrt(sc):
            continue
        if len(L[0][0]) > 1 or len(L[1][0]) > 1:
            raise Skip("input not clean")
        want = [(L[0][0][0], (L[1][0] or [-1])[0])] if L[0][0] else []
        mon.eq([(c1[k], c2[k]) for k in L[2][0]], want, key + ":point", x=x, cells=L[2][0])
        n += 1
    if n and len(set(c2)) > 1:
        mon.nontrivial = True
        mon.mark(key, len(a.cells) > 4, len(b.cells) > 4, -1 in c2, quadr(a), quadr(b))


# ------------------------------------------------------------------------------------------------- with a line
def t_line(rng, mon, m):
    a = clean2(rng)
    a = M.shuffle(rng, a, orphans=0, rotate=not quadr(a))
    n = rng.randint(1, 4)
    lo, hi = a.coords.min(0), a.coords.max(0)
    dx = (hi - lo).max()
    kind = rng.choice(["cross", "cross", "inside", "nodes"])
    P = [lo - 0.3 * dx * np.array([rng.random(), 1]) if kind == "cross" else lo + (hi - lo) * np.array([rng.random(), rng.random()])]
    for k in range(n):
        P.append(lo + (hi - lo) * np.array([rng.random(), rng.random()]) * 1.1)
    if kind == "nodes":
        for k in range(len(P)):
            if rng.random() < 0.6:
                P[k] = a.coords[rng.randrange(len(a.coords))]
                if rng.random() < 0.4:  # in an edge (straight)
                    c = rng.choice(a.cells)[1]
                    q = len(c) // 2 if quadr(a) else len(c)
                    j = rng.randrange(q)
                    p, r = a.coords[c[j]], a.coords[c[(j + 1) % q]]
                    if not quadr(a) or abs(C.cross2(p, r, a.coords[c[q + j]])) < 1e-12:
                        P[k] = p + (r - p) * rng.choice([0.25, 0.5, 0.6])
                        if rng.random() < 0.6:
                            P[k - 1 if k else 1] = p if rng.random() < 0.5 else r
    P = np.array(P)
    for i in range(n):  # no self crossing
        if np.linalg.norm(P[i + 1] - P[i]) < 0.05 * dx:
            raise Skip("short")
        for j in range(i + 1, n):
            if j == i + 1:
                if seg_dist(P[i], P[j], P[j + 1]) < 0.02 * dx or seg_dist(P[j + 1], P[i], P[i + 1]) < 0.02 * dx:
                    raise Skip("folded")
            elif C.cross2(P[i], P[i + 1], P[j]) * C.cross2(P[i], P[i + 1], P[j + 1]) <= 0 and \
                    C.cross2(P[j], P[j + 1], P[i]) * C.cross2(P[j], P[j + 1], P[i + 1]) <= 0 or \
                    min(seg_dist(P[i + s], P[j], P[j + 1]) for s in (0, 1)) < 0.02 * dx or \
                    min(seg_dist(P[j + s], P[i], P[i + 1]) for s in (0, 1)) < 0.02 * dx:
                raise Skip("crosses itself")
    u = a.um(m)
    ln = M.PM(P, [(M.SEG2, [k, k + 1]) for k in range(n)], 1)
    v = ln.um(m)
    key = "line:" + kind + (":arcs" if quadr(a) else "")
    with G.Pure(mon, key, u, v):
        s2, s1, i2, i1 = m.MEDCouplingUMesh.Intersect2DMeshWith1DLine(u, v, 1e-10)
    r, l = M.read(s2), M.read(s1)
    i2, i1 = G.L(i2), G.np2(i1)
    mon.need(len(i2) == len(r.cells) and i1.shape == (len(l.cells), 2), key + ":maps")
    mon.need(all(0 <= i < len(a.cells) for i in i2) and (i1 >= -1).all() and (i1 < len(r.cells)).all(), key + ":ids")
    nb = len(a.coords)
    mon.need((r.coords[:nb] == a.coords).all() and (r.coords[nb:nb + n + 1] == P).all(), key + ":nodes-first")
    A = np.array([area_cell(r, i) for i in range(len(r.cells))])
    sc = dx * dx
    mon.ok((A > -1e-9 * sc).all(), key + ":orientation", areas=A)
    per = np.zeros(len(a.cells))
    np.add.at(per, i2, A)
    mon.close(per, [area_cell(a, i) for i in range(len(a.cells))], key + ":area", tol=1e-7, scale=sc)
    B = [border(r, i) for i in range(len(r.cells))]
    Ba = [border(a, i) for i in range(len(a.cells))]
    # the line is the same, cut
    tot = 0.
    order = []
    for k, (t, c) in enumerate(l.cells):
        p, q = l.coords[c[0]], l.coords[c[1]]
        tot += np.linalg.norm(q - p)
        order.append((c[0], c[1]))
        mid = (p + q) / 2
        mon.ok(min(seg_dist(mid, P[j], P[j + 1]) for j in range(n)) < 1e-6 * dx, key + ":on-line", mid=mid)
        nrm = np.array([p[1] - q[1], q[0] - p[0]])
        le = np.linalg.norm(nrm)
        if le < 1e-2 * dx:
            continue
        for s in (0, 1):
            x = mid + nrm / le * (1 - 2 * s) * 2e-5 * dx
            w, d = locate(B, x)
            if d < 1e-5 * dx:
                continue
            mon.eq([i1[k, s]], w or [-1], key + ":side", x=x, s=s, piece=k)
    mon.ok(all(order[k][1] == order[k + 1][0] for k in range(len(order) - 1)), key + ":consecutive", order=order)
    mon.close(tot, sum(np.linalg.norm(P[k + 1] - P[k]) for k in range(n)), key + ":length", tol=1e-9, scale=dx * 5)
    for x in pts_in(rng, [a], 40):
        w, d = locate(Ba, x)
        z, e = locate(B, x)
        if min(d, e) < 2e-3 * dx:
            continue
        mon.eq([i2[k] for k in z], w, key + ":point", x=x)
    # no piece of the line is inside a cell which it should cut from border to border
    if len(r.cells) > len(a.cells):
        mon.nontrivial = True
        mon.mark(key, len(r.cells) - len(a.cells) > 3, n > 1)


# ------------------------------------------------------------------------------------------------- conform
def on_edges(pm, i, eps):
    """Nodes strictly inside the edges of the (straight) cell i, and not in its connectivity."""
    c = pm.cells[i][1]
    used = sorted({x for k in range(len(pm.cells)) for x in pm.cells[k][1]})
    r = []
    for n in used:
        if n in c:
            continue
        if min(seg_dist(pm.coords[n], pm.coords[c[k]], pm.coords[c[(k + 1) % len(c)]]) for k in range(len(c))) < eps:
            r.append(n)
    return r


def split_edges(rng, pm, share=0.5):
    """Insert nodes in the edges of the cells: in every cell of the edge, or in one of them only."""
    pm = pm.copy()
    X = pm.coords.tolist()
    new = {}
    for i, (t, c) in enumerate(pm.cells):
        d = []
        for k in range(len(c)):
            a, b = c[k], c[(k + 1) % len(c)]
            d.append(a)
            e = (min(a, b), max(a, b))
            if e not in new:
                new[e] = None
                if rng.random() < 0.3:
                    ts = sorted(rng.sample([0.2, 0.35, 0.5, 0.65, 0.8], rng.randint(1, 2)))
                    new[e] = []
                    for s in ts:
                        new[e].append(len(X))
                        X.append((np.array(X[e[0]]) * (1 - s) + np.array(X[e[1]]) * s).tolist())
                    if rng.random() < share:
                        new[e, "all"] = True
                    put = new[e]
                else:
                    put = []
            else:
                put = new[e] if new[e] and (e, "all") in new else []
            if put:
                d += put if a == e[0] else put[::-1]
        if len(d) > len(c):
            pm.cells[i] = (M.POLYGON, d)
    pm.coords = np.array(X)
    return pm


def t_conform(rng, mon, m):
    base = M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), rng.choice(["q", "T", "qtT"]), rng.choice([0., 0.2]))
    orient2(base)
    if rng.random() < 0.5:
        base = M.affine(rng, base)
    pm = M.shuffle(rng, split_edges(rng, base, rng.choice([0., 0.3])), orphans=0)
    u = pm.um(m)
    eps = rng.choice([1e-10, 1e-8, 1e-12])
    want = [i for i in range(len(pm.cells)) if on_edges(pm, i, 1e-9)]
    coo = u.getCoords()
    before = G.snap(coo)
    got = G.L(u.conformize2D(eps))
    mon.eq(sorted(got), want, "conform:cells")
    u.checkConsistency()
    r = M.read(u)
    mon.eq(G.snap(coo), before, "conform:coords")
    mon.ok(r.coords.shape == pm.coords.shape and (r.coords == pm.coords).all(), "conform:nodes")
    mon.need(len(r.cells) == len(pm.cells), "conform:number")
    for i in range(len(r.cells)):
        if i in want:
            mon.eq(r.cells[i][0], M.POLYGON, "conform:type")
            mon.close(area_cell(r, i), area_cell(pm, i), "conform:area", tol=1e-9)
            mon.eq(on_edges(r, i, 1e-9), [], "conform:left")
            mon.eq([n for n in cycl(r.cells[i][1], pm.cells[i][1][0]) if n in pm.cells[i][1]], cycl(pm.cells[i][1], pm.cells[i][1][0]),
                   "conform:order")
            mon.eq(len(set(r.cells[i][1])), len(r.cells[i][1]), "conform:repeated")
        else:
            mon.eq(r.cells[i], pm.cells[i], "conform:untouched")
    mon.eq(G.L(u.conformize2D(eps)), [], "conform:again")
    if want:
        mon.nontrivial = True
        mon.mark("conform", len(want) > 3)


def cycl(c, first):
    k = c.index(first)
    return list(c[k:]) + list(c[:k])


def fuse(rng, pm):
    """Replaces two linear cells which share one edge only by their union."""
    pairs = []
    for i in range(len(pm.cells)):
        for j in range(i):
            (ti, a), (tj, b) = pm.cells[i], pm.cells[j]
            com = [k for k in range(len(a)) if any(b[q] == a[(k + 1) % len(a)] and b[(q + 1) % len(b)] == a[k] for q in range(len(b)))]
            if len(com) == 1 and len(set(a) & set(b)) == 2:
                pairs.append((i, j, com[0]))
    if not pairs:
        return
    i, j, k = rng.choice(pairs)
    a, b = pm.cells[i][1], pm.cells[j][1]
    a = a[k + 1:] + a[:k + 1]  # starts after the edge
    q = b.index(a[0])
    b = b[q:] + b[:q]
    pm.cells[i] = (M.POLYGON, a + b[2:])
    del pm.cells[j]


def t_colinear(rng, mon, m):
    base = M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), rng.choice(["q", "T", "qtT"]), rng.choice([0., 0.2]))
    orient2(base)
    t = rng.uniform(0, 6.28)
    if rng.random() < 0.5:
        base.coords = base.coords @ np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])
    pm = split_edges(rng, base, rng.choice([0., 0.5, 1.]))
    for _ in range(rng.choice([0, 0, 1, 3])):  # fused cells: nodes of three edges, two of which are aligned
        fuse(rng, pm)
    if rng.random() < 0.5 and len(pm.cells) > 1:  # some cells only
        keep = sorted(rng.sample(range(len(pm.cells)), rng.randint(1, len(pm.cells))))
        pm.cells = [pm.cells[i] for i in keep]
    pm = M.shuffle(rng, pm, orphans=0)
    u = pm.um(m)
    if rng.random() < 0.5:
        u.zipCoords()
        pm = M.read(u)
    keepc = rng.random() < 0.5
    edges = {}
    for t, c in pm.cells:
        for k in range(len(c)):
            e = frozenset((c[k], c[(k + 1) % len(c)]))
            for n in e:
                edges.setdefault(n, set()).add(e)

    def flat(c, k):
        a, b, d = (pm.coords[c[j % len(c)]] for j in (k - 1, k, k + 1))
        return abs(C.cross2(a, b, d)) < 1e-9 * np.linalg.norm(b - a) * np.linalg.norm(d - b) * 100

    want, cells = [], []
    for i, (t, c) in enumerate(pm.cells):
        rm = [c[k] for k in range(len(c)) if flat(c, k) and not (keepc and len(edges[c[k]]) > 2)]
        cells.append([n for n in c if n not in rm])
        if rm:
            want.append(i)
    key = "colinear:" + ("conform" if keepc else "free")
    coo = u.getCoords()
    got = G.L((u.colinearizeKeepingConform2D if keepc else u.colinearize2D)(1e-10))
    mon.eq(sorted(got), want, key + ":cells")
    r = M.read(u)
    mon.need(len(r.cells) == len(pm.cells) and (r.coords[:len(pm.coords)] == pm.coords).all(), key + ":number")
    for i in range(len(r.cells)):
        if i not in want:
            mon.eq(r.cells[i][1], pm.cells[i][1], key + ":untouched")
            continue
        mon.eq(sorted(r.cells[i][1]), sorted(cells[i]), key + ":nodes")
        mon.ok(cells[i][0] in r.cells[i][1] and cycl(r.cells[i][1], cells[i][0]) == cells[i], key + ":order",
               got=r.cells[i][1], want=cells[i])
        mon.close(area_cell(r, i), area_cell(pm, i), key + ":area", tol=1e-9)
    if want:
        mon.nontrivial = True
        mon.mark(key, len(want) > 3)
    del coo


# ------------------------------------------------------------------------------------------------- polyhedra
def t_conform3(rng, mon, m):
    """Boxes; some of them are cut in smaller boxes."""
    nx, ny, nz = (rng.randint(1, 2) for _ in range(3))
    key_nodes, X, cells, boxes = {}, [], [], []

    def node(x, y, z):
        k = (round(x, 6), round(y, 6), round(z, 6))
        if k not in key_nodes:
            key_nodes[k] = len(X)
            X.append([x, y, z])
        return key_nodes[k]

    def box(a, b):
        p = [node(*(b[d] if s[d] else a[d] for d in range(3))) for s in
             ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1))]
        cells.append((M.POLYHED, [[p[k] for k in f] for f in M.FACES[M.HEXA8]]))
        boxes.append((a, b))

    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                a, b = (float(i), float(j), float(k)), (i + 1., j + 1., k + 1.)
                cut = [rng.choice([1, 1, 2, 3]) if rng.random() < 0.5 else 1 for _ in range(3)]
                for p in range(cut[0]):
                    for q in range(cut[1]):
                        for r in range(cut[2]):
                            s = [(a[d] + t / cut[d], a[d] + (t + 1) / cut[d]) for d, t in enumerate((p, q, r))]
                            box([x[0] for x in s], [x[1] for x in s])
    pm = M.PM(np.array(X), cells, 3)
    # partition-like: the faces of one side fit in the faces of the other one
    for (a, b) in boxes:
        for (c, d) in boxes:
            for ax in range(3):
                if b[ax] == c[ax]:
                    o = [x for x in range(3) if x != ax]
                    ov = [(max(a[x], c[x]), min(b[x], d[x])) for x in o]
                    if all(y - x > 1e-9 for x, y in ov):
                        one = all(abs(ov[k][0] - a[x]) < 1e-9 and abs(ov[k][1] - b[x]) < 1e-9 for k, x in enumerate(o))
                        two = all(abs(ov[k][0] - c[x]) < 1e-9 and abs(ov[k][1] - d[x]) < 1e-9 for k, x in enumerate(o))
                        if not (one or two):
                            raise Skip("not partition like")
    Q = G.rotation(rng, 3) if rng.random() < 0.5 else np.eye(3)
    pm.coords = pm.coords @ Q.T * rng.choice([1., 0.1, 10.])
    pm = M.shuffle(rng, pm, orphans=0)
    u = pm.um(m)
    V = [pm.measure_centre(i) for i in range(len(pm.cells))]
    got = G.L(u.conformize3D(1e-8))
    u.checkConsistency()
    u.orientCorrectlyPolyhedrons()  # the orientation of the faces put in a cell is that of its neighbour
    r = M.read(u)
    mon.need(len(r.cells) == len(pm.cells) and (r.coords[:len(pm.coords)] == pm.coords).all(), "conform3:number")
    sc = np.ptp(pm.coords, axis=0).max()
    for i in range(len(r.cells)):
        v, g = r.measure_centre(i)
        mon.close(v, V[i][0], "conform3:volume", tol=1e-8, scale=sc ** 3)
        mon.close(g, V[i][1], "conform3:centre", tol=1e-7, scale=sc)
        if i not in got:
            mon.eq([sorted(f) for f in r.cells[i][1]], [sorted(f) for f in pm.cells[i][1]], "conform3:untouched")
    # each face belongs to two cells, or is on the border of the domain
    fc = r.faces_cells()
    Lo, Hi = pm.coords @ Q, None
    lo, hi = Lo.min(0), Lo.max(0)
    for f, cs in fc.items():
        x = r.coords[sorted(f)] @ Q
        b = any(np.abs(x[:, k] - e[k]).max() < 1e-6 * sc for k in range(3) for e in (lo, hi))
        mon.eq(len(cs), 1 if b else 2, "conform3:faces", face=sorted(f), cells=cs)
    if got:
        mon.nontrivial = True
        mon.mark("conform3", len(got) > 3)


# ------------------------------------------------------------------------------------------------- union, lines
def t_union(rng, mon, m):
    pm = M.grid2(rng, rng.randint(1, 4), rng.randint(1, 4), rng.choice(["q", "T", "qtpT"]), rng.choice([0., 0.25]))
    orient2(pm)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 1]))
    u = pm.um(m)
    with G.Pure(mon, "union", u):
        c = G.L(u.buildUnionOf2DMesh())
    mon.eq(c[0], M.POLYGON, "union:type")
    p = [tuple(x) for x in pm.coords[c[1:]]]
    mon.eq(len(set(c[1:])), len(c) - 1, "union:nodes")
    mon.close(abs(C.area2(p)), sum(area_cell(pm, i) for i in range(len(pm.cells))), "union:area", tol=1e-9)
    # lines
    n = rng.randint(1, 9)
    P = np.cumsum(np.array([[rng.uniform(0.1, 1), rng.uniform(-1, 1)] for _ in range(n + 1)]), 0)
    nodes = G.perm(rng, n + 1)
    X = np.empty_like(P)
    for k, j in enumerate(nodes):
        X[j] = P[k]
    order = G.perm(rng, n)
    cells = [None] * n
    flip = rng.random() < 0.3
    for k in range(n):
        e = [nodes[k], nodes[k + 1]]
        cells[order[k]] = (M.SEG2, e[::-1] if flip else e)
    u = M.PM(X, cells, 1).um(m)
    with G.Pure(mon, "order", u):
        o = G.L(u.orderConsecutiveCells1D())
    # "old to new" or the order of the cells: the cells taken along the line
    want = [order[k] for k in range(n)]
    mon.ok(o == want or o == want[::-1], "order:cells", got=o, want=want)
    mon.nontrivial = True
    mon.mark("union", len(pm.cells) > 4)


def t_colinear3(rng, mon, m):
    """Polyhedra whose edges are cut by points, aligned with the ends of the edge or not."""
    n = [rng.randint(1, 3) for _ in range(3)]
    X = [[float(i), float(j), float(k)] for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)]
    X = (np.array(X) * [rng.uniform(.5, 2.) for _ in range(3)]).tolist()
    at = lambda i, j, k: i + (n[0] + 1) * (j + (n[1] + 1) * k)
    cells = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                p = [at(i, j, k), at(i, j + 1, k), at(i + 1, j + 1, k), at(i + 1, j, k)]
                cells.append((M.HEXA8, p + [at(i, j, k + 1), at(i, j + 1, k + 1), at(i + 1, j + 1, k + 1), at(i + 1, j, k + 1)]))
    poly = [rng.random() < .8 for _ in cells]
    on, straight, rate, bent = {}, set(), rng.uniform(.1, .6), rng.choice([0., .3])
    faces = [[[c[1][q] for q in f] for f in M.FACES[M.HEXA8]] for c in cells]
    for fs in faces:
        for f in fs:
            for a, b in zip(f, f[1:] + f[:1]):
                e = (min(a, b), max(a, b))
                if e in on:
                    continue
                on[e] = []
                if rng.random() > rate:
                    continue
                ts = sorted(rng.sample([.1, .25, .5, .6, .8], rng.choice([1, 1, 2, 3])))
                A, B = np.array(X[e[0]]), np.array(X[e[1]])
                out = [rng.random() < bent for _ in ts]
                w = np.roll(B - A, 1) / 5.
                P = [A + t * (B - A) + (w if o else 0.) for t, o in zip(ts, out)]
                line = [A] + P + [B]
                for q, x in enumerate(P):
                    u, v = x - line[q], line[q + 2] - x
                    on[e].append(len(X))
                    if np.linalg.norm(np.cross(u, v)) < 1e-12 * np.linalg.norm(u) * np.linalg.norm(v) + 1e-14:
                        straight.add(len(X))
                    X.append(x.tolist())
    full = []
    for f0, c, isp in zip(faces, cells, poly):
        if not isp:
            full.append(c)
            continue
        fs = []
        for f in f0:
            g = []
            for a, b in zip(f, f[1:] + f[:1]):
                mid = on[(min(a, b), max(a, b))]
                g += [a] + (mid if a < b else mid[::-1])
            r = rng.randrange(len(g))
            fs.append(g[r:] + g[:r])
        full.append((M.POLYHED, fs))
    xyz = np.array(X)
    if rng.random() < .5:
        xyz = xyz @ G.rotation(rng, 3).T * rng.choice([1., .1, 10.])
    u = M.PM(xyz, full, 3).um(m)
    before = u.getCoords().deepCopy()
    u.colinearizeEdges(rng.choice([1e-6, 1e-8, 1e-10]))
    r = M.read(u)
    want = [(t, [[x for x in f if x not in straight] for f in c] if t == M.POLYHED else c) for t, c in full]
    mon.eq([(t, list(map(list, c)) if t == M.POLYHED else list(c)) for t, c in r.cells], want, "colinear3:cells")
    mon.ok(u.getCoords().isEqual(before, 0.), "colinear3:coords")
    u.checkConsistency()
    again = u.deepCopy()
    again.colinearizeEdges(1e-8)
    mon.ok(again.isEqual(u, 0.), "colinear3:again")
    flat = M.PM([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]], [(M.TRI3, [0, 1, 2])], 2).um(m)
    mon.raises(lambda: flat.colinearizeEdges(1e-8), "colinear3:flat")
    mon.nontrivial = bool(straight)
    mon.mark("colinear3", bool(straight), bent > 0)


OPS = [("inter", t_inter), ("inter2", t_inter), ("line", t_line), ("conform", t_conform), ("colinear", t_colinear),
       ("conform3", t_conform3), ("union", t_union), ("colinear3", t_colinear3)]
FAMILIES = [G.table("cut", OPS, 140)]
