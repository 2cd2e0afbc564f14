"""Structured meshes behave as the unstructured meshes they stand for; refinement and AMR keep the values."""
import itertools
import math

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("Each case builds structured data (grids of 1 to 3 dimensions with lengths 1 and up, ranges, refinement factors, "
        "ghost levels, hierarchies of patches) and compares every result with numpy arrays indexed directly. "
        "Non-trivial: more than one cell on some axis, or some patch.")
ASSUMPTIONS = ["axes of Cartesian meshes increase strictly; patches lie inside their father"]


def F(dims):
    """ids[i, j, k]: the first axis is the fastest."""
    return np.arange(int(np.prod(dims))).reshape(dims, order="F")


def dims_of(rng, d=None, lo=1, hi=6):
    d = rng.choice([1, 2, 2, 3]) if d is None else d
    return [rng.choice([lo, rng.randint(lo, hi), rng.randint(lo, hi)]) for _ in range(d)]


def part_of(rng, dims, empty=False):
    r = []
    for n in dims:
        a = rng.randint(0, n - (0 if empty else 1))
        b = rng.randint(a if empty else a + 1, n)
        r.append((a, b))
    return r


def sl(part):
    return tuple(slice(a, b) for a, b in part)


def flat(a):
    return a.ravel(order="F").tolist()


def t_index(rng, mon, m):
    S = m.MEDCouplingStructuredMesh
    dims = dims_of(rng)
    d = len(dims)
    ids = F(dims)
    p = part_of(rng, dims)
    key = f"index:{d}d"
    part = flat(ids[sl(p)])
    mon.eq(G.L(S.BuildExplicitIdsFrom(dims, p)), part, key + ":explicit", dims=dims, part=p)
    mon.eq(S.DeduceNumberOfGivenRangeInCompactFrmt(p), len(part), key + ":count")
    mon.eq(S.DeduceNumberOfGivenStructure(dims), ids.size, key + ":size")
    mon.eq(list(S.GetDimensionsFromCompactFrmt(p)), [b - a for a, b in p], key + ":dimensions")
    mon.eq([tuple(x) for x in S.GetCompactFrmtFromDimensions(dims)], [(0, n) for n in dims], key + ":compact")
    mon.eq(list(S.GetSplitVectFromStruct(dims)), [int(np.prod(dims[:k])) for k in range(d)], key + ":split")
    ok, q = S.IsPartStructured(part, dims)
    mon.ok(ok and [tuple(x) for x in q] == p, key + ":structured", part=p, got=q, dims=dims)
    for _ in range(10 if len(part) > 2 else 0):
        bad = list(part)
        k = rng.choice(["swap", "drop", "repeat", "other", "next"])
        if k == "swap":
            i, j = rng.sample(range(len(bad)), 2)
            bad[i], bad[j] = bad[j], bad[i]
        elif k == "drop":
            del bad[rng.randrange(len(bad))]
        elif k == "repeat":
            bad.insert(rng.randrange(len(bad)), rng.choice(bad))
        elif k == "other":
            bad[rng.randrange(len(bad))] = rng.randrange(ids.size)
        else:
            i = rng.randrange(1, len(bad) - 1)
            bad[i] = max(0, min(ids.size - 1, bad[i] + rng.choice([-1, 1])))
        ends = [np.argwhere(ids == x)[0] for x in (bad[0], bad[-1])]
        box = tuple(slice(int(a), int(b) + 1) for a, b in zip(*ends))
        want = bool((ends[0] <= ends[1]).all()) and ids[box].size == len(bad) and flat(ids[box]) == bad
        got, r = S.IsPartStructured(bad, dims)
        mon.eq(bool(got), want, key + ":not-structured", ids=bad, dims=dims, how=k)
    r1, r2 = part_of(rng, dims), part_of(rng, dims)
    inter = [(max(a, c), min(b, e)) for (a, b), (c, e) in zip(r1, r2)]
    yes = all(a < b for a, b in inter)
    mon.eq(bool(S.AreRangesIntersect(r1, r2)), yes, key + ":intersect?", r1=r1, r2=r2)
    if yes:
        mon.eq([tuple(x) for x in S.IntersectRanges(r1, r2)], inter, key + ":intersect", r1=r1, r2=r2)
    elif any(a > b for a, b in inter):
        mon.raises(lambda: S.IntersectRanges(r1, r2), key + ":intersect-empty")
    sub = [(a + x, a + y) for (a, b), (x, y) in zip(p, part_of(rng, [b - a for a, b in p]))]
    rel = [(x - a, y - a) for (a, b), (x, y) in zip(p, sub)]
    mon.eq([tuple(x) for x in S.ChangeReferenceFromGlobalOfCompactFrmt(p, sub)], rel, key + ":relative")
    mon.eq([tuple(x) for x in S.ChangeReferenceToGlobalOfCompactFrmt(p, rel)], sub, key + ":absolute")
    out = [list(x) for x in sub]
    ax = rng.randrange(d)
    if rng.random() < 0.5:
        out[ax][1] = p[ax][1] + 1
    else:
        out[ax][0] = p[ax][0] - 1
    mon.raises(lambda: S.ChangeReferenceFromGlobalOfCompactFrmt(p, [tuple(x) for x in out], True), key + ":relative-out")
    t = [rng.randint(-3, 3) for _ in dims]
    mv = [(a + x, b + x) for (a, b), x in zip(p, t)]
    mon.eq([tuple(x) for x in S.TranslateCompactFrmt(p, t)], mv, key + ":translate")
    mon.eq(list(S.FindTranslationFrom(p, mv)), t, key + ":find-translation")
    # fields
    nc = rng.randint(1, 3)
    A = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(ids.size)])
    a = G.npd(m, A)
    with G.Pure(mon, key, a):
        e = S.ExtractFieldOfDoubleFrom(dims, a, p)
    mon.eq(G.np2(e).tolist(), A[part].tolist(), key + ":extract")
    B = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in part])
    b = G.npd(m, B)
    want = A.copy()
    want[part] = B
    with G.Pure(mon, key, b):
        S.AssignPartOfFieldOfDoubleUsing(dims, a, p, b)
    mon.eq(G.np2(a).tolist(), want.tolist(), key + ":assign", dims=dims, part=p)
    f = rng.uniform(-2, 2)
    want[part] *= f
    S.MultiplyPartOf(dims, p, f, a)
    mon.eq(G.np2(a).tolist(), want.tolist(), key + ":multiply")
    # ghost
    g = rng.randint(0, 3)
    gd = [n + 2 * g for n in dims]
    gi = F(gd)
    A = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(gi.size)])
    a = G.npd(m, A)
    S.MultiplyPartOfByGhost(dims, p, g, f, a)
    A[flat(gi[sl([(x + g, y + g) for x, y in p])])] *= f
    mon.eq(G.np2(a).tolist(), A.tolist(), key + ":multiply-ghost", dims=dims, part=p, g=g)
    st, pp = S.PutInGhostFormat(g, dims, p)
    mon.eq((list(st), [tuple(x) for x in pp]), (gd, [(x + g, y + g) for x, y in p]), key + ":put-ghost")
    want = [int(gi[c]) for c in itertools.product(*[range(n) for n in gd])
            if any(all(x in (i, n - 1 - i) for x, n in zip(c, gd)) for i in range(g))]
    got = G.L(S.ComputeCornersGhost(dims, g))
    mon.eq(got, sorted(want) if g else [], key + ":corners", dims=dims, g=g)
    # connectivity
    nd = [n + 1 for n in dims]
    mon.eq(G.L(S.Build1GTNodalConnectivity(nd)), [x for c in cells_of(nd) for x in c], key + ":connectivity")
    if ids.size > 1:
        mon.nontrivial = True
        mon.mark(key, len(part) == ids.size, g)


def turned(c):
    """The same cell, whatever its first node and its side."""
    if len(c) == 8:
        return sorted(c), sorted(map(sorted, (c[:4], c[4:])))
    i = c.index(min(c))
    c = c[i:] + c[:i]
    return min(c, c[:1] + c[:0:-1])


def cells_of(nd):
    """Nodes of the cells of a grid with nd nodes, as documented for the linear cells."""
    ids = F(nd)
    d = len(nd)
    r = []
    for c in itertools.product(*[range(n - 1) for n in nd[::-1]]):
        i = c[::-1]
        if d == 1:
            r.append([int(ids[i[0]]), int(ids[i[0] + 1])])
        elif d == 2:
            x, y = i
            r.append([int(ids[x + 1, y]), int(ids[x, y]), int(ids[x, y + 1]), int(ids[x + 1, y + 1])])
        else:
            x, y, z = i
            r.append([int(v) for z_ in (0, 1) for v in (ids[x + 1, y, z + z_], ids[x, y, z + z_], ids[x, y + 1, z + z_], ids[x + 1, y + 1, z + z_])])
    return r


def make(rng, m, kind=None, small=False):
    """(mesh, node dims, coordinates of the nodes)"""
    kind = kind or rng.choice("CIL")
    if kind == "C":
        d = rng.choice([1, 2, 3])
        c, ax = M.cmesh(rng, m, d, [rng.randint(2, 4 if small else 5) for _ in range(d)])
        nd = [len(a) for a in ax]
        X = np.array([[ax[k][i[d - 1 - k]] for k in range(d)] for i in itertools.product(*[range(n) for n in nd[::-1]])])
    elif kind == "I":
        c, nd, o, dx = M.imesh(rng, m)
        d = len(nd)
        X = np.array([[o[k] + dx[k] * i[d - 1 - k] for k in range(d)] for i in itertools.product(*[range(n) for n in nd[::-1]])])
    else:
        c, ax, A = M.curvi(rng, m)
        nd = [len(a) for a in ax]
        X = G.np2(c.getCoords())
    return c, list(nd), X, kind


def t_mesh(rng, mon, m):
    c, nd, X, kind = make(rng, m)
    d = len(nd)
    cd = [n - 1 for n in nd]
    key = f"mesh:{kind}{d}"
    con = cells_of(nd)
    nid, cid = F(nd), F(cd)
    with G.Pure(mon, key, c):
        mon.eq((c.getNumberOfCells(), c.getNumberOfNodes(), c.getMeshDimension()), (len(con), len(X), d), key + ":sizes")
        mon.eq((list(c.getNodeGridStructure()), list(c.getCellGridStructure())), (nd, cd), key + ":grid")
        for _ in range(6):
            i = tuple(rng.randrange(n) for n in cd)
            j = tuple(rng.randrange(n) for n in nd)
            i3, j3 = (list(i) + [0, 0])[:3], (list(j) + [0, 0])[:3]
            mon.eq(c.getCellIdFromPos(*i3), int(cid[i]), key + ":cell-from-pos")
            mon.eq(c.getNodeIdFromPos(*j3), int(nid[j]), key + ":node-from-pos")
            mon.eq(tuple(c.getLocationFromCellId(int(cid[i]))), i, key + ":pos-of-cell")
            mon.eq(tuple(c.getLocationFromNodeId(int(nid[j]))), j, key + ":pos-of-node")
            mon.eq(turned(list(c.getNodeIdsOfCell(int(cid[i])))), turned(con[int(cid[i])]), key + ":nodes-of-cell")
            mon.close(c.getCoordinatesOfNode(int(nid[j])), X[int(nid[j])], key + ":coords-of-node", tol=1e-13, scale=10)
        mon.raises(lambda: c.getLocationFromCellId(len(con)), key + ":cell-out")
        mon.close(G.np2(c.getCoordinatesAndOwner()), X, key + ":coords", tol=1e-13, scale=10)
        bb = np.array(c.getBoundingBox())
        mon.close(bb, np.stack([X.min(0), X.max(0)], 1), key + ":bbox", tol=1e-12, scale=10)
        u = c.buildUnstructured()
        s1 = c.build1SGTUnstructured()
    r = M.read(u)
    mon.eq([x[1] for x in r.cells], con, key + ":unstructured")
    mon.close(r.coords, X, key + ":unstructured-coords", tol=1e-13, scale=10)
    mon.ok(s1.buildUnstructured().isEqualWithoutConsideringStr(u, 1e-13), key + ":1sgt")
    mon.eq(u.getName(), c.getName(), key + ":name")
    # what the unstructured mesh answers
    a = c.getMeasureField(False).getArray()
    b = u.getMeasureField(False).getArray()
    mon.close(G.L(a) if d != 2 else np.abs(G.L(a)), G.L(b) if d != 2 else np.abs(G.L(b)), key + ":measure", tol=1e-12)
    mon.close(G.np2(c.computeCellCenterOfMass()), G.np2(u.computeCellCenterOfMass()), key + ":centre", tol=1e-11, scale=10)
    mon.close(G.np2(c.computeIsoBarycenterOfNodesPerCell()), G.np2(u.computeIsoBarycenterOfNodesPerCell()), key + ":iso", tol=1e-12, scale=10)
    for f in ("computeNbOfNodesPerCell", "computeNbOfFacesPerCell", "computeEffectiveNbOfNodesPerCell"):
        mon.eq(G.L(getattr(c, f)()), G.L(getattr(u, f)()), key + ":" + f)
    x, y = c.getReverseNodalConnectivity(), u.getReverseNodalConnectivity()
    mon.eq([G.L(v) for v in x], [G.L(v) for v in y], key + ":reverse")
    if d > 1:
        sub = c.build1SGTSubLevelMesh().buildUnstructured()
        desc = u.buildDescendingConnectivity()[0]
        p, q = M.read(sub), M.read(desc)
        mon.eq(sorted(sorted(z[1]) for z in p.cells), sorted(sorted(z[1]) for z in q.cells), key + ":sub-level")
        mon.eq(c.getNumberOfCellsOfSubLevelMesh(), len(q.cells), key + ":sub-level-count")
    # parts
    p = part_of(rng, cd)
    ids = flat(cid[sl(p)])
    w = c.buildStructuredSubPart(p)
    mon.eq(list(w.getNodeGridStructure()), [y - x + 1 for x, y in p], key + ":sub-part-grid")
    pn = flat(nid[sl([(x, y + 1) for x, y in p])])
    mon.close(G.np2(w.getCoordinatesAndOwner()), X[pn], key + ":sub-part", tol=1e-12, scale=10)
    q = G.subset(rng, len(con), rng.randint(1, len(con)))
    w, n2 = None, None
    for sel in (ids, q):
        mm = c.buildPart(sel)
        mu = mm.buildUnstructured()
        mon.eq(mm.getNumberOfCells(), len(sel), key + ":part-size")
        z = M.read(mu)
        mon.close([[z.coords[n].tolist() for n in cc[1]] for cc in z.cells], [X[con[k]].tolist() for k in sel], key + ":part", tol=1e-12, scale=10)
        mm, o2n = c.buildPartAndReduceNodes(sel)
        z = M.read(mm.buildUnstructured())
        mon.close([[z.coords[n].tolist() for n in cc[1]] for cc in z.cells], [X[con[k]].tolist() for k in sel], key + ":part-reduce", tol=1e-12, scale=10)
        mon.eq(mm.getNumberOfNodes(), len({n for k in sel for n in con[k]}), key + ":part-nodes")
        o = G.L(o2n)
        mon.ok(all(o[n] >= 0 and np.abs(z.coords[o[n]] - X[n]).max() < 1e-12 * 10 for k in sel for n in con[k]), key + ":part-map")
    # points
    lo, hi = X.min(0), X.max(0)
    for _ in range(8):
        x = lo + (hi - lo) * np.array([rng.uniform(-.1, 1.1) for _ in range(d)])
        g = sorted(u.getCellsContainingPoint(x.tolist(), 1e-12).getValues())
        if len(g) < 2:
            mon.eq(c.getCellContainingPoint(x.tolist(), 1e-12), g[0] if g else -1, key + ":containing")
    if d > 1:
        mon.close(c.computeSquareness(), min(n - 1 for n in nd) / max(n - 1 for n in nd), key + ":squareness")
    if kind == "I":
        img(rng, mon, m, c, nd, X, key)
    mon.nontrivial = len(con) > 1
    mon.mark(key, len(con) > 10)


def img(rng, mon, m, c, nd, X, key):
    d = len(nd)
    cc = c.convertToCartesian()
    mon.close(G.np2(cc.getCoordinatesAndOwner()), X, key + ":cartesian", tol=1e-12, scale=10)
    o, dx = np.array(c.getOrigin()), np.array(c.getDXYZ())
    mon.close(c.getMeasureOfAnyCell(), np.prod(dx), key + ":any-measure")
    s = c.asSingleCell()
    mon.eq(list(s.getNodeStruct()), [2] * d, key + ":single")
    mon.close(np.array(s.getBoundingBox()), np.array(c.getBoundingBox()), key + ":single-box", tol=1e-12, scale=10)
    g = rng.randint(0, 3)
    w = c.buildWithGhost(g)
    mon.eq(list(w.getNodeStruct()), [n + 2 * g for n in nd], key + ":ghost")
    mon.close(w.getOrigin(), o - g * dx, key + ":ghost-origin", tol=1e-12, scale=10)
    mon.close(w.getDXYZ(), dx, key + ":ghost-dxyz")
    f = [rng.randint(1, 4) for _ in nd]
    w = c.deepCopy()
    w.refineWithFactor(f)
    mon.eq(list(w.getNodeStruct()), [(n - 1) * k + 1 for n, k in zip(nd, f)], key + ":refine")
    mon.close(w.getDXYZ(), dx / np.array(f), key + ":refine-dxyz")
    mon.close(np.array(w.getBoundingBox()), np.array(c.getBoundingBox()), key + ":refine-box", tol=1e-12, scale=10)
    # move
    v = [rng.uniform(-2, 2) for _ in nd]
    w = c.deepCopy()
    w.translate(v)
    mon.close(G.np2(w.getCoordinatesAndOwner()), X + np.array(v), key + ":translate", tol=1e-12, scale=10)
    k = rng.uniform(0.3, 3)
    w = c.deepCopy()
    w.scale(v, k)
    mon.close(G.np2(w.getCoordinatesAndOwner()), np.array(v) + k * (X - np.array(v)), key + ":scale", tol=1e-12, scale=10)


def t_refine(rng, mon, m):
    I = m.MEDCouplingIMesh
    cd = dims_of(rng, None, 1, 5)
    d = len(cd)
    p = part_of(rng, cd)
    f = [rng.randint(1, 4) for _ in cd]
    fd = [(b - a) * k for (a, b), k in zip(p, f)]
    nc = rng.randint(1, 3)
    key = f"refine:{d}d"
    C = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(int(np.prod(cd)))])
    Z = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(int(np.prod(fd)))])
    ci, fi = F(cd), F(fd)

    def father(c):
        return tuple(a + x // k for x, (a, b), k in zip(c, p, f))
    # condense
    coarse, fine = G.npd(m, C), G.npd(m, Z)
    want = C.copy()
    want[flat(ci[sl(p)])] = 0.
    for c in itertools.product(*[range(n) for n in fd]):
        want[ci[father(c)]] += Z[fi[c]]
    with G.Pure(mon, key, fine):
        I.CondenseFineToCoarse(cd, fine, p, f, coarse)
    mon.close(G.np2(coarse), want, key + ":condense", tol=1e-12, dims=cd, part=p, facts=f)
    # spread
    coarse, fine = G.npd(m, C), G.npd(m, Z)
    want = Z.copy()
    for c in itertools.product(*[range(n) for n in fd]):
        want[fi[c]] = C[ci[father(c)]]
    with G.Pure(mon, key, coarse):
        I.SpreadCoarseToFine(coarse, cd, fine, p, f)
    mon.eq(G.np2(fine).tolist(), want.tolist(), key + ":spread", dims=cd, part=p, facts=f)
    # with ghosts
    g = rng.randint(0, 3)
    cg, fg = F([n + 2 * g for n in cd]), F([n + 2 * g for n in fd])
    C = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(cg.size)])
    Z = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(fg.size)])
    coarse, fine = G.npd(m, C), G.npd(m, Z)
    want = C.copy()
    want[flat(cg[sl([(a + g, b + g) for a, b in p])])] = 0.
    for c in itertools.product(*[range(n) for n in fd]):
        want[cg[tuple(x + g for x in father(c))]] += Z[fg[tuple(x + g for x in c)]]
    with G.Pure(mon, key, fine):
        I.CondenseFineToCoarseGhost(cd, fine, p, f, coarse, g)
    mon.close(G.np2(coarse), want, key + ":condense-ghost", tol=1e-12, dims=cd, part=p, facts=f, g=g)
    if g <= min(f):         # a ghost zone is at most one coarse cell thick
        coarse, fine = G.npd(m, C), G.npd(m, Z)
        want, zone = Z.copy(), Z.copy()
        for c in itertools.product(*[range(-g, n + g) for n in fd]):
            v = C[cg[tuple(x + g for x in father(c))]]
            i = fg[tuple(x + g for x in c)]
            want[i] = v
            if any(x < 0 or x >= n for x, n in zip(c, fd)):
                zone[i] = v
        with G.Pure(mon, key, coarse):
            I.SpreadCoarseToFineGhost(coarse, cd, fine, p, f, g)
        mon.eq(G.np2(fine).tolist(), want.tolist(), key + ":spread-ghost", dims=cd, part=p, facts=f, g=g)
        fine = G.npd(m, Z)
        with G.Pure(mon, key, coarse):
            I.SpreadCoarseToFineGhostZone(coarse, cd, fine, p, f, g)
        mon.eq(G.np2(fine).tolist(), zone.tolist(), key + ":spread-zone", dims=cd, part=p, facts=f, g=g)
    mon.nontrivial = True
    mon.mark(key, g, max(f) > 1)


# ------------------------------------------------------------------------------------------------- AMR
class Node:
    """Reference hierarchy. lo, hi: in cells of this level, from the origin of the god father."""

    def __init__(self, mesh, lo, hi, lev, fact, father=None):
        self.mesh, self.lo, self.hi, self.lev, self.fact, self.father, self.sons = mesh, lo, hi, lev, fact, father, []

    def dims(self):
        return [b - a for a, b in zip(self.lo, self.hi)]

    def all(self):
        yield self
        for s in self.sons:
            yield from s.all()


def amr(rng, m, d=None, depth=None):
    d = rng.choice([1, 2, 2, 3]) if d is None else d
    cd = [rng.randint(2, 7 if d < 3 else 4) for _ in range(d)]
    o = [rng.uniform(-1, 1) for _ in cd]
    dx = [rng.uniform(.3, 1) for _ in cd]
    depth = rng.choice([1, 1, 2, 2]) if depth is None else depth
    f0 = [rng.randint(1, 3) for _ in cd] if rng.random() < 0.7 else [2] * d
    a, root = hierarchy(rng, m, cd, o, dx, f0, depth)
    return a, root, o, dx, f0


def hierarchy(rng, m, cd, o, dx, f0, depth):
    d = len(cd)
    a = m.MEDCouplingCartesianAMRMesh("amr", d, [n + 1 for n in cd], o, dx)
    root = Node(a, [0] * d, cd, 0, [1] * d)

    def fill(n, left):
        if not left:
            return
        st = n.dims()
        taken = np.zeros(st, bool)
        for _ in range(rng.randint(1, 3)):
            p = part_of(rng, st)
            if taken[sl(p)].any():
                continue
            taken[sl(p)] = True
            n.mesh.addPatch(p, f0)
            son = n.mesh.getPatch(n.mesh.getNumberOfPatches() - 1).getMesh()
            ff = [x * y for x, y in zip(n.fact, f0)]
            k = Node(son, [(a + x) * f for a, (x, y), f in zip(n.lo, p, f0)], [(a + y) * f for a, (x, y), f in zip(n.lo, p, f0)],
                     n.lev + 1, ff, n)
            k.part = p
            n.sons.append(k)
            if rng.random() < 0.7:
                fill(k, left - 1)
    fill(root, depth)
    return a, root


def cover(n):
    """Which cells of n are covered by a patch."""
    t = np.zeros(n.dims(), bool)
    for s in n.sons:
        t[sl(s.part)] = True
    return t


def t_amr(rng, mon, m):
    a, root, o, dx, f0 = amr(rng, m)
    d = len(o)
    key = f"amr:{d}d"
    nodes = list(root.all())
    levels = max(n.lev for n in nodes) + 1
    mon.eq(a.getMaxNumberOfLevelsRelativeToThis(), levels, key + ":levels")
    mon.eq(a.getNumberOfCellsRecursiveWithOverlap(), sum(int(np.prod(n.dims())) for n in nodes), key + ":with-overlap")
    free = sum(int((~cover(n)).sum()) for n in nodes)
    mon.eq(a.getNumberOfCellsRecursiveWithoutOverlap(), free, key + ":without-overlap")
    for n in nodes:
        w = n.mesh
        mon.eq(w.getNumberOfCellsAtCurrentLevel(), int(np.prod(n.dims())), key + ":current")
        g = rng.randint(0, 2)
        mon.eq(w.getNumberOfCellsAtCurrentLevelGhost(g), int(np.prod([x + 2 * g for x in n.dims()])), key + ":current-ghost")
        mon.eq(w.getAbsoluteLevel(), n.lev, key + ":level")
        im = w.getImageMesh()
        mon.eq([x - 1 for x in im.getNodeStruct()], n.dims(), key + ":image")
        want = [o[k] + dx[k] * n.lo[k] / n.fact[k] for k in range(d)]
        mon.close(im.getOrigin(), want, key + ":image-origin", tol=1e-12, scale=10)
        mon.close(im.getDXYZ(), [dx[k] / n.fact[k] for k in range(d)], key + ":image-dxyz", tol=1e-12)
        if n.father:
            mon.eq(list(w.getPositionRelativeTo(a)), pos_of(n), key + ":position")
            mon.eq(a.getMeshAtPosition(pos_of(n)).getImageMesh().isEqual(im, 1e-12), True, key + ":at-position")
            mon.eq([tuple(x) for x in w.positionRelativeToGodFather()[0]] if isinstance(w.positionRelativeToGodFather(), tuple) else None,
                   [(x, y) for x, y in zip(n.lo, n.hi)], key + ":position-god") if hasattr(w, "positionRelativeToGodFather") else None
    for lev in range(levels):
        got = a.retrieveGridsAt(lev)
        mon.eq(len(got), sum(n.lev == lev for n in nodes), key + ":grids-at")
    u = a.buildUnstructured()
    r = M.read(u)
    mon.need(len(r.cells) == free, key + ":unstructured", got=len(r.cells), want=free)
    vol = np.abs(G.L(u.getMeasureField(True).getArray()))
    mon.close(vol.sum(), np.prod([x * y for x, y in zip(dx, root.dims())]), key + ":volume", tol=1e-10)
    # the values: one different value for each cell
    g = rng.randint(0, 2)
    arrs, tag, val = [], 0, {}
    order = []
    todo = [root]                     # level after level
    while todo:
        order += todo
        todo = [x for n in todo for x in n.sons]
    for n in order:
        ids = F([x + 2 * g for x in n.dims()])
        arrs.append(G.dbl(m, [float(tag + k) for k in range(ids.size)]))
        c = cover(n)
        for i in itertools.product(*[range(x) for x in n.dims()]):
            if not c[i]:
                x = tuple(round(o[k] + dx[k] * (n.lo[k] + i[k] + .5) / n.fact[k], 9) for k in range(d))
                val[x] = float(tag + ids[tuple(y + g for y in i)])
        tag += ids.size
    fld = a.buildCellFieldOnRecurseWithoutOverlapWithoutGhost(g, arrs)
    cen = G.np2(fld.getMesh().computeCellCenterOfMass())
    got = {tuple(round(float(y), 9) for y in x): v for x, v in zip(cen, G.L(fld.getArray()))}
    mon.ok(len(got) == len(val) and all(near(got, x, v) for x, v in val.items()), key + ":field", n=len(got), want=len(val))
    # envelop of the patches
    if root.sons:
        e = M.read(a.buildMeshFromPatchEnvelop().buildUnstructured())
        mon.eq(len(e.cells), len(root.sons), key + ":envelop")
        for k, s in enumerate(root.sons):
            X = e.coords[e.nodes(k)]
            mon.close(X.min(0), [o[i] + dx[i] * s.part[i][0] for i in range(d)], key + ":envelop-low", tol=1e-12, scale=10)
            mon.close(X.max(0), [o[i] + dx[i] * s.part[i][1] for i in range(d)], key + ":envelop-high", tol=1e-12, scale=10)
        for k, s in enumerate(root.sons):
            for l, t in enumerate(root.sons):
                if k == l:
                    continue
                # ghost level in cells of the patches
                # the ghost zone is thinner than one cell of the father: patches that touch
                gl = rng.randint(1, min(f0))
                yes = all(max(x, y) <= min(z, w) for x, y, z, w in zip(s.lo, t.lo, s.hi, t.hi))
                mon.eq(bool(a.isPatchInNeighborhoodOf(k, l, gl)), yes, key + ":neighborhood", s=(s.lo, s.hi), t=(t.lo, t.hi), g=gl)
    # copy
    b = a.deepCopy(None)
    mon.ok(b.buildUnstructured().isEqual(u, 1e-12), key + ":copy")
    if root.sons:
        k = rng.randrange(len(root.sons))
        b.removePatch(k)
        mon.eq(b.getNumberOfPatches(), len(root.sons) - 1, key + ":remove")
        mon.close(np.abs(G.L(b.buildUnstructured().getMeasureField(True).getArray())).sum(), vol.sum(), key + ":remove-volume", tol=1e-10)
        b.removeAllPatches()
        mon.eq(b.getNumberOfCellsRecursiveWithoutOverlap(), int(np.prod(root.dims())), key + ":remove-all")
        mon.eq(a.getNumberOfPatches(), len(root.sons), key + ":copy-apart")
    mon.nontrivial = len(nodes) > 1
    mon.mark(key, len(nodes) > 3, levels)


def near(got, x, v):
    if x in got:
        return got[x] == v
    return any(w == v and max(abs(p - q) for p, q in zip(x, y)) < 1e-8 for y, w in got.items())


def pos_of(n):
    r = []
    while n.father:
        r.append(n.father.sons.index(n))
        n = n.father
    return r[::-1]


def t_transfer(rng, mon, m):
    """Fields between a mesh and its patches."""
    a, root, o, dx, f0 = amr(rng, m, depth=1)
    if not root.sons:
        raise Skip("no patch")
    d = len(o)
    key = f"transfer:{d}d"
    cd = root.dims()
    ci = F(cd)
    nc = rng.randint(1, 2)
    C = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(ci.size)])
    k = rng.randrange(len(root.sons))
    s = root.sons[k]
    fd = s.dims()
    fi = F(fd)
    fact = int(np.prod(f0))
    cons = rng.random() < 0.5

    def up(c):
        return tuple(p + x // f for x, (p, q), f in zip(c, s.part, f0))
    coarse = G.npd(m, C)
    with G.Pure(mon, key, coarse):
        e = a.createCellFieldOnPatch(k, coarse)
    want = np.array([C[ci[up(c[::-1])]] for c in itertools.product(*[range(n) for n in fd[::-1]])])
    mon.eq(G.np2(e).tolist(), want.tolist(), key + ":create")
    fine = G.npd(m, np.zeros((fi.size, nc)))
    a.fillCellFieldOnPatch(k, coarse, fine, cons)
    mon.close(G.np2(fine), want / (fact if cons else 1), key + ":fill", tol=1e-13)
    Z = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(fi.size)])
    fine = G.npd(m, Z)
    want = C.copy()
    want[flat(ci[sl(s.part)])] = 0
    for c in itertools.product(*[range(n) for n in fd]):
        want[ci[up(c)]] += Z[fi[c]] / (1 if cons else fact)
    with G.Pure(mon, key, fine):
        a.fillCellFieldComingFromPatch(k, fine, coarse, cons)
    mon.close(G.np2(coarse), want, key + ":coming", tol=1e-12)
    # ghosts: at most one coarse cell
    g = rng.randint(0, min(f0))
    cg = F([n + 2 * g for n in cd])
    C = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(cg.size)])
    coarse = G.npd(m, C)
    Z = [np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(int(np.prod([n + 2 * g for n in t.dims()])))]) for t in root.sons]
    gi = [F([n + 2 * g for n in t.dims()]) for t in root.sons]
    fine = G.npd(m, Z[k])
    want, zone = Z[k].copy(), Z[k].copy()
    adv = Z[k].copy()
    for c in itertools.product(*[range(-g, n + g) for n in fd]):
        i = gi[k][tuple(x + g for x in c)]
        v = C[cg[tuple(x + g for x in up(c))]]
        want[i] = v / (fact if cons else 1)
        out = any(x < 0 or x >= n for x, n in zip(c, fd))
        if out:
            zone[i] = v
        adv[i] = want[i]
        if out:
            pos = [x + l for x, l in zip(c, s.lo)]
            for q, t in enumerate(root.sons):
                if q != k and all(l <= x < h for x, l, h in zip(pos, t.lo, t.hi)):
                    adv[i] = Z[q][gi[q][tuple(x - l + g for x, l in zip(pos, t.lo))]]
    with G.Pure(mon, key, coarse):
        a.fillCellFieldOnPatchGhost(k, coarse, fine, g, cons)
    mon.close(G.np2(fine), want, key + ":fill-ghost", tol=1e-13, g=g, part=s.part, f=f0)
    fine = G.npd(m, Z[k])
    a.fillCellFieldOnPatchOnlyOnGhostZone(k, coarse, fine, g)
    mon.close(G.np2(fine), zone, key + ":fill-zone", tol=1e-13, g=g, part=s.part, f=f0)
    arrs = [G.npd(m, z) for z in Z]
    others = [x for q, x in enumerate(arrs) if q != k]
    with G.Pure(mon, key, coarse, *others):
        a.fillCellFieldOnPatchGhostAdv(k, coarse, g, arrs, cons)
    mon.close(G.np2(arrs[k]), adv, key + ":fill-adv", tol=1e-13, g=g, part=s.part, f=f0)
    fine = G.npd(m, Z[k])
    want = C.copy()
    want[flat(cg[sl([(x + g, y + g) for x, y in s.part])])] = 0
    for c in itertools.product(*[range(n) for n in fd]):
        want[cg[tuple(x + g for x in up(c))]] += Z[k][gi[k][tuple(x + g for x in c)]] / (1 if cons else fact)
    with G.Pure(mon, key, fine):
        a.fillCellFieldComingFromPatchGhost(k, fine, coarse, g, cons)
    mon.close(G.np2(coarse), want, key + ":coming-ghost", tol=1e-12)
    with G.Pure(mon, key, fine):
        e = s.mesh.extractGhostFrom(g, fine)
    mon.eq(G.np2(e).tolist(), [Z[k][gi[k][tuple(x + g for x in c[::-1])]].tolist() for c in itertools.product(*[range(n) for n in fd[::-1]])],
           key + ":extract-ghost")
    mon.nontrivial = True
    mon.mark(key, g, len(root.sons), cons)


def t_criterion(rng, mon, m):
    d = rng.choice([1, 2, 2, 3])
    cd = [rng.randint(2, 25 if d < 3 else 9) for _ in range(d)]
    a = m.MEDCouplingCartesianAMRMesh("amr", d, [n + 1 for n in cd], [0.] * d, [1.] * d)
    flag = np.zeros(cd, bool)
    kind = rng.choice(["boxes", "noise", "ball"])
    if kind == "boxes":
        for _ in range(rng.randint(1, 3)):
            flag[sl(part_of(rng, cd))] = True
    elif kind == "noise":
        for c in itertools.product(*[range(n) for n in cd]):
            flag[c] = rng.random() < 0.1
    else:
        c0, r = [rng.uniform(0, n) for n in cd], rng.uniform(1, max(cd) / 2 + 1)
        for c in itertools.product(*[range(n) for n in cd]):
            flag[c] = abs(math.dist(c, c0) - r) < 1
    b = m.BoxSplittingOptions()
    b.setEfficiencyGoal(rng.choice([0.3, 0.5, 0.8, 0.9]))
    b.setEfficiencyThreshold(rng.choice([0.3, 0.5, 0.8]))
    mn = rng.randint(1, min(4, min(cd)))
    b.setMinimumPatchLength(mn)
    b.setMaximumPatchLength(rng.randint(2 * mn, 20))
    b.setMaximumNbOfCellsInPatch(rng.choice([1, 4, 100]) * (2 * mn) ** d)
    f = [rng.randint(1, 3) for _ in cd]
    key = f"criterion:{d}d"
    arr = m.DataArrayByte([int(x) for x in flat(flag)], int(flag.size), 1)
    a.createPatchesFromCriterion(b, arr, f)
    cnt = np.zeros(cd, int)
    for k in range(a.getNumberOfPatches()):
        p = [tuple(x) for x in a.getPatch(k).getBLTRRange()]
        mon.need(all(0 <= x < y <= n for (x, y), n in zip(p, cd)), key + ":range", part=p, dims=cd)
        cnt[sl(p)] += 1
        mon.eq([n - 1 for n in a.getPatch(k).getMesh().getImageMesh().getNodeStruct()], [(y - x) * q for (x, y), q in zip(p, f)], key + ":factor")
        mon.ok(flag[sl(p)].any(), key + ":useless", part=p)
        mon.ok(all(y - x >= min(mn, n) for (x, y), n in zip(p, cd)), key + ":minimum", part=p, minimum=mn, dims=cd)
    mon.ok((cnt <= 1).all(), key + ":overlap")
    mon.ok((cnt[flag] == 1).all(), key + ":missed", n=int((cnt[flag] == 0).sum()), dims=cd)
    mon.nontrivial = bool(flag.any())
    mon.mark(key, kind, a.getNumberOfPatches() > 1)


def t_attr(rng, mon, m):
    """Values carried by a hierarchy of patches."""
    a, root, o, dx, f0 = amr(rng, m)
    d = len(o)
    g = rng.randint(0, min(f0))
    ext = rng.random() < 0.4
    at = m.MEDCouplingAMRAttribute(a, [("F", 1), ("V", 2)], g)
    at.alloc()
    at.spillInfoOnComponents([["x"], ["y", "z"]])
    at.spillNatures([m.ExtensiveConservation if ext else m.IntensiveMaximum] * 2)
    key = f"attribute:{d}d:{'sum' if ext else 'mean'}"
    nodes = list(root.all())
    V = {}
    for n in nodes:
        n.ids = F([x + 2 * g for x in n.dims()])
        for name, nc in (("F", 1), ("V", 2)):
            arr = at.getFieldOn(n.mesh, name)
            mon.need(arr.getNumberOfTuples() == n.ids.size and arr.getNumberOfComponents() == nc, key + ":size")
            X = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(n.ids.size)])
            arr.setValues(X.ravel().tolist(), len(X), nc)
            V[id(n), name] = X
    fact = int(np.prod(f0))
    # the finest values go up
    at2 = at.deepCopy()
    W = {k: v.copy() for k, v in V.items()}
    for n in sorted(nodes, key=lambda n: -n.lev):
        for name in "FV":
            for s in n.sons:
                W[id(n), name][flat(n.ids[sl([(x + g, y + g) for x, y in s.part])])] = 0
                for c in itertools.product(*[range(x) for x in s.dims()]):
                    up = tuple(p + x // f + g for x, (p, q), f in zip(c, s.part, f0))
                    W[id(n), name][n.ids[up]] += W[id(s), name][s.ids[tuple(x + g for x in c)]] / (1 if ext else fact)
    at.synchronizeFineToCoarse()
    for n in nodes:
        for name in "FV":
            mon.close(G.np2(at.getFieldOn(n.mesh, name)), W[id(n), name], key + ":fine-to-coarse", tol=1e-12, level=n.lev)
    # without ghosts, without overlap
    fl = at.buildCellFieldOnRecurseWithoutOverlapWithoutGhost(a, "F")
    val = {}
    for n in nodes:
        c = cover(n)
        for i in itertools.product(*[range(x) for x in n.dims()]):
            if not c[i]:
                val[tuple(round(o[k] + dx[k] * (n.lo[k] + i[k] + .5) / n.fact[k], 9) for k in range(d))] = \
                    float(W[id(n), "F"][n.ids[tuple(y + g for y in i)], 0])
    cen = G.np2(fl.getMesh().computeCellCenterOfMass())
    got = {tuple(round(float(y), 9) for y in x): v for x, v in zip(cen, G.L(fl.getArray()))}
    mon.ok(len(got) == len(val) and all(near(got, x, v) for x, v in val.items()), key + ":finest", n=len(got), want=len(val))
    for n in nodes:
        w = at.buildCellFieldOnWithGhost(n.mesh, "V")
        mon.close(G.np2(w.getArray()), W[id(n), "V"], key + ":with-ghost", tol=1e-12)
        mon.eq([x - 1 for x in w.getMesh().getNodeStruct()], [x + 2 * g for x in n.dims()], key + ":with-ghost-mesh")
        w = at.buildCellFieldOnWithoutGhost(n.mesh, "V")
        mon.close(G.np2(w.getArray()), W[id(n), "V"][flat(n.ids[sl([(g, g + x) for x in n.dims()])])], key + ":without-ghost", tol=1e-12)
    # the copy has kept the first values: ghost zones
    b = at2.getMyGodFather()

    def twin(n):
        return b.getMeshAtPosition(pos_of(n)) if n.father else b
    for n in nodes:
        mon.eq(G.np2(at2.getFieldOn(twin(n), "F")).tolist(), V[id(n), "F"].tolist(), key + ":copy")
    if g:
        at2.synchronizeAllGhostZones()
        for n in nodes:
            if not n.father:
                continue
            A = G.np2(at2.getFieldOn(twin(n), "V"))
            for c in itertools.product(*[range(-g, x + g) for x in n.dims()]):
                i = n.ids[tuple(x + g for x in c)]
                pos = [x + l for x, l in zip(c, n.lo)]
                if all(0 <= x < y for x, y in zip(c, n.dims())):
                    mon.eq(A[i].tolist(), V[id(n), "V"][i].tolist(), key + ":ghost-inside")
                    continue
                t = [t for t in nodes if t.lev == n.lev and t is not n and all(l <= x < h for x, l, h in zip(pos, t.lo, t.hi))]
                if t:
                    want = V[id(t[0]), "V"][t[0].ids[tuple(x - l + g for x, l in zip(pos, t[0].lo))]]
                    mon.eq(A[i].tolist(), want.tolist(), key + ":ghost-" + ("brother" if t[0].father is n.father else "cousin"),
                           pos=pos, me=(n.lo, n.hi), it=(t[0].lo, t[0].hi))
                elif n.lev == 1:
                    up = tuple(p // f + g for p, f in zip(pos, f0))
                    mon.eq(A[i].tolist(), V[id(root), "V"][root.ids[up]].tolist(), key + ":ghost-father", pos=pos)
    mon.nontrivial = len(nodes) > 1
    mon.mark(key, g, len(nodes) > 3)


def t_levels(rng, mon, m):
    """Values going from one level to the next one, and to another hierarchy."""
    a, root, o, dx, f0 = amr(rng, m)
    if not root.sons:
        raise Skip("no patch")
    d = len(o)
    g = rng.randint(0, min(f0))
    ext = rng.random() < 0.4
    nat = [m.ExtensiveConservation if ext else m.IntensiveMaximum] * 2
    key = f"levels:{d}d:{'sum' if ext else 'mean'}"

    def attribute(a, root):
        at = m.MEDCouplingAMRAttribute(a, [("F", 1), ("V", 2)], g)
        at.alloc()
        at.spillInfoOnComponents([["x"], ["y", "z"]])
        at.spillNatures(nat)
        V = {}
        for n in root.all():
            n.ids = F([x + 2 * g for x in n.dims()])
            for name, nc in (("F", 1), ("V", 2)):
                X = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(n.ids.size)])
                at.getFieldOn(n.mesh, name).setValues(X.ravel().tolist(), len(X), nc)
                V[id(n), name] = X
        return at, V
    at, V = attribute(a, root)
    nodes = list(root.all())
    levels = max(n.lev for n in nodes) + 1
    mon.eq(at.getNumberOfLevels(), levels, key + ":number")
    fact = int(np.prod(f0))

    def box(n, e):
        return itertools.product(*[range(-e, x + e) for x in n.dims()])

    def at_(n, c):
        return n.ids[tuple(x + g for x in c)]

    def father(n, c):
        return at_(n.father, [p + x // f for x, (p, q), f in zip(c, n.part, f0)])

    def look(at, W, k, tol=1e-12, nodes=nodes, a=a):
        for n in nodes:
            w = a.getMeshAtPosition(pos_of(n)) if n.father else a
            for name, x in zip("FV", at.retrieveFieldsOn(w)):
                mon.close(G.np2(x), W[id(n), name], key + k, tol=tol, level=n.lev, f=f0, g=g, name=name, struct=root.dims())

    def down(W, lev, zone=False):
        for n in nodes:
            if n.lev == lev:
                for c in box(n, g):
                    if zone and all(0 <= x < y for x, y in zip(c, n.dims())):
                        continue
                    for name in "FV":
                        W[id(n), name][at_(n, c)] = W[id(n.father), name][father(n, c)] / (fact if ext and not zone else 1)

    def up(W, lev):
        for n in nodes:
            if n.lev == lev:
                for name in "FV":
                    W[id(n.father), name][sorted({int(father(n, c)) for c in box(n, 0)})] = 0
                    for c in box(n, 0):
                        W[id(n.father), name][father(n, c)] += W[id(n), name][at_(n, c)] / (1 if ext else fact)

    def fresh():
        t = at.deepCopy()
        return t, t.getMyGodFather(), {k: v.copy() for k, v in V.items()}
    lo, hi = sorted(rng.sample(range(levels), 2))
    t, b, W = fresh()
    if rng.random() < .5:
        lo, hi = 0, levels - 1
        t.synchronizeCoarseToFine()
    else:
        t.synchronizeCoarseToFineBetween(lo, hi)
    for k in range(lo, hi):
        down(W, k + 1)
    look(t, W, ":coarse-to-fine", a=b)
    t, b, W = fresh()
    lo, hi = sorted(rng.sample(range(levels), 2))
    t.synchronizeFineToCoarseBetween(hi, lo)
    for k in range(hi, lo, -1):
        up(W, k)
    look(t, W, ":fine-to-coarse", a=b)
    t.synchronizeCoarseToFineBetween(lo, lo)
    t.synchronizeFineToCoarseBetween(hi, hi)
    mon.raises(lambda: t.synchronizeCoarseToFineBetween(hi, lo), key + ":down-order")
    mon.raises(lambda: t.synchronizeFineToCoarseBetween(lo, hi), key + ":up-order")
    mon.raises(lambda: t.synchronizeFineToCoarseBetween(levels, lo), key + ":no-level")
    mon.raises(lambda: t.synchronizeAllGhostZonesAtASpecifiedLevel(levels), key + ":no-level")
    look(t, W, ":nothing", a=b)
    # ghost zones
    lev = rng.randrange(1, levels)
    t, b, W = fresh()
    t.synchronizeAllGhostZonesAtASpecifiedLevelUsingOnlyFather(lev)
    down(W, lev, True)
    look(t, W, ":ghost-father", a=b)

    def others(W, keep):
        for n in nodes:
            for c in box(n, g):
                pos = [x + l for x, l in zip(c, n.lo)]
                if all(0 <= x < y for x, y in zip(c, n.dims())):
                    continue
                for q in nodes:
                    if q is not n and q.lev == n.lev and keep(n, q) and all(l <= x < h for x, l, h in zip(pos, q.lo, q.hi)):
                        for name in "FV":
                            W[id(n), name][at_(n, c)] = V[id(q), name][at_(q, [x - l for x, l in zip(pos, q.lo)])]
    t, b, W = fresh()
    t.synchronizeAllGhostZonesAtASpecifiedLevel(lev)
    others(W, lambda n, q: n.lev == lev)
    look(t, W, ":ghost-level", a=b)
    t, b, W = fresh()
    p = rng.choice([n for n in nodes if n.lev < levels - 1])
    t.synchronizeAllGhostZonesOfDirectChidrenOf(b.getMeshAtPosition(pos_of(p)) if p.father else b)
    others(W, lambda n, q: n.father is p and q.father is p)
    look(t, W, ":ghost-sons", a=b)
    # patches around a patch
    for n in nodes:
        if len(n.sons) > 1 and g:
            k = rng.randrange(len(n.sons))
            s = n.sons[k]
            want = [i for i, q in enumerate(n.sons) if i != k and
                    all(max(x, y) <= min(z, w) for x, y, z, w in zip(s.lo, q.lo, s.hi, q.hi))]
            mon.eq(sorted(G.L(n.mesh.findPatchesInTheNeighborhoodOf(k, g))), want, key + ":around")
    for n in nodes:
        if n.father:
            q = a.getPatchAtPosition(pos_of(n))
            mon.eq([tuple(x) for x in q.getBLTRRange()], [tuple(x) for x in n.part], key + ":patch-at")
    # another hierarchy on the same grid
    for _ in range(20):
        a2, r2 = hierarchy(rng, m, root.dims(), o, dx, f0, levels - 1)
        if max(n.lev for n in r2.all()) == levels - 1:
            break
    else:
        mon.nontrivial = True
        return
    for n in r2.all():
        n.ids = F([x + 2 * g for x in n.dims()])
    t = at.projectTo(a2)
    n2 = list(r2.all())
    W = {(id(r2), name): V[id(root), name].copy() for name in "FV"}
    for lev in range(1, levels):
        for n in n2:
            if n.lev == lev:
                for name in "FV":
                    X = np.zeros((n.ids.size, 1 + (name == "V")))
                    for c in box(n, g):
                        X[at_(n, c)] = W[id(n.father), name][father(n, c)] / (fact if ext else 1)
                    for c in box(n, 0):
                        pos = [x + l for x, l in zip(c, n.lo)]
                        for q in nodes:
                            if q.lev == lev and all(l <= x < h for x, l, h in zip(pos, q.lo, q.hi)):
                                X[at_(n, c)] = V[id(q), name][at_(q, [x - l for x, l in zip(pos, q.lo)])]
                    W[id(n), name] = X
    look(t, W, ":project", nodes=n2, a=a2)
    look(at, V, ":project-source")
    mon.nontrivial = True
    mon.mark(key, g, levels, len(nodes) > 3)


def t_tree(rng, mon, m):
    """Who is where in a hierarchy."""
    a, root, o, dx, f0 = amr(rng, m)
    d = len(o)
    key = f"tree:{d}d"
    nodes = list(root.all())
    same = lambda x, y: x.getHiddenCppPointer() == y.getHiddenCppPointer() if hasattr(x, "getHiddenCppPointer") else \
        x.getImageMesh().getHiddenCppPointer() == y.getImageMesh().getHiddenCppPointer()
    mon.eq(a.getFather(), None, key + ":no-father")
    for n in nodes:
        w = n.mesh
        mon.ok(same(w.getGodFather(), a), key + ":god")
        mon.eq(w.getAbsoluteLevelRelativeTo(a), n.lev, key + ":level")
        mon.eq([tuple(x) for x in w.positionRelativeToGodFather()[0]], [tuple(x) for x in zip(n.lo, n.hi)], key + ":place")
        mon.eq(w.getSpaceDimension(), d, key + ":dimension")
        mon.eq((len(w), w.getNumberOfPatches(), len(w.getPatches())), (len(n.sons),) * 3, key + ":sons")
        if n.father:
            p = n.father
            mon.ok(same(w.getFather(), p.mesh), key + ":father")
            k = p.sons.index(n)
            mon.eq(p.mesh.getPatchIdFromChildMesh(w), k, key + ":id")
            q = p.mesh[k]
            mon.eq(q.getNumberOfOverlapedCellsForFather(), int(np.prod([y - x for x, y in n.part])), key + ":overlaped")
            mon.eq(list(q.computeCellGridSt()), n.dims(), key + ":grid")
            mon.eq([tuple(x) for x in q.getBLTRRange()], [tuple(x) for x in n.part], key + ":range")
            mon.eq(q.getNumberOfCellsRecursiveWithOverlap(), sum(int(np.prod(x.dims())) for x in n.all()), key + ":cells")
            mon.eq(q.getNumberOfCellsRecursiveWithoutOverlap(), sum(int((~cover(x)).sum()) for x in n.all()), key + ":cells-free")
            mon.eq(q.getMaxNumberOfLevelsRelativeToThis(), max(x.lev for x in n.all()) - n.lev + 1, key + ":levels")
            mon.eq([tuple(x) for x in q.getBLTRRangeRelativeToGF()], [tuple(x) for x in zip(n.lo, n.hi)], key + ":range-god", f=f0, lev=n.lev)
        if n.sons:
            mon.eq(list(w.getFactors()), f0, key + ":factors")
            e = M.read(w.buildMeshOfDirectChildrenOnly().buildUnstructured())
            want = []
            for s in n.sons:
                im = s.mesh.getImageMesh()
                want.append(M.read(im.buildUnstructured()))
            mon.close(e.coords, np.vstack([x.coords for x in want]), key + ":children-nodes", tol=1e-12, scale=10)
            mon.eq(len(e.cells), sum(len(x.cells) for x in want), key + ":children-cells")
            off, q = 0, 0
            for x in want:
                for t, c in x.cells:
                    mon.ok(e.cells[q][0] == t and list(e.cells[q][1]) == [v + off for v in c], key + ":children-cell")
                    q += 1
                off += len(x.coords)
    for lev in range(max(n.lev for n in nodes) + 1):
        got = a.retrieveGridsAt(lev)
        mon.eq(sorted(str(x.getMesh().positionRelativeToGodFather()[0]) for x in got),
               sorted(str([(x, y) for x, y in zip(n.lo, n.hi)]) for n in nodes if n.lev == lev), key + ":at-level")
    # one brother gives its values to the ghost zone of the other one
    fathers = [n for n in nodes if len(n.sons) > 1]
    if fathers:
        p = rng.choice(fathers)
        g = rng.randint(1, min(f0))
        Z = [np.array([[rng.gauss(0, 1)] for _ in range(int(np.prod([x + 2 * g for x in t.dims()])))]) for t in p.sons]
        gi = [F([x + 2 * g for x in t.dims()]) for t in p.sons]

        def want(k, qs):
            W = Z[k].copy()
            for c in itertools.product(*[range(-g, x + g) for x in p.sons[k].dims()]):
                pos = [x + l for x, l in zip(c, p.sons[k].lo)]
                for q in qs:
                    t = p.sons[q]
                    if q != k and all(l <= x < h for x, l, h in zip(pos, t.lo, t.hi)):
                        W[gi[k][tuple(x + g for x in c)]] = Z[q][gi[q][tuple(x - l + g for x, l in zip(pos, t.lo))]]
            return W
        k, q = rng.sample(range(len(p.sons)), 2)
        close_ = all(max(x, y) <= min(z, w) for x, y, z, w in zip(p.sons[k].lo, p.sons[q].lo, p.sons[k].hi, p.sons[q].hi))
        mon.eq(bool(p.mesh[k].isInMyNeighborhood(p.mesh[q], g)), close_, key + ":in-neighborhood")
        near_ = [i for i, t in enumerate(p.sons) if i != k and
                 all(max(x, y) <= min(z, w) for x, y, z, w in zip(p.sons[k].lo, t.lo, p.sons[k].hi, t.hi))]
        mon.eq(sorted(p.mesh.getPatchIdsInTheNeighborhoodOf(k, g)), near_, key + ":ids-around")
        arrs = [G.npd(m, z) for z in Z]
        with G.Pure(mon, key, *[x for i, x in enumerate(arrs) if i != k]):
            p.mesh.fillCellFieldOnPatchOnlyGhostAdv(k, g, arrs)
        mon.eq(G.np2(arrs[k]).tolist(), want(k, range(len(Z))).tolist(), key + ":ghost-adv", g=g, f=f0)
        if close_:
            x, y = G.npd(m, Z[k]), G.npd(m, Z[q])
            p.mesh.fillCellFieldOnPatchOnlyOnGhostZoneWith(g, p.mesh[k], p.mesh[q], x, y)
            mon.eq(G.np2(x).tolist(), want(k, [q]).tolist(), key + ":ghost-with", g=g, f=f0)
            mon.eq(G.np2(y).tolist(), Z[q].tolist(), key + ":ghost-with-source")
    # several levels at once from one criterion
    cd = root.dims()
    b = m.MEDCouplingCartesianAMRMesh("ml", d, [n + 1 for n in cd], o, dx)
    flag = np.zeros(cd, bool)
    for _ in range(rng.randint(1, 2)):
        flag[sl(part_of(rng, cd))] = True
    opts = []
    L = rng.randint(1, 2)
    for _ in range(L):
        x = m.BoxSplittingOptions()
        x.setEfficiencyGoal(.7)
        x.setEfficiencyThreshold(.7)
        x.setMinimumPatchLength(1)
        x.setMaximumPatchLength(rng.randint(4, 20))
        x.setMaximumNbOfCellsInPatch(rng.choice([16, 1000]))
        opts.append(x)
    fs = [[rng.randint(1, 2) for _ in cd] for _ in range(L)]
    eps = .25
    crit = G.dbl(m, [float(x) + rng.uniform(-.2, .2) for x in flat(flag.astype(int))])
    b.createPatchesFromCriterionML(opts, crit, fs, eps)
    tot = np.ones(d, int)
    for lev in range(1, L + 1):
        tot = tot * np.array(fs[lev - 1])
        cnt = np.zeros([int(x * y) for x, y in zip(cd, tot)], int)
        for x in b.retrieveGridsAt(lev):
            cnt[sl([tuple(y) for y in x.getMesh().positionRelativeToGodFather()[0]])] += 1
        big = flag
        for k in range(d):
            big = np.repeat(big, int(tot[k]), axis=k)
        mon.ok((cnt <= 1).all(), key + ":levels-overlap")
        mon.ok((cnt[big] == 1).all(), key + ":levels-missed", n=int((cnt[big] == 0).sum()), level=lev, f=fs)
    mon.nontrivial = len(nodes) > 1
    mon.mark(key, len(nodes) > 3)


def t_mapped(rng, mon, m):
    """Extruded meshes seen through their base and their line."""
    base = M.grid2(rng, rng.randint(1, 3), rng.randint(1, 3), rng.choice(["q", "T", "qT", "qtT"]), rng.choice([0., .2]))
    u2 = base.um(m)
    u2.changeSpaceDimension(3, 0.)
    nz = rng.randint(1, 4)
    z = np.cumsum([0.] + [rng.uniform(.3, 1.5) for _ in range(nz)])
    line = m.MEDCouplingUMesh("line", 1)
    line.setCoords(G.npd(m, np.array([[0., 0., x] for x in z])))
    line.allocateCells(nz)
    for k in range(nz):
        line.insertNextCell(m.NORM_SEG2, [k, k + 1])
    u3 = u2.buildExtrudedMesh(line, 0)
    u3.setName("three")
    n2 = len(base.cells)
    r = M.read(u3)
    key = "mapped"
    mon.need(len(r.cells) == n2 * nz, key + ":extruded", got=len(r.cells))
    for k in range(nz):
        for i in range(n2):
            X = r.coords[r.nodes(k * n2 + i)]
            want = [list(base.coords[c]) + [zz] for zz in (z[k], z[k + 1]) for c in base.cells[i][1]]
            mon.close(sorted(map(tuple, X.round(9).tolist())), sorted(map(tuple, np.round(want, 9).tolist())), key + ":extruded-nodes", tol=1e-8, scale=10)
    p = G.perm(rng, len(r.cells))
    u3.renumberCells(p, True)
    u2b = u2.deepCopy()
    u2b.setCoords(u3.getCoords())
    # the base on the nodes of the mesh: the first layer
    face = u3.buildFacePartOfMySelfNode([n for n in range(u3.getNumberOfNodes()) if abs(u3.getCoords().getIJ(n, 2)) < 1e-9], True)
    face = face.buildPartOfMySelf(G.perm(rng, n2), True)
    face.setName("base")
    e = m.MEDCouplingMappedExtrudedMesh(u3, face, 0)
    mon.eq((e.getNumberOfCells(), e.getNumberOfNodes()), (n2 * nz, u3.getNumberOfNodes()), key + ":sizes")
    ids = G.L(e.getMesh3DIds())
    mon.eq(sorted(ids), list(range(n2 * nz)), key + ":ids")
    w = M.read(u3)
    fc = M.read(face)
    for k in range(nz):
        for i in range(n2):
            X = w.coords[w.nodes(ids[k * n2 + i])]
            B = fc.coords[fc.nodes(i)]
            mon.ok(abs(X[:, 2].min() - z[k]) < 1e-9 and abs(X[:, 2].max() - z[k + 1]) < 1e-9 and
                   all(min(np.abs(x[:2] - y[:2]).max() for y in B) < 1e-9 for x in X), key + ":place", cell=i, level=k)
    mon.close(G.L(e.getMeasureField(True).getArray()), np.abs(G.L(u3.getMeasureField(True).getArray())), key + ":measure", tol=1e-10)
    b = e.build3DUnstructuredMesh()
    q = M.read(b)
    mon.need(len(q.cells) == len(w.cells), key + ":back")
    for i in range(len(w.cells)):
        # cell i of the rebuilt mesh lies where cell i of the mapped mesh is
        A, B = q.coords[q.nodes(i)], w.coords[w.nodes(i)]
        mon.close(sorted(map(tuple, A.round(8).tolist())), sorted(map(tuple, B.round(8).tolist())), key + ":back-cell", tol=1e-7, scale=10)
    mon.nontrivial = n2 * nz > 1
    mon.mark(key, n2 > 2, nz > 1)


OPS = [("index", t_index), ("mesh", t_mesh), ("refine", t_refine), ("amr", t_amr), ("transfer", t_transfer),
       ("criterion", t_criterion), ("attr", t_attr), ("levels", t_levels), ("tree", t_tree), ("mapped", t_mapped)]
FAMILIES = [G.table("grid", OPS, 930)]
