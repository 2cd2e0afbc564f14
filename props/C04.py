"""Topological services of unstructured meshes against set definitions."""
import collections

import numpy as np

from props import gen as G
from props import mesh as M
from props import refcells

RULE = ("Each case builds five meshes in Python (1-D lines, 2-D grids of triangles, quadrangles and polygons, 3-D "
        "tetrahedra, pyramids, prisms, hexahedra, hexagonal prisms and polyhedra, linear and quadratic, with shuffled "
        "cells and nodes and sometimes orphan nodes, cells removed to get several zones), calls one group of "
        "topological services and compares with set definitions computed from the Python mesh. Non-trivial: the mesh "
        "was built and the services called.")
ASSUMPTIONS = ["face and edge tables of the MED cell types in props/mesh.py"]


def some(rng, dims=(1, 2, 3), poly=True, quad=0.25, hole=0.4):
    pm = M.anymesh(rng, dims, poly, shuf=False)
    if rng.random() < quad and pm.mdim > 1 and all(t in M.QUADRATIC for t, _ in pm.cells):
        pm = M.quadratic(rng, pm)
    if rng.random() < hole and len(pm.cells) > 2:
        keep = sorted(rng.sample(range(len(pm.cells)), rng.randint(1, len(pm.cells))))
        pm.cells = [pm.cells[i] for i in keep]
    return M.shuffle(rng, pm, orphans=rng.choice([0, 0, 3]))


def idx(c, ci):
    c, ci = G.L(c), G.L(ci)
    return [c[a:b] for a, b in zip(ci, ci[1:])]


def is_index(mon, key, c, ci, n):
    ci = G.L(ci)
    return mon.ok(len(ci) == n + 1 and ci[0] == 0 and ci[-1] == c.getNumberOfTuples()
                  and all(a <= b for a, b in zip(ci, ci[1:])), key + ":index", ci=ci, n=n)


def keys(pm):
    """The corner-node set of every cell."""
    r = []
    for i in range(len(pm.cells)):
        t, c = pm.linear(i)
        r.append(frozenset(sum(map(list, c), []) if t == M.POLYHED else c))
    return r


def t_desc(rng, mon, m):
    pm = some(rng)
    u = pm.um(m)
    n = len(pm.cells)
    ref = pm.faces_cells()
    mon.mark("desc", pm.mdim, len(set(t for t, _ in pm.cells)), any(t in M.LINEAR for t, _ in pm.cells))
    with G.Pure(mon, "buildDescendingConnectivity", u):
        d, di, r, ri = [m.DataArrayInt() for _ in range(4)]
        s = u.buildDescendingConnectivity(d, di, r, ri)
    check_desc(mon, "buildDescendingConnectivity", pm, s, d, di, r, ri, ref)
    if pm.mdim > 1:
        with G.Pure(mon, "buildDescendingConnectivity2", u):
            d2, di2, r2, ri2 = [m.DataArrayInt() for _ in range(4)]
            s2 = u.buildDescendingConnectivity2(d2, di2, r2, ri2)
        sp = M.read(s2)
        mon.ok(all(v != 0 for v in G.L(d2)), "buildDescendingConnectivity2:ids-from-1")
        for i, l in enumerate(idx(d2, di2)):
            mine = collections.Counter(cy(f) for f in pm.sub(i))
            got = collections.Counter(cy(sp.linear(abs(v) - 1)[1][::1 if v > 0 else -1]) for v in l)
            if pm.mdim == 2:
                mine = collections.Counter(tuple(f) for f in pm.sub(i))
                got = collections.Counter(tuple(sp.linear(abs(v) - 1)[1][::1 if v > 0 else -1]) for v in l)
            mon.ok(mine == got, "buildDescendingConnectivity2:orientation", cell=pm.cells[i], mine=mine, got=got)
        da = m.DataArrayInt([abs(v) - 1 for v in G.L(d2)])
        check_desc(mon, "buildDescendingConnectivity2", pm, s2, da, di2, r2, ri2, ref)
    e = u.explodeMeshTo(-1)
    check_desc(mon, "explodeMeshTo", pm, e[0], *e[1:], ref=ref)


def cy(f):
    return M.cyc(list(f))


def check_desc(mon, key, pm, s, d, di, r, ri, ref):
    n = len(pm.cells)
    mon.eq(s.getMeshDimension(), pm.mdim - 1, key + ":dimension")
    sp = M.read(s)
    ks = keys(sp)
    mon.eq(len(set(ks)), len(ks), key + ":duplicates")
    mon.eq(set(ks), set(ref), key + ":entities")
    if not is_index(mon, key, d, di, n) or not is_index(mon, key + ":rev", r, ri, len(ks)):
        return
    for i, l in enumerate(idx(d, di)):
        mon.eq(collections.Counter(ks[v] for v in l), collections.Counter(map(frozenset, pm.sub(i))), key + ":desc")
    for k, l in zip(ks, idx(r, ri)):
        mon.eq(sorted(set(l)), sorted(ref.get(k, [])), key + ":revDesc")
        mon.eq(len(l), len(set(l)), key + ":revDesc-once")


def t_edges(rng, mon, m):
    pm = some(rng, (3,), poly=True, quad=0.2)
    u = pm.um(m)
    mon.mark("edges", len(set(t for t, _ in pm.cells)))
    ref = {}
    mine = []
    for i in range(len(pm.cells)):
        es = set()
        for f in pm.sub(i):
            es |= {frozenset((f[k], f[(k + 1) % len(f)])) for k in range(len(f))}
        mine.append(es)
        for e in es:
            ref.setdefault(e, []).append(i)
    with G.Pure(mon, "explode3DMeshTo1D", u):
        d, di, r, ri = [m.DataArrayInt() for _ in range(4)]
        s = u.explode3DMeshTo1D(d, di, r, ri)
        x = u.explodeMeshTo(-2)
        y = u.explodeIntoEdges()
    for key, (s, d, di, r, ri) in (("explode3DMeshTo1D", (s, d, di, r, ri)), ("explodeMeshTo-2", x), ("explodeIntoEdges", y)):
        sp = M.read(s)
        ks = keys(sp)
        mon.eq(len(ks), len(set(ks)), key + ":duplicates")
        mon.eq(set(ks), set(ref), key + ":entities")
        if not is_index(mon, key, d, di, len(pm.cells)) or not is_index(mon, key, r, ri, len(ks)):
            continue
        for i, l in enumerate(idx(d, di)):
            mon.eq(sorted(l), sorted(set(l)), key + ":once")
            mon.eq({ks[v] for v in l}, mine[i], key + ":desc")
        for k, l in zip(ks, idx(r, ri)):
            mon.eq(sorted(l), sorted(ref.get(k, [])), key + ":revDesc")


def t_nodes(rng, mon, m):
    pm = some(rng)
    u = pm.um(m)
    n, nn = len(pm.cells), len(pm.coords)
    used = sorted(set(x for i in range(n) for x in pm.nodes(i)))
    rev = [[i for i in range(n) if x in set(pm.nodes(i))] for x in range(nn)]
    mon.mark("nodes", pm.mdim)
    with G.Pure(mon, "nodes", u):
        c, ci = u.getReverseNodalConnectivity()
        if is_index(mon, "getReverseNodalConnectivity", c, ci, nn):
            for x, l in enumerate(idx(c, ci)):
                mon.eq(sorted(l), rev[x], "getReverseNodalConnectivity")
        o2n, cnt = u.getNodeIdsInUse()
        o2n = G.L(o2n)
        mon.eq(cnt, len(used), "getNodeIdsInUse:count")
        mon.eq(o2n, [used.index(x) if x in set(used) else -1 for x in range(nn)], "getNodeIdsInUse")
        mon.eq(G.L(u.computeFetchedNodeIds()), used, "computeFetchedNodeIds")
        mon.eq(G.L(u.computeNbOfNodesPerCell()),
               [len([x for x in pm.flat(i) if x >= 0]) for i in range(n)], "computeNbOfNodesPerCell")
        mon.eq(G.L(u.computeEffectiveNbOfNodesPerCell()), [len(pm.nodes(i)) for i in range(n)],
               "computeEffectiveNbOfNodesPerCell")
        if pm.mdim > 1:
            mon.eq(G.L(u.computeNbOfFacesPerCell()), [len(pm.sub(i)) for i in range(n)], "computeNbOfFacesPerCell")
        for i in range(min(n, 10)):
            mon.eq(list(u.getNodeIdsOfCell(i)), [x for x in pm.flat(i) if x >= 0], "getNodeIdsOfCell")
            mon.eq(u.getTypeOfCell(i), pm.cells[i][0], "getTypeOfCell")
        mon.eq(set(u.getAllGeoTypes()), set(t for t, _ in pm.cells), "getAllGeoTypes")
        for t in set(t for t, _ in pm.cells):
            mon.eq(u.getNumberOfCellsWithType(t), sum(1 for x, _ in pm.cells if x == t), "getNumberOfCellsWithType")
            mon.eq(G.L(u.giveCellsWithType(t)), [i for i in range(n) if pm.cells[i][0] == t], "giveCellsWithType")
        sel = rng.sample(range(nn), rng.randint(1, nn))
        S = set(sel)
        full = [i for i in range(n) if set(pm.nodes(i)) <= S]
        part = [i for i in range(n) if set(pm.nodes(i)) & S]
        mon.eq(G.L(u.getCellIdsLyingOnNodes(sel, True)), full, "getCellIdsLyingOnNodes:full")
        mon.eq(G.L(u.getCellIdsLyingOnNodes(sel, False)), part, "getCellIdsLyingOnNodes:partial")
        mon.eq(G.L(u.getCellIdsFullyIncludedInNodeIds(sel)), full, "getCellIdsFullyIncludedInNodeIds")
        mon.eq(set(u.buildPartOfMySelfNode(sel, True).getNumberOfCells() for _ in (0,)), {len(full)}, "buildPartOfMySelfNode")
    b = np.array(list(u.getBoundingBox()) if not isinstance(u.getBoundingBox(), tuple) else [list(x) for x in u.getBoundingBox()])
    mon.close(b.reshape(-1, 2), np.stack([pm.coords.min(0), pm.coords.max(0)], 1), "getBoundingBox", 1e-12)
    bb = G.np2(u.getBoundingBoxForBBTree(0.))
    if not any(t in M.LINEAR for t, _ in pm.cells):
        w = np.array([np.stack([pm.coords[pm.nodes(i)].min(0), pm.coords[pm.nodes(i)].max(0)], 1).ravel() for i in range(n)])
        mon.close(bb, w, "getBoundingBoxForBBTree", 1e-12)


def t_neigh(rng, mon, m):
    pm = some(rng)
    u = pm.um(m)
    n, nn = len(pm.cells), len(pm.coords)
    fc = pm.faces_cells()
    mon.mark("neigh", pm.mdim)
    with G.Pure(mon, "neighbors", u):
        c, ci = u.computeNeighborsOfCells()
        if is_index(mon, "computeNeighborsOfCells", c, ci, n):
            for i, l in enumerate(idx(c, ci)):
                want = {j for f in pm.sub(i) for j in fc[frozenset(f)] if j != i}
                mon.eq(set(l), want, "computeNeighborsOfCells")
        if pm.mdim < 3 or True:
            c, ci = u.computeNeighborsOfNodes()
            lin = [pm.linear(i) for i in range(n)]
            w = [set() for _ in range(nn)]
            quad = any(t in M.LINEAR for t, _ in pm.cells)
            if not quad and is_index(mon, "computeNeighborsOfNodes", c, ci, nn):
                for i in range(n):
                    for f in pm.sub(i) if pm.mdim > 1 else [tuple(lin[i][1])]:
                        for k in range(len(f)):
                            a, b = f[k], f[(k + 1) % len(f)]
                            w[a].add(b)
                            w[b].add(a)
                for x, l in enumerate(idx(c, ci)):
                    mon.eq(sorted(l), sorted(w[x]), "computeNeighborsOfNodes", dim=pm.mdim)
        c, ci = u.computeEnlargedNeighborsOfNodes()
        w = [set() for _ in range(nn)]
        for i in range(n):
            ns = pm.nodes(i)
            for x in ns:
                w[x].update(ns)
        if is_index(mon, "computeEnlargedNeighborsOfNodes", c, ci, nn):
            for x, l in enumerate(idx(c, ci)):
                mon.eq(sorted(l), sorted(w[x] - {x}), "computeEnlargedNeighborsOfNodes")
    # zones: connected through faces
    g = {i: {j for f in pm.sub(i) for j in fc[frozenset(f)]} for i in range(n)}
    comp = components(n, g)
    if pm.mdim > 1 or True:
        z = u.partitionBySpreadZone()
        mon.eq(sorted(sorted(G.L(a)) for a in z), sorted(comp), "partitionBySpreadZone")
    # growing from seeds
    c, ci = u.computeNeighborsOfCells()
    seed = rng.sample(range(n), rng.randint(1, min(3, n)))
    r, lv = m.MEDCouplingUMesh.ComputeSpreadZoneGraduallyFromSeed(seed, c, ci)
    dist = {i: 0 for i in seed}
    todo = list(seed)
    while todo:
        nxt = []
        for i in todo:
            for j in g[i]:
                if j not in dist:
                    dist[j] = dist[i] + 1
                    nxt.append(j)
        todo = nxt
    mon.eq(sorted(G.L(r)), sorted(dist), "ComputeSpreadZoneGraduallyFromSeed")
    k = rng.randint(0, 3)
    r, lv = m.MEDCouplingUMesh.ComputeSpreadZoneGraduallyFromSeed(seed, c, ci, k)
    mon.eq(sorted(G.L(r)), sorted(i for i in dist if dist[i] <= k), "ComputeSpreadZoneGraduallyFromSeed:depth", k=k)


def components(n, g):
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        st, cur = [i], []
        seen.add(i)
        while st:
            x = st.pop()
            cur.append(x)
            for y in g[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        out.append(sorted(cur))
    return out


def t_skin(rng, mon, m):
    pm = some(rng, (2, 3))
    u = pm.um(m)
    n = len(pm.cells)
    fc = pm.faces_cells()
    bnd = {f for f, l in fc.items() if len(l) == 1}
    mon.mark("skin", pm.mdim)
    with G.Pure(mon, "skin", u):
        for key, s in (("computeSkin", u.computeSkin()), ("buildBoundaryMesh", u.buildBoundaryMesh(True))):
            sp = M.read(s)
            ks = keys(sp)
            mon.eq(len(ks), len(set(ks)), key + ":once")
            mon.eq(set(ks), bnd, key)
            # a boundary entity is oriented as its only cell sees it
            own = {}
            for i in range(n):
                for f in pm.sub(i):
                    own.setdefault(frozenset(f), []).append(f)
            for i, k in enumerate(ks):
                if k in bnd:
                    f = own[k][0]
                    got = sp.linear(i)[1]
                    mon.ok(tuple(got) == tuple(f) if pm.mdim == 2 else cy(got) == cy(f), key + ":orientation", got=got, want=f)
        z = u.buildBoundaryMesh(False)
        mon.eq(z.getNumberOfCells(), len(bnd), "buildBoundaryMesh:zip")
        if bnd:
            mon.eq(len(G.L(z.computeFetchedNodeIds())), z.getNumberOfNodes(), "buildBoundaryMesh:zip-nodes")
        wn = sorted(set(x for f in bnd for x in f))
        if not any(t in M.LINEAR for t, _ in pm.cells):
            mon.eq(sorted(G.L(u.findBoundaryNodes())), wn, "findBoundaryNodes")
        mon.eq(G.L(u.findCellIdsOnBoundary()), [i for i in range(n) if any(frozenset(f) in bnd for f in pm.sub(i))],
               "findCellIdsOnBoundary")


def t_common(rng, mon, m):
    pm = M.anymesh(rng, (1, 2, 3), True)
    n = len(pm.cells)
    cells = list(pm.cells)
    lab = list(range(n))
    kind = ["same"] * n
    # duplicates: identical, or (2-D) rotated or reversed
    few = [rng.randrange(n) for _ in range(2)]
    for _ in range(rng.randint(1, 8)):
        i = rng.choice(few) if rng.random() < 0.4 else rng.randrange(n)
        t, c = pm.cells[i]
        k = rng.choice(["same", "rot", "rev"])
        if k == "rot" and t in (M.TRI3, M.QUAD4, M.POLYGON):
            s = rng.randint(1, len(c) - 1)
            cells.append((t, c[s:] + c[:s]))
        elif k == "rev" and t in (M.TRI3, M.QUAD4, M.POLYGON, M.SEG2):
            s = rng.randint(0, len(c) - 1) if t != M.SEG2 else 0
            cells.append((t, (c[s:] + c[:s])[::-1]))
        else:
            k = "same"
            cells.append((t, c))
        lab.append(i)
        kind.append(k)
    o = G.perm(rng, len(cells))
    q = M.PM(pm.coords, [cells[i] for i in o], pm.mdim)
    lab, kind = [lab[i] for i in o], [kind[i] for i in o]
    u = q.um(m)

    def groups(key):
        d = {}
        for i in range(len(lab)):
            d.setdefault(key(i), []).append(i)
        return d
    exact = groups(lambda i: (q.cells[i][0], tuple(q.flat(i))))
    loose = groups(lambda i: lab[i])
    mon.mark("common", pm.mdim)
    with G.Pure(mon, "findCommonCells", u):
        for ct, ref in ((0, exact), (2, loose)):
            c, ci = u.findCommonCells(ct, 0)
            got = sorted(sorted(l) for l in idx(c, ci))
            mon.eq(got, sorted(g for g in ref.values() if len(g) > 1), "findCommonCells:%d" % ct)
        if pm.mdim == 2:
            ori = groups(lambda i: (q.cells[i][0], M.cyc(list(q.cells[i][1]))))
            c, ci = u.findCommonCells(1, 0)
            got = sorted(sorted(l) for l in idx(c, ci))
            mon.eq(got, sorted(g for g in ori.values() if len(g) > 1), "findCommonCells:1")
    v = u.deepCopy()
    o2n = G.L(v.zipConnectivityTraducer(2))
    mon.eq(v.getNumberOfCells(), len(loose), "zipConnectivityTraducer:count")
    mon.ok(all((o2n[i] == o2n[j]) == (lab[i] == lab[j]) for i in range(len(lab)) for j in range(i)),
           "zipConnectivityTraducer:o2n", o2n=o2n)
    vp = M.read(v)
    first = {}
    for i in range(len(lab)):
        first.setdefault(o2n[i], i)
    mon.ok(all(keys(vp)[k] == keys(q)[i] for k, i in first.items()), "zipConnectivityTraducer:cells")
    # inclusion
    w = pm.um(m)
    sel = rng.sample(range(n), rng.randint(1, n))
    p = w.buildPartOfMySelf(sel, True)
    yes, arr = w.areCellsIncludedIn(p, 2)
    mon.ok(yes, "areCellsIncludedIn")
    mon.eq(G.L(arr), sel, "areCellsIncludedIn:ids")
    if pm.mdim < 3:
        sgn = []
        for k, i in enumerate(sel):
            t, c = pm.cells[i]
            sgn.append(rng.choice([1, -1]))
            if sgn[-1] < 0:
                c = c[::-1]
            if t != M.SEG2:
                s = rng.randint(0, len(c) - 1)
                c = c[s:] + c[:s]
            sel[k] = (i, (t, c))
        pq = M.PM(pm.coords, [c for _, c in sel], pm.mdim).um(m)
        sel = [i for i, _ in sel]
        pq.setCoords(w.getCoords())
        r = w.areCellsIncludedInPolicy7(pq)
        mon.ok(r[0] and G.L(r[1]) == [a * (i + 1) for a, i in zip(sgn, sel)], "areCellsIncludedInPolicy7", got=r)
    rest = [i for i in range(n) if i not in sel]
    if rest:
        x = w.buildPartOfMySelf(rest, True)
        yes, arr = x.areCellsIncludedIn(p, 2)
        mon.ok(not yes, "areCellsIncludedIn:no")


def t_line(rng, mon, m):
    """Ordering of one-dimensional cells."""
    pm = M.line(rng, sdim=rng.choice([2, 3]))
    n = len(pm.cells)
    pm = M.shuffle(rng, pm)
    u = pm.um(m)
    with G.Pure(mon, "orderConsecutiveCells1D", u):
        o = G.L(u.orderConsecutiveCells1D())
    mon.eq(sorted(o), list(range(n)), "orderConsecutiveCells1D:permutation")
    if sorted(o) == list(range(n)):
        seq = [pm.cells[i][1] for i in o]
        mon.ok(all(set(a) & set(b) for a, b in zip(seq, seq[1:])), "orderConsecutiveCells1D", seq=seq)


def t_gtu(rng, mon, m):
    """Single-type representations agree with the general one."""
    pm = M.any2(rng, rng.choice([2, 3]), kinds_one(rng)) if False else M.anymesh(rng, (2, 3), True, shuf=False)
    t = rng.choice(sorted(set(x for x, _ in pm.cells)))
    pm.cells = [c for c in pm.cells if c[0] == t]
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 2]))
    u = pm.um(m)
    g = m.MEDCoupling1GTUMesh.New(u)
    n, nn = len(pm.cells), len(pm.coords)
    mon.mark("gtu", t)
    with G.Pure(mon, "1gtu", g):
        mon.eq((g.getNumberOfCells(), g.getNumberOfNodes(), g.getCellModelEnum(), g.getMeshDimension()),
               (n, nn, t, pm.mdim), "1gtu:counts")
        mon.eq([list(g.getNodeIdsOfCell(i)) for i in range(n)], [pm.flat(i) for i in range(n)], "1gtu:conn")
        c, ci = g.getReverseNodalConnectivity()
        rev = [[i for i in range(n) if x in set(pm.nodes(i))] for x in range(nn)]
        got = [sorted(l) for l in idx(c, ci)]
        mon.eq([sorted(set(l)) for l in got], rev, "1gtu:reverse")
        mon.ok(all(len(l) == len(set(l)) for l in got), "1gtu:reverse-once" + (":polyhedra" if t == M.POLYHED else ""), got=got)
        mon.eq(G.L(g.computeFetchedNodeIds()), sorted(set(x for i in range(n) for x in pm.nodes(i))), "1gtu:fetched")
        mon.eq(G.L(g.computeNbOfNodesPerCell()), [len([x for x in pm.flat(i) if x >= 0]) for i in range(n)], "1gtu:nbnodes")
        mon.eq(G.L(g.computeNbOfFacesPerCell()), [len(pm.sub(i)) for i in range(n)], "1gtu:nbfaces")
        mon.eq(G.L(g.computeEffectiveNbOfNodesPerCell()), [len(pm.nodes(i)) for i in range(n)], "1gtu:effective")
        b = g.buildUnstructured()
        mon.eq(M.read(b).cells, pm.cells, "1gtu:buildUnstructured")
        sel = rng.sample(range(n), rng.randint(1, n))
        mon.eq(M.read(g.buildPartOfMySelf(sel, True).buildUnstructured()).cells, [pm.cells[i] for i in sel], "1gtu:part")
        S = rng.sample(range(nn), rng.randint(1, nn))
        mon.eq(G.L(g.getCellIdsLyingOnNodes(S, True)), [i for i in range(n) if set(pm.nodes(i)) <= set(S)], "1gtu:lying")
        mon.eq(G.L(g.getCellIdsLyingOnNodes(S, False)), [i for i in range(n) if set(pm.nodes(i)) & set(S)], "1gtu:lying")
        mon.close(G.np2(g.computeCellCenterOfMass()), G.np2(u.computeCellCenterOfMass()), "1gtu:barycentre", 1e-9)
    h = g.deepCopy()
    h.zipCoords()
    mon.eq(h.getNumberOfNodes(), len(set(x for i in range(n) for x in pm.nodes(i))), "1gtu:zip")


def t_types(rng, mon, m):
    """Splitting by type, counting, renumbering for MED order."""
    pm = some(rng, (2, 3), quad=0.1)
    u = pm.um(m)
    n = len(pm.cells)
    mon.mark("types", len(set(t for t, _ in pm.cells)))
    with G.Pure(mon, "types", u):
        runs = []
        for t, _ in pm.cells:
            if not runs or runs[-1] != t:
                runs.append(t)
        mon.eq(u.checkConsecutiveCellTypes(), len(runs) == len(set(runs)), "checkConsecutiveCellTypes")
        o2n = G.L(u.getRenumArrForMEDFileFrmt())
        mon.eq(sorted(o2n), list(range(n)), "getRenumArrForMEDFileFrmt:permutation")
    v = u.deepCopy()
    o2n = G.L(v.rearrange2ConsecutiveCellTypes())
    mon.ok(v.checkConsecutiveCellTypes(), "rearrange2ConsecutiveCellTypes")
    vp = M.read(v)
    mon.ok(all(vp.cells[o2n[i]] == pm.cells[i] for i in range(n)), "rearrange2ConsecutiveCellTypes:o2n")
    # stable inside one type
    for t in set(t for t, _ in pm.cells):
        l = [o2n[i] for i in range(n) if pm.cells[i][0] == t]
        mon.ok(l == sorted(l), "rearrange2ConsecutiveCellTypes:stable", l=l)
    w = u.deepCopy()
    o = G.L(w.sortCellsInMEDFileFrmt())
    wp = M.read(w)
    mon.ok(sorted(o) == list(range(n)) and all(wp.cells[o[i]] == pm.cells[i] for i in range(n)), "sortCellsInMEDFileFrmt")
    mon.ok(w.checkConsecutiveCellTypesForMEDFileFrmt(), "sortCellsInMEDFileFrmt:order")
    parts = v.splitByType()
    mon.eq([M.read(p).cells for p in parts], split(vp.cells), "splitByType")
    with G.Pure(mon, "distribution", v):
        d = v.getDistributionOfTypes()
        mon.eq([tuple(x[:2]) for x in d], [(l[0][0], len(l)) for l in split(vp.cells)], "getDistributionOfTypes")
    mg = m.MEDCouplingUMesh.MergeUMeshesOnSameCoords(parts)
    mon.eq(M.read(mg).cells, vp.cells, "MergeUMeshesOnSameCoords")


def split(cells):
    out = []
    for c in cells:
        if not out or out[-1][0][0] != c[0]:
            out.append([])
        out[-1].append(c)
    return out


def t_dup(rng, mon, m):
    """Cutting a mesh along an internal crack."""
    nx, ny = rng.randint(2, 6), rng.randint(2, 6)
    pm = M.affine(rng, M.grid2(rng, nx, ny, "q", jitter=0.2))
    # a monotone interface between the cells i < h(j) and the others, as a path of nodes
    # (in space only flat: the library leaves the bends on the skin of the solid alone, as "singular points")
    three = rng.random() < 0.4
    h = [rng.randint(1, nx - 1)]
    for _ in range(ny - 1):
        h.append(min(nx - 1, max(1, h[-1] + (0 if three else rng.choice([0, 0, 1, -1])))))
    node = lambda i, k: k * (nx + 1) + i
    path = [node(h[0], 0)]
    for k in range(ny):
        if k and h[k] != h[k - 1]:
            path.append(node(h[k], k))
        path.append(node(h[k], k + 1))
    a = rng.randint(0, len(path) - 2)
    b = rng.choice([len(path) - 1, rng.randint(a + 1, len(path) - 1)])
    if rng.random() < 0.3:
        a = 0
    part = path[a:b + 1]
    left = [i < h[k] for k in range(ny) for i in range(nx)]
    if three:
        nz = rng.randint(1, 2)
        nn = len(pm.coords)
        pm = M.extrude(rng, pm, nz)
        left = left * nz
        crack = [frozenset((x + z * nn, y + z * nn, y + z * nn + nn, x + z * nn + nn)) for z in range(nz)
                 for x, y in zip(part, part[1:])]
        q = [(M.QUAD4, [x + z * nn, y + z * nn, y + z * nn + nn, x + z * nn + nn]) for z in range(nz)
             for x, y in zip(part, part[1:])]
        ends = {x + z * nn for z in range(nz + 1) for x, atb in ((part[0], a == 0), (part[-1], b == len(path) - 1))
                if not atb}
    else:
        crack = [frozenset(e) for e in zip(part, part[1:])]
        q = [(M.SEG2, [x, y]) for x, y in zip(part, part[1:])]
        ends = {x for x, atb in ((part[0], a == 0), (part[-1], b == len(path) - 1)) if not atb}
    pr = G.perm(rng, len(pm.coords))
    co = np.empty_like(pm.coords)
    co[pr] = pm.coords
    pm.cells, pm.coords = pm.map_nodes(pr), co
    crack = {frozenset(pr[x] for x in e) for e in crack}
    ends = {pr[x] for x in ends}
    o = G.perm(rng, len(pm.cells))
    pm.cells, left = [pm.cells[i] for i in o], [left[i] for i in o]
    u = pm.um(m)
    c = M.PM(pm.coords, [(t, [pr[x] for x in l]) for t, l in rng.sample(q, len(q))], pm.mdim - 1).um(m)
    c.setCoords(u.getCoords())
    n = len(pm.cells)
    mon.mark("dup", three, a == 0, b == len(path) - 1, min(len(part), 4))
    cp = c.deepCopy()
    cp.setCoords(u.getCoords())
    dup = u.findNodesToDuplicate(cp)
    want = {x for f in crack for x in f} - ends
    mon.eq(sorted(G.L(dup)), sorted(want), "findNodesToDuplicate")
    if not want or set(G.L(dup)) != want:
        return
    with G.Pure(mon, "findCellsToRenumber", u, dup):
        ren, keep = u.findCellsToRenumber(c, dup)
    ren, keep = G.L(ren), G.L(keep)
    near = {i for i in range(n) if set(pm.nodes(i)) & want}
    mon.ok(not set(ren) & set(keep), "findCellsToRenumber:sides")
    mon.ok(set(ren) <= near, "findCellsToRenumber:near")
    v = u.deepCopy()
    nn = v.getNumberOfNodes()
    v.duplicateNodesInCoords(dup)
    p2 = v.buildPartOfMySelf(ren, True) if ren else None
    if p2 is not None:
        p2.duplicateNodesInConn(dup, nn)
        v.setPartOfMySelf(G.ids(m, ren), p2)
    d = G.L(dup)
    mon.eq(v.getNumberOfNodes(), nn + len(d), "duplicateNodesInCoords:count")
    vp = M.read(v)
    mon.close(vp.coords, np.vstack([pm.coords, pm.coords[d]]), "duplicateNodesInCoords", 0)
    back = list(range(nn)) + d
    mon.eq(vp.map_nodes(back), pm.cells, "duplicateNodesInConn")
    # the two sides do not touch each other through the crack any more; everything else does as before
    f0, f1 = pm.faces_cells(), vp.faces_cells()
    adj = lambda f: {tuple(sorted(l)) for l in f.values() if len(l) == 2}
    cut = {tuple(sorted(f0[e])) for e in crack if e & want}
    mon.eq(adj(f1), adj(f0) - cut, "crack:adjacency", crack=crack)


def a_code(pm):
    """Distribution by type of a mesh sorted by type."""
    return [(l[0][0], len(l)) for l in split(pm.cells)]


def t_pfl(rng, mon, m):
    """Profiles on meshes sorted by type: splitting by type and assembling back are inverse of each other."""
    pm = some(rng, (1, 2, 3), quad=0.15)
    pm = M.sort_by_type(pm)
    order = G.perm(rng, len(a_code(pm)))
    parts = split(pm.cells)
    pm.cells = sum([parts[i] for i in order], [])
    n = len(pm.cells)
    code = a_code(pm)
    off = {}
    for t, k in code:
        off[t] = sum(b for _, b in list(code)[:[x for x, _ in code].index(t)])
    u = pm.um(m)
    f = m.MEDCouplingFieldDouble(m.ON_CELLS, m.NO_TIME)
    objs = [u]
    if len(code) == 1:
        objs.append(m.MEDCoupling1GTUMesh.New(u))
    k = rng.randint(0, 3)
    prof = [list(range(n)), G.subset(rng, n), sorted(G.subset(rng, n)), [rng.randrange(n) for _ in range(rng.randint(1, n))]][k]
    smart = rng.random() < 0.7
    for g in objs:
        if not prof:
            continue
        with G.Pure(mon, "splitProfilePerType", u):
            c, inp, per = g.splitProfilePerType(G.ids(m, prof), smart)
        typ = [pm.cells[i][0] for i in prof]
        want = [t for t, _ in code if t in typ]
        mon.eq([x[0] for x in c], want, "splitProfilePerType:types", prof=prof)
        for (t, nb, pos), ii in zip(c, inp):
            ii = G.L(ii)
            mon.eq(ii, [j for j in range(len(prof)) if typ[j] == t], "splitProfilePerType:positions", prof=prof)
            loc = [prof[j] - off[t] for j in ii]
            whole = smart and loc == list(range(dict(code)[t]))
            if whole:
                mon.eq(pos, -1, "splitProfilePerType:whole-type", prof=prof)
            else:
                mon.need(0 <= pos < len(per), "splitProfilePerType:position-of-array", pos=pos)
                mon.eq(G.L(per[pos]), loc, "splitProfilePerType:local-ids")
            mon.eq(nb, len(ii), "splitProfilePerType:number")
        flat = [x for t in c for x in t]
        mon.eq(f.getNumberOfTuplesExpectedRegardingCode(flat, per) if False else f.getDiscretization()
               .getNumberOfTuplesExpectedRegardingCode(flat, per), len(prof), "tuples-regarding-code:cells")
        if all(t not in (M.POLYGON, M.POLYHED, M.QPOLYG) for t in typ):
            ne = m.MEDCouplingFieldDiscretization.New(m.ON_GAUSS_NE)
            mon.eq(ne.getNumberOfTuplesExpectedRegardingCode(flat, per), sum(len(pm.cells[i][1]) for i in prof),
                   "tuples-regarding-code:gauss-ne")
        if g is u or len(code) == 1:
            with G.Pure(mon, "checkTypeConsistencyAndContig", u):
                r = g.checkTypeConsistencyAndContig(flat, per)
            got = list(range(n)) if r is None else G.L(r)
            w = [prof[j] for ii in inp for j in G.L(ii)]
            mon.eq(got, w, "checkTypeConsistencyAndContig", prof=prof, code=c)
            if r is None:
                mon.ok(all(x[2] == -1 for x in c) and len(c) == len(code), "checkTypeConsistencyAndContig:null")
        # codes which do not describe the mesh
        bad = list(flat)
        j = rng.randrange(len(c))
        what = rng.randint(0, 4)
        if what == 0:
            bad[3 * j + 1] += rng.choice([-1, 1, 3, -bad[3 * j + 1] - 1])
            if g is u or bad[3 * j + 2] == -1:
                mon.raises(lambda: g.checkTypeConsistencyAndContig(bad, per), "checkTypeConsistencyAndContig:number-of-cells",
                           bad=bad, code=code)
        elif what == 1:
            bad[3 * j] = [t for t in (M.TRI6, M.HEXA20, M.SEG3, M.PT1, M.PYRA13) if t not in dict(code)][0]
            mon.raises(lambda: g.checkTypeConsistencyAndContig(bad, per), "checkTypeConsistencyAndContig:unknown-type")
        elif what == 2:
            bad[3 * j + 2] = len(per) + rng.randint(0, 2)
            mon.raises(lambda: g.checkTypeConsistencyAndContig(bad, per), "checkTypeConsistencyAndContig:array-id", bad=bad)
        elif what == 3:
            mon.raises(lambda: g.checkTypeConsistencyAndContig(bad[:-1], per), "checkTypeConsistencyAndContig:size")
            mon.raises(lambda: g.checkTypeConsistencyAndContig(bad + bad[:3], per), "checkTypeConsistencyAndContig:twice")
        elif per:
            q = rng.randrange(len(per))
            z = per[q].deepCopy()
            z.setIJ(rng.randrange(z.getNumberOfTuples()), 0, rng.choice([-1, n + 1, 10 ** 6]))
            mon.raises(lambda: g.checkTypeConsistencyAndContig(flat, per[:q] + [z] + per[q + 1:]),
                       "checkTypeConsistencyAndContig:ids-out-of-range")
        mon.raises(lambda: g.splitProfilePerType(G.ids(m, prof + [n]), smart), "splitProfilePerType:range")
        if prof:
            mon.raises(lambda: g.splitProfilePerType(G.ids(m, [-1] + prof), smart), "splitProfilePerType:negative")
    if len(code) > 1:
        wrong = [x for t, k in reversed(code) for x in (t, k, -1)]
        mon.raises(lambda: u.checkTypeConsistencyAndContig(wrong, []), "checkTypeConsistencyAndContig:order", wrong=wrong)
        sub = sorted(rng.sample(range(len(code)), rng.randint(1, len(code) - 1)))
        part = [x for i in sub for x in (code[i][0], code[i][1], -1)]
        r = u.checkTypeConsistencyAndContig(part, [])
        mon.eq(G.L(r), [i for i in range(n) if pm.cells[i][0] in {code[q][0] for q in sub}],
               "checkTypeConsistencyAndContig:some-types")
    t, k = rng.choice(code)
    sel = [rng.randrange(k) for _ in range(rng.randint(0, k))]
    with G.Pure(mon, "keepSpecifiedCells", u):
        v = u.keepSpecifiedCells(t, sel)
    mon.eq(M.read(v).cells, [c for a, b in code for c in ([pm.cells[off[a] + i] for i in sel] if a == t else
                                                           pm.cells[off[a]:off[a] + b])], "keepSpecifiedCells")
    mon.raises(lambda: u.keepSpecifiedCells(t, sel + [k]), "keepSpecifiedCells:range")
    rg, st = [], 0
    for a, b in code:
        rg += [a, b, st]
        st += b
    r = m.MEDCouplingUMesh.ComputeRangesFromTypeDistribution(rg)
    mon.eq([list(x) for x in G.np2(r).astype(int)], [[off[a], off[a] + b] for a, b in code], "ComputeRangesFromTypeDistribution")
    mon.raises(lambda: m.MEDCouplingUMesh.ComputeRangesFromTypeDistribution(rg[:-1]), "ComputeRangesFromTypeDistribution:size")
    mon.eq(list(u.getAllGeoTypesSorted()), [a for a, _ in code], "getAllGeoTypesSorted")
    mon.eq(sorted(u.getAllGeoTypes()), sorted(a for a, _ in code), "getAllGeoTypes")


def t_spfl(rng, mon, m):
    """The same services of structured meshes."""
    g = rng.choice([lambda: M.cmesh(rng, m)[0], lambda: M.imesh(rng, m)[0], lambda: M.curvi(rng, m)[0]])()
    n = g.getNumberOfCells()
    if n < 1 or g.getMeshDimension() < 1:
        return
    t = {1: M.SEG2, 2: M.QUAD4, 3: M.HEXA8}[g.getMeshDimension()]
    prof = rng.choice([list(range(n)), G.subset(rng, n, rng.randint(1, n)), [rng.randrange(n) for _ in range(3)]])
    smart = rng.random() < 0.7
    c, inp, per = g.splitProfilePerType(G.ids(m, prof), smart)
    mon.eq([list(x) for x in c], [[t, len(prof), -1 if smart and prof == list(range(n)) else 0]], "structured:splitProfilePerType")
    mon.eq(G.L(inp[0]), list(range(len(prof))), "structured:splitProfilePerType:positions")
    if per:
        mon.eq(G.L(per[0]), prof, "structured:splitProfilePerType:ids")
    flat = list(c[0])
    r = g.checkTypeConsistencyAndContig(flat, per)
    mon.eq(list(range(n)) if r is None else G.L(r), prof, "structured:checkTypeConsistencyAndContig")
    mon.raises(lambda: g.checkTypeConsistencyAndContig([t, n + 1, -1], []), "structured:checkTypeConsistencyAndContig:number")
    mon.raises(lambda: g.checkTypeConsistencyAndContig([M.TETRA4, n, -1], []), "structured:checkTypeConsistencyAndContig:type")
    mon.raises(lambda: g.checkTypeConsistencyAndContig([t, 1, 0], [G.ids(m, [n])]), "structured:checkTypeConsistencyAndContig:range")
    mon.raises(lambda: g.checkTypeConsistencyAndContig([t, 1, 0], []), "structured:checkTypeConsistencyAndContig:no-array")
    mon.raises(lambda: g.splitProfilePerType(G.ids(m, prof + [n]), smart), "structured:splitProfilePerType:range")


def t_micro(rng, mon, m):
    """Halves of edges, status of cells, repeated nodes, graphs."""
    pm = some(rng, (2, 3), quad=0.4)
    u = pm.um(m)
    n, nn = len(pm.cells), len(pm.coords)
    mon.eq(u.areOnlySimplexCells(), all(t in (M.SEG2, M.TRI3, M.TETRA4) for t, _ in pm.cells), "areOnlySimplexCells")
    u.checkGeomConsistency(1e-12)
    mon.note("checkGeomConsistency accepts")
    i = rng.randrange(n)
    bad = pm.copy()
    t, c = bad.cells[i]
    l = rng.choice(c) if t == M.POLYHED else c
    a, b = rng.sample(range(len(l)), 2)
    l[a] = l[b]
    mon.raises(lambda: bad.um(m).checkGeomConsistency(1e-12), "checkGeomConsistency:repeated", cell=bad.cells[i])
    # graph of the cells which share at least as many nodes as the dimension
    sets = [set(pm.nodes(j)) for j in range(n)]
    g = u.generateGraph()
    got = idx(g.getValuesArray(), g.getIndexArray())
    mon.eq([sorted(x) for x in got], [[k for k in range(n) if len(sets[j] & sets[k]) >= pm.mdim] for j in range(n)],
           "generateGraph")
    # neighbourhood of cells from that of nodes
    nb = [sorted(rng.sample(range(n), min(n, rng.randint(0, 4)))) for _ in range(nn)]
    ind = [0]
    for x in nb:
        ind.append(ind[-1] + len(x))
    with G.Pure(mon, "computeCellNeighborhoodFromNodesOne", u):
        c, ci = u.computeCellNeighborhoodFromNodesOne(G.ids(m, sum(nb, [])), G.ids(m, ind))
    mon.eq([sorted(x) for x in idx(c, ci)], [sorted(set(y for k in sets[j] for y in nb[k]) - {j}) for j in range(n)],
           "computeCellNeighborhoodFromNodesOne")
    mon.raises(lambda: u.computeCellNeighborhoodFromNodesOne(G.ids(m, sum(nb[:-1], [])), G.ids(m, ind[:-1])),
               "computeCellNeighborhoodFromNodesOne:size")
    # micro edges
    if any(t in (M.POLYGON, M.QPOLYG, M.POLYHED) for t, _ in pm.cells):
        return
    if pm.mdim == 3 and any(t == M.HEXGP12 for t, _ in pm.cells):
        return
    want = {}
    for j in range(n):
        t, c = pm.cells[j]
        lt, lc = pm.linear(j)
        if pm.mdim == 2:
            ed = [(k, (k + 1) % len(lc)) for k in range(len(lc))]
        else:
            ed = sorted({tuple(sorted((f[k], f[(k + 1) % len(f)]))) for f in M.FACES[lt] for k in range(len(f))})
        for a, b in ed:
            if t in M.LINEAR:
                mid = [q for q, e in enumerate(M.MIDS[t]) if set(e) == {a, b}][0]
                w = c[len(lc) + mid]
                hs = [(c[a], w), (w, c[b])]
            else:
                hs = [(c[a], c[b])]
            for h in hs:
                want.setdefault(frozenset(h), set()).add(j)
    with G.Pure(mon, "explodeMeshIntoMicroEdges", u):
        s, d, di, r, ri = u.explodeMeshIntoMicroEdges()
    sp = M.read(s)
    es = [frozenset(c) for _, c in sp.cells]
    mon.eq(sorted(map(sorted, es)), sorted(map(sorted, want)), "explodeMeshIntoMicroEdges:edges")
    mon.ok(all(t == M.SEG2 for t, _ in sp.cells), "explodeMeshIntoMicroEdges:type")
    rr = idx(r, ri)
    mon.eq({e: set(x) for e, x in zip(es, rr)}, want, "explodeMeshIntoMicroEdges:reverse")
    dd = idx(d, di)
    mon.eq([{es[k] for k in x} for x in dd], [{e for e in want if j in want[e]} for j in range(n)],
           "explodeMeshIntoMicroEdges:descending")


def t_lyingon(rng, mon, m):
    """Cells which lie on a mesh of boundary entities."""
    pm = some(rng, (2, 3), quad=0.)
    u = pm.um(m)
    n = len(pm.cells)
    d, di, r, ri = [m.DataArrayInt() for _ in range(4)]
    s = u.buildDescendingConnectivity(d, di, r, ri)
    sel = rng.sample(range(s.getNumberOfCells()), rng.randint(1, min(6, s.getNumberOfCells())))
    o = s.buildPartOfMySelf(sel, True)
    with G.Pure(mon, "findCellIdsLyingOn", u, o):
        s0, s1 = u.findCellIdsLyingOn(o)
    fetched = set(G.L(o.computeFetchedNodeIds()))
    w0 = [i for i in range(n) if set(pm.nodes(i)) & fetched]
    mon.eq(sorted(G.L(s0)), w0, "findCellIdsLyingOn:nodes")
    rr = idx(r, ri)
    w1 = sorted({c for k in sel for c in rr[k]})
    s0 = G.L(s0)
    mon.eq(sorted({s0[k] for k in G.L(s1)}), w1, "findCellIdsLyingOn:faces", sel=sel)
    other = u.deepCopy()
    mon.raises(lambda: other.findCellIdsLyingOn(o), "findCellIdsLyingOn:other-coords")


TYPES = {"SEG2": (1, 2), "SEG3": (2, 2), "SEG4": (10, 2), "TRI3": (3, 3), "TRI6": (6, 3), "TRI7": (7, 3), "QUAD4": (4, 4),
         "QUAD8": (8, 4), "QUAD9": (9, 4), "TETRA4": (14, 4), "TETRA10": (20, 4), "PYRA5": (15, 5), "PYRA13": (23, 5),
         "PENTA6": (16, 6), "PENTA15": (25, 6), "PENTA18": (28, 6), "HEXA8": (18, 8), "HEXA20": (30, 8),
         "HEXA27": (27, 8), "HEXGP12": (22, 12)}
CORNERS = {1: {2: 1}, 2: {3: 3, 4: 4}, 3: {4: 14, 5: 15, 6: 16, 8: 18, 12: 22}}  # linear type of a number of corners


def t_crude(rng, mon, m):
    """Decompositions without fusion, and the algorithms on arrays of neighbours on their own."""
    pm = some(rng)
    u = pm.um(m)
    n = len(pm.cells)
    mon.mark("crude", pm.mdim)
    lists = []
    if pm.mdim > 1:
        with G.Pure(mon, "buildDescendingConnectivityCrude", u):
            lists.append(("buildDescendingConnectivityCrude", u.buildDescendingConnectivityCrude(), [[frozenset(f) for f in pm.sub(i)] for i in range(n)]))
    if pm.mdim == 3:
        with G.Pure(mon, "explode3DMeshTo1DCrude", u):
            lists.append(("explode3DMeshTo1DCrude", u.explode3DMeshTo1DCrude(),
                          [sorted({frozenset((f[k], f[(k + 1) % len(f)])) for f in pm.sub(i) for k in range(len(f))}, key=sorted) for i in range(n)]))
    for key, (s, di, rni, rd), mine in lists:
        sp = M.read(s)
        ks = keys(sp)
        mon.eq(len(ks), sum(map(len, mine)), key + ":number")
        di = G.L(di)
        if not mon.ok(len(di) == n + 1 and di[0] == 0 and di[-1] == len(ks), key + ":index", di=di):
            continue
        for i, l in enumerate(mine):
            mon.eq(collections.Counter(ks[di[i]:di[i + 1]]), collections.Counter(l), key + ":entities")
        mon.eq(G.L(rd), [i for i in range(n) for _ in mine[i]], key + ":revDesc")
        cnt = [0] * len(pm.coords)
        for q in range(len(sp.cells)):
            for x in sp.nodes(q):
                cnt[x] += 1
        off = [0]
        for q in cnt:
            off.append(off[-1] + q)
        mon.eq(G.L(rni), off, key + ":revNodalIndx")
        mon.eq(s.getMeshDimension(), pm.mdim - 1 if "Desc" in key else 1, key + ":dimension")
    # neighbours once some faces are forgotten (a wall)
    s, d, di, r, ri = u.buildDescendingConnectivity()
    ks = keys(M.read(s))
    wall = set(rng.sample(range(len(ks)), rng.randint(0, len(ks) // 3)))
    rl = [l if k not in wall else [] for k, l in enumerate(idx(r, ri))]
    off = [0]
    for l in rl:
        off.append(off[-1] + len(l))
    r2, ri2 = m.DataArrayInt(sum(rl, [])), m.DataArrayInt(off)
    if off[-1] == 0:
        r2 = m.DataArrayInt(0, 1)
    nb, nbi = m.MEDCouplingUMesh.ComputeNeighborsOfCellsAdv(d, di, r2, ri2)
    g = {i: set() for i in range(n)}
    for l in rl:
        for a in l:
            g[a] |= set(l) - {a}
    if not is_index(mon, "ComputeNeighborsOfCellsAdv", nb, nbi, n):
        return
    mon.eq([sorted(set(l)) for l in idx(nb, nbi)], [sorted(g[i]) for i in range(n)], "ComputeNeighborsOfCellsAdv")
    comp = components(n, {i: sorted(g[i]) for i in range(n)})
    with G.Pure(mon, "spread", nb, nbi):
        z = m.MEDCouplingUMesh.PartitionBySpreadZone(nb, nbi)
        mon.eq(sorted(sorted(G.L(a)) for a in z), sorted(comp), "PartitionBySpreadZone")
        a = m.MEDCouplingUMesh.ComputeSpreadZoneGradually(nb, nbi)
        mon.eq(sorted(G.L(a)), next(c for c in comp if 0 in c), "ComputeSpreadZoneGradually")
    # fusion of the neighbourhood found by an algorithm on arrays only
    k = rng.choice([0, 1, 2, 2, 3, 7]) if pm.mdim > 1 else rng.choice([0, 2])
    rn, rni = u.getReverseNodalConnectivity()
    v = u.deepCopy()
    x = v.findCommonCells(k, 0)
    y = m.MEDCouplingUMesh.FindCommonCellsAlg(k, 0, u.getNodalConnectivity(), u.getNodalConnectivityIndex(), rn, rni)
    mon.eq([sorted(l) for l in idx(*y)], [sorted(l) for l in idx(*x)], "FindCommonCellsAlg")


def t_order(rng, mon, m):
    """Types of the cells, in an order given."""
    pm = some(rng, (1, 2, 3), quad=0.3)
    if rng.random() < .5:
        pm.cells.sort(key=lambda c, k=rng.random(): (hash((c[0], k)), ))
    u = pm.um(m)
    n = len(pm.cells)
    ty = [t for t, _ in pm.cells]
    mon.mark("order", len(set(ty)))
    T = sorted(set(ty))
    rng.shuffle(T)
    extra = [t for t in (m.NORM_TRI3, m.NORM_QUAD4, m.NORM_TETRA4, m.NORM_HEXA8, m.NORM_SEG2, m.NORM_POLYGON, m.NORM_POLYHED) if t not in T]
    more = list(T)
    for t in rng.sample(extra, rng.randint(0, 3)):
        more.insert(rng.randint(0, len(more)), t)
    runs = []
    for t in ty:
        if not runs or runs[-1] != t:
            runs.append(t)
    cont = len(runs) == len(set(runs))
    ids = [rng.randrange(n) for _ in range(rng.randint(0, 6))]
    da = m.DataArrayInt(ids) if ids else m.DataArrayInt(0, 1)
    with G.Pure(mon, "types", u, da):
        mon.eq(u.checkConsecutiveCellTypesAndOrder(more), cont and runs == [t for t in more if t in runs], "checkConsecutiveCellTypesAndOrder", runs=runs, order=more)
        o2n = G.L(u.getRenumArrForConsecutiveCellTypesSpec(more))
        by = sorted(range(n), key=lambda i: more.index(ty[i]))
        mon.eq(o2n, [by.index(i) for i in range(n)], "getRenumArrForConsecutiveCellTypesSpec")
        a, b = u.getLevArrPerCellTypes(more)
        mon.eq(G.L(a), [more.index(t) for t in ty], "getLevArrPerCellTypes")
        mon.eq(G.L(b), [ty.count(t) for t in more], "getLevArrPerCellTypes:counts")
        mon.eq(sorted(u.getTypesOfPart(da)), sorted({ty[i] for i in ids}), "getTypesOfPart")
        t = rng.choice(T)
        mon.eq(G.L(u.keepCellIdsByType(t, da)), [i for i in ids if ty[i] == t], "keepCellIdsByType")
        mon.eq(G.L(u.convertCellArrayPerGeoType(da)), [ty[:i].count(ty[i]) for i in ids], "convertCellArrayPerGeoType")
        flat = [i for i in range(n) if ty[i] != M.POLYHED]
        mon.eq([u.getNumberOfNodesInCell(i) for i in flat], [len(pm.nodes(i)) for i in flat], "getNumberOfNodesInCell")
        mon.eq({t: u.getNumberOfCellsWithType(t) for t in more}, {t: ty.count(t) for t in more}, "getNumberOfCellsWithType")
        mon.eq(sorted(u.getAllGeoTypes()), sorted(set(ty)), "getAllGeoTypes")
        mon.eq([u.getTypeOfCell(i) for i in range(n)], ty, "getTypeOfCell")
        if set(more) == set(T):
            mon.eq(u.getAllGeoTypesSorted(), sorted(runs, key=runs.index) if cont else u.getAllGeoTypesSorted(), "getAllGeoTypesSorted") if cont else None
        if len(T) > 1:
            mon.raises(lambda: u.getRenumArrForConsecutiveCellTypesSpec([t for t in more if t != ty[0]]), "getRenumArr:type-missing")
            mon.raises(lambda: u.getLevArrPerCellTypes([t for t in more if t != ty[0]]), "getLevArr:type-missing")
    nodes = rng.sample(range(len(pm.coords)), rng.randint(1, len(pm.coords)))
    fully = rng.random() < .5
    f = all if fully else any
    with G.Pure(mon, "fill", u):
        mon.eq(G.L(u.fillCellIdsToKeepFromNodeIds(nodes, fully)), [i for i in range(n) if f(x in set(nodes) for x in pm.nodes(i))], "fillCellIdsToKeepFromNodeIds")
        mon.eq(u.isFullyQuadratic(), all(t in M.LINEAR for t in ty), "isFullyQuadratic")
        mon.eq(u.isPresenceOfQuadratic(), any(t in M.LINEAR for t in ty), "isPresenceOfQuadratic")
    w = u.deepCopy()
    w.renumberCells(u.getRenumArrForConsecutiveCellTypesSpec(more), False)
    mon.ok(w.checkConsecutiveCellTypesAndOrder(more), "order:renumbered")
    if pm.mdim == 1:
        lin = [c for _, c in pm.cells]
        mon.eq(u.isContiguous1D(), all(a[1] == b[0] for a, b in zip(lin, lin[1:])), "isContiguous1D")


def t_cells(rng, mon, m):
    """One cell of each geometric type, read on its reference coordinates: entities, edges, linear and other forms."""
    refs = [(t, c) for t, _, c in refcells.REFS if t in TYPES]
    for name, co in rng.sample(refs, 6) + [("HEXGP12", None)]:
        typ, k = TYPES[name]
        if co is None:
            a = np.arange(6) * np.pi / 3
            x = np.array([[np.cos(v), np.sin(v), z] for z in (0., 1.) for v in -a])
        else:
            n = m.MEDCouplingUMesh.GetNumberOfNodesOfGeometricType(typ)
            x = np.array(co, float).reshape(n, -1)
        if name in ("PENTA15", "PENTA18", "HEXA20"):  # the references number the middles in another order than the cells
            s = M.MIDS[25 if "PENTA" in name else typ]
            x[k:k + len(s)] = [(x[a] + x[b]) / 2 for a, b in s]
        key = "cells:" + name
        d, n = x.shape[1], len(x)
        lin = CORNERS[d][k]
        quad = n > k
        mon.eq(m.MEDCouplingUMesh.GetDimensionOfGeometricType(typ), d, key + ":dimension")
        mon.eq(m.MEDCouplingUMesh.GetNumberOfNodesOfGeometricType(typ), n, key + ":number-of-nodes")
        mon.eq(bool(m.MEDCouplingUMesh.IsStaticGeometricType(typ)), True, key + ":static")
        mon.eq(bool(m.MEDCouplingUMesh.IsLinearGeometricType(typ)), not quad, key + ":linear")
        mon.eq(m.MEDCouplingUMesh.GetReprOfGeometricType(typ), "NORM_" + name, key + ":repr")
        u0 = m.MEDCouplingUMesh("u", d)
        # several copies, nodes in any order
        nc = rng.randint(1, 3)
        X = np.vstack([x + 5. * i for i in range(nc)])
        perm = list(range(len(X)))
        rng.shuffle(perm)
        P = np.empty_like(X)
        P[perm] = X
        T = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
        while abs(np.linalg.det(T)) < 0.3:
            T = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
        u0.allocateCells(nc)
        cells = [perm[i * n:(i + 1) * n] for i in range(nc)]
        for c in cells:
            u0.insertNextCell(typ, n, c)
        u0.setCoords(G.npd(m, P @ T.T))
        mon.mark("cells", name)

        def at(pts, c):
            """The node of the cell in the middle of its nodes pts."""
            g = np.mean([P[v] for v in pts], axis=0)
            b = [v for v in c if np.abs(P[v] - g).max() < 1e-9]
            return b[0] if b else None

        def mids(f, c):
            """Corners of a side, with the middles of its edges and its centre when the cell has them."""
            f = list(f)
            if not quad:
                return f
            if len(f) == 2:
                return f + [at(f, c)]
            r = f + [at([f[q], f[(q + 1) % len(f)]], c) for q in range(len(f))]
            g = at(f, c)
            return r + ([g] if g is not None else [])

        def canon(f, q):
            """Side whose q corners are turned to a canonical place, its middles with them."""
            f = list(f)
            s = min(range(q), key=lambda v: f[v])
            r = f[s:q] + f[:s]
            if len(f) > q:
                e = f[q:2 * q]
                r += e[s:] + e[:s] + f[2 * q:]
            return tuple(r)
        STYPE = {(3, 3): 3, (4, 4): 4, (3, 6): 6, (4, 8): 8, (4, 9): 9, (2, 2): 1, (2, 3): 2, (6, 6): 5, (3, 7): 7}
        want = []
        for c in cells:
            if d == 3:
                want.append([mids([c[v] for v in f], c) for f in M.FACES[lin]])
            elif d == 2:
                want.append([mids([c[v], c[(v + 1) % k]], c) for v in range(k)])
            else:
                want.append([[v] for v in c])
        D, DI, R, RI = [m.DataArrayInt() for _ in range(4)]
        s = u0.buildDescendingConnectivity(D, DI, R, RI)
        sc, si = G.L(s.getNodalConnectivity()), G.L(s.getNodalConnectivityIndex())
        sides = [sc[a:b] for a, b in zip(si, si[1:])]
        mon.eq(len(sides), sum(map(len, want)), key + ":sides")
        for w, l in zip(want, idx(D, DI)):
            nb = [len(f) if not quad else {3: 2, 6: 3, 8: 4, 9: 4, 7: 3, 1: 1}[len(f)] for f in w]
            exp = sorted((STYPE.get((b, len(f)), 0 if d == 1 else -1), canon(f, b)) for f, b in zip(w, nb))
            cor = {3: 3, 4: 4, 6: 3, 8: 4, 9: 4, 7: 3, 1: 2, 2: 2, 0: 1}
            got = sorted((sides[v][0], canon(sides[v][1:], cor.get(sides[v][0], len(sides[v]) - 1))) for v in l)
            mon.ok(exp == got, key + ":descending", want=exp, got=got)
        if d == 3 and name != "HEXGP12":
            D, DI, R, RI = [m.DataArrayInt() for _ in range(4)]
            e = u0.explode3DMeshTo1D(D, DI, R, RI)
            ec, ei = G.L(e.getNodalConnectivity()), G.L(e.getNodalConnectivityIndex())
            ed = [ec[a:b] for a, b in zip(ei, ei[1:])]
            for c, l in zip(cells, idx(D, DI)):
                exp = set()
                for f in M.FACES[lin]:
                    for a, b in zip(f, f[1:] + f[:1]):
                        a, b = sorted((c[a], c[b]))
                        exp.add((2 if quad else 1, a, b) + ((at([a, b], c),) if quad else ()))
                got = set((ed[v][0],) + tuple(sorted(ed[v][1:3])) + tuple(ed[v][3:]) for v in l)
                mon.ok(exp == got and len(l) == len(exp), key + ":edges", want=exp, got=got)
        # the linear form
        v = u0.deepCopy()
        mon.eq(u0.isPresenceOfQuadratic(), quad, key + ":presence")
        mon.eq(u0.isFullyQuadratic(), quad, key + ":fully")
        v.convertQuadraticCellsToLinear()
        mon.eq(G.L(v.getNodalConnectivity()), sum([[lin] + c[:k] for c in cells], []), key + ":to-linear")
        vol = np.abs(G.np2(v.getMeasureField(False).getArray()).ravel())
        if name != "SEG4" and name != "SEG3":
            mon.close(np.abs(G.np2(u0.getMeasureField(False).getArray()).ravel()), vol, key + ":measure", 1e-9, vol.max())
        # the quadratic one
        for conv in (0, 1):
            w = v.deepCopy()
            tgt = {0: {1: 2, 3: 6, 4: 8, 14: 20, 15: 23, 16: 25, 18: 30}, 1: {1: 2, 3: 7, 4: 9, 18: 27}}[conv].get(lin)
            if tgt is None:
                continue
            w.convertLinearCellsToQuadratic(conv)
            mon.eq(w.getAllGeoTypes(), [tgt], key + ":to-quadratic:type")
            wc, W = G.L(w.getNodalConnectivity()), G.np2(w.getCoords())
            nt = m.MEDCouplingUMesh.GetNumberOfNodesOfGeometricType(tgt)
            ref = np.array([c for t, _, c in refcells.REFS if TYPES.get(t, (0,))[0] == tgt][-1], float).reshape(nt, d)
            for i in range(nc):
                g = W[wc[i * (nt + 1) + 1:(i + 1) * (nt + 1)]]
                # the affine map which brings the corners of the reference on those of the cell
                A = np.linalg.lstsq(np.hstack([ref[:k], np.ones((k, 1))]), g[:k], rcond=None)[0]
                if np.abs(np.hstack([ref[:k], np.ones((k, 1))]) @ A - g[:k]).max() < 1e-9:
                    mon.close(g, np.hstack([ref, np.ones((nt, 1))]) @ A, key + ":to-quadratic:%d" % conv, 1e-9, 30.)
                else:
                    mon.bad(key + ":to-quadratic:corners")
        # cells seen from the other side
        if name in ("TRI7", "QUAD9", "PENTA18", "HEXA27", "SEG4", "HEXGP12"):
            continue
        w = u0.deepCopy()
        w.invertOrientationOfAllCells()
        wc = G.L(w.getNodalConnectivity())
        for i, c in enumerate(cells):
            g = wc[i * (n + 1):(i + 1) * (n + 1)]
            mon.eq(g[0], typ, key + ":inverted:type")
            mon.eq(sorted(g[1:]), sorted(c), key + ":inverted:nodes")
            # the inverted cell is the reference seen in a mirror: same incidences, opposite sides
            g = g[1:]
            if d == 3:
                a = set(canon([c[v] for v in f][::-1], len(f)) for f in M.FACES[lin])
                b = set(canon([g[v] for v in f], len(f)) for f in M.FACES[lin])
                mon.ok(a == b, key + ":inverted:faces", want=a, got=b)
                prs = M.MIDS.get(typ, [])
                off = k
            elif d == 2:
                mon.eq(canon(g[:k], k), canon(c[:k][::-1], k), key + ":inverted:cycle")
                prs, off = M.MIDS.get(typ, []), k
            else:
                mon.eq(g, c[:2][::-1] + c[2:], key + ":inverted")
                prs, off = [], k
            for q, (a, b) in enumerate(prs):
                mon.eq(g[off + q], at([g[a], g[b]], c), key + ":inverted:middles")


def t_iter(rng, mon, m):
    """Cells one after the other, and the same faces in the order of the files."""
    pm = M.anymesh(rng)
    u = pm.um(m)
    conn, ci = G.L(u.getNodalConnectivity()), G.L(u.getNodalConnectivityIndex())
    raw = [tuple(conn[a:b]) for a, b in zip(ci, ci[1:])]
    with G.Pure(mon, "iter", u):
        mon.eq([(c.getType(), c.getAllConn()) for c in u], [(r[0], r) for r in raw], "iter:cells")
    types = [r[0] for r in raw]
    runs = [t for k, t in enumerate(types) if k == 0 or types[k - 1] != t]
    if len(runs) != len(set(runs)):
        mon.raises(lambda: u.cellsByType(), "iter:mixed")
    else:
        got = [(e.getType(), e.getNumberOfElems(), [c.getAllConn() for c in e]) for e in u.cellsByType()]
        mon.eq(got, [(t, types.count(t), [r for r in raw if r[0] == t]) for t in runs], "iter:by-type")
    mon.nontrivial = True
    if pm.mdim < 2 or any(t in M.LINEAR for t, _ in pm.cells):
        return
    # the faces
    fc = pm.faces_cells()
    faces = sorted(fc, key=sorted)
    k = rng.randint(1, len(faces))
    low = u.buildDescendingConnectivity()[0]
    sub = low[rng.sample(range(low.getNumberOfCells()), min(k, low.getNumberOfCells()))]
    with G.Pure(mon, "emulateMEDMEMBDC", u, sub):
        w, d, di, rd, rdi, ids, o2n = u.emulateMEDMEMBDC(sub)
    r, q = M.read(w), M.read(sub)
    sets = [frozenset(r.nodes(i)) for i in range(len(r.cells))]
    mon.eq(sorted(map(sorted, sets)), sorted(sorted(f) for f in fc), "emulateMEDMEMBDC:faces")
    mon.ok(w.checkConsecutiveCellTypesForMEDFileFrmt(), "emulateMEDMEMBDC:order")
    d, di, rd, rdi, ids, o2n = map(G.L, (d, di, rd, rdi, ids, o2n))
    mine = {}
    for f, v in fc.items():
        for c in v:
            mine.setdefault(c, []).append(frozenset(f))
    mon.eq([sorted(map(sorted, (sets[x] for x in d[a:b]))) for a, b in zip(di, di[1:])],
           [sorted(map(sorted, mine[c])) for c in range(len(pm.cells))], "emulateMEDMEMBDC:desc")
    by = {frozenset(f): sorted(v) for f, v in fc.items()}
    mon.eq([sorted(rd[a:b]) for a, b in zip(rdi, rdi[1:])], [by[s] for s in sets], "emulateMEDMEMBDC:rev")
    mon.eq([sets[i] for i in ids], [frozenset(q.nodes(i)) for i in range(len(q.cells))], "emulateMEDMEMBDC:ids")
    mon.eq(sorted(o2n), list(range(len(sets))), "emulateMEDMEMBDC:permutation")
    lo = M.read(low)
    mon.eq([sets[o2n[i]] for i in range(len(o2n))], [frozenset(lo.nodes(i)) for i in range(len(o2n))], "emulateMEDMEMBDC:old2new")


OPS = [(f.__name__[2:], f) for f in (t_desc, t_desc, t_edges, t_nodes, t_neigh, t_neigh, t_skin, t_common, t_line, t_gtu,
                                     t_types, t_cells, t_dup, t_pfl, t_spfl, t_micro, t_lyingon, t_crude, t_order, t_iter)]
FAMILIES = [G.table("topo", OPS, 400, 5)]
