"""Measures, centres of mass, normals, orientation and quality of the cells."""
import numpy as np

from props import gen as G
from props import mesh as M
from props.C04 import some

RULE = ("Each case builds meshes in Python (dimension 1 to 3, plane, space or curved, linear, quadratic with straight "
        "edges, polygons and polyhedra, any orientation), computes measures, centres, normals, orientation and quality "
        "numbers with the library and compares with direct geometric computation. Non-trivial: the mesh was built and "
        "at least one service answered.")
ASSUMPTIONS = ["a plane cell turning anticlockwise has a negative signed area, a solid cell whose faces look outwards a "
               "positive volume (the library's convention)", "relative tolerance 1e-9"]


def scale(pm):
    return max(1.0, float(np.abs(pm.coords).max())) if len(pm.coords) else 1.0


def planar_mesh(rng, dims=(1, 2, 3)):
    """Faces of solids and cells of surfaces are plane, so that measures are well defined."""
    d = rng.choice(dims)
    if d == 1:
        pm = M.line(rng)
    elif d == 2:
        pm = M.any2(rng, rng.choice([2, 2, 3]))
    else:
        pm = M.any3(rng)
    return pm


def t_measure(rng, mon, m):
    pm = planar_mesh(rng)
    # (the arc through three points which are aligned but for rounding is ill-conditioned: no straight SEG3 in the plane)
    if rng.random() < 0.25 and (pm.mdim, pm.sdim) not in ((2, 3), (1, 2)):
        pm = M.quadratic(rng, pm)
    # some cells turned over
    for k, (t, c) in enumerate(pm.cells):
        if rng.random() < 0.3:
            if t in (M.TRI3, M.QUAD4, M.POLYGON):
                pm.cells[k] = (t, c[::-1])
            elif t == M.POLYHED:
                pm.cells[k] = (t, [f[::-1] for f in c])
            elif t == M.TETRA4:
                pm.cells[k] = (t, [c[0], c[2], c[1], c[3]])
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 2]))
    u = pm.um(m)
    n = len(pm.cells)
    want = np.array([pm.measure_centre(i)[0] for i in range(n)])
    signed = pm.mdim == pm.sdim and pm.mdim > 1
    sg = -want if pm.mdim == 2 else want
    tol = 1e-9 * scale(pm) ** pm.mdim
    quad = any(t in M.LINEAR for t, _ in pm.cells)
    mon.mark("measure", pm.mdim, pm.sdim, quad)
    with G.Pure(mon, "measure", u):
        f = u.getMeasureField(True)
        mon.eq(f.getTypeOfField(), m.ON_CELLS, "getMeasureField:type")
        mon.close(G.np2(f.getArray()).ravel(), np.abs(want), "getMeasureField:abs", 1, tol * 10)
        if signed and not quad:
            mon.close(G.np2(u.getMeasureField(False).getArray()).ravel(), sg, "getMeasureField:signed", 1, tol * 10)
        elif pm.mdim == pm.sdim == 1:
            pass
        ids = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
        mon.close(G.np2(u.getPartMeasureField(True, G.ids(m, ids))).ravel(), np.abs(want)[ids], "getPartMeasureField",
                  1, tol * 10)
        if rng.random() < 0.3 and pm.mdim > 1:
            t0 = pm.cells[rng.randrange(n)][0]
            sel = [i for i in range(n) if pm.cells[i][0] == t0]
            if t0 not in M.LINEAR:
                g = m.MEDCoupling1GTUMesh.New(u.buildPartOfMySelf(sel, True))
                mon.close(G.np2(g.getMeasureField(True).getArray()).ravel(), np.abs(want)[sel], "1gtu:measure", 1, tol * 10)
    # measures do not depend on a rigid move, scale as the power of the dimension
    v = u.deepCopy()
    v.translate([rng.uniform(-3, 3) for _ in range(pm.sdim)])
    if pm.sdim == 2:
        v.rotate([rng.uniform(-2, 2)] * 2, rng.uniform(0, 6.28))
    elif pm.sdim == 3:
        v.rotate([rng.uniform(-2, 2)] * 3, [rng.uniform(-1, 1), rng.uniform(-1, 1), 1.], rng.uniform(0, 6.28))
    s = rng.choice([0.5, 2., 3.])
    v.scale([rng.uniform(-2, 2) for _ in range(pm.sdim)], s)
    mon.close(G.np2(v.getMeasureField(True).getArray()).ravel(), np.abs(want) * s ** pm.mdim, "measure:invariance", 1,
              tol * 100 * s ** pm.mdim)


def t_centre(rng, mon, m):
    pm = planar_mesh(rng)
    if pm.mdim == 3 and rng.random() < 0.5:  # faces without area
        for k, (t, c) in enumerate(pm.cells):
            if t == M.POLYHED and rng.random() < 0.5:
                f = rng.choice(c)
                i = rng.randrange(len(f))
                a, b = f[i - 1], f[i]
                c = list(c)
                c.insert(rng.randint(0, len(c)), rng.choice([[a, b, b], [a, b, b, a], [b, b, b]]))
                pm.cells[k] = (t, c)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 2]))
    u = pm.um(m)
    n = len(pm.cells)
    want = np.array([pm.measure_centre(i)[1] for i in range(n)]).reshape(n, pm.sdim)
    sc = scale(pm) * 1e-8
    mon.mark("centre", pm.mdim, pm.sdim)
    with G.Pure(mon, "centre", u):
        c = u.computeCellCenterOfMass()
        mon.close(G.np2(c), want, "computeCellCenterOfMass", 1, sc)
        iso = np.array([pm.coords[pm.nodes(i)].mean(0) for i in range(n)])
        plain = np.array([pm.coords[[x for x in pm.flat(i) if x >= 0]].mean(0) for i in range(n)])
        r = G.np2(u.computeIsoBarycenterOfNodesPerCell())
        ok = np.abs(r - iso).max() <= sc or np.abs(r - plain).max() <= sc
        mon.ok(ok, "computeIsoBarycenterOfNodesPerCell", got=r, want=iso)
        ids = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
        mon.close(G.np2(u.getPartBarycenterAndOwner(G.ids(m, ids))), want[ids], "getPartBarycenterAndOwner", 1, sc)
        w = np.abs([pm.measure_centre(i)[0] for i in range(n)])
        mon.close(G.np2(u.computeMeshCenterOfMass()).ravel(), (want * w[:, None]).sum(0) / w.sum(), "computeMeshCenterOfMass", 1,
                  sc * 10)
        dm = [max(np.linalg.norm(pm.coords[a] - pm.coords[b]) for a in pm.nodes(i) for b in pm.nodes(i)) for i in range(n)]
        yes = [i for i in range(n) if pm.cells[i][0] in DIAM]
        if yes:
            d = u.buildPartOfMySelf(yes, True).computeDiameterField()
            mon.close(G.np2(d.getArray()).ravel(), np.array(dm)[yes], "computeDiameterField", 1, sc)
        t0 = pm.cells[rng.randrange(n)][0]
        sel = [i for i in range(n) if pm.cells[i][0] == t0]
        g = m.MEDCoupling1GTUMesh.New(u.buildPartOfMySelf(sel, True))
        mon.close(G.np2(g.computeCellCenterOfMass()), want[sel], "1gtu:computeCellCenterOfMass", 1, sc)
        if t0 in DIAM:
            mon.close(G.np2(g.computeDiameterField().getArray()).ravel(), np.array(dm)[sel], "1gtu:computeDiameterField", 1, sc)


DIAM = (M.TRI3, M.QUAD4, M.TETRA4, M.HEXA8, M.PENTA6, M.PYRA5)


def t_diamquad(rng, mon, m):
    pm = M.quadratic(rng, M.anymesh(rng, (2, 3), poly=False, shuf=False))
    pm = M.shuffle(rng, pm)
    n = len(pm.cells)
    u = pm.um(m)
    dm = [max(np.linalg.norm(pm.coords[a] - pm.coords[b]) for a in pm.nodes(i) for b in pm.nodes(i)) for i in range(n)]
    mon.close(G.np2(u.computeDiameterField().getArray()).ravel(), dm, "computeDiameterField:quadratic", 1, 1e-8 * scale(pm))


def t_normal(rng, mon, m):
    k = rng.choice(["2in2", "2in3", "1in2", "dir"])
    if k == "2in2":
        pm = M.any2(rng, 2)
    elif k == "2in3":
        pm = M.embed(rng, M.grid2(rng))
    elif k == "1in2":
        pm = M.line(rng, 2)
    else:
        pm = M.line(rng)
    for i, (t, c) in enumerate(pm.cells):
        if rng.random() < 0.4:
            pm.cells[i] = (t, c[::-1])
    pm = M.shuffle(rng, pm)
    u = pm.um(m)
    n = len(pm.cells)
    mon.mark("normal", k)
    ids = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
    if k in ("2in2", "2in3"):
        w = np.array([pm.poly_area_vec(c) for _, c in pm.cells])
        w /= np.linalg.norm(w, axis=1)[:, None]
        if k == "2in2":
            got = G.np2(u.buildOrthogonalField().getArray())
            mon.close(np.abs(got), np.abs(w), "buildOrthogonalField", 1e-8)
            return
        with G.Pure(mon, "normals", u):
            got = G.np2(u.buildOrthogonalField().getArray())
            mon.close(got, w, "buildOrthogonalField", 1e-8)
            mon.close(G.np2(u.buildPartOrthogonalField(G.ids(m, ids)).getArray()), w[ids], "buildPartOrthogonalField", 1e-8)
            p = G.np2(u.computePlaneEquationOf3DFaces())
        for i, (t, c) in enumerate(pm.cells):
            q = p[i]
            r = pm.coords[c] @ q[:3] + q[3]
            mon.ok(np.abs(r).max() <= 1e-7 * max(1., np.linalg.norm(q[:3]) * scale(pm)), "computePlaneEquationOf3DFaces",
                   residual=r, plane=q)
            mon.ok(np.linalg.norm(np.cross(q[:3] / np.linalg.norm(q[:3]), w[i])) < 1e-6, "computePlaneEquationOf3DFaces:normal")
    else:
        d = np.array([pm.coords[c[1]] - pm.coords[c[0]] for _, c in pm.cells])
        mon.close(G.np2(u.buildDirectionVectorField().getArray()), d, "buildDirectionVectorField", 1e-10)
        if pm.sdim == 2:
            got = G.np2(u.buildOrthogonalField().getArray())
            nrm = np.stack([-d[:, 1], d[:, 0]], 1) / np.linalg.norm(d, axis=1)[:, None]
            # normal on one fixed side of the segment
            mon.ok(np.abs(got - nrm).max() < 1e-8 or np.abs(got + nrm).max() < 1e-8, "buildOrthogonalField:1D", got=got, want=nrm)


def flip2(rng, pm, p=0.5):
    bad = []
    for i, (t, c) in enumerate(pm.cells):
        if rng.random() < p:
            pm.cells[i] = (t, c[::-1])
            bad.append(i)
    return bad


def t_orient2(rng, mon, m):
    R = G.rotation(rng, 3)
    base = M.grid2(rng)
    pm = base.copy()
    pm.coords = np.hstack([base.coords, np.zeros((len(base.coords), 1))]) @ R.T
    o = G.perm(rng, len(pm.cells))
    pm.cells = [pm.cells[i] for i in o]
    pm = M.shuffle(rng, pm, cells=False)
    good = pm.copy()
    bad = flip2(rng, pm)
    up = R[:, 2] + 0.5 * np.array([rng.uniform(-1, 1) for _ in range(3)]) / 3
    u = pm.um(m)
    n = len(pm.cells)
    mon.mark("orient2", bool(bad))
    polys = [i for i in bad if pm.cells[i][0] == M.POLYGON]
    with G.Pure(mon, "are2DCellsNotCorrectlyOriented", u):
        mon.eq(G.L(u.are2DCellsNotCorrectlyOriented(up.tolist(), False)), bad, "are2DCellsNotCorrectlyOriented")
        mon.eq(G.L(u.are2DCellsNotCorrectlyOriented(up.tolist(), True)), polys, "are2DCellsNotCorrectlyOriented:polyOnly")
    v = u.deepCopy()
    v.orientCorrectly2DCells(up.tolist(), True)
    vp = M.read(v)
    for i in range(n):
        w = good if i in polys else pm
        mon.eq(M.cyc(list(vp.cells[i][1])), M.cyc(list(w.cells[i][1])), "orientCorrectly2DCells:polyOnly")
    v = u.deepCopy()
    v.orientCorrectly2DCells(up.tolist(), False)
    vp = M.read(v)
    mon.eq([M.cyc(list(c)) for _, c in vp.cells], [M.cyc(list(c)) for _, c in good.cells], "orientCorrectly2DCells")
    mon.eq([t for t, _ in vp.cells], [t for t, _ in good.cells], "orientCorrectly2DCells:types")
    mon.eq(G.L(v.are2DCellsNotCorrectlyOriented(up.tolist(), False)), [], "orientCorrectly2DCells:fixed-point")
    # from a reference face, on a curved surface
    pm = M.shuffle(rng, M.embed(rng, M.grid2(rng), curved=True))
    good = pm.copy()
    flip2(rng, pm)
    u = pm.um(m)
    # the references are cells of the mesh, or cells next to it
    k = rng.sample(range(len(pm.cells)), rng.choice([1, 1, 2, 3]) if len(pm.cells) > 3 else 1)
    s = rng.random() < 0.5
    out = rng.random() < 0.4 and len(pm.cells) > len(k)
    for i in k:
        pm.cells[i] = (good.cells[i][0], good.cells[i][1][::1 if s else -1])
    keep = [i for i in range(len(pm.cells)) if not (out and i in k)]
    u = M.PM(pm.coords, [pm.cells[i] for i in keep], 2).um(m)
    ref = M.PM(pm.coords, [pm.cells[i] for i in k], 2).um(m)
    ref.setCoords(u.getCoords())
    mon.mark("orient-ref", out, len(k))
    fc = good.faces_cells()
    near = {i: {j for f in good.sub(i) for j in fc[frozenset(f)]} for i in range(len(good.cells))}
    u.orientCorrectly2DCells(ref)
    up_ = M.read(u)
    # what is connected to a reference through edges is oriented like it
    hit, todo = set(k), list(k)
    while todo:
        for j in near[todo.pop()]:
            if j not in hit:
                hit.add(j)
                todo.append(j)
    for q, i in enumerate(keep):
        if i in hit:
            mon.eq(M.cyc(list(up_.cells[q][1])), M.cyc(list(good.cells[i][1])[::1 if s else -1]),
                   "orientCorrectly2DCells:reference")
    w = M.PM(pm.coords, pm.cells, 2).um(m)
    w.changeOrientationOfCells()
    mon.eq([M.cyc(list(c)) for _, c in M.read(w).cells], [M.cyc(list(c)[::-1]) for _, c in pm.cells], "changeOrientationOfCells")
    mon.eq([t for t, _ in M.read(w).cells], [t for t, _ in pm.cells], "changeOrientationOfCells:types")
    pm = M.line(rng)
    if rng.random() < 0.5:
        M.quadratic(rng, pm, rng.choice([0.5, 1.]))
    w = pm.um(m)
    w.changeOrientationOfCells()
    mon.eq(M.read(w).cells, [(t, [c[1], c[0]] + list(c[2:])) for t, c in pm.cells], "changeOrientationOfCells:1D")


INV = {M.TETRA4: [0, 2, 1, 3], M.PYRA5: [0, 3, 2, 1, 4], M.PENTA6: [0, 2, 1, 3, 5, 4], M.HEXA8: [0, 3, 2, 1, 4, 7, 6, 5],
       M.HEXGP12: [0, 5, 4, 3, 2, 1, 6, 11, 10, 9, 8, 7]}


def flip3(rng, pm, p=0.5, types=None):
    bad = []
    for i, (t, c) in enumerate(pm.cells):
        if rng.random() < p and (types is None or t in types):
            if t == M.POLYHED:
                pm.cells[i] = (t, [f[::-1] for f in c])
            else:
                pm.cells[i] = (t, [c[k] for k in INV[t]])
            bad.append(i)
    return bad


def vol(u):
    return G.np2(u.getMeasureField(False).getArray()).ravel()


def t_orient3(rng, mon, m):
    pm = M.shuffle(rng, M.any3(rng))
    good = pm.copy()
    bad = flip3(rng, pm)
    u = pm.um(m)
    n = len(pm.cells)
    want = np.array([good.measure_centre(i)[0] for i in range(n)])
    sg = np.array([-1. if i in set(bad) else 1. for i in range(n)])
    tol = 1e-8 * scale(pm) ** 3
    mon.mark("orient3", len(set(t for t, _ in pm.cells)), bool(bad))
    mon.close(vol(u), want * sg, "volume:signed", 1, tol)
    # centre of mass of a cell does not depend on its orientation
    ce = np.array([good.measure_centre(i)[1] for i in range(n)])
    polyh = [i for i in bad if pm.cells[i][0] == M.POLYHED]
    with G.Pure(mon, "arePolyhedronsNotCorrectlyOriented", u):
        mon.eq(G.L(u.arePolyhedronsNotCorrectlyOriented()), polyh, "arePolyhedronsNotCorrectlyOriented")
    v = u.deepCopy()
    r = G.L(v.findAndCorrectBadOriented3DCells())
    mon.eq(r, bad, "findAndCorrectBadOriented3DCells")
    mon.close(vol(v), want, "findAndCorrectBadOriented3DCells:volumes", 1, tol)
    mon.eq(G.L(v.findAndCorrectBadOriented3DCells()), [], "findAndCorrectBadOriented3DCells:fixed-point")
    mon.close(G.np2(v.computeCellCenterOfMass()), ce, "computeCellCenterOfMass:after", 1e-7)
    v = u.deepCopy()
    if [i for i in bad if pm.cells[i][0] in (M.POLYHED, M.HEXGP12)]:
        mon.raises(v.orientCorrectly3DCells, "orientCorrectly3DCells:polyhedra")
    else:
        v.orientCorrectly3DCells()
        mon.close(vol(v), want, "orientCorrectly3DCells", 1, tol)
    # some faces only of the polyhedra are turned
    q = good.copy()
    for i, (t, c) in enumerate(q.cells):
        if t == M.POLYHED:
            q.cells[i] = (t, [f[::-1] if rng.random() < 0.4 else f for f in c])
    v = q.um(m)
    v.orientCorrectlyPolyhedrons()
    mon.close(vol(v), want, "orientCorrectlyPolyhedrons", 1, tol)
    vp = M.read(v)
    for i, (t, c) in enumerate(good.cells):
        if t == M.POLYHED:
            mon.eq(sorted(M.cyc(list(f)) for f in vp.cells[i][1]), sorted(M.cyc(list(f)) for f in c), "orientCorrectlyPolyhedrons:faces")
        else:
            mon.eq(vp.cells[i], (t, c), "orientCorrectlyPolyhedrons:others")
    mon.eq(G.L(v.arePolyhedronsNotCorrectlyOriented()), [], "orientCorrectlyPolyhedrons:fixed-point")
    inv = [i for i in range(n) if pm.cells[i][0] not in (M.POLYHED, M.HEXGP12)]
    if len(inv) != n:
        # polyhedra and hexagonal prisms are refused
        v = u.deepCopy()
        mon.raises(v.invertOrientationOfAllCells, "invertOrientationOfAllCells:polyhedra")
        if not inv:
            return
        u = u.buildPartOfMySelf(inv, True)
        good, pm = M.PM(good.coords, [good.cells[i] for i in inv], 3), M.PM(pm.coords, [pm.cells[i] for i in inv], 3)
        want, sg, n = want[inv], sg[inv], len(inv)
    v = u.deepCopy()
    v.invertOrientationOfAllCells()
    mon.close(vol(v), -want * sg, "invertOrientationOfAllCells", 1, tol)
    vp = M.read(v)
    mon.ok(all(vp.cells[i][0] == pm.cells[i][0] and vp.nodes(i) == pm.nodes(i) for i in range(n)),
           "invertOrientationOfAllCells:nodes")
    v.invertOrientationOfAllCells()
    mon.close(vol(v), want * sg, "invertOrientationOfAllCells:twice", 1, tol)
    # a single type
    t = rng.choice(sorted(set(x for x, _ in pm.cells)))
    sel = [i for i in range(n) if pm.cells[i][0] == t]
    g = m.MEDCoupling1GTUMesh.New(u.buildPartOfMySelf(sel, True))
    g.invertOrientationOfAllCells()
    mon.close(vol(g.buildUnstructured()), (-want * sg)[sel], "1gtu:invertOrientationOfAllCells", 1, tol)


def t_extruded(rng, mon, m):
    """Prisms whose first face looks the wrong way."""
    pm = M.shuffle(rng, M.extrude(rng, M.grid2(rng, kinds="qt"), rng.randint(1, 3)))
    pm = M.affine(rng, pm)
    good = pm.copy()
    bad = flip3(rng, pm, types=(M.PENTA6, M.HEXA8, M.HEXGP12))
    u = pm.um(m)
    want = np.array([good.measure_centre(i)[0] for i in range(len(pm.cells))])
    r = G.L(u.findAndCorrectBadOriented3DExtrudedCells())
    mon.eq(sorted(r), bad, "findAndCorrectBadOriented3DExtrudedCells")
    mon.close(vol(u), want, "findAndCorrectBadOriented3DExtrudedCells:volumes", 1, 1e-8 * scale(pm) ** 3)
    # polyhedra given as two opposite polygons
    base = M.grid2(rng, kinds="qtp")
    ex = M.extrude(rng, base, 1)
    q = M.PM(ex.coords, [], 3)
    v = m.MEDCouplingUMesh("x", 3)
    v.allocateCells(len(ex.cells))
    for i in range(len(ex.cells)):
        b = [x for x in ex.sub(i)[0]]
        v.insertNextCell(m.NORM_POLYHED, b + [x + len(base.coords) for x in b])
        q.cells.append(ex.cells[i])
    v.finishInsertingCells()
    v.setCoords(G.npd(m, ex.coords))
    v.convertExtrudedPolyhedra()
    vp = M.read(v)
    for i in range(len(ex.cells)):
        mon.eq(sorted(map(sorted, (f for f in vp.cells[i][1]))), sorted(sorted(f) for f in ex.sub(i)), "convertExtrudedPolyhedra")
    for _, fs in vp.cells:
        e = [(f[k - 1], f[k]) for f in fs for k in range(len(f))]
        mon.ok(len(set(e)) == len(e) and all((b, a) in set(e) for a, b in e), "convertExtrudedPolyhedra:orientation-of-faces")
    v.orientCorrectlyPolyhedrons()
    mon.close(vol(v), [ex.measure_centre(i)[0] for i in range(len(ex.cells))], "convertExtrudedPolyhedra:volumes", 1e-8)


def unit(x):
    return x / np.linalg.norm(x)


def t_quality(rng, mon, m):
    three = rng.random() < 0.4
    if three:
        pm = M.affine(rng, M.tetras(rng))
    else:
        b = M.grid2(rng, kinds="qtT")
        pm = M.affine(rng, b) if rng.random() < 0.3 else M.embed(rng, b, curved=rng.random() < 0.7)
    pm = M.shuffle(rng, pm)
    u = pm.um(m)
    n = len(pm.cells)
    er, ar = [], []
    for i, (t, c) in enumerate(pm.cells):
        p = pm.coords[c]
        if p.shape[1] == 2:
            p = np.hstack([p, np.zeros((len(p), 1))])
        if t == M.TETRA4:
            l = [np.linalg.norm(p[a] - p[b]) for a in range(4) for b in range(a)]
            S = sum(np.linalg.norm(np.cross(p[f[1]] - p[f[0]], p[f[2]] - p[f[0]])) / 2 for f in M.FACES[M.TETRA4])
            V = abs(np.linalg.det(p[1:] - p[0])) / 6
            r = 3 * V / S
            ar.append(max(l) / (2 * np.sqrt(6) * r))
        else:
            e = [p[(k + 1) % len(p)] - p[k] for k in range(len(p))]
            l = [np.linalg.norm(x) for x in e]
            if t == M.TRI3:
                A = np.linalg.norm(np.cross(e[0], e[1])) / 2
                ar.append(max(l) * sum(l) / (4 * np.sqrt(3) * A))
            else:
                A = np.linalg.norm(np.cross(e[0], e[1])) + np.linalg.norm(np.cross(e[2], e[3]))
                ar.append(0.5 * max(l) * sum(l) / A)
        er.append(max(l) / min(l))
    mon.mark("quality", three, pm.sdim)
    with G.Pure(mon, "quality", u):
        mon.close(G.np2(u.getEdgeRatioField().getArray()).ravel(), er, "getEdgeRatioField", 1e-8)
        mon.close(G.np2(u.getAspectRatioField().getArray()).ravel(), ar, "getAspectRatioField", 1e-7)
        if pm.mdim == 2 and pm.sdim == 3:
            sel = [i for i in range(n) if pm.cells[i][0] == M.QUAD4]
            if sel:
                q = u.buildPartOfMySelf(sel, True)
                W, K = [], []
                for i in sel:
                    a, b, c, d = pm.coords[pm.cells[i][1]]
                    t, uu, v, w = np.cross(a - d, b - a), np.cross(b - a, c - b), np.cross(c - b, d - c), np.cross(d - c, a - d)
                    W.append(min(unit(t) @ unit(v), unit(uu) @ unit(w)) ** 3)
                    K.append(abs(unit((b - a) + (c - d)) @ unit((c - a) + (d - b))))
                mon.close(G.np2(q.getWarpField().getArray()).ravel(), W, "getWarpField", 1e-7)
                mon.close(np.abs(G.np2(q.getSkewField().getArray()).ravel()), K, "getSkewField", 1e-7)


def t_arcs(rng, mon, m):
    """Cells whose edges are arcs of circle."""
    n = rng.randint(1, 5)
    u = m.MEDCouplingUMesh("arcs", 2)
    l = m.MEDCouplingUMesh("seg", 1)
    co, want, lens, cells, segs, cen, box, sbox = [], [], [], [], [], [], [], []
    for i in range(n):
        k = rng.choice([3, 4, 4, 5, 6])
        r0 = rng.uniform(0.5, 2)
        ph = rng.uniform(0, 6.28)
        p = np.array([[r0 * np.cos(ph + 2 * np.pi * j / k), r0 * np.sin(ph + 2 * np.pi * j / k)] for j in range(k)])
        p = p * rng.uniform(0.8, 1.2) + [rng.uniform(-5, 5), rng.uniform(-5, 5)]
        A = 0.5 * sum(p[j][0] * p[(j + 1) % k][1] - p[j][1] * p[(j + 1) % k][0] for j in range(k))
        mom = sum((p[j] + p[(j + 1) % k]) / 6 * (p[j][0] * p[(j + 1) % k][1] - p[j][1] * p[(j + 1) % k][0]) for j in range(k))
        ext = list(p)
        mid = []
        for j in range(k):
            a, b = p[j], p[(j + 1) % k]
            c = np.linalg.norm(b - a)
            sbox.append([np.minimum(a, b), np.maximum(a, b)])
            if rng.random() < 0.25:
                mid.append((a + b) / 2)
                lens.append(c)
            else:
                # sagitta, on either side
                s = rng.choice([-1, 1]) * rng.uniform(0.02, 0.3) * c
                nrm = np.array([b[1] - a[1], a[0] - b[0]]) / c
                mid.append((a + b) / 2 + s * nrm)
                R = abs(s) / 2 + c * c / (8 * abs(s))
                th = 2 * np.arcsin(c / 2 / R)
                A += np.sign(s) * R * R * (th - np.sin(th)) / 2
                up = np.sign(s) * nrm
                C = mid[-1] - R * up
                # circular segment: its centroid is on the bisector
                mom = mom + np.sign(s) * R * R * (th - np.sin(th)) / 2 * C + np.sign(s) * 2 * (R * np.sin(th / 2)) ** 3 / 3 * up
                e1 = [C + R * v for v in np.vstack([np.eye(2), -np.eye(2)]) if v @ up > np.cos(th / 2)]
                ext += e1
                sbox[-1] = [np.min([a, b] + e1, 0), np.max([a, b] + e1, 0)]
                lens.append(R * th)
        b0 = len(co)
        conn = list(range(b0, b0 + 2 * k))
        co += [list(x) for x in p] + [list(x) for x in mid]
        segs += [[conn[j], conn[(j + 1) % k], conn[k + j]] for j in range(k)]
        t = {3: M.TRI6, 4: M.QUAD8}.get(k, M.QPOLYG)
        if rng.random() < 0.3:
            t = M.QPOLYG
        inv = rng.random() < 0.4
        if inv:
            conn = conn[:k][::-1] + conn[k:][:-1][::-1] + [conn[-1]]
        cells.append((t, conn))
        want.append(A if inv else -A)
        cen.append(mom / A)
        box.append([np.min(ext, 0), np.max(ext, 0)])
    pm = M.PM(co, cells, 2)
    u = pm.um(m)
    q = M.PM(co, [(M.SEG3, s) for s in segs], 1)
    l = q.um(m)
    mon.mark("arcs", sorted(set(t for t, _ in cells)))
    mon.close(G.np2(u.getMeasureField(True).getArray()).ravel(), np.abs(want), "arcs:area", 1e-7)
    mon.close(G.np2(u.getMeasureField(False).getArray()).ravel(), want, "arcs:signed-area", 1e-7)
    mon.close(G.np2(l.getMeasureField(True).getArray()).ravel(), lens, "arcs:length", 1e-6)
    mon.close(G.np2(u.computeCellCenterOfMass()), cen, "arcs:centre", 1e-7)
    b = G.np2(u.getBoundingBoxForBBTree(1e-12))
    box = np.array(box)
    mon.close(b[:, ::2], box[:, 0], "arcs:bounding-box-min", 1e-8)
    mon.close(b[:, 1::2], box[:, 1], "arcs:bounding-box-max", 1e-8)
    mon.eq(b.shape, (n, 4), "arcs:bounding-box-shape")
    b = G.np2(l.getBoundingBoxForBBTree(1e-12))
    sbox = np.array(sbox)
    mon.close(b[:, ::2], sbox[:, 0], "arcs:bounding-box-min-1D", 1e-8)
    mon.close(b[:, 1::2], sbox[:, 1], "arcs:bounding-box-max-1D", 1e-8)


def t_butterfly(rng, mon, m):
    """Self-intersecting quadrangles are found, and only they."""
    pm = M.grid2(rng, kinds="qtT", jitter=0.2)
    pm = M.shuffle(rng, M.affine(rng, pm))
    bad = []
    for i, (t, c) in enumerate(pm.cells):
        if t == M.QUAD4 and rng.random() < 0.3:
            pm.cells[i] = (t, [c[0], c[1], c[3], c[2]])
            bad.append(i)
    u = pm.um(m)
    with G.Pure(mon, "checkButterflyCells", u):
        mon.eq(sorted(G.L(u.checkButterflyCells(1e-10))), bad, "checkButterflyCells")


def t_onnodes(rng, mon, m):
    """Measure of the dual cells: each cell gives the same part of its measure to each of its nodes."""
    pm = planar_mesh(rng)
    pm = M.shuffle(rng, pm, orphans=rng.choice([0, 2]))
    u = pm.um(m)
    n = len(pm.cells)
    V = np.array([pm.measure_centre(i)[0] for i in range(n)])
    w = np.zeros(len(pm.coords))
    for i in range(n):
        nodes = sorted(set(pm.nodes(i)))
        for k in nodes:
            w[k] += abs(V[i]) / len(nodes)
    tol = 1e-9 * scale(pm) ** pm.mdim
    with G.Pure(mon, "getMeasureFieldOnNode", u):
        f = u.getMeasureFieldOnNode(True)
    mon.eq(f.getTypeOfField(), m.ON_NODES, "getMeasureFieldOnNode:type")
    mon.close(G.np2(f.getArray()).ravel(), w, "getMeasureFieldOnNode", 1, tol * 10)
    c = G.np2(u.computeCellCenterOfMass())
    with G.Pure(mon, "computeCellCenterOfMassWithPrecision", u):
        got = G.np2(u.computeCellCenterOfMassWithPrecision(1e-12))
    mon.close(got, c, "computeCellCenterOfMassWithPrecision", 1e-9, scale=scale(pm))
    mon.nontrivial = True
    mon.mark("on-nodes", pm.mdim, pm.sdim)


OPS = [(f.__name__[2:], f) for f in (t_measure, t_measure, t_centre, t_centre, t_diamquad, t_normal, t_orient2, t_orient3,
                                     t_orient3, t_extruded, t_arcs, t_quality, t_butterfly, t_onnodes)]
FAMILIES = [G.table("geo", OPS, 240, 5)]
