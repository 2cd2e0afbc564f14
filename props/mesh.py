"""Meshes built in Python, independent of the library, with their reference topology and geometry."""
import itertools
import math

import numpy as np

from props import gen as G

# MED types
PT1, SEG2, SEG3, TRI3, QUAD4, POLYGON, TRI6, QUAD8 = 0, 1, 2, 3, 4, 5, 6, 8
TETRA4, PYRA5, PENTA6, HEXA8, TETRA10, HEXGP12, PYRA13, PENTA15, HEXA20, POLYHED, QPOLYG = (
    14, 15, 16, 18, 20, 22, 23, 25, 30, 31, 32)
DIM = {PT1: 0, SEG2: 1, SEG3: 1, TRI3: 2, QUAD4: 2, POLYGON: 2, TRI6: 2, QUAD8: 2, QPOLYG: 2, TETRA4: 3, PYRA5: 3,
       PENTA6: 3, HEXA8: 3, TETRA10: 3, HEXGP12: 3, PYRA13: 3, PENTA15: 3, HEXA20: 3, POLYHED: 3}
FACES = {
    TETRA4: [(0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)],
    PYRA5: [(0, 1, 2, 3), (0, 4, 1), (1, 4, 2), (2, 4, 3), (3, 4, 0)],
    PENTA6: [(0, 1, 2), (3, 5, 4), (0, 3, 4, 1), (1, 4, 5, 2), (2, 5, 3, 0)],
    HEXA8: [(0, 1, 2, 3), (4, 7, 6, 5), (0, 4, 5, 1), (1, 5, 6, 2), (2, 6, 7, 3), (3, 7, 4, 0)],
    HEXGP12: [(0, 1, 2, 3, 4, 5), (6, 11, 10, 9, 8, 7)] + [(i, i + 6, (i + 1) % 6 + 6, (i + 1) % 6) for i in range(6)],
}
MIDS = {
    SEG3: [(0, 1)],
    TRI6: [(0, 1), (1, 2), (2, 0)],
    QUAD8: [(0, 1), (1, 2), (2, 3), (3, 0)],
    TETRA10: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    PYRA13: [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    PENTA15: [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    HEXA20: [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}
QUADRATIC = {SEG2: SEG3, TRI3: TRI6, QUAD4: QUAD8, TETRA4: TETRA10, PYRA5: PYRA13, PENTA6: PENTA15, HEXA8: HEXA20,
             POLYGON: QPOLYG}
LINEAR = {v: k for k, v in QUADRATIC.items()}


class PM:
    """coords: (n, sdim) array; cells: [(type, conn)], a polyhedron's conn is a list of faces (lists of nodes)."""

    def __init__(self, coords, cells, mdim):
        self.coords = np.asarray(coords, dtype=float)
        self.cells = cells
        self.mdim = mdim

    @property
    def sdim(self):
        return self.coords.shape[1]

    def copy(self):
        return PM(self.coords.copy(), [(t, [list(f) for f in c] if t == POLYHED else list(c)) for t, c in self.cells],
                  self.mdim)

    def map_nodes(self, f):
        return [(t, [[f[n] for n in x] for x in c] if t == POLYHED else [f[n] for n in c]) for t, c in self.cells]

    def flat(self, i):
        """The connectivity as the library stores it (faces of a polyhedron separated by -1)."""
        t, c = self.cells[i]
        if t != POLYHED:
            return list(c)
        r = []
        for k, f in enumerate(c):
            if k:
                r.append(-1)
            r += list(f)
        return r

    def nodes(self, i):
        return sorted(set(n for n in self.flat(i) if n >= 0))

    def um(self, m, name="mesh"):
        u = m.MEDCouplingUMesh(name, self.mdim)
        u.allocateCells(len(self.cells))
        for i, (t, c) in enumerate(self.cells):
            u.insertNextCell(t, self.flat(i))
        u.finishInsertingCells()
        u.setCoords(G.npd(m, self.coords))
        return u

    # ------------------------------------------------------------------ topology
    def linear(self, i):
        """(linear type, corner connectivity)."""
        t, c = self.cells[i]
        if t in LINEAR:
            lt = LINEAR[t]
            n = {SEG2: 2, TRI3: 3, QUAD4: 4, TETRA4: 4, PYRA5: 5, PENTA6: 6, HEXA8: 8}.get(lt, len(c) // 2)
            return lt, c[:n]
        return t, c

    def sub(self, i):
        """Oriented boundary entities of a cell: node tuples (faces in 3-D, edges in 2-D, points in 1-D)."""
        t, c = self.linear(i)
        if t == POLYHED:
            return [tuple(f) for f in c]
        d = DIM[t]
        if d == 3:
            return [tuple(c[k] for k in f) for f in FACES[t]]
        if d == 2:
            return [(c[k], c[(k + 1) % len(c)]) for k in range(len(c))]
        if d == 1:
            return [(c[0],), (c[1],)]
        return []

    def faces_cells(self):
        """{frozenset of nodes: [cells]} for the boundary entities."""
        r = {}
        for i in range(len(self.cells)):
            for f in self.sub(i):
                l = r.setdefault(frozenset(f), [])
                if i not in l:
                    l.append(i)
        return r

    # ------------------------------------------------------------------ geometry
    def poly_area_vec(self, nodes):
        p = self.coords[list(nodes)]
        if p.shape[1] == 2:
            p = np.hstack([p, np.zeros((len(p), 1))])
        o = p[0]
        s = np.zeros(3)
        for k in range(1, len(p) - 1):
            s += np.cross(p[k] - o, p[k + 1] - o) / 2
        return s

    def measure_centre(self, i):
        """Signed measure where it has a meaning (2-D in the plane, 3-D), else the absolute one; and the centroid."""
        t, c = self.linear(i)
        if DIM[t] == 0:
            return 0., self.coords[c[0]]
        if DIM[t] == 1:
            a, b = self.coords[c[0]], self.coords[c[1]]
            return float(np.linalg.norm(b - a)), (a + b) / 2
        if DIM[t] == 2:
            p = self.coords[list(c)]
            q = p if p.shape[1] == 3 else np.hstack([p, np.zeros((len(p), 1))])
            nrm = self.poly_area_vec(c)
            A = np.linalg.norm(nrm)
            u = nrm / A
            o = q.mean(0)
            s, g = 0., np.zeros(3)
            for k in range(len(q)):
                x, y = q[k], q[(k + 1) % len(q)]
                w = np.cross(x - o, y - o) @ u / 2
                s += w
                g += w * (o + x + y) / 3
            g = g / s
            if self.sdim == 2:
                return float(nrm[2]), g[:2]
            return float(A), g
        o = self.coords[self.nodes(i)].mean(0)
        v, g = 0., np.zeros(3)
        for f in self.sub(i):
            p = self.coords[list(f)]
            fo = p.mean(0)
            for k in range(len(p)):
                x, y = p[k], p[(k + 1) % len(p)]
                w = np.dot(fo - o, np.cross(x - o, y - o)) / 6
                v += w
                g += w * (o + fo + x + y) / 4
        return float(v), g / v


# ---------------------------------------------------------------------------------------------- generators
def shuffle(rng, pm, cells=True, nodes=True, orphans=0, rotate=True):
    """Random cell order, node numbering, start node of the 2-D cells, orphan nodes."""
    pm = pm.copy()
    if orphans:
        d = np.array([[rng.uniform(5, 6) for _ in range(pm.sdim)] for _ in range(orphans)]).reshape(orphans, pm.sdim)
        pm.coords = np.vstack([pm.coords, d])
    if nodes:
        p = G.perm(rng, len(pm.coords))
        c = np.empty_like(pm.coords)
        for i, j in enumerate(p):
            c[j] = pm.coords[i]
        pm.cells = pm.map_nodes(p)
        pm.coords = c
    if rotate:
        for k, (t, c) in enumerate(pm.cells):
            if t in (TRI3, QUAD4, POLYGON):
                s = rng.randrange(len(c))
                pm.cells[k] = (t, c[s:] + c[:s])
    if cells:
        o = G.perm(rng, len(pm.cells))
        pm.cells = [pm.cells[i] for i in o]
    return pm


def grid2(rng, nx=None, ny=None, kinds="qtpT", jitter=0.25):
    """A conforming mesh of [0,nx]x[0,ny] in quadrangles, triangles and polygons, all anticlockwise."""
    nx = rng.randint(1, 6) if nx is None else nx
    ny = rng.randint(1, 6) if ny is None else ny
    co = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            dx = rng.uniform(-jitter, jitter) if 0 < i < nx else 0.
            dy = rng.uniform(-jitter, jitter) if 0 < j < ny else 0.
            co.append([i + dx, j + dy])
    n = lambda i, j: j * (nx + 1) + i
    cells = []
    for j in range(ny):
        i = 0
        while i < nx:
            q = [n(i, j), n(i + 1, j), n(i + 1, j + 1), n(i, j + 1)]
            k = rng.choice(kinds)
            if k == "p" and i + 1 < nx:
                cells.append((POLYGON, [n(i, j), n(i + 1, j), n(i + 2, j), n(i + 2, j + 1), n(i + 1, j + 1), n(i, j + 1)]))
                i += 2
                continue
            if k == "p":
                cells.append((POLYGON, q))
            elif k == "t":
                cells += [(TRI3, [q[0], q[1], q[2]]), (TRI3, [q[0], q[2], q[3]])]
            elif k == "T":
                cells += [(TRI3, [q[0], q[1], q[3]]), (TRI3, [q[1], q[2], q[3]])]
            else:
                cells.append((QUAD4, q))
            i += 1
    return PM(co, cells, 2)


def line(rng, sdim=None, n=None):
    n = rng.randint(1, 15) if n is None else n
    sdim = rng.choice([1, 2, 3]) if sdim is None else sdim
    if sdim == 1:
        x = [0.]
        for _ in range(n):
            x.append(x[-1] + rng.uniform(0.2, 2))
        co = np.array(x).reshape(-1, 1)
    else:
        co = np.cumsum(np.array([[rng.uniform(0.2, 1)] + [rng.uniform(-1, 1) for _ in range(sdim - 1)]
                                 for _ in range(n + 1)]), axis=0)
    return PM(co, [(SEG2, [i, i + 1]) for i in range(n)], 1)


def extrude(rng, base, nz=None, kinds="", heights=None):
    """Prisms over the cells of a 2-D mesh, oriented outwards as in FACES; planar faces."""
    nz = rng.randint(1, 4) if nz is None else nz
    nb = len(base.coords)
    z = [0.]
    for k in range(nz):
        z.append(z[-1] + (rng.uniform(0.5, 1.5) if heights is None else heights))
    co = np.vstack([np.hstack([base.coords, np.full((nb, 1), h)]) for h in z])
    cells = []
    for k in range(nz):
        for t, c in base.cells:
            # the bottom face must be clockwise seen from above
            b = [n + k * nb for n in c][::-1]
            u = [n + nb for n in b]
            if t == TRI3:
                cells.append((PENTA6, b + u))
            elif t == QUAD4:
                cells.append((HEXA8, b + u))
            elif t == POLYGON and len(c) == 6 and rng.random() < 0.3:
                cells.append((HEXGP12, b + u))
            else:
                s = len(b)
                cells.append((POLYHED, [b, u[::-1]] + [[b[i], u[i], u[(i + 1) % s], b[(i + 1) % s]] for i in range(s)]))
    return PM(co, cells, 3)


def tetras(rng, nx=None, ny=None, nz=None, jitter=0.15):
    """A conforming tetrahedral mesh of a box (Kuhn split), interior nodes moved."""
    nx, ny, nz = [rng.randint(1, 3) if v is None else v for v in (nx, ny, nz)]
    co, idx = [], {}
    for k in range(nz + 1):
        for j in range(ny + 1):
            for i in range(nx + 1):
                idx[i, j, k] = len(co)
                co.append([v + (rng.uniform(-jitter, jitter) if 0 < v < mx else 0.)
                           for v, mx in ((i, nx), (j, ny), (k, nz))])
    cells = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                for p in itertools.permutations(range(3)):
                    a = [i, j, k]
                    c = [idx[tuple(a)]]
                    for ax in p:
                        a[ax] += 1
                        c.append(idx[tuple(a)])
                    cells.append((TETRA4, c))
    pm = PM(co, cells, 3)
    orient(pm)
    return pm


def orient(pm):
    for k, (t, c) in enumerate(pm.cells):
        v, _ = pm.measure_centre(k)
        if v < 0:
            if t == TETRA4:
                pm.cells[k] = (t, [c[0], c[2], c[1], c[3]])
            elif t in (TRI3, QUAD4, POLYGON):
                pm.cells[k] = (t, c[::-1])
            else:
                raise ValueError(t)


def pyramids(rng):
    """Hexahedra cut in 6 pyramids each, plus the rest as hexahedra: not conforming in the quad/tri sense but valid."""
    nx = rng.randint(1, 2)
    base = grid2(rng, nx, rng.randint(1, 2), "q")
    pm = extrude(rng, base, rng.randint(1, 2))
    cells, co = [], [list(x) for x in pm.coords]
    for i, (t, c) in enumerate(pm.cells):
        if rng.random() < 0.6:
            g = pm.coords[c].mean(0)
            co.append(list(g))
            a = len(co) - 1
            for f in FACES[HEXA8]:
                # base seen from outside like the face of the hexahedron: same outward normal
                cells.append((PYRA5, [c[k] for k in f] + [a]))
        else:
            cells.append((t, c))
    return PM(co, cells, 3)


def to_polyhedra(rng, pm, p=0.5):
    """Some cells as polyhedra (3-D) or polygons (2-D) with the same boundary."""
    pm = pm.copy()
    for k, (t, c) in enumerate(pm.cells):
        if rng.random() < p:
            if t in FACES:
                pm.cells[k] = (POLYHED, [list(f) for f in pm.sub(k)])
            elif t in (TRI3, QUAD4):
                pm.cells[k] = (POLYGON, list(c))
    return pm


def quadratic(rng, pm, p=1.0):
    """Middle nodes at the middle of the edges (straight quadratic cells)."""
    pm = pm.copy()
    co, mid = [list(x) for x in pm.coords], {}
    for k, (t, c) in enumerate(pm.cells):
        if t in QUADRATIC and rng.random() < p:
            qt = QUADRATIC[t]
            e = MIDS[qt] if qt != QPOLYG else [(i, (i + 1) % len(c)) for i in range(len(c))]
            add = []
            for a, b in e:
                key = frozenset((c[a], c[b]))
                if key not in mid:
                    mid[key] = len(co)
                    co.append(list((pm.coords[c[a]] + pm.coords[c[b]]) / 2))
                add.append(mid[key])
            pm.cells[k] = (qt, list(c) + add)
    pm.coords = np.array(co)
    return pm


def affine(rng, pm, shear=0.4, rigid=False, positive=True):
    d = pm.sdim
    A = G.rotation(rng, d)
    if rng.random() < 0.2:  # nearly along the axes
        e = 10 ** rng.uniform(-7, -1.5)
        A = np.eye(d) + e * np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(d)])
        A = np.linalg.qr(A)[0] if rigid else A[:, G.perm(rng, d)]
    elif not rigid:
        S = np.eye(d) + np.array([[rng.uniform(-shear, shear) / d for _ in range(d)] for _ in range(d)])
        A = A @ S * rng.choice([1., 1., 0.1, 7.])
    if positive and np.linalg.det(A) < 0:
        A = A.copy()
        A[:, 0] *= -1
    r = pm.copy()
    r.coords = pm.coords @ A.T + np.array([rng.uniform(-3, 3) for _ in range(d)])
    return r


def embed(rng, pm, curved=False):
    """A 1-D or 2-D mesh of the plane in space."""
    r = pm.copy()
    z = np.zeros(len(pm.coords))
    if curved:
        z = 0.3 * np.sin(pm.coords[:, 0]) + 0.2 * pm.coords[:, 1] ** 2 / (1 + len(pm.coords))
    r.coords = np.hstack([pm.coords, z.reshape(-1, 1)]) @ G.rotation(rng, 3).T + np.array(
        [rng.uniform(-2, 2) for _ in range(3)])
    return r


def any2(rng, sdim=2, poly=True, **kw):
    pm = grid2(rng, kinds="qtpT" if poly else "qtT", **kw)
    return affine(rng, pm) if sdim == 2 else embed(rng, pm)


def any3(rng, poly=True):
    k = rng.choice("etpm")
    if k == "t":
        pm = tetras(rng)
    elif k == "p":
        pm = pyramids(rng)
    else:
        pm = extrude(rng, grid2(rng, rng.randint(1, 3), rng.randint(1, 3), "qtp" if poly else "qt"), rng.randint(1, 3))
    if poly and rng.random() < 0.3:
        pm = to_polyhedra(rng, pm)
    return affine(rng, pm)


def anymesh(rng, dims=(1, 2, 3), poly=True, shuf=True):
    d = rng.choice(dims)
    if d == 1:
        pm = line(rng)
    elif d == 2:
        pm = any2(rng, rng.choice([2, 2, 3]), poly)
    else:
        pm = any3(rng, poly)
    if shuf:
        pm = shuffle(rng, pm, orphans=rng.choice([0, 0, 2]))
    return pm


def sort_by_type(pm):
    """Cells of one type are contiguous (as many services of the library require)."""
    r = pm.copy()
    r.cells.sort(key=lambda x: x[0])
    return r


# ---------------------------------------------------------------------------------------------- structured
def axis(rng, n=None):
    n = rng.randint(1, 6) if n is None else n
    x = [rng.uniform(-2, 2)]
    for _ in range(n):
        x.append(x[-1] + rng.uniform(0.2, 1.5))
    return x


def cmesh(rng, m, d=None, ns=None):
    d = rng.choice([1, 2, 3]) if d is None else d
    c = m.MEDCouplingCMesh("cart")
    ax = [axis(rng, None if ns is None else ns[i]) for i in range(d)]
    for i, a in enumerate(ax):
        c.setCoordsAt(i, G.dbl(m, a))
    return c, ax


def imesh(rng, m, d=None):
    d = rng.choice([1, 2, 3]) if d is None else d
    st = [rng.randint(2, 6) for _ in range(d)]
    o = [rng.uniform(-2, 2) for _ in range(d)]
    dx = [rng.uniform(0.2, 1.5) for _ in range(d)]
    return m.MEDCouplingIMesh("image", d, st, o, dx), st, o, dx


def curvi(rng, m, d=None):
    c, ax = cmesh(rng, m, rng.choice([2, 3]) if d is None else d)
    g = c.buildCurveLinear()
    co = G.np2(g.getCoords())
    A = np.eye(len(ax)) + 0.2 * np.array([[rng.uniform(-1, 1) for _ in ax] for _ in ax])
    if np.linalg.det(A) < 0:
        A[:, 0] *= -1
    g.setCoords(G.npd(m, co @ A.T))
    return g, ax, A


# ---------------------------------------------------------------------------------------------- reading back
def read(u):
    """PM of a library unstructured mesh, through its two connectivity arrays."""
    c = np.array(u.getNodalConnectivity().getValues(), dtype=int)
    ci = np.array(u.getNodalConnectivityIndex().getValues(), dtype=int)
    cells = []
    for a, b in zip(ci[:-1], ci[1:]):
        t = int(c[a])
        l = c[a + 1:b].tolist()
        if t == POLYHED:
            fs, cur = [], []
            for v in l:
                if v == -1:
                    fs.append(cur)
                    cur = []
                else:
                    cur.append(v)
            fs.append(cur)
            cells.append((t, fs))
        else:
            cells.append((t, l))
    if G.MON is not None:
        G.MON.eq(sorted(u.getAllGeoTypes()), sorted(set(t for t, _ in cells)), "mesh:types-not-those-of-the-cells")
    return PM(G.np2(u.getCoords()).reshape(u.getNumberOfNodes(), -1), cells, u.getMeshDimension())


def cyc(c):
    """A cyclic sequence, independent of its starting point."""
    k = c.index(min(c))
    return tuple(c[k:] + c[:k])


def field(rng, m, mesh, typ=None, nc=None, n=None):
    typ = rng.choice([m.ON_CELLS, m.ON_NODES]) if typ is None else typ
    nc = rng.choice([1, 1, 2, 3]) if nc is None else nc
    f = m.MEDCouplingFieldDouble(typ, m.ONE_TIME)
    f.setName("fld")
    f.setMesh(mesh)
    n = (mesh.getNumberOfCells() if typ == m.ON_CELLS else mesh.getNumberOfNodes()) if n is None else n
    a = np.array([rng.uniform(-5, 5) for _ in range(n * nc)]).reshape(n, nc)
    d = G.npd(m, a)
    d.setInfoOnComponents(["c%d [u]" % i for i in range(nc)])
    f.setArray(d)
    f.setTime(rng.uniform(0, 10), rng.randint(0, 9), rng.randint(0, 9))
    return f, a
