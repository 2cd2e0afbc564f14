"""C15: the files written for VTK hold exactly the mesh and the fields.

Every file is read back by a reader written here from the VTK XML file format (ascii and raw appended data), which
shares nothing with the library, and compared with the object which was written.
"""
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = "a file read back by an independent reader of the VTK XML formats gives the nodes, cells and values which were written"
ASSUMPTIONS = ["real values are written as Float32: binary files are compared after rounding to single precision, ascii files at 1e-15",
               "names free of the characters reserved by XML"]

# the format of VTK
VTK = {"NORM_POINT1": 1, "NORM_SEG2": 3, "NORM_SEG3": 21, "NORM_SEG4": 35, "NORM_POLYL": 4, "NORM_TRI3": 5, "NORM_QUAD4": 9,
       "NORM_POLYGON": 7, "NORM_TRI6": 22, "NORM_TRI7": 34, "NORM_QUAD8": 23, "NORM_QUAD9": 28, "NORM_TETRA4": 10, "NORM_PYRA5": 14,
       "NORM_PENTA6": 13, "NORM_HEXA8": 12, "NORM_TETRA10": 24, "NORM_HEXGP12": 16, "NORM_PYRA13": 27, "NORM_PENTA15": 26,
       "NORM_PENTA18": 32, "NORM_HEXA20": 25, "NORM_HEXA27": 29, "NORM_POLYHED": 42, "NORM_QPOLYG": 36}
NB = {"NORM_POINT1": 1, "NORM_SEG2": 2, "NORM_SEG3": 3, "NORM_SEG4": 4, "NORM_TRI3": 3, "NORM_QUAD4": 4, "NORM_TRI6": 6, "NORM_TRI7": 7,
      "NORM_QUAD8": 8, "NORM_QUAD9": 9, "NORM_TETRA4": 4, "NORM_PYRA5": 5, "NORM_PENTA6": 6, "NORM_HEXA8": 8, "NORM_TETRA10": 10,
      "NORM_HEXGP12": 12, "NORM_PYRA13": 13, "NORM_PENTA15": 15, "NORM_PENTA18": 18, "NORM_HEXA20": 20, "NORM_HEXA27": 27}
DIM = [["NORM_POINT1"], ["NORM_SEG2", "NORM_SEG3", "NORM_SEG4", "NORM_POLYL"],
       ["NORM_TRI3", "NORM_QUAD4", "NORM_POLYGON", "NORM_TRI6", "NORM_TRI7", "NORM_QUAD8", "NORM_QUAD9", "NORM_QPOLYG"],
       ["NORM_TETRA4", "NORM_PYRA5", "NORM_PENTA6", "NORM_HEXA8", "NORM_TETRA10", "NORM_HEXGP12", "NORM_PYRA13", "NORM_PENTA15",
        "NORM_PENTA18", "NORM_HEXA20", "NORM_HEXA27", "NORM_POLYHED"]]
# nodes of the faces of a triquadratic hexahedron: centres of (0473)(1265)(0154)(3762)(0321)(4567) for VTK, of
# (0123)(0451)(1562)(2673)(3740)(4765) for MED
H27 = list(range(20)) + [24, 22, 21, 23, 20, 25, 26]
DT = {"Float32": np.float32, "Float64": np.float64, "Int64": np.int64, "Int32": np.int32, "UInt8": np.uint8, "Int8": np.int8}


class Read:
    """A reader of VTK XML files."""

    def __init__(self, path):
        raw = open(path, "rb").read()
        k = raw.find(b"<AppendedData")
        self.app = None
        if k >= 0:
            u = raw.index(b"_", raw.index(b">", k))
            e = raw.rindex(b"</AppendedData>")
            self.app = raw[u + 1:e]
            assert b'encoding="raw"' in raw[k:u]
            txt = raw[:k] + b"</VTKFile>"
            assert raw[e:].split() == [b"</AppendedData>", b"</VTKFile>"]
        else:
            txt = raw
        self.root = ET.fromstring(txt.decode("utf-8"))
        assert self.root.tag == "VTKFile" and self.root.get("byte_order") == "LittleEndian"
        self.type = self.root.get("type")
        self.ds = self.root.find(self.type)
        self.piece = self.ds.find("Piece")
        self.np, self.nc = self.piece.get("NumberOfPoints"), self.piece.get("NumberOfCells")

    def arr(self, e, n):
        """n values of the DataArray e"""
        t = DT[e.get("type")]
        nc = int(e.get("NumberOfComponents"))
        if e.get("format") == "appended":
            o = int(e.get("offset")) + 4
            b = self.app[o:o + n * nc * np.dtype(t).itemsize]
            v = np.frombuffer(b, t)
        else:
            v = np.array([float(x) for x in e.text.split()])
            if v.size:
                assert float(e.get("RangeMin")) == v.min() and float(e.get("RangeMax")) == v.max()
            if t not in (np.float32, np.float64):
                v = v.astype(t)
        assert v.size == n * nc, (e.get("Name"), v.size, n, nc)
        return v.reshape(n, nc)

    def get(self, section, name, n):
        l = [e for e in self.piece.find(section).findall("DataArray") if e.get("Name") == name]
        assert len(l) == 1, (section, name, len(l))
        return self.arr(l[0], n)

    def names(self, section):
        return [e.get("Name") for e in self.piece.find(section).findall("DataArray")]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vtk.x_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def same(mon, got, want, binary, key):
    want = np.asarray(want, float)
    if binary:
        mon.eq(np.asarray(got, np.float32).tolist(), want.astype(np.float32).tolist(), key)
    else:
        mon.close(np.asarray(got, float), want, key, tol=1e-15, scale=max(1e-300, float(np.abs(want).max()) if want.size else 1.))


def zoo(rng, m):
    """An unstructured mesh of cells of any types, with a random connectivity."""
    dim = rng.randint(0, 3)
    sd = rng.randint(max(1, dim), 3)
    nn = rng.randint(30, 50)
    X = np.array([[rng.gauss(0, 10 ** rng.uniform(-2, 3)) for _ in range(sd)] for _ in range(nn)])
    types = rng.sample(DIM[dim], rng.randint(1, min(3, len(DIM[dim]))))
    if dim == 3 and rng.random() < 0.5 and "NORM_POLYHED" not in types:
        types.append("NORM_POLYHED")
    if dim == 3 and rng.random() < 0.3 and "NORM_HEXA27" not in types:
        types.append("NORM_HEXA27")
    u = m.MEDCouplingUMesh("zoo", dim)
    u.setCoords(G.npd(m, X))
    n = rng.randint(1, 8)
    u.allocateCells(n)
    cells = []
    for _ in range(n):
        t = rng.choice(types)
        if t == "NORM_POLYHED":
            fs = [rng.sample(range(nn), rng.randint(3, 6)) for _ in range(rng.randint(4, 7))]
            c = []
            for f in fs:
                c += ([-1] if c else []) + f
            cells.append((t, fs))
        else:
            k = NB.get(t) or (2 * rng.randint(3, 5) if t == "NORM_QPOLYG" else rng.randint(2 if dim == 1 else 3, 7))
            c = rng.sample(range(nn), k)
            cells.append((t, c))
        u.insertNextCell(getattr(m, t), len(c), c)
    return u, X, cells


def cells_of(u, m):
    """(type name, nodes or faces) of the cells of a mesh, from its raw arrays"""
    names = {getattr(m, t): t for t in VTK}
    c, i = G.L(u.getNodalConnectivity()), G.L(u.getNodalConnectivityIndex())
    out = []
    for a, b in zip(i[:-1], i[1:]):
        t = names[c[a]]
        l = c[a + 1:b]
        if t == "NORM_POLYHED":
            f = [[]]
            for x in l:
                if x == -1:
                    f.append([])
                else:
                    f[-1].append(x)
            l = f
        out.append((t, l))
    return out


def judge_um(mon, r, X, cells, binary, key):
    n = len(cells)
    mon.eq((int(r.np), int(r.nc)), (len(X), n), key + ":counts")
    P = r.get("Points", "Points", len(X))
    X3 = np.zeros((len(X), 3))
    X3[:, :X.shape[1]] = X
    same(mon, P, X3, binary, key + ":points")
    t = r.get("Cells", "types", n)[:, 0].tolist()
    mon.eq(t, [VTK[c[0]] for c in cells], key + ":types")
    off = r.get("Cells", "offsets", n)[:, 0].tolist()
    conn = r.get("Cells", "connectivity", off[-1])[:, 0].tolist()
    poly = any(c[0] == "NORM_POLYHED" for c in cells)
    mon.eq("faces" in r.names("Cells"), poly, key + ":presence-of-faces")
    if poly:
        fo = r.get("Cells", "faceoffsets", n)[:, 0].tolist()
        faces = r.get("Cells", "faces", max(fo))[:, 0].tolist()
        last = 0
    s = 0
    for i, (ty, c) in enumerate(cells):
        got = conn[s:off[i]]
        s = off[i]
        if ty == "NORM_POLYHED":
            mon.eq(sorted(got), sorted(set(x for f in c for x in f)), key + ":polyhedron-nodes", cell=i)
            p = last + 1
            k = faces[last]
            fs = []
            for _ in range(k):
                fs.append(faces[p + 1:p + 1 + faces[p]])
                p += 1 + faces[p]
            mon.eq(fs, c, key + ":polyhedron-faces", cell=i)
            mon.eq(fo[i], p, key + ":face-offset", cell=i)
            last = p
        else:
            mon.eq(got, [c[j] for j in H27] if ty == "NORM_HEXA27" else c, key + ":nodes:" + ty, cell=i)
            if poly:
                mon.eq(fo[i], -1, key + ":face-offset-none", cell=i)
    mon.eq(len(conn), s, key + ":connectivity-length")


def values(rng, m, mesh, binary, n=None):
    """Fields on the mesh with their values."""
    fs = []
    for q in range(rng.randint(0, 3) if n is None else n):
        on = rng.choice([m.ON_CELLS, m.ON_NODES])
        k = mesh.getNumberOfCells() if on == m.ON_CELLS else mesh.getNumberOfNodes()
        nc = rng.choice([1, 1, 2, 3, 6])
        A = np.array([[rng.choice([0., rng.gauss(0, 10 ** rng.uniform(-5, 5))]) for _ in range(nc)] for _ in range(k)]).reshape(k, nc)
        f = m.MEDCouplingFieldDouble(on, m.ONE_TIME)
        f.setMesh(mesh)
        a = G.npd(m, A)
        info = ["c%d [m/s]" % i for i in range(nc)] if rng.random() < 0.5 else [""] * nc
        a.setInfoOnComponents(info)
        f.setArray(a)
        f.setName("F%d" % q)
        fs.append((f, A, info, on))
    return fs


def judge_fields(mon, r, fs, m, binary, key):
    for sec, on in (("PointData", m.ON_NODES), ("CellData", m.ON_CELLS)):
        l = [f for f in fs if f[3] == on]
        mon.eq(r.names(sec), [f[0].getName() for f in l], key + ":names")
        for f, A, info, _ in l:
            same(mon, r.get(sec, f.getName(), len(A)), A, binary, key + ":values:" + sec)
            e = [x for x in r.piece.find(sec).findall("DataArray") if x.get("Name") == f.getName()][0]
            want = info if any(info) else [None] * len(info)
            mon.eq([e.get("ComponentName%d" % i) for i in range(len(info))], want, key + ":components")


def write(rng, mon, m, mesh, d, key):
    """Writes the mesh, alone or with fields."""
    binary = rng.random() < 0.6
    fs = values(rng, m, mesh, binary)
    ext = mesh.getVTKFileExtension()
    name = os.path.join(d, rng.choice(["a", "b.c", "m." + ext, "x.other"]))
    want = name if name.endswith("." + ext) else name + "." + ext
    before = G.snap(mesh) if type(mesh).__name__ != "MEDCouplingMappedExtrudedMesh" else None
    mon.eq(mesh.getVTKFileNameOf(name), want, key + ":name-of")
    if fs:
        if len(fs) == 1 and rng.random() < 0.5:
            got = fs[0][0].writeVTK(name, binary)
        else:
            got = m.MEDCouplingFieldDouble.WriteVTK(name, [f[0] for f in fs], binary)
    elif binary and rng.random() < 0.3:
        got = mesh.writeVTK(name)
    else:
        got = mesh.writeVTK(name, binary)
    mon.eq(got, want, key + ":name")
    mon.eq(sorted(os.listdir(d)), [os.path.basename(want)], key + ":files")
    if before is not None:
        mon.eq(G.snap(mesh), before, key + ":mesh-touched")
    r = Read(want)
    judge_fields(mon, r, fs, m, binary, key)
    mon.mark(key, binary, len(fs))
    mon.nontrivial = True
    return r, binary


def t_umesh(rng, mon, m):
    with Scratch() as d:
        if rng.random() < 0.6:
            u, X, cells = zoo(rng, m)
        else:
            pm = M.anymesh(rng)
            u = pm.um(m)
            X, cells = np.array(pm.coords), cells_of(u, m)
        key = "umesh:%dd" % u.getMeshDimension()
        r, b = write(rng, mon, m, u, d, key)
        mon.eq(r.type, "UnstructuredGrid", key + ":dataset")
        judge_um(mon, r, X, cells, b, key)


def t_other(rng, mon, m):
    with Scratch() as d:
        from props import C14
        k = C14.mesh_kind(rng, m, rng.choice(["1sgt", "1dgt", "extruded"]))
        u = k.o
        key = k.which
        r, b = write(rng, mon, m, u, d, key)
        w = u.buildUnstructured()
        mon.eq(r.type, "UnstructuredGrid", key + ":dataset")
        judge_um(mon, r, G.np2(w.getCoords()), cells_of(w, m), b, key)


def ext3(st):
    st = list(st) + [1] * (3 - len(st))
    return [x for n in st for x in (0, n - 1)]


def t_cmesh(rng, mon, m):
    with Scratch() as d:
        u, ax = M.cmesh(rng, m)
        key = "cmesh:%dd" % len(ax)
        r, b = write(rng, mon, m, u, d, key)
        mon.eq(r.type, "RectilinearGrid", key + ":dataset")
        want = ext3([len(a) for a in ax])
        mon.eq([int(x) for x in r.ds.get("WholeExtent").split()], want, key + ":extent")
        mon.eq([int(x) for x in r.piece.get("Extent").split()], want, key + ":piece")
        l = r.piece.find("Coordinates").findall("DataArray")
        mon.eq(len(l), 3, key + ":axes")
        for k in range(3):
            a = ax[k] if k < len(ax) else [0.]
            same(mon, r.arr(l[k], len(a))[:, 0], a, b, key + ":axis")


def t_imesh(rng, mon, m):
    with Scratch() as d:
        u, st, o, dx = M.imesh(rng, m)
        if rng.random() < 0.5:
            o = [x + rng.choice([-1, 1]) * 10 ** rng.uniform(0, 7) for x in o]
            u.setOrigin(o)
        key = "imesh:%dd" % len(st)
        r, b = write(rng, mon, m, u, d, key)
        mon.eq(r.type, "ImageData", key + ":dataset")
        want = ext3(st)
        mon.eq([int(x) for x in r.ds.get("WholeExtent").split()], want, key + ":extent")
        mon.eq([int(x) for x in r.piece.get("Extent").split()], want, key + ":piece")
        go = [float(x) for x in r.ds.get("Origin").split()]
        gs = [float(x) for x in r.ds.get("Spacing").split()]
        mon.eq(len(go), 3, key + ":origin-length")
        mon.close(go[:len(o)], o, key + ":origin", tol=1e-14, scale=max(abs(x) for x in o) + 1e-30)
        mon.close(gs[:len(o)], dx, key + ":spacing", tol=1e-14, scale=max(dx))
        mon.eq(go[len(o):], [0.] * (3 - len(o)), key + ":origin-rest")


def t_curvi(rng, mon, m):
    with Scratch() as d:
        u, ax, A = M.curvi(rng, m)
        key = "curvi:%dd" % len(u.getNodeGridStructure())
        r, b = write(rng, mon, m, u, d, key)
        mon.eq(r.type, "StructuredGrid", key + ":dataset")
        want = ext3(u.getNodeGridStructure())
        mon.eq([int(x) for x in r.ds.get("WholeExtent").split()], want, key + ":extent")
        mon.eq([int(x) for x in r.piece.get("Extent").split()], want, key + ":piece")
        X = G.np2(u.getCoords())
        X3 = np.zeros((len(X), 3))
        X3[:, :X.shape[1]] = X
        same(mon, r.get("Points", "Points", len(X)), X3, b, key + ":points")


def t_refuse(rng, mon, m):
    """What VTK cannot hold is refused, and nothing is said to be written."""
    with Scratch() as d:
        p = os.path.join(d, "x")
        um = M.anymesh(rng).um(m)
        fs = [f[0] for f in values(rng, m, um, True, 2)]
        which = rng.choice(["noname", "othermesh", "empty", "gaussne", "none", "nomesh", "noarray", "nodir"])
        key = "refuse:" + which
        if which == "noname":
            fs[1].setName("")
        elif which == "othermesh":
            c = um.deepCopy()
            fs[1].setMesh(c)
        elif which == "empty":
            v = m.MEDCouplingUMesh("e", um.getMeshDimension())
            v.setCoords(um.getCoords())
            v.allocateCells(0)
            mon.raises(lambda: v.writeVTK(p), key)
            mon.nontrivial = True
            return
        elif which == "gaussne":
            v = m.MEDCouplingUMesh("e", 2)
            v.setCoords(m.DataArrayDouble([0., 0., 1., 0., 0., 1.], 3, 2))
            v.allocateCells(1)
            v.insertNextCell(m.NORM_TRI3, 3, [0, 1, 2])
            f = m.MEDCouplingFieldDouble(m.ON_GAUSS_NE)
            f.setMesh(v)
            f.setArray(m.DataArrayDouble(3, 1))
            f.getArray().fillWithZero()
            f.setName("f")
            fs = [f]
        elif which == "none":
            mon.eq(m.MEDCouplingFieldDouble.WriteVTK(p, [], True), "", key)
            mon.eq(os.listdir(d), [], key + ":files")
            mon.nontrivial = True
            return
        elif which == "nomesh":
            fs[0].setMesh(None)
        elif which == "noarray":
            fs[1].setArray(None)
        else:
            f = fs[0]
            mon.raises(lambda: f.writeVTK(os.path.join(d, "absent", "x"), rng.random() < 0.5), key)
            mon.nontrivial = True
            return
        mon.raises(lambda: m.MEDCouplingFieldDouble.WriteVTK(p, fs, rng.random() < 0.5), key)
        mon.nontrivial = True


def t_dbg(rng, mon, m):
    """writeForDbg / LoadForDbg"""
    from props import C14
    with Scratch() as d:
        p = os.path.join(d, "a.bin")
        a = C14.arr_obj(rng, m, rng.choice(["DataArrayDouble", "DataArrayFloat", "DataArrayInt32", "DataArrayInt64"]))
        key = "dbg:" + type(a).__name__
        a.writeForDbg(p)
        b = type(a).LoadForDbg(p)
        get = lambda x: (x.getNumberOfTuples(), x.getNumberOfComponents(), np.array(x.getValues()).tobytes())
        mon.eq(get(b), get(a), key + ":content")
        raw = open(p, "rb").read()
        cut = rng.choice([raw[:-1], raw + b"x", raw[:rng.randint(0, 16)], b"", bytes([raw[0] ^ 4]) + raw[1:]])
        if cut != raw:
            open(p, "wb").write(cut)
            mon.raises(lambda: type(a).LoadForDbg(p), key + ":damaged", length=len(cut), was=len(raw))
        mon.raises(lambda: type(a).LoadForDbg(os.path.join(d, "absent")), key + ":absent")
        mon.nontrivial = True


def t_vthb(rng, mon, m):
    """Hierarchies of patches"""
    from props import C12
    with Scratch() as d:
        a, root, o, dx, f0 = C12.amr(rng, m)
        g = rng.randint(0, min(f0))
        at = m.MEDCouplingAMRAttribute(a, [("F", 1), ("V", 2)], g)
        at.alloc()
        nodes = list(root.all())
        dim = len(o)
        V = {}
        for n in nodes:
            ids = C12.F([x + 2 * g for x in n.dims()])
            inner = C12.flat(ids[C12.sl([(g, g + x) for x in n.dims()])])
            for name, nc in (("F", 1), ("V", 2)):
                arr = at.getFieldOn(n.mesh, name)
                X = np.array([[rng.gauss(0, 1) for _ in range(nc)] for _ in range(ids.size)])
                arr.setValues(X.ravel().tolist(), len(X), nc)
                V[id(n), name] = X[inner]
        nm = os.path.join(d, rng.choice(["h.vthb", "h"]))
        got = at.writeVTHB(nm)
        key = "vthb:%dd" % dim
        mon.eq(got, os.path.join(d, "h.vthb"), key + ":name")
        mon.need(os.path.exists(got), key + ":written", files=sorted(os.listdir(d)))
        t = ET.parse(got).getroot()
        mon.eq(t.get("type"), "vtkOverlappingAMR", key + ":type")
        t = t.find("vtkOverlappingAMR")
        mon.close([float(x) for x in t.get("origin").split()], o, key + ":origin", tol=1e-14)
        mon.eq(t.get("grid_description"), "XYZ"[:dim], key + ":description")
        bl = t.findall("Block")
        mon.eq(len(bl), 1 + max(n.lev for n in nodes), key + ":levels")
        for lev, b in enumerate(bl):
            mine = [n for n in nodes if n.lev == lev]
            mon.eq(int(b.get("level")), lev, key + ":level")
            mon.close([float(x) for x in b.get("spacing").split()], [x / f for x, f in zip(dx, mine[0].fact)], key + ":spacing", tol=1e-14)
            ds = b.findall("DataSet")
            mon.eq([int(x.get("index")) for x in ds], list(range(len(mine))), key + ":index")
            boxes = {}
            for x in ds:
                boxes[tuple(int(y) for y in x.get("amr_box").split())] = x.get("file")
            want = {tuple(v for p, q in zip(n.lo, n.hi) for v in (p, q - 1)): n for n in mine}
            mon.need(sorted(boxes) == sorted(want), key + ":boxes", got=sorted(boxes), want=sorted(want))
            for k, n in want.items():
                r = Read(boxes[k])
                mon.eq([int(x) for x in r.ds.get("WholeExtent").split()], ext3([x + 1 for x in n.dims()]), key + ":extent")
                mon.close([float(x) for x in r.ds.get("Origin").split()][:dim], [p + h * l / f for p, h, l, f in zip(o, dx, n.lo, n.fact)],
                          key + ":image-origin", tol=1e-13)
                for name in "FV":
                    same(mon, r.get("CellData", name, len(V[id(n), name])), V[id(n), name], True, key + ":values")
        mon.nontrivial = True
        mon.mark(key, len(nodes), g)


OPS = [("umesh", t_umesh), ("umesh2", t_umesh), ("other", t_other), ("cmesh", t_cmesh), ("imesh", t_imesh), ("curvi", t_curvi),
       ("refuse", t_refuse), ("dbg", t_dbg), ("vthb", t_vthb)]
FAMILIES = [G.table("vtk", OPS, 500, 3)]
