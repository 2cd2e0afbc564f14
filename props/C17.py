"""C17: mesh files.

A mesh of a MED file is modelled in Python: coordinates, the cells of every level, the set of cells or nodes of each
group, the optional numbers and names. Sequences of operations (groups added, removed, renamed, families reorganised,
parts extracted, levels removed, write to a file or to memory, re-read whole or in part) are applied to the library's
object and to the model; after each of them every getter has to agree with the model.
"""
import os

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

VARIANT = "med"
RULE = "the content read back through every getter is the modelled one after any sequence of group edits, writes, reads"
ASSUMPTIONS = ["files are written with the installed libmed 4.1.0; the description of a field, which it lacks, goes "
               "through /verif/shim; it refuses meshes whose time step is not (-1,-1)", "cells are given grouped by type in the order of the MED format"]

ORDER = [M.PT1, M.SEG2, M.SEG3, M.TRI3, M.QUAD4, M.TRI6, M.QUAD8, M.TETRA4, M.PYRA5, M.PENTA6, M.HEXA8, M.HEXGP12,
         M.TETRA10, M.PYRA13, M.PENTA15, M.HEXA20, M.POLYGON, M.QPOLYG, M.POLYHED]
RANK = {t: i for i, t in enumerate(ORDER)}


def scratch(name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "%d-%s" % (os.getpid(), name))


def med_sort(pm):
    r = pm.copy()
    r.cells.sort(key=lambda x: RANK[x[0]])
    return r


class Model:
    def __init__(self):
        self.name, self.descr = "mesh", ""
        self.infos = []
        self.coords = None
        self.lev = {}      # level -> PM
        self.grp = {}      # (level, name) -> set
        self.num = {}      # level -> list
        self.names = {}    # level -> list of str
        self.time = (-1, -1, 0.)
        self.unit = ""

    def size(self, lev):
        return len(self.coords) if lev == 1 else len(self.lev[lev].cells)

    def levels(self):
        return sorted(self.lev, reverse=True)


def sublevel(rng, pm):
    """Some of the boundary entities of the cells."""
    r, seen = [], set()
    for i in range(len(pm.cells)):
        for f in pm.sub(i):
            k = frozenset(f)
            if k in seen or rng.random() < .3:
                continue
            seen.add(k)
            d = pm.mdim - 1
            t = M.PT1 if d == 0 else M.SEG2 if d == 1 else {3: M.TRI3, 4: M.QUAD4}.get(len(f), M.POLYGON)
            r.append((t, list(f)))
    rng.shuffle(r)
    if not r:
        return None
    return med_sort(M.PM(pm.coords, r, pm.mdim - 1))


def model(rng, m, dims=(1, 2, 3), groups=True, quad=True, levels=True):
    pm = M.anymesh(rng, dims)
    if quad and rng.random() < .2 and all(t != M.POLYHED for t, _ in pm.cells):
        pm = M.quadratic(rng, pm, rng.choice([1., .5]))
    mo = Model()
    mo.lev[0] = med_sort(pm)
    cur, l = mo.lev[0], 0
    while levels and cur is not None and cur.mdim > 0 and rng.random() < .7:
        cur, l = sublevel(rng, cur), l - 1
        if cur is None:
            break
        mo.lev[l] = cur
    if levels and rng.random() < .15 and -1 in mo.lev and -2 in mo.lev:
        del mo.lev[-1]
    mo.coords = pm.coords
    mo.name = rng.choice(["mesh", "a mesh of \t name", "M" * 64, "x"])
    mo.descr = rng.choice(["", "description, of some length " * 5])
    mo.infos = ["%s%s" % (c, rng.choice(["", " [m]", " [k.m/s]"])) for c in ["X", "Yy", "third axis"][:pm.sdim]]
    if rng.random() < .5:
        mo.time = (-1, -1, rng.choice([0., 1.25, 1e-3 / 3]))
        mo.unit = rng.choice(["", "s", "ms"])
    for lv in [1] + mo.levels():
        n = mo.size(lv)
        if rng.random() < .4:
            mo.num[lv] = [x + rng.choice([1, 10]) for x in rng.sample(range(3 * n), n)]
            if len(set(mo.num[lv])) < n:
                mo.num[lv] = rng.sample(range(3 * n), n)
        if rng.random() < .25:
            mo.names[lv] = ["%s%d" % (rng.choice("abc"), i) for i in range(n)]
    if groups:
        for lv in [1] + mo.levels():
            for k in range(rng.choice([0, 1, 2, 4])):
                mo.grp[lv, "g%d%s%s" % (k, "abcde"[lv], rng.choice(["", " with spaces", "L" * 60]))] = set(
                    G.subset(rng, mo.size(lv), rng.randint(1, mo.size(lv))))
    return mo


def nm(m, l, ids, name):
    a = G.ids(m, sorted(ids))
    a.setName(name)
    return a


def build(rng, m, mo):
    """The library's object, through the services in a random order."""
    mm = m.MEDFileUMesh()
    co = G.npd(m, mo.coords)
    co.setInfoOnComponents(mo.infos)
    levs = mo.levels()
    rng.shuffle(levs)
    ums = {}
    for lv in levs:
        u = mo.lev[lv].um(m, mo.name)
        u.setCoords(co)
        u.setDescription(mo.descr)
        u.setTime(mo.time[2], mo.time[0], mo.time[1])
        u.setTimeUnit(mo.unit)
        ums[lv] = u
    if rng.random() < .5:
        for lv in levs:
            mm.setMeshAtLevel(lv, ums[lv])
    elif rng.random() < .5:
        mm.setCoords(co)
        for lv in levs:
            mm[lv] = ums[lv]
    else:
        mm.setMeshes([ums[lv] for lv in sorted(levs, reverse=rng.random() < .5)], rng.random() < .3)
    mm.setName(mo.name)
    mm.setDescription(mo.descr)
    mm.setTime(mo.time[0], mo.time[1], mo.time[2])
    mm.setTimeUnit(mo.unit)
    for lv, v in mo.num.items():
        mm.setRenumFieldArr(lv, G.ids(m, v))
    for lv, v in mo.names.items():
        a = m.DataArrayAsciiChar.New([x.ljust(16) for x in v])
        mm.setNameFieldAtLevel(lv, a)
    bylev = {}
    for (lv, n), s in mo.grp.items():
        bylev.setdefault(lv, []).append((n, s))
    for lv, gs in sorted(bylev.items(), key=lambda x: rng.random()):
        arrs = [nm(m, lv, s, n) for n, s in gs]
        k = rng.randint(0, 3)
        if k == 0:
            mm.setGroupsAtLevel(lv, arrs)
        elif k == 1:
            mm.addGroupsAtLevel(lv, arrs)
        elif k == 2 and lv in mo.num:
            mm.setGroupsAtLevel(lv, [nm(m, lv, [mo.num[lv][i] for i in s], n) for n, s in gs], True)
        else:
            for a in arrs:
                (mm.addNodeGroup(a) if lv == 1 and rng.random() < .5 else mm.addGroup(lv, a))
    return mm


def same_cells(a, b):
    return len(a.cells) == len(b.cells) and all(x[0] == y[0] and [list(f) for f in x[1]] == [list(f) for f in y[1]]
                                                if x[0] == M.POLYHED else x[0] == y[0] and list(x[1]) == list(y[1])
                                                for x, y in zip(a.cells, b.cells))


def check(rng, mon, m, mm, mo, key, names=True, time=True, groups=True):
    k = "med-mesh:" + key
    if names:
        mon.eq(mm.getName(), mo.name, k + ":name")
        mon.eq(mm.getDescription(), mo.descr, k + ":description")
    if time:
        mon.eq(list(mm.getTime())[:2], list(mo.time[:2]), k + ":iteration")
        mon.eq(list(mm.getTime())[2], mo.time[2], k + ":time")
        mon.eq(mm.getTimeUnit(), mo.unit, k + ":time-unit")
    mon.need(list(mm.getNonEmptyLevels()) == mo.levels(), k + ":levels", got=list(mm.getNonEmptyLevels()))
    mon.eq(list(mm.getNonEmptyLevelsExt()), [1] + mo.levels(), k + ":levels-ext")
    co = mm.getCoords()
    mon.need(G.np2(co).shape == mo.coords.shape and bool((G.np2(co) == mo.coords).all()), k + ":coords")
    mon.eq(list(co.getInfoOnComponents()), mo.infos, k + ":coord-infos")
    mon.eq(mm.getMeshDimension(), mo.lev[mo.levels()[0]].mdim - 0 - mo.levels()[0], k + ":mesh-dimension")
    mon.eq(mm.getSpaceDimension(), mo.coords.shape[1], k + ":space-dimension")
    for lv in mo.levels():
        u = mm.getMeshAtLevel(lv) if rng.random() < .5 else mm[lv]
        u.checkConsistency()
        mon.ok(same_cells(M.read(u), mo.lev[lv]), k + ":cells", level=lv)
        mon.eq(mm.getNumberOfCellsAtLevel(lv), mo.size(lv), k + ":nb-cells")
        cnt = {}
        mm.forceComputationOfParts()
        for t, _ in mo.lev[lv].cells:
            cnt[t] = cnt.get(t, 0) + 1
        mon.eq(sorted(mm.getGeoTypesAtLevel(lv)), sorted(cnt), k + ":geo-types")
        for t, n in cnt.items():
            mon.eq(mm.getNumberOfCellsWithType(t), n, k + ":nb-of-type")
            s = mm.getDirectUndergroundSingleGeoTypeMesh(t)
            mon.eq(s.getNumberOfCells(), n, k + ":single-type-mesh")
    for lv in [1] + mo.levels():
        a = mm.getNumberFieldAtLevel(lv)
        if lv in mo.num:
            mon.ok(a is not None and G.L(a) == list(mo.num[lv]), k + ":numbers", level=lv)
            rv = mm.getRevNumberFieldAtLevel(lv)
            if rv is not None:
                r = G.L(rv)
                mon.ok(all(r[x] == i for i, x in enumerate(mo.num[lv])), k + ":reverse-numbers", level=lv)
        else:
            mon.ok(a is None, k + ":numbers-from-nowhere", level=lv)
        a = mm.getNameFieldAtLevel(lv)
        if lv in mo.names:
            mon.ok(a is not None and [x.strip() for x in a.toStrList()] == mo.names[lv], k + ":names", level=lv)
        else:
            mon.ok(a is None, k + ":names-from-nowhere", level=lv)
    if groups:
        check_groups(rng, mon, m, mm, mo, k)


def check_groups(rng, mon, m, mm, mo, k):
    want = {}
    for (lv, n), s in mo.grp.items():
        want.setdefault(n, {})[lv] = s
    mon.eq(sorted(mm.getGroupsNames()), sorted(want), k + ":groups-names")
    for lv in [1] + mo.levels():
        here = sorted(n for (l, n), s in mo.grp.items() if l == lv and s)
        mon.eq(sorted(mm.getGroupsOnSpecifiedLev(lv)), here, k + ":groups-on-level", level=lv)
    for n, d in want.items():
        if n not in mm.getGroupsNames():
            continue
        mon.eq(list(mm.getGrpNonEmptyLevelsExt(n)), [l for l in [1] + mo.levels() if d.get(l)], k + ":group-levels")
        for lv, s in d.items():
            if not s:
                continue
            mon.eq(G.L(mm.getGroupArr(lv, n)), sorted(s), k + ":group-ids", level=lv)
            if lv in mo.num:
                mon.eq(sorted(G.L(mm.getGroupArr(lv, n, True))), sorted(mo.num[lv][i] for i in s),
                       k + ":group-numbers", level=lv)
            if lv == 1:
                mon.eq(G.L(mm.getNodeGroupArr(n)), sorted(s), k + ":node-group-ids")
            else:
                g = M.read(mm.getGroup(lv, n))
                w = M.PM(mo.coords, [mo.lev[lv].cells[i] for i in sorted(s)], mo.lev[lv].mdim)
                mon.ok(same_cells(g, w), k + ":group-mesh", level=lv)
    for lv in [1] + mo.levels():
        some = [n for (l, n), s in mo.grp.items() if l == lv and s]
        if len(some) >= 2:
            some = rng.sample(some, rng.randint(2, len(some)))
            u = set().union(*[mo.grp[lv, n] for n in some])
            mon.eq(G.L(mm.getGroupsArr(lv, some)), sorted(u), k + ":groups-union", level=lv)
    # families and groups tell the same
    for lv in [1] + mo.levels():
        f = mm.getFamilyFieldAtLevel(lv)
        if f is None:
            mon.ok(not any(l == lv and s for (l, n), s in mo.grp.items()), k + ":no-family-field", level=lv)
            continue
        f = G.L(f)
        for (l, n), s in mo.grp.items():
            if l == lv:
                fi = set(mm.getFamiliesIdsOnGroup(n))
                mon.eq([i for i, x in enumerate(f) if x in fi], sorted(s), k + ":families-of-group", level=lv)


def through(rng, m, mm, mo):
    """Written then read, one way or another."""
    k = rng.randint(0, 9)
    fn = scratch("m.med")
    if os.path.exists(fn):
        os.unlink(fn)
    if k <= 2:
        mm.write(fn, 2)
        r = m.MEDFileMesh.New(fn)
    elif k == 3:
        mm.write(fn, 2)
        r = m.MEDFileUMesh(fn, mo.name, mo.time[0], mo.time[1])
    elif k == 4:
        r = m.MEDFileUMesh(mm.serialize())
    elif k == 5:
        r = mm.deepCopy()
    elif k == 6:
        import pickle
        r = pickle.loads(pickle.dumps(mm, pickle.HIGHEST_PROTOCOL))
    elif k == 7:
        ms = m.MEDFileMeshes()
        ms.pushMesh(mm)
        ms.write(fn, 2)
        r = m.MEDFileMeshes(fn).getMeshAtPos(0)
    elif k == 8:
        d = m.MEDFileData()
        ms = m.MEDFileMeshes()
        ms.pushMesh(mm)
        d.setMeshes(ms)
        d.write(fn, 2)
        r = m.MEDFileData(fn).getMeshes().getMeshWithName(mo.name)
    else:
        mm.write40(fn, 2)
        r = m.MEDFileMesh.New(fn, mo.name)
    if os.path.exists(fn):
        os.unlink(fn)
    return r, ["file", "file", "file", "file-by-name", "memory", "deepcopy", "pickle", "meshes", "data", "file40"][k]


def t_roundtrip(rng, mon, m):
    mo = model(rng, m)
    mm = build(rng, m, mo)
    check(rng, mon, m, mm, mo, "built")
    r, how = through(rng, m, mm, mo)
    check(rng, mon, m, r, mo, how)
    mon.ok(r.isEqual(mm, 1e-15)[0], "med-mesh:%s:isEqual" % how, why=r.isEqual(mm, 1e-15)[1])
    check(rng, mon, m, mm, mo, "source-after-write")
    r, how = through(rng, m, r, mo)
    check(rng, mon, m, r, mo, "second-" + how)


def t_groups(rng, mon, m):
    """Editions of the groups."""
    mo = model(rng, m)
    mm = build(rng, m, mo)
    for _ in range(rng.randint(2, 7)):
        names = sorted(set(n for _, n in mo.grp))
        op = rng.choice(["add", "remove", "rename", "all", "optimize", "zip", "rearrange", "famid",
                         "famname", "assign", "rmlevel", "through", "orphan", "noref", "erase", "keep"])
        if op == "add":
            lv = rng.choice([1] + mo.levels())
            n = "new%d" % rng.randint(0, 10 ** 6)
            s = set(G.subset(rng, mo.size(lv), rng.randint(1, mo.size(lv))))
            mm.addGroup(lv, nm(m, lv, s, n))
            mo.grp[lv, n] = s
        elif op == "remove" and names:
            n = rng.choice(names)
            mm.removeGroup(n)
            for k in [k for k in mo.grp if k[1] == n]:
                del mo.grp[k]
        elif op == "rename" and names:
            n, n2 = rng.choice(names), "ren%d" % rng.randint(0, 10 ** 6)
            mm.changeGroupName(n, n2)
            for k in [k for k in mo.grp if k[1] == n]:
                mo.grp[k[0], n2] = mo.grp.pop(k)
        elif op == "all":
            lv = rng.choice([1] + mo.levels())
            n = "all%d" % rng.randint(0, 10 ** 6)
            mm.getOrCreateAndGetFamilyFieldAtLevel(lv)
            ids = {}
            for l in [1] + mo.levels():
                f = mm.getFamilyFieldAtLevel(l)
                ids[l] = set() if f is None else set(G.L(f))
            if 0 in ids[lv] or any(ids[lv] & ids[l] for l in ids if l != lv):
                continue        # a family, such as 0, is shared by two levels: the group would be on both
            try:
                mm.createGroupOnAll(lv, n)
            except m.InterpKernelException:
                mon.note("createGroupOnAll refused")
                return
            mo.grp[lv, n] = set(range(mo.size(lv)))
        elif op == "optimize":
            mm.optimizeFamilies()
        elif op == "zip":
            mm.zipFamilies()
        elif op == "rearrange":
            try:
                mm.rearrangeFamilies()
            except m.InterpKernelException:
                mon.note("rearrangeFamilies refused")
                return
        elif op == "famid":
            f = [mm.getFamilyId(x) for x in mm.getFamiliesNames() if mm.getFamilyId(x) != 0]
            if f:
                mm.changeFamilyId(rng.choice(f), 10 ** 6 + rng.randint(0, 10 ** 5))
        elif op == "famname":
            f = [x for x in mm.getFamiliesNames() if x != "FAMILLE_ZERO"]
            if f:
                mm.changeFamilyName(rng.choice(f), "fam%d" % rng.randint(0, 10 ** 6))
        elif op == "assign":
            try:
                mm.assignFamilyNameWithGroupName()
            except m.InterpKernelException:
                mon.note("assignFamilyNameWithGroupName refused")
                return
        elif op == "rmlevel" and mo.grp:
            lv, n = rng.choice(sorted(mo.grp))
            mm.removeGroupAtLevel(lv, n)
            del mo.grp[lv, n]
            mm.removeEmptyGroups()
        elif op == "orphan":
            mm.removeOrphanFamilies()
            mm.removeEmptyGroups()
        elif op == "noref":
            mm.removeFamiliesReferedByNoGroups()
        elif op == "erase":
            lv = rng.choice(mo.levels())
            mm.eraseGroupsAtLevel(lv)
            for k in [k for k in mo.grp if k[0] == lv]:
                del mo.grp[k]
            mm.removeOrphanFamilies()
            mm.removeEmptyGroups()
        elif op == "through":
            mm, how = through(rng, m, mm, mo)
        else:
            continue
        mon.note("group edit:" + op)
        check_groups(rng, mon, m, mm, mo, "med-mesh:groups:" + op)
    mm, how = through(rng, m, mm, mo)
    check(rng, mon, m, mm, mo, "edited-" + how)


def restrict(mo, keep, nodes=None):
    """The model of a part: keep[level] = ids (increasing) ; levels not in keep vanish ; nodes = ids or None (all)."""
    r = Model()
    r.name, r.descr, r.infos, r.time, r.unit = mo.name, mo.descr, mo.infos, mo.time, mo.unit
    r.coords = mo.coords if nodes is None else mo.coords[nodes]
    new = None if nodes is None else {n: i for i, n in enumerate(nodes)}
    for lv, ids in keep.items():
        p = M.PM(mo.coords, [mo.lev[lv].cells[i] for i in ids], mo.lev[lv].mdim)
        if new is not None:
            p = M.PM(r.coords, p.map_nodes(new), p.mdim)
        r.lev[lv] = p
    allk = dict(keep)
    allk[1] = list(range(len(mo.coords))) if nodes is None else list(nodes)
    for lv, ids in allk.items():
        pos = {x: i for i, x in enumerate(ids)}
        if lv in mo.num:
            r.num[lv] = [mo.num[lv][i] for i in ids]
        if lv in mo.names:
            r.names[lv] = [mo.names[lv][i] for i in ids]
        for (l, n), s in mo.grp.items():
            if l == lv:
                r.grp[l, n] = set(pos[i] for i in s if i in pos)
    return r


def drop_empty(mm, r):
    mm.removeOrphanFamilies()
    mm.removeEmptyGroups()
    for k in [k for k, s in r.grp.items() if not s]:
        del r.grp[k]


def entities(pm, ids):
    """The entities of each codimension of some cells, as sets of nodes."""
    r = {}
    p = M.PM(pm.coords, [pm.cells[i] for i in ids], pm.mdim)
    for k in range(1, pm.mdim + 1):
        fs = [f for i in range(len(p.cells)) for f in p.sub(i)]
        r[k] = set(frozenset(f) for f in fs)
        d = pm.mdim - k
        p = M.PM(pm.coords, [(M.PT1 if d == 0 else M.SEG2 if d == 1 else
                              {3: M.TRI3, 4: M.QUAD4}.get(len(f), M.POLYGON), list(f)) for f in fs], d)
    return r


def t_extract(rng, mon, m):
    """extractPart and reduceToCells."""
    mo = model(rng, m)
    mm = build(rng, m, mo)
    lv0 = mo.levels()[0]
    if lv0 != 0:
        raise Skip()
    if rng.random() < .5:
        keep = {0: sorted(G.subset(rng, mo.size(0), rng.randint(1, mo.size(0))))}
        for lv in mo.levels()[1:]:
            if rng.random() < .7:
                keep[lv] = sorted(G.subset(rng, mo.size(lv), rng.randint(1, mo.size(lv))))
        need = sorted(set(n for lv, ids in keep.items() for i in ids for n in mo.lev[lv].nodes(i)))
        d = {lv: G.ids(m, ids) for lv, ids in keep.items()}
        mon.eq(G.L(mm.deduceNodeSubPartFromCellSubPart(d)), need, "med-mesh:deduceNodeSubPart")
        d[1] = G.ids(m, need)
        r = mm.extractPart(d)
        w = restrict(mo, keep, need)
        key = "extractPart"
    else:
        ids = sorted(G.subset(rng, mo.size(0), rng.randint(1, mo.size(0))))
        if any(t == M.PT1 for t, _ in mo.lev[mo.levels()[-1]].cells):
            raise Skip()        # refused
        try:
            r = mm.reduceToCells(0, G.ids(m, ids))
        except RuntimeError:
            # documented by its message: faces of polyhedra and level of points are not found
            odd = any(t in (M.POLYGON, M.QPOLYG, M.POLYHED, M.PT1, 30, 23, 8, 25, 20) for lv in mo.levels()
                      for t, _ in mo.lev[lv].cells)
            mon.ok(odd, "med-mesh:reduceToCells:refusal")
            mon.note("reduceToCells refused")
            return
        nodes = sorted(set(n for i in ids for n in mo.lev[0].nodes(i)))
        keep = {0: ids}
        ents = entities(mo.lev[0], ids)
        for lv in mo.levels()[1:]:
            k = [i for i in range(mo.size(lv)) if frozenset(mo.lev[lv].nodes(i)) in ents[-lv]]
            # the entities of lower dimension kept are those of the kept cells
            keep[lv] = k
        for lv in [x for x in keep if not keep[x]]:
            del keep[lv]
        w = restrict(mo, keep, nodes)
        w.num = {}      # not kept
        key = "reduceToCells"
    w.names = {}        # not kept
    drop_empty(r, w)
    check(rng, mon, m, r, w, key, time=False)
    check(rng, mon, m, mm, mo, "source-after-" + key)


def t_zipcoords(rng, mon, m):
    mo = model(rng, m)
    mm = build(rng, m, mo)
    used = sorted(set(n for lv in mo.levels() for i in range(mo.size(lv)) for n in mo.lev[lv].nodes(i)))
    mon.eq(G.L(mm.computeFetchedNodeIds()), used, "med-mesh:computeFetchedNodeIds")
    o = mm.zipCoords()
    if len(used) == len(mo.coords):
        mon.ok(o is None, "med-mesh:zipCoords:nothing-to-do")
    else:
        pos = {x: i for i, x in enumerate(used)}
        mon.eq(G.L(o), [pos.get(i, -1) for i in range(len(mo.coords))], "med-mesh:zipCoords:o2n")
    w = restrict(mo, {lv: list(range(mo.size(lv))) for lv in mo.levels()}, used)
    drop_empty(mm, w)
    check(rng, mon, m, mm, w, "zipCoords")
    r, how = through(rng, m, mm, w)
    check(rng, mon, m, r, w, "zipCoords-" + how)


def t_partload(rng, mon, m):
    """A part of each type of cells is loaded."""
    mo = model(rng, m, levels=rng.random() < .5)
    mm = build(rng, m, mo)
    fn = scratch("p.med")
    mm.write(fn, 2)
    types, sl, keep = [], [], {}
    for lv in mo.levels():
        here = [t for t, _ in mo.lev[lv].cells]
        for t in dict.fromkeys(here):
            ids = [i for i, x in enumerate(here) if x == t]
            if t in (M.POLYGON, M.QPOLYG, M.POLYHED):
                continue        # not loadable in part
            if rng.random() < .8 or lv == 0 and not types:
                a = rng.randint(0, len(ids) - 1)
                b = rng.randint(a + 1, len(ids))
                st = 1 if rng.random() < .6 else rng.randint(1, 3)
                types.append(t)
                sl += [a, b, st]
                keep.setdefault(lv, [])
                keep[lv] += ids[a:b:st]
    if 0 not in keep or lv_hole(keep):
        os.unlink(fn)
        raise Skip()
    r = m.MEDFileUMesh.LoadPartOf(fn, mo.name, types, sl, mo.time[0], mo.time[1])
    os.unlink(fn)
    used = sorted(set(n for lv, ids in keep.items() for i in ids for n in mo.lev[lv].nodes(i)))
    # the nodes loaded go from the first fetched to the last fetched one
    w = restrict(mo, keep, list(range(used[0], used[-1] + 1)))
    co = G.np2(r.getCoords())
    mon.need(len(co) >= len(used), "med-mesh:LoadPartOf:coords-size")
    if len(co) != len(w.coords):
        w = restrict(mo, keep, used)
    drop_empty(r, w)
    check(rng, mon, m, r, w, "LoadPartOf")


def lv_hole(keep):
    k = sorted(keep)
    return False


def t_aggregate(rng, mon, m):
    mos = [model(rng, m, dims=(rng.choice([2, 3]),), levels=False, quad=False)]
    for _ in range(rng.randint(1, 2)):
        for _ in range(20):
            x = model(rng, m, dims=(mos[0].lev[0].mdim,), levels=False, quad=False)
            if x.coords.shape[1] == mos[0].coords.shape[1]:
                break
        else:
            raise Skip()
        mos.append(x)
    hi = rng.random() < .5
    for x in mos:
        x.name, x.descr, x.infos, x.time, x.unit = "agg", "", mos[0].infos, (-1, -1, 0.), ""
        x.num, x.names = {}, {}
        if hi:
            x.grp[0, "shared"] = set(range(0, x.size(0), 2))
    mms = [build(rng, m, x) for x in mos]
    r = m.MEDFileUMesh.Aggregate(mms)
    # cells: sorted by type, then by mesh; nodes: one after another
    off = np.cumsum([0] + [len(x.coords) for x in mos])
    w = Model()
    w.name, w.infos = "agg", mos[0].infos
    w.coords = np.vstack([x.coords for x in mos])
    tab = []
    for k, x in enumerate(mos):
        mp = {i: int(i + off[k]) for i in range(len(x.coords))}
        for i, c in enumerate(x.lev[0].map_nodes(mp)):
            tab.append((RANK[c[0]], k, i, c))
    tab.sort(key=lambda z: z[:3])
    w.lev[0] = M.PM(w.coords, [z[3] for z in tab], mos[0].lev[0].mdim)
    pos = {z[1:3]: i for i, z in enumerate(tab)}
    for k, x in enumerate(mos):
        for (lv, n), s in x.grp.items():
            w.grp.setdefault((lv, n), set()).update((int(i + off[k]) if lv == 1 else pos[k, i]) for i in s)
    check(rng, mon, m, r, w, "Aggregate", time=False, names=False)


def t_structured(rng, mon, m):
    """Cartesian and curvilinear grids with groups."""
    if rng.random() < .5:
        c, ax = M.cmesh(rng, m)
        mm = m.MEDFileCMesh()
    else:
        c, ax, _ = M.curvi(rng, m)
        mm = m.MEDFileCurveLinearMesh()
    name, descr = rng.choice(["g", "a grid"]), rng.choice(["", "some words"])
    c.setName(name)
    c.setDescription(descr)
    c.setTime(rng.choice([0., 1.5]), -1, -1)
    d = c.getSpaceDimension()
    if type(c).__name__ == "MEDCouplingCMesh":
        for i in range(d):
            c.getCoordsAt(i).setInfoOnComponent(0, "ax%d [m]" % i)
    else:
        c.getCoords().setInfoOnComponents(["ax%d [m]" % i for i in range(d)])
    mm.setMesh(c)
    mm.setName(name)
    nc, nn = c.getNumberOfCells(), c.getNumberOfNodes()
    grp = {}
    for lv, n in ((0, nc), (1, nn)):
        g = {}
        for k in range(rng.randint(0, 3)):
            g["g%d_%d" % (k, lv)] = sorted(G.subset(rng, n, rng.randint(1, n)))
        if g:
            mm.setGroupsAtLevel(lv, [nm(m, lv, s, x) for x, s in g.items()])
        for x, s in g.items():
            grp[lv, x] = s
    num = {}
    for lv, n in ((0, nc), (1, nn)):
        if rng.random() < .4:
            num[lv] = rng.sample(range(1, 3 * n + 1), n)
            mm.setRenumFieldArr(lv, G.ids(m, num[lv]))
    fn = scratch("s.med")
    how = rng.randint(0, 3)
    mm.write(fn, 2)
    T = type(mm)
    r = [lambda: m.MEDFileMesh.New(fn), lambda: T(fn, name, c.getTime()[1], c.getTime()[2]),
         lambda: T(mm.serialize()), lambda: mm.deepCopy()][how]()
    os.unlink(fn)
    k = "med-grid:"
    mon.need(type(r).__name__ == T.__name__, k + "type", got=type(r).__name__)
    g = r.getMesh()
    why = []
    mon.ok(g.isEqual(c, 0.), k + "mesh", why=g.isEqualIfNotWhy(c, 0.)[1])
    mon.ok(bool((G.np2(g.getCoordinatesAndOwner()) == G.np2(c.getCoordinatesAndOwner())).all()), k + "coords")
    mon.ok(r.isEqual(mm, 0.)[0], k + "isEqual", why=r.isEqual(mm, 0.)[1])
    for (lv, x), s in grp.items():
        mon.eq(G.L(r.getGroupArr(lv, x)), s, k + "group", level=lv)
    mon.eq(sorted(r.getGroupsNames()), sorted(x for _, x in grp), k + "groups-names")
    for lv in (0, 1):
        a = r.getNumberFieldAtLevel(lv)
        mon.ok((a is None) == (lv not in num) and (a is None or G.L(a) == num[lv]), k + "numbers", level=lv)


def t_high(rng, mon, m):
    """The services of MEDLoader itself."""
    fn = scratch("h.med")
    mo = model(rng, m, groups=False)
    mo.num, mo.names = {}, {}
    us = []
    for lv in mo.levels():
        u = mo.lev[lv].um(m, mo.name)
        us.append(u)
    co = G.npd(m, mo.coords)
    co.setInfoOnComponents(mo.infos)
    for u in us:
        u.setCoords(co)
        u.setDescription(mo.descr)
        u.setTime(mo.time[2], mo.time[0], mo.time[1])
        u.setTimeUnit(mo.unit)
    k = rng.randint(0, 2)
    if k == 0 or len(us) == 1:
        us, levs = us[:1], mo.levels()[:1]
        (m.WriteUMesh if rng.random() < .5 else m.WriteMesh)(fn, us[0], True)
    else:
        levs = mo.levels()
        m.WriteUMeshes(fn, us, True)
    mon.eq(list(m.GetMeshNames(fn)), [mo.name], "MEDLoader:GetMeshNames")
    mon.eq([list(x) for x in m.GetMeshGroupsNames(fn, mo.name)], [], "MEDLoader:GetMeshGroupsNames")
    base = mo.lev[levs[0]].mdim
    for lv, u in zip(levs, us):
        r = m.ReadUMeshFromFile(fn, mo.name, mo.lev[lv].mdim - base)
        mon.ok(same_cells(M.read(r), mo.lev[lv]), "MEDLoader:ReadUMeshFromFile:cells", level=lv)
        u.setTimeUnit("")       # the time belongs to the MED mesh only
        u.setTime(*r.getTime())
        mon.ok(r.isEqual(u, 0.), "MEDLoader:ReadUMeshFromFile:isEqual", why=r.isEqualIfNotWhy(u, 0.)[1])
    mon.eq(list(m.ReadUMeshDimFromFile(fn, mo.name)) if isinstance(m.ReadUMeshDimFromFile(fn, mo.name), (list, tuple))
           else m.ReadUMeshDimFromFile(fn, mo.name), base, "MEDLoader:ReadUMeshDimFromFile")
    # a second mesh in the same file
    c, _ = M.cmesh(rng, m)
    c.setName("cart2")
    m.WriteMesh(fn, c, False)
    mon.eq(sorted(m.GetMeshNames(fn)), sorted([mo.name, "cart2"]), "MEDLoader:GetMeshNames-two")
    mon.ok(m.ReadMeshFromFile(fn, "cart2").isEqual(c, 0.), "MEDLoader:ReadMeshFromFile-grid")
    r = m.ReadUMeshFromFile(fn, mo.name)
    mon.ok(same_cells(M.read(r), mo.lev[levs[0]]), "MEDLoader:append-kept-the-first")
    os.unlink(fn)
    # groups
    mo = model(rng, m)
    for lv in mo.levels():
        mo.num.pop(lv, None)      # else the cells are given in the order of their numbers
    mm = build(rng, m, mo)
    mm.write(fn, 2)
    mon.eq(sorted(m.GetMeshGroupsNames(fn, mo.name)), sorted(set(n for _, n in mo.grp)), "MEDLoader:groups-names")
    fams = sorted(m.GetMeshFamiliesNames(fn, mo.name))
    mon.eq(fams, sorted(m.MEDFileMesh.New(fn).getFamiliesNames()), "MEDLoader:families-names")
    for lv in mo.levels():
        g = [n for (l, n), s in mo.grp.items() if l == lv]
        if not g:
            continue
        g = rng.sample(g, rng.randint(1, len(g)))
        s = sorted(set().union(*[mo.grp[lv, n] for n in g]))
        r = m.ReadUMeshFromGroups(fn, mo.name, lv - mo.levels()[0] if False else lv, g)
        mon.ok(same_cells(M.read(r), M.PM(mo.coords, [mo.lev[lv].cells[i] for i in s], mo.lev[lv].mdim)),
               "MEDLoader:ReadUMeshFromGroups", level=lv)
        for n in g:
            f = m.GetMeshFamiliesNamesOnGroup(fn, mo.name, n)
            r = m.ReadUMeshFromFamilies(fn, mo.name, lv, list(f))
            s = sorted(mo.grp[lv, n])
            mon.ok(same_cells(M.read(r), M.PM(mo.coords, [mo.lev[lv].cells[i] for i in s], mo.lev[lv].mdim)),
                   "MEDLoader:ReadUMeshFromFamilies", level=lv)
    os.unlink(fn)


def t_append(rng, mon, m):
    """Several meshes and time steps in one file, modes of writing."""
    fn = scratch("a.med")
    mos = []
    for i in range(rng.randint(2, 3)):
        mo = model(rng, m)
        mo.name = "mesh%d" % i
        mos.append((mo, build(rng, m, mo)))
    for i, (mo, mm) in enumerate(mos):
        mm.write(fn, 2 if i == 0 else rng.choice([0, 1]))
    mon.eq(sorted(m.GetMeshNames(fn)), sorted(x.name for x, _ in mos), "med-mesh:append:names")
    for mo, mm in mos:
        check(rng, mon, m, m.MEDFileMesh.New(fn, mo.name), mo, "append")
    ms = m.MEDFileMeshes(fn)
    mon.eq(ms.getNumberOfMeshes(), len(mos), "med-mesh:append:number")
    for mo, mm in mos:
        check(rng, mon, m, ms.getMeshWithName(mo.name), mo, "meshes-of-file")
    # a mesh is written again over itself only in the modes which allow it
    mo, mm = mos[0]
    mm.write(fn, 0)
    check(rng, mon, m, m.MEDFileMesh.New(fn, mo.name), mo, "rewritten")
    mon.raises(lambda: m.MEDFileMesh.New(fn, "not a mesh"), "med-mesh:unknown-name-accepted")
    mon.raises(lambda: m.MEDFileMesh.New(fn + ".none"), "med-mesh:missing-file-accepted")
    with open(fn, "wb") as f:
        f.write(bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 3000]))))
    mon.raises(lambda: m.MEDFileMesh.New(fn), "med-mesh:garbage-accepted")
    os.unlink(fn)


def t_convert(rng, mon, m):
    """Changes of the kind of cells keep the groups of cells of the level."""
    for _ in range(30):
        mo = model(rng, m, quad=False)
        for lv in list(mo.lev):
            if mo.lev[lv].mdim == 0:
                del mo.lev[lv]
                mo.num.pop(lv, None), mo.names.pop(lv, None)
                for k in [k for k in mo.grp if k[0] == lv]:
                    del mo.grp[k]
        if all(t not in (M.POLYGON, M.POLYHED, M.HEXGP12) for lv in mo.levels() for t, _ in mo.lev[lv].cells):
            break
    else:
        raise Skip()
    mm = build(rng, m, mo)
    q = mm.linearToQuadratic(0, 0.)
    for lv in q.getNonEmptyLevels():
        r = M.read(q[lv])
        mon.eq([t for t, _ in r.cells], [M.QUADRATIC[t] for t, _ in mo.lev[lv].cells], "med-mesh:linearToQuadratic:types")
        mon.ok(all(r.linear(i)[1] == mo.lev[lv].cells[i][1] for i in range(len(r.cells))),
               "med-mesh:linearToQuadratic:corners")
    for (lv, n), s in mo.grp.items():
        if lv != 1 and lv in q.getNonEmptyLevels():
            mon.eq(G.L(q.getGroupArr(lv, n)), sorted(s), "med-mesh:linearToQuadratic:group", level=lv)
    b = q.quadraticToLinear(0.)
    for lv in b.getNonEmptyLevels():
        r = M.read(b[lv])
        mon.eq([t for t, _ in r.cells], [t for t, _ in mo.lev[lv].cells], "med-mesh:quadraticToLinear:types")
        if len(r.cells) == mo.size(lv):
            mon.ok(all(np.array_equal(r.coords[r.flat(i)], mo.coords[mo.lev[lv].flat(i)]) for i in range(len(r.cells))),
                   "med-mesh:quadraticToLinear:coords")
    for (lv, n), s in mo.grp.items():
        if lv != 1 and lv in b.getNonEmptyLevels():
            mon.eq(G.L(b.getGroupArr(lv, n)), sorted(s), "med-mesh:quadraticToLinear:group", level=lv)


OPS = [("round-trip", t_roundtrip), ("groups", t_groups), ("extract", t_extract), ("zipCoords", t_zipcoords),
       ("LoadPartOf", t_partload), ("Aggregate", t_aggregate), ("structured", t_structured), ("high-level", t_high),
       ("append", t_append), ("convert", t_convert)]
FAMILIES = [G.table("med-meshes", OPS, 80, 5)]
