"""C18: packed, partial, matrix and character containers.

A model in plain Python (lists of lists, sets, numpy matrices, strings) goes through a random history of the operations
of MEDCouplingSkyLineArray, PartDefinition, DenseMatrix, DataArrayAsciiChar / DataArrayByte, the quantity kinds and the
multi-fields, next to the real object. After every step the whole content of the object is compared with the model; an
id out of range must be refused and leave the object as it was.
"""
import pickle

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("packed arrays, part definitions, dense matrices, character arrays and multi-fields hold exactly the content "
        "which their history of operations defines, and refuse ids out of range without any change")
ASSUMPTIONS = ["deleteSimplePack may refuse to delete an empty pack (the object must not change)",
               "replaceSimplePacks gives every pack as a sorted set"]


# ------------------------------------------------------------------------------------------------ packed arrays
def flat(packs):
    ind, val = [0], []
    for p in packs:
        val += p
        ind.append(len(val))
    return ind, val


def pack(rng, k=None):
    k = rng.choice([0, 1, 1, 2, 3, 5]) if k is None else k
    return [rng.randint(-3, 12) for _ in range(k)]


def read2(s):
    i, v = G.L(s.getIndexArray()), G.L(s.getValuesArray())
    return [v[a:b] for a, b in zip(i, i[1:])], i[0] == 0 and i[-1] == len(v)


def same2(mon, s, packs, key):
    got, tight = read2(s)
    mon.eq(got, packs, key)
    mon.ok(tight, key + ":bounds", index=G.L(s.getIndexArray()), nb=s.getLength())
    mon.eq((s.getNumberOf(), s.getLength()), (len(packs), sum(map(len, packs))), key + ":counts")


def make2(rng, m, packs):
    i, v = flat(packs)
    k = rng.randint(0, 2)
    if k == 0:
        return m.MEDCouplingSkyLineArray(G.ids(m, i), G.ids(m, v))
    s = m.MEDCouplingSkyLineArray()
    if k == 1:
        s.set(G.ids(m, i), G.ids(m, v))
    else:
        s.set3(G.ids(m, [0, len(packs)]), G.ids(m, i), G.ids(m, v))
    return s


def outside(rng, n):
    return rng.choice([-1, n, n, n + 1, n + 7, -n - 2])


def t_sky2(rng, mon, m):
    packs = [pack(rng) for _ in range(rng.randint(1, 9))]
    s = make2(rng, m, packs)
    same2(mon, s, packs, "skyline:build")
    for _ in range(rng.randint(1, 10)):
        n = len(packs)
        op = rng.randint(0, 9)
        keep = s.deepCopy()
        old = [list(p) for p in packs]
        if op == 0 and n:
            i = rng.randrange(n)
            mon.eq(list(s.getSimplePackSafe(i)), packs[i], "skyline:getSimplePackSafe")
        elif op == 1 and n:
            i, p = rng.randrange(n), pack(rng)
            s.replaceSimplePack(i, p)
            packs[i] = p
        elif op == 2 and n > 1:
            i = rng.randrange(n)
            try:
                s.deleteSimplePack(i)
                del packs[i]
            except m.InterpKernelException as e:
                mon.ok(not packs[i], "skyline:deleteSimplePack:refused", what=str(e), pack=packs[i])
        elif op == 3 and n > 1:
            d = rng.sample(range(n), rng.randint(0, n - 1))
            if d and rng.random() < 0.3:
                d.append(d[0])
            s.deleteSimplePacks(G.ids(m, d))
            packs = [p for i, p in enumerate(packs) if i not in d]
        elif op == 4 and n:
            d = rng.sample(range(n), rng.randint(1, n))
            new = [pack(rng) for _ in d]
            s.replaceSimplePacks(G.ids(m, d), [G.ids(m, p) for p in new])
            for i, p in zip(d, new):
                packs[i] = p
            packs = [sorted(set(p)) for p in packs]
        elif op == 5:
            t = rng.randint(-4, 13)
            a, b = s.thresholdPerPack(t)
            same2(mon, a, [[x for x in p if x < t] for p in packs], "skyline:thresholdPerPack:left")
            same2(mon, b, [[x for x in p if x >= t] for p in packs], "skyline:thresholdPerPack:right")
            if rng.random() < 0.3:
                c = m.MEDCouplingSkyLineArray.AggregatePacks([a, b])
                same2(mon, c, [[x for x in p if x < t] + [x for x in p if x >= t] for p in packs],
                      "skyline:AggregatePacks:parts")
        elif op == 6:
            same2(mon, s.uniqueNotSortedByPack(), [sorted(set(p)) for p in packs], "skyline:uniqueNotSortedByPack")
        elif op == 7 and n:
            cut = [0] + sorted(rng.randint(0, n) for _ in range(rng.randint(0, 3))) + [n]
            g = s.groupPacks(G.ids(m, cut))
            same2(mon, g, [sum(packs[a:b], []) for a, b in zip(cut, cut[1:])], "skyline:groupPacks")
        elif op == 8:
            others = [[pack(rng) for _ in range(n)] for _ in range(rng.randint(0, 3))]
            sks = [s] + [make2(rng, m, o) for o in others]
            want = [packs[i] + sum((o[i] for o in others), []) for i in range(n)]
            same2(mon, m.MEDCouplingSkyLineArray.AggregatePacks(sks), want, "skyline:AggregatePacks")
            mon.raises(lambda: m.MEDCouplingSkyLineArray.AggregatePacks([s, make2(rng, m, packs + [[1]])]),
                       "skyline:AggregatePacks:refused")
        else:
            i = outside(rng, n)
            mon.raises(lambda: s.getSimplePackSafe(i), "skyline:getSimplePackSafe:range")
            mon.raises(lambda: s.replaceSimplePack(i, [1, 2]), "skyline:replaceSimplePack:range")
            mon.raises(lambda: s.deleteSimplePack(i), "skyline:deleteSimplePack:range")
            mon.raises(lambda: s.deleteSimplePacks(G.ids(m, [0, i] if n else [i])), "skyline:deleteSimplePacks:range")
            mon.raises(lambda: s.replaceSimplePacks(G.ids(m, [i]), [G.ids(m, [3])]), "skyline:replaceSimplePacks:range")
            if n:
                mon.raises(lambda: s.replaceSimplePacks(G.ids(m, [0]), []), "skyline:replaceSimplePacks:size")
        same2(mon, s, packs, "skyline:state")
        same2(mon, keep, old, "skyline:deepCopy-independent")
        mon.note("skyline steps")
    str(s), s.simpleRepr() if hasattr(s, "simpleRepr") else None


def t_sky3(rng, mon, m):
    sup = [[pack(rng, rng.choice([1, 2, 3, 4])) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 5))]
    s = m.MEDCouplingSkyLineArray()
    i, v = flat(sum(sup, []))
    s.set3(G.ids(m, flat(sup)[0]), G.ids(m, i), G.ids(m, v))

    def check(o, want, key):
        got, tight = read2(o)
        si = G.L(o.getSuperIndexArray())
        mon.eq([got[a:b] for a, b in zip(si, si[1:])], want, key)
        mon.ok(tight and si[0] == 0 and si[-1] == len(got), key + ":bounds", si=si, i=G.L(o.getIndexArray()))
        mon.eq(o.getSuperNumberOf(), len(want), key + ":getSuperNumberOf")

    check(s, sup, "skyline3:build")
    for _ in range(rng.randint(1, 9)):
        keep, old = s.deepCopy(), [[list(p) for p in q] for q in sup]
        n = len(sup)
        a = rng.randrange(n)
        op = rng.randint(0, 5)
        if op == 0:
            p = pack(rng)
            s.pushBackPack(a, p)
            sup[a].append(p)
        elif op == 1 and sup[a]:
            b = rng.randrange(len(sup[a]))
            p = pack(rng)
            s.replacePack(a, b, p)
            sup[a][b] = p
        elif op == 2 and sup[a] and sum(map(len, sup)) > 1:
            b = rng.randrange(len(sup[a]))
            s.deletePack(a, b)
            del sup[a][b]
        elif op == 3:
            which = [rng.randrange(n) for _ in range(rng.randint(1, 4))]
            c = [p for q in sup for p in q if p]
            p = list(rng.choice(c)) if c and rng.random() < 0.8 else pack(rng, 2)
            want = [next((j for j, x in enumerate(sup[w]) if x == p), -1) for w in which]
            mon.eq(list(s.findPackIds(which, p)), want, "skyline3:findPackIds", p=p, which=which)
        elif op == 4:
            q = sum(sup, [])
            if q:
                b = rng.randrange(len(q))
                p = pack(rng)
                s.replaceSimplePack(b, p)
                for x in sup:
                    if b < len(x):
                        x[b] = p
                        break
                    b -= len(x)
        else:
            o = outside(rng, n)
            mon.raises(lambda: s.pushBackPack(o, [1]), "skyline3:pushBackPack:range", i=o, n=n)
            mon.raises(lambda: s.replacePack(o, 0, [1]), "skyline3:replacePack:range", i=o, n=n)
            mon.raises(lambda: s.deletePack(o, 0), "skyline3:deletePack:range", i=o, n=n)
            mon.raises(lambda: s.findPackIds([o], [1]), "skyline3:findPackIds:range", i=o, n=n)
            b = outside(rng, len(sup[a]))
            mon.raises(lambda: s.replacePack(a, b, [1]), "skyline3:replacePack:range2", a=a, b=b)
            mon.raises(lambda: s.deletePack(a, b), "skyline3:deletePack:range2", a=a, b=b)
        check(s, sup, "skyline3:state")
        check(keep, old, "skyline3:deepCopy-independent")
        mon.note("skyline3 steps")
    str(s)
    # polyhedra
    if all(q and all(p for p in q) for q in sup):
        sup = [[[abs(x) for x in p] for p in q] for q in sup]
        i, v = flat(sum(sup, []))
        s.set3(G.ids(m, flat(sup)[0]), G.ids(m, i), G.ids(m, v))
        c, ci = s.convertToPolyhedronConn()
        want, wi = [], [0]
        for q in sup:
            want.append(M.POLYHED)
            for k, p in enumerate(q):
                want += ([-1] if k else []) + p
            wi.append(len(want))
        mon.eq((G.L(c), G.L(ci)), (want, wi), "skyline3:convertToPolyhedronConn")
        check(m.MEDCouplingSkyLineArray.BuildFromPolyhedronConn(G.ids(m, want), G.ids(m, wi)), sup,
              "skyline3:BuildFromPolyhedronConn")
    two = make2(rng, m, [[1, 2], [3]])
    if G.L(two.getSuperIndexArray()) if two.getSuperIndexArray().isAllocated() else False:
        return
    mon.raises(lambda: two.pushBackPack(0, [1]), "skyline3:pushBackPack:two-levels")
    mon.raises(lambda: two.findPackIds([0], [1]), "skyline3:findPackIds:two-levels")
    mon.raises(lambda: two.convertToPolyhedronConn(), "skyline3:convertToPolyhedronConn:two-levels")


# ------------------------------------------------------------------------------------------------ part definitions
def a_part(rng, m, hi=40, n=None):
    """(object, list of ids)"""
    if rng.random() < 0.5:
        st = rng.choice([1, 1, 2, 3, -1, -2])
        a = rng.randint(0, hi - 1)
        b = rng.randint(a, hi) if st > 0 else rng.randint(0, a)
        v = list(range(a, b, st))
        return m.SlicePartDefinition(a, b, st), v
    k = rng.randint(0, 8)
    v = rng.choice([sorted(rng.sample(range(hi), min(k, hi))), [rng.randrange(hi) for _ in range(k)], list(range(3, 3 + k)),
                    list(range(3, 3 + 2 * k, 2)), list(range(20, 20 - k, -1))])
    return m.DataArrayPartDefinition(G.ids(m, v)), v


def part_is(mon, p, v, key):
    mon.eq(G.L(p.toDAI()), v, key)
    mon.eq(p.getNumberOfElems(), len(v), key + ":getNumberOfElems")
    str(p), repr(p), p.getRepr()


def t_part(rng, mon, m):
    p, v = a_part(rng, m)
    part_is(mon, p, v, "part:toDAI")
    q, w = a_part(rng, m)
    r = p + q
    mon.eq(sorted(G.L(r.toDAI())), sorted(v + w), "part:add", v=v, w=w)
    mon.eq(r.getNumberOfElems(), len(v) + len(w), "part:add:getNumberOfElems")
    part_is(mon, p.tryToSimplify(), v, "part:tryToSimplify")
    # composition: the elements of q at the positions p
    n = rng.randint(1, 12)
    p2, v2 = a_part(rng, m, n)
    if rng.random() < 0.5:
        a, st = rng.randint(0, 20), rng.choice([1, 1, 2, 5, -1])
        a = a + n if st < 0 else a
        q2, w2 = m.SlicePartDefinition(a, a + st * n, st), [a + st * i for i in range(n)]
    else:
        w2 = [rng.randrange(50) for _ in range(n)]
        q2 = m.DataArrayPartDefinition(G.ids(m, w2))
    if all(x < n for x in v2):
        part_is(mon, p2.composeWith(q2), [w2[i] for i in v2], "part:composeWith")
    else:
        mon.raises(lambda: p2.composeWith(q2), "part:composeWith:range", v=v2, w=w2)
    # copies
    c = p.deepCopy()
    mon.ok(p.isEqual(c)[0] and c.isEqual(p)[0], "part:deepCopy:equal")
    part_is(mon, c, v, "part:deepCopy")
    same = type(p) is type(q) and v == w
    if v != w:
        mon.ok(not p.isEqual(q)[0] and p.isEqual(q)[1], "part:isEqual:differ", v=v, w=w)
    if v and isinstance(p, m.DataArrayPartDefinition):
        c.toDAI().setIJ(rng.randrange(len(v)), 0, 777)
        part_is(mon, p, v, "part:deepCopy-independent")
        mon.ok(not p.isEqual(c)[0], "part:isEqual:differ-copy")
    if isinstance(p, m.SlicePartDefinition):
        mon.eq(p.getEffectiveStop(), p.getSlice().start + p.getSlice().step * len(v) if hasattr(p.getSlice(), "start")
               else p.getEffectiveStop(), "part:getEffectiveStop")
    mon.raises(lambda: m.DataArrayPartDefinition(m.DataArrayInt()), "part:unallocated")
    mon.raises(lambda: m.DataArrayPartDefinition(G.da(m.DataArrayInt, [1, 2, 3, 4], 2)), "part:two-components")


# ------------------------------------------------------------------------------------------------ dense matrices
def mat(m, a):
    return m.DenseMatrix(G.dbl(m, a.ravel().tolist()), a.shape[0], a.shape[1])


def mread(d):
    return np.array(d.getData().getValues(), dtype=float).reshape(d.getNumberOfRows(), d.getNumberOfCols())


def t_matrix(rng, mon, m):
    def rnd(r, c):
        return np.array([rng.choice([0., 1., -1., rng.uniform(-5, 5)]) for _ in range(r * c)]).reshape(r, c)

    r, c, k = rng.randint(1, 7), rng.randint(1, 7), rng.randint(1, 6)
    a, b, x = rnd(r, c), rnd(c, k), rnd(r, c)
    da, db, dx = mat(m, a), mat(m, b), mat(m, x)
    v = rnd(c, 1)
    dv = G.dbl(m, v.ravel().tolist())

    def pure(fn, want, key):
        got = mread(fn())
        mon.close(got, want, "matrix:" + key, tol=1e-12)
        mon.ok((mread(da) == a).all() and (mread(db) == b).all() and (mread(dx) == x).all(), "matrix:%s:input" % key)

    pure(lambda: da + dx, a + x, "add")
    pure(lambda: da - dx, a - x, "sub")
    pure(lambda: da * db, a.dot(b), "mul")
    pure(lambda: da * dv, a.dot(v), "mul-vector")
    mon.close(da.matVecMult(dv).getValues(), a.dot(v).ravel(), "matrix:matVecMult", tol=1e-12)
    mon.close(m.DenseMatrix.MatVecMult(da, dv).getValues(), a.dot(v).ravel(), "matrix:MatVecMult", tol=1e-12)
    t = da.deepCopy()
    t.transpose()
    mon.ok(t.getNumberOfRows() == c and t.getNumberOfCols() == r and (mread(t) == a.T).all(), "matrix:transpose", got=mread(t))
    mon.ok((mread(da) == a).all(), "matrix:deepCopy-independent")
    s = da.shallowCpy()
    mon.ok(s.isEqual(da, 0.) and (mread(s) == a).all(), "matrix:shallowCpy")
    i, j = rng.randrange(r), rng.randrange(c)
    s.getData().setIJ(i * c + j, 0, 99.)
    mon.eq(mread(da)[i, j], 99., "matrix:shallowCpy:shares")
    da.getData().setIJ(i * c + j, 0, float(a[i, j]))
    e = da.deepCopy()
    mon.ok(e.isEqual(da, 0.) and e.isEqualIfNotWhy(da, 0.)[0], "matrix:isEqual")
    d = rng.choice([1e-3, 1e-6])
    e.getData().setIJ(i * c + j, 0, float(a[i, j]) + d)
    mon.ok(not e.isEqual(da, d / 10) and not da.isEqual(e, d / 10) and e.isEqual(da, d * 10), "matrix:isEqual:eps")
    mon.ok(e.isEqualIfNotWhy(da, d / 10)[1] != "", "matrix:isEqualIfNotWhy:reason")
    if r != c:
        f = mat(m, a)
        f.reShape(c, r)
        mon.ok((mread(f) == a.reshape(c, r)).all() and not f.isEqual(da, 1e9), "matrix:reShape")
        mon.raises(lambda: da + f, "matrix:add:sizes")
        mon.raises(lambda: da - f, "matrix:sub:sizes")
        mon.raises(lambda: da * dx, "matrix:mul:sizes")
        mon.raises(lambda: da.matVecMult(G.dbl(m, [1.] * r)), "matrix:matVecMult:sizes")
    mon.raises(lambda: da.reShape(r + 1, c), "matrix:reShape:sizes")
    mon.raises(lambda: da.reShape(-r, -c), "matrix:reShape:negative")
    g = mat(m, a)
    g.reBuild(G.dbl(m, b.ravel().tolist()), c, k)
    mon.ok((mread(g) == b).all() and (g.getNumberOfRows(), g.getNumberOfCols(), g.getNbOfElems()) == (c, k, c * k),
           "matrix:reBuild")
    g = mat(m, a)
    g.reBuild(G.dbl(m, x.ravel().tolist()))
    mon.ok((mread(g) == x).all(), "matrix:reBuild:same-shape")
    mon.raises(lambda: g.reBuild(G.dbl(m, [1.] * (r * c + 1))), "matrix:reBuild:sizes")
    mon.raises(lambda: m.DenseMatrix(G.dbl(m, [1.] * (r * c + 1)), r, c), "matrix:new:sizes")
    h = mat(m, a)
    h += dx
    mon.close(mread(h), a + x, "matrix:iadd", tol=1e-13)
    h -= dx
    mon.close(mread(h), a, "matrix:isub", tol=1e-12)
    if hasattr(da, "toNumPyMatrix"):
        got = np.array(da.toNumPyMatrix())
        mon.ok(got.size == a.size and (got.reshape(a.shape) == a).all(), "matrix:toNumPyMatrix", got=got, want=a)


# ------------------------------------------------------------------------------------------------ characters
def t_chars(rng, mon, m):
    asc = rng.random() < 0.6
    cls = m.DataArrayAsciiChar if asc else m.DataArrayByte
    n, nc = rng.randint(1, 12), rng.choice([1, 1, 2, 3])
    lo, hi = (97, 101) if asc else (-4, 4)
    v = [[rng.randint(lo, hi) for _ in range(nc)] for _ in range(n)]

    def one(x):
        return chr(x) if asc else x

    def many(r):
        return "".join(map(chr, r)) if asc else tuple(r)

    def build(rows, w=nc):
        a = cls.New()
        a.alloc(len(rows), w)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a.setIJ(i, j, one(x))
        return a

    def read(a):
        return [[(ord(a.getIJ(i, j)) if isinstance(a.getIJ(i, j), str) else a.getIJ(i, j))
                 for j in range(a.getNumberOfComponents())] for i in range(a.getNumberOfTuples())]

    a = build(v)
    mon.eq(read(a), v, "char:build")
    mon.eq((a.getNumberOfTuples(), a.getNumberOfComponents(), a.getNbOfElems()), (n, nc, n * nc), "char:counts")
    i, j = rng.randrange(n), rng.randrange(nc)
    t = a.getTuple(i)
    mon.eq(t if asc else tuple(t), many(v[i]), "char:getTuple")
    mon.raises(lambda: a.getIJSafe(n, 0), "char:getIJSafe:range")
    mon.raises(lambda: a.getIJSafe(0, nc), "char:getIJSafe:range2")
    b = a.deepCopy()
    mon.ok(a.isEqual(b) and a.isEqualIfNotWhy(b)[0] and a.isEqualWithoutConsideringStr(b), "char:deepCopy")
    b.setIJ(i, j, one(v[i][j] + 1))
    mon.ok(not a.isEqual(b) and not b.isEqual(a) and not a.isEqualWithoutConsideringStr(b) and a.isEqualIfNotWhy(b)[1],
           "char:isEqual:differ")
    mon.eq(read(a), v, "char:deepCopy-independent")
    b.setIJ(i, j, one(v[i][j]))
    b.setName("z")
    mon.ok(not a.isEqual(b) and a.isEqualWithoutConsideringStr(b), "char:isEqual:name")
    p = G.perm(rng, n)
    b = a.deepCopy()
    b.renumberInPlace(G.ids(m, p)) if hasattr(b, "renumberInPlace") else None
    new = [None] * n
    for k in range(n):
        new[p[k]] = v[k]
    if hasattr(b, "renumberInPlace"):
        mon.eq(read(b), new, "char:renumberInPlace")
    mon.eq(read(a.renumber(G.ids(m, p))), new, "char:renumber")
    mon.eq(read(a.renumberR(G.ids(m, p))), [v[k] for k in p], "char:renumberR")
    s = [rng.randrange(n) for _ in range(rng.randint(0, 8))]
    mon.eq(read(a.selectByTupleId(G.ids(m, s))), [v[k] for k in s], "char:selectByTupleId")
    mon.eq(read(a.selectByTupleIdSafe(G.ids(m, s))), [v[k] for k in s], "char:selectByTupleIdSafe")
    mon.raises(lambda: a.selectByTupleIdSafe(G.ids(m, s + [n])), "char:selectByTupleIdSafe:range")
    x0, x1, st = rng.randint(0, n), rng.randint(0, n), rng.choice([1, 2, 3])
    if x0 <= x1:
        mon.eq(read(a.selectByTupleIdSafeSlice(x0, x1, st)), v[x0:x1:st], "char:selectByTupleIdSafeSlice")
        mon.eq(read(a.subArray(x0, x1)), v[x0:x1], "char:subArray")
    comp = [rng.randrange(nc) for _ in range(rng.randint(1, 4))]
    mon.eq(read(a.keepSelectedComponents(comp)), [[r[c] for c in comp] for r in v], "char:keepSelectedComponents")
    b = a.deepCopy()
    b.reverse()
    mon.eq(read(b), v[::-1], "char:reverse")
    o = build([[rng.randint(lo, hi) for _ in range(nc)] for _ in range(rng.randint(1, 4))])
    agg = cls.Aggregate([a, o]) if hasattr(cls, "Aggregate") else m.DataArray.Aggregate([a, o])
    mon.eq(read(agg), v + read(o), "char:Aggregate")
    o = build([[rng.randint(lo, hi) for _ in range(2)] for _ in range(n)], 2)
    mon.eq(read(cls.Meld([a, o])), [r + q for r, q in zip(v, read(o))], "char:Meld")
    b = a.deepCopy()
    b.meldWith(o)
    mon.eq(read(b), [r + q for r, q in zip(v, read(o))], "char:meldWith")
    mon.raises(lambda: cls.Meld([a, build([[lo]] * (n + 1), 1)]), "char:Meld:sizes")
    mon.eq([list(r) for r in np.array(G.L(a.convertToIntArr())).reshape(n, nc)], v, "char:convertToIntArr")
    w = read(a)
    mon.ok(a.isUniform(one(w[0][0])) == all(x == w[0][0] for r in w for x in r) if nc == 1 else True, "char:isUniform")
    if asc:
        tt = a.toStrList()
        mon.eq([x.rstrip(" ") for x in tt], [many(r) for r in v], "char:toStrList")
    q = rng.choice(v) if rng.random() < 0.7 else [rng.randint(lo, hi) for _ in range(nc)]
    want = v.index(q) if q in v else -1
    arg = many(q) if asc else list(q)
    mon.eq(a.findIdFirstEqualTuple(arg), want, "char:findIdFirstEqualTuple", q=q)
    mon.eq(bool(a.presenceOfTuple(arg)), want >= 0, "char:presenceOfTuple")
    if nc == 1:
        f = [r[0] for r in v]
        x = rng.choice(f) if rng.random() < 0.8 else lo
        mon.eq(G.L(a.findIdsEqual(one(x))), [k for k in range(n) if f[k] == x], "char:findIdsEqual")
        mon.eq(G.L(a.findIdsNotEqual(one(x))), [k for k in range(n) if f[k] != x], "char:findIdsNotEqual")
        mon.eq(a.findIdFirstEqual(one(x)), f.index(x) if x in f else -1, "char:findIdFirstEqual")
        mon.eq(bool(a.presenceOfValue(one(x))), x in f, "char:presenceOfValue")
        if asc:
            mon.eq((ord(a.front()), ord(a.back())), (f[0], f[-1]), "char:front-back")
        y = x + rng.randint(0, 3)
        r = a.findIdsInRange(one(x), one(y))
        mon.eq(G.L(r), [k for k in range(n) if x <= f[k] < y], "char:findIdsInRange")
        mx, at = a.getMaxValue()
        mon.eq(((ord(mx) if asc else mx), at), (max(f), f.index(max(f))), "char:getMaxValue")
        mx, at = a.getMinValue()
        mon.eq(((ord(mx) if asc else mx), at), (min(f), f.index(min(f))), "char:getMinValue")
        b = a.deepCopy()
        for up in (True, False):
            b.sort(up)
            mon.eq([r[0] for r in read(b)], sorted(f, reverse=not up), "char:sort")
        k0 = rng.randrange(n)
        seq = f[k0:k0 + rng.randint(1, 3)]
        got = a.findIdSequence("".join(map(chr, seq)) if asc else seq)
        ref = next((k for k in range(n - len(seq) + 1) if f[k:k + len(seq)] == seq), -1)
        mon.eq(got, ref, "char:findIdSequence", seq=seq, f=f)
        b = a.deepCopy()
        b.pushBackSilent(one(lo))
        mon.eq([r[0] for r in read(b)], f + [lo], "char:pushBackSilent")
        z = b.popBackSilent()
        mon.eq([r[0] for r in read(b)], f, "char:popBackSilent")
    b = a.deepCopy()
    b.fillWithValue(one(hi))
    mon.eq(read(b), [[hi] * nc] * n, "char:fillWithValue")
    b = a.deepCopy()
    b.rearrange(1)
    mon.eq([r[0] for r in read(b)], [x for r in v for x in r], "char:rearrange")
    if n > 1:
        k = rng.randint(1, n)
        old = sorted(rng.sample(range(n), k))
        src = build([[rng.randint(lo, hi) for _ in range(nc)] for _ in range(k)])
        dst = rng.sample(range(n), k)
        pairs = G.da(m.DataArrayInt, [x for y, z in zip(dst, range(k)) for x in (y, z)], 2)
        b = a.deepCopy()
        b.setPartOfValuesAdv(src, pairs)
        want = [list(r) for r in v]
        sr = read(src)
        for y, z in zip(dst, range(k)):
            want[y] = sr[z]
        mon.eq(read(b), want, "char:setPartOfValuesAdv")
    if asc:
        ws = ["".join(rng.choice("abcde fg") for _ in range(rng.randint(1, 6))).rstrip() or "a" for _ in range(rng.randint(1, 5))]
        fill = rng.choice([" ", "#"])
        z = m.DataArrayAsciiChar(ws, fill) if fill != " " or rng.random() < 0.5 else m.DataArrayAsciiChar(ws)
        mx = max(map(len, ws))
        mon.eq([many(r) for r in read(z)], [x + fill * (mx - len(x)) for x in ws], "char:from-strings")
    str(a), repr(a), a.reprZip(), a.repr()


# ------------------------------------------------------------------------------------------------ quantity kinds
def t_quantity(rng, mon, m):
    al = list(m.QuantityKindEnum.AllowedValues())
    i = rng.randrange(len(al))
    q = m.QuantityKindEnum(al[i])
    mon.eq((q.value(), m.QuantityKindEnum.MCIdOfValue(al[i])), (al[i], i), "quantity:enum")
    bad = al[i] + rng.choice(["x", " ", "_", "0"])
    if bad not in al:
        mon.raises(lambda: m.QuantityKindEnum(bad), "quantity:enum:unknown")
        mon.raises(lambda: m.QuantityKindEnum.MCIdOfValue(bad), "quantity:enum:MCIdOfValue")
    u = m.QuantityKindUser("".join(rng.choice("abc de%$_-\n\t0") for _ in range(rng.randint(0, 12))))
    n = m.QuantityKindUnDef()
    for o in (q, u, n):
        str(o), repr(o), o.repr(), o.getClassName()
        s = o.serialize()
        r = m.QuantityKindAbstract.Deserialize(s)
        mon.eq(r.serialize(), s, "quantity:serialize")
        mon.eq(r.getClassName(), o.getClassName(), "quantity:serialize:class")
        if o is not n and hasattr(r, "value"):
            mon.eq(r.value(), o.value(), "quantity:serialize:value")
    mon.ok(len({q.serialize(), u.serialize(), n.serialize()}) == 3, "quantity:serialize:distinct")
    for j, x in enumerate(al):
        mon.eq(m.QuantityKindEnum.MCIdOfValue(x), j, "quantity:enum:order")


# ------------------------------------------------------------------------------------------------ multi fields
def t_multi(rng, mon, m):
    pm = M.small2d(rng) if hasattr(M, "small2d") else None
    u = m.MEDCouplingCMesh("g")
    nx, ny = rng.randint(2, 5), rng.randint(2, 4)
    u.setCoords(G.dbl(m, [float(i) for i in range(nx)]), G.dbl(m, [float(i) * 2 for i in range(ny)]))
    u = u.buildUnstructured()
    u2 = u.deepCopy()
    fs = []
    for k in range(rng.randint(1, 5)):
        f = m.MEDCouplingFieldDouble(rng.choice([m.ON_CELLS, m.ON_NODES]), m.ONE_TIME)
        f.setName("f%d" % k)
        f.setTime(float(k) * 1.5, k, -1)
        f.setMesh(rng.choice([u, u2]))
        nt = f.getNumberOfTuplesExpected()
        f.setArray(G.dbl(m, [rng.uniform(-9, 9) for _ in range(2 * nt)], 2))
        fs.append(f)
    mf = m.MEDCouplingMultiFields(fs)
    mf.checkConsistencyLight()
    mon.eq(mf.getNumberOfFields(), len(fs), "multi:getNumberOfFields")
    got = mf.getFields()
    mon.eq([G.snap(x) for x in got], [G.snap(x) for x in fs], "multi:getFields")
    for k in range(len(fs)):
        mon.eq(G.snap(mf.getFieldAtPos(k)), G.snap(fs[k]), "multi:getFieldAtPos")
    for k in (-1, len(fs), len(fs) + 3):
        mon.raises(lambda: mf.getFieldAtPos(k), "multi:getFieldAtPos:range")
    c = mf.deepCopy()
    mon.ok(mf.isEqual(c, 0., 0.) and c.isEqual(mf, 0., 0.) and c.isEqualWithoutConsideringStr(mf, 0., 0.), "multi:deepCopy")
    k = rng.randrange(len(fs))
    a = c.getFieldAtPos(k).getArray()
    a.setIJ(0, 1, a.getIJ(0, 1) + 0.5)
    mon.ok(not mf.isEqual(c, 0., 1e-3) and not mf.isEqualWithoutConsideringStr(c, 0., 1e-3) and mf.isEqual(c, 0., 1.),
           "multi:isEqual:value")
    mon.eq([G.snap(x) for x in mf.getFields()], [G.snap(x) for x in fs], "multi:deepCopy-independent")
    c = mf.deepCopy()
    c.getFieldAtPos(k).setName("other")
    mon.ok(not mf.isEqual(c, 0., 0.) and mf.isEqualWithoutConsideringStr(c, 0., 0.), "multi:isEqual:name")
    if len(fs) > 1:
        d = m.MEDCouplingMultiFields(fs[:-1])
        mon.ok(not mf.isEqual(d, 1., 1.) and not d.isEqual(mf, 1., 1.), "multi:isEqual:number")
    ms = mf.getMeshes() if hasattr(mf, "getMeshes") else []
    mon.eq(len(ms), len(fs), "multi:getMeshes") if ms else None
    if hasattr(mf, "getDifferentMeshes"):
        dm, ref = mf.getDifferentMeshes()
        for f, r in zip(fs, ref):
            mon.ok(dm[r].getHiddenCppPointer() == f.getMesh().getHiddenCppPointer(), "multi:getDifferentMeshes")
        mon.eq(len(dm), len({f.getMesh().getHiddenCppPointer() for f in fs}), "multi:getDifferentMeshes:nb")
    if hasattr(mf, "getDifferentArrays"):
        dm, ref = mf.getDifferentArrays()
        mon.eq([[G.snap(dm[x]) for x in r] for r in ref], [[G.snap(f.getArray())] for f in fs], "multi:getDifferentArrays")
    str(mf), mf.simpleRepr(), mf.advancedRepr()


OPS = [("skyline", t_sky2), ("skyline3", t_sky3), ("part", t_part), ("matrix", t_matrix), ("char", t_chars),
       ("quantity", t_quantity), ("multi", t_multi)]
FAMILIES = [G.table("containers", OPS, 600, 8)]
