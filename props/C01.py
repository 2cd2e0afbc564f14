"""Integer (id) array algebra against sequence-level definitions."""
import collections
import itertools

from props import gen as G
from vt.engine import Family
from vt.worker import Stop

RULE = ("Each case takes one operation of the tables below and applies it to six freshly generated arrays (sizes 1 to "
        "360, both id widths where the API has both; empty arrays, repeated values, negative values, unsorted and "
        "sorted inputs); the result is compared with a sequence-level definition written in Python, and the inputs "
        "are compared with a snapshot taken before the call. A case is non-trivial when its inputs were built and the "
        "operation ran.")
ASSUMPTIONS = ["sequence-level reference definitions in props/C01.py", "values below 2**31"]


def cls(rng, m):
    return rng.choice([m.DataArrayInt64, m.DataArrayInt64, m.DataArrayInt32])


def vals(rng, n=None, lo=-20, hi=20):
    n = G.size(rng) if n is None else n
    k = rng.random()
    if k < 0.2:
        hi = lo + 3
    v = G.ints(rng, n, lo, hi)
    if k > 0.8:
        v.sort()
    return v


def rd(x):
    return list(x.getValues())


def ck(mon, name, got, want, **kw):
    mon.eq(rd(got) if hasattr(got, "getValues") else got, want, name, **kw)


# ---------------------------------------------------------------- permutations and renumbering
def t_invert_o2n(rng, mon, m):
    c = cls(rng, m)
    n = G.size(rng)
    p = G.perm(rng, n)
    a = G.da(c, p)
    inv = [0] * n
    for i, v in enumerate(p):
        inv[v] = i
    with G.Pure(mon, "invertArrayO2N2N2O", a):
        ck(mon, "invertArrayO2N2N2O", a.invertArrayO2N2N2O(n), inv)
        ck(mon, "invertArrayN2O2O2N", a.invertArrayN2O2O2N(n), inv)
    # a selection: n2o over a larger old space
    old = n + rng.randint(0, 6)
    sel = rng.sample(range(old), rng.randint(0, old))
    s = G.da(c, sel)
    want = [-1] * old
    for i, v in enumerate(sel):
        want[v] = i
    with G.Pure(mon, "invertArrayN2O2O2N", s):
        ck(mon, "invertArrayN2O2O2N:selection", s.invertArrayN2O2O2N(old), want)
    # an o2n with holes (-1 : dropped)
    o2n = [-1] * old
    for i, v in enumerate(sel):
        o2n[v] = i
    b = G.da(c, o2n)
    ck(mon, "invertArrayO2N2N2O:holes", b.invertArrayO2N2N2O(len(sel)), sel)


def t_invert_bis(rng, mon, m):
    c = cls(rng, m)
    k = rng.randint(1, 20)
    v = list(range(k)) + G.ints(rng, rng.randint(0, 30), 0, k - 1)
    rng.shuffle(v)
    a = G.da(c, v)
    ck(mon, "invertArrayO2N2N2OBis", a.invertArrayO2N2N2OBis(k), [v.index(i) for i in range(k)])
    last = [len(v) - 1 - v[::-1].index(i) for i in range(k)]
    ck(mon, "invertArrayO2N2N2O:last", a.invertArrayO2N2N2O(k), last)


def t_map(rng, mon, m):
    old = G.size(rng)
    sel = rng.sample(range(old), rng.randint(1, old))
    a = G.ids(m, sel)
    o2n = a.invertArrayN2O2O2NOptimized()
    q = [rng.choice(sel) for _ in range(rng.randint(1, 30))]
    b = G.ids(m, q)
    b.transformWithIndArr(o2n)
    ck(mon, "invertArrayN2O2O2NOptimized", b, [sel.index(x) for x in q])
    g = a.giveN2OOptimized()
    q = [rng.randrange(len(sel)) for _ in range(rng.randint(1, 30))]
    b = G.ids(m, q)
    b.transformWithIndArr(g)
    ck(mon, "giveN2OOptimized", b, [sel[x] for x in q])


def tuples(v, nc):
    return [tuple(v[i:i + nc]) for i in range(0, len(v), nc)]


def flat(t):
    return [x for y in t for x in y]


def t_renumber(rng, mon, m):
    c = cls(rng, m)
    n, nc = G.size(rng), rng.randint(1, 4)
    t = tuples(vals(rng, n * nc), nc)
    a = G.da(c, flat(t), nc)
    a.setInfoOnComponents(["c%d" % i for i in range(nc)])
    p = G.perm(rng, n)
    pa = G.ids(m, p)
    arg = pa if rng.random() < 0.5 else p
    with G.Pure(mon, "renumber", a, pa):
        r = a.renumber(arg)
        w = [None] * n
        for i in range(n):
            w[p[i]] = t[i]
        ck(mon, "renumber", r, flat(w))
        mon.eq(list(r.getInfoOnComponents()), list(a.getInfoOnComponents()), "renumber:info")
        ck(mon, "renumberR", a.renumberR(arg), flat([t[p[i]] for i in range(n)]))
    b = a.deepCopy()
    b.renumberInPlace(arg)
    ck(mon, "renumberInPlace", b, flat(w))
    b.renumberInPlaceR(arg)
    ck(mon, "renumberInPlaceR:inverse", b, flat(t))
    # reduce
    keep = sorted(rng.sample(range(n), rng.randint(1, n)))
    new = G.perm(rng, len(keep))
    o2n = [-1] * n
    for i, k in enumerate(keep):
        o2n[k] = new[i]
    w = [None] * len(keep)
    for i, k in enumerate(keep):
        w[new[i]] = t[k]
    ck(mon, "renumberAndReduce", a.renumberAndReduce(G.ids(m, o2n), len(keep)), flat(w))
    bad = list(p)
    if n > 1:
        bad[0] = bad[1]
        mon.raises(lambda: a.deepCopy().checkAndPreparePermutation() if nc > 1 else
                   G.da(c, bad).checkAndPreparePermutation(), "checkAndPreparePermutation:not-a-permutation")


def t_permutation_of_sort(rng, mon, m):
    c = cls(rng, m)
    v = rng.sample(range(-500, 500), rng.randint(1, 60))
    a = G.da(c, v)
    with G.Pure(mon, "checkAndPreparePermutation", a):
        s = sorted(v)
        ck(mon, "checkAndPreparePermutation", a.checkAndPreparePermutation(), [s.index(x) for x in v])
    w = [rng.randint(0, 6) for _ in range(rng.randint(1, 60))]
    b = G.da(c, w)
    with G.Pure(mon, "buildPermArrPerLevel", b):
        r = rd(b.buildPermArrPerLevel())
        order = sorted(range(len(w)), key=lambda i: (w[i], i))
        want = [0] * len(w)
        for new, i in enumerate(order):
            want[i] = new
        mon.eq(r, want, "buildPermArrPerLevel")
    # FindPermutationFromFirstToSecond
    p = v[:]
    rng.shuffle(p)
    x, y = G.da(c, v), G.da(c, p)
    with G.Pure(mon, "FindPermutationFromFirstToSecond", x, y):
        r = c.FindPermutationFromFirstToSecond(x, y)
        ck(mon, "FindPermutationFromFirstToSecond", r, [p.index(i) for i in v])
    z = p[:]
    z[rng.randrange(len(z))] = 1000
    mon.raises(lambda: c.FindPermutationFromFirstToSecond(x, G.da(c, z)), "FindPermutationFromFirstToSecond:different")
    d = [rng.choice(v) for _ in range(rng.randint(1, 40))]
    e = d[:]
    rng.shuffle(e)
    r = c.FindPermutationFromFirstToSecondDuplicate(G.da(c, d), G.da(c, e))
    r = rd(r)
    mon.eq(sorted(r), list(range(len(d))), "FindPermutationFromFirstToSecondDuplicate:permutation")
    mon.ok(all(e[r[i]] == d[i] for i in range(len(d))), "FindPermutationFromFirstToSecondDuplicate", d=d, e=e, r=r)
    r = G.da(c, d).buildPermutationArr(G.da(c, e))
    r = rd(r)
    mon.ok(len(r) == len(d) and all(d[r[i]] == e[i] for i in range(len(d))), "buildPermutationArr", d=d, e=e, r=r)
    ck(mon, "buildPermutationArr:unique", x.buildPermutationArr(y), [v.index(i) for i in p])
    mon.raises(lambda: x.buildPermutationArr(G.da(c, z)), "buildPermutationArr:different")
    occ, cnt = [], collections.Counter()
    for i in d:
        occ.append(cnt[i])
        cnt[i] += 1
    ck(mon, "occurenceRankInThis", G.da(c, d).occurenceRankInThis(), occ)


def t_convert_index(rng, mon, m):
    """ConvertIndexArrayToO2N / changeSurjectiveFormat / invert: a partial grouping of old ids."""
    n = rng.randint(2, 50)
    idl = G.perm(rng, n)
    groups = []
    while len(idl) > 2 and rng.random() < 0.8:
        k = rng.randint(2, min(5, len(idl)))
        groups.append(sorted(idl[:k]))
        idl = idl[k:]
    groups.sort()
    arr = flat(groups)
    ai = [0] + list(itertools.accumulate(map(len, groups)))
    o2n, nb = m.DataArrayInt.ConvertIndexArrayToO2N(n, G.ids(m, arr), G.ids(m, ai))
    o2n = rd(o2n)
    head = {}
    for g in groups:
        for x in g:
            head[x] = g[0]
    want, cur, pos = [], 0, {}
    for i in range(n):
        h = head.get(i, i)
        if h not in pos:
            pos[h] = cur
            cur += 1
        want.append(pos[h])
    mon.eq(o2n, want, "ConvertIndexArrayToO2N", groups=groups)
    mon.eq(nb, cur, "ConvertIndexArrayToO2N:count")
    c = cls(rng, m)
    a = G.da(c, want)
    with G.Pure(mon, "changeSurjectiveFormat", a):
        x, xi = a.changeSurjectiveFormat(cur)
    w = [[i for i in range(n) if want[i] == j] for j in range(cur)]
    mon.eq((rd(x), rd(xi)), (flat(w), [0] + list(itertools.accumulate(map(len, w)))), "changeSurjectiveFormat")


def t_transform(rng, mon, m):
    n = G.size(rng)
    ind = [rng.randint(-50, 50) for _ in range(rng.randint(1, 30))]
    v = [rng.randrange(len(ind)) for _ in range(n)]
    c = cls(rng, m) if rng.random() < 2 else None
    a = G.ids(m, v)
    arg = G.ids(m, ind) if rng.random() < 0.5 else ind
    a.transformWithIndArr(arg)
    ck(mon, "transformWithIndArr", a, [ind[x] for x in v])
    # res[ind[this[i]]] = i
    img = G.perm(rng, len(ind))
    w = [img.index(x) for x in v]
    k = rng.sample(range(len(ind)), rng.randint(1, len(ind)))
    ia = G.perm(rng, len(ind))
    b = G.da(c, ia)
    r = [None] * len(ind)
    for i, x in enumerate(ia):
        r[img[x]] = i
    with G.Pure(mon, "transformWithIndArrR", b):
        ck(mon, "transformWithIndArrR", b.transformWithIndArrR(G.da(c, img)), r)
    out = G.ids(m, v + [len(ind)])
    mon.raises(lambda: out.transformWithIndArr(G.ids(m, ind)), "transformWithIndArr:out-of-range")
    neg = G.ids(m, v + [-1])
    mon.raises(lambda: neg.transformWithIndArr(G.ids(m, ind)), "transformWithIndArr:negative")
    # indicesOfSubPart
    s = rng.sample(range(-100, 100), rng.randint(1, 50))
    q = rng.sample(s, rng.randint(1, len(s)))
    ck(mon, "indicesOfSubPart", G.da(c, s).indicesOfSubPart(G.da(c, q)), [s.index(x) for x in q])
    mon.raises(lambda: G.da(c, s).indicesOfSubPart(G.da(c, q + [500])), "indicesOfSubPart:absent")
    d = s + [s[0]]
    ck(mon, "findIdForEach", G.da(c, d).findIdForEach(q), [max(i for i in range(len(d)) if d[i] == x) for x in q])
    mon.raises(lambda: G.da(c, d).findIdForEach(q + [500]), "findIdForEach:absent")


def t_order(rng, mon, m):
    c = cls(rng, m)
    v = vals(rng)
    a = G.da(c, v)
    s = a.deepCopy()
    asc = rng.random() < 0.5
    s.sort(asc)
    ck(mon, "sort", s, sorted(v, reverse=not asc))
    s = a.deepCopy()
    s.reverse()
    ck(mon, "reverse", s, v[::-1])
    nc = rng.randint(1, 4)
    t = tuples(vals(rng, nc * rng.randint(1, 20)), nc)
    b = G.da(c, flat(t), nc)
    x = b.deepCopy()
    x.reverse()
    ck(mon, "reverse:tuples", x, flat(t[::-1]))
    x = b.deepCopy()
    x.reversePerTuple()
    ck(mon, "reversePerTuple", x, flat([y[::-1] for y in t]))
    k = rng.randint(-7, 7)
    x = b.deepCopy()
    x.circularPermutation(k)
    n = len(t)
    ck(mon, "circularPermutation", x, flat([t[(i + k) % n] for i in range(n)]), k=k, t=t)
    x = b.deepCopy()
    x.circularPermutationPerTuple(k)
    ck(mon, "circularPermutationPerTuple", x, flat([[y[(i + k) % nc] for i in range(nc)] for y in t]))
    x = b.deepCopy()
    x.sortPerTuple(asc)
    ck(mon, "sortPerTuple", x, flat([sorted(y, reverse=not asc) for y in t]))
    inc = rng.random() < 0.5
    mono = all((p <= q) if inc else (p >= q) for p, q in zip(v, v[1:]))
    stri = all((p < q) if inc else (p > q) for p, q in zip(v, v[1:]))
    mon.eq(a.isMonotonic(inc), mono, "isMonotonic")
    mon.eq(a.isStrictlyMonotonic(inc), stri, "isStrictlyMonotonic")
    with G.Pure(mon, "copySorted", a):
        ck(mon, "copySorted", a.copySorted(), sorted(v))


def t_predicates(rng, mon, m):
    c = cls(rng, m)
    k = rng.random()
    if k < 0.25:
        v = list(range(rng.randint(1, 20)))
    elif k < 0.5:
        v = [rng.randint(-5, 5)] * rng.randint(1, 20)
    elif k < 0.75:
        v = list(range(rng.randint(-9, 9), rng.randint(10, 40), rng.randint(1, 6)))
        if rng.random() < 0.3:
            v = v[::-1]
    else:
        v = vals(rng)
    if rng.random() < 0.3:
        v[rng.randrange(len(v))] += 1
    a = G.da(c, v)
    n = len(v) + rng.choice([0, 0, 0, 1, -1])
    with G.Pure(mon, "predicates", a):
        mon.eq(a.isIota(n), v == list(range(n)), "isIota", v=v, n=n)
        u = rng.choice(v)
        mon.eq(a.isUniform(u), all(x == u for x in v), "isUniform")
        if len(set(v)) == 1:
            mon.eq(a.checkUniformAndGuess(), v[0], "checkUniformAndGuess")
        else:
            mon.raises(a.checkUniformAndGuess, "checkUniformAndGuess:not-uniform")
        mon.eq(a.hasUniqueValues(), len(set(v)) == len(v), "hasUniqueValues")
        ok, sl = a.isRange()
        if len(v) > 1:
            st = v[1] - v[0]
            isr = st != 0 and all(y - x == st for x, y in zip(v, v[1:]))
            mon.eq(bool(ok), isr, "isRange", v=v, sl=sl)
            if ok:
                mon.eq(list(range(sl.start, sl.stop, sl.step)), v, "isRange:slice")
        elif ok:
            mon.eq(list(range(sl.start, sl.stop, sl.step)), v, "isRange:slice")
        lo, hi = sorted((rng.randint(-25, 25), rng.randint(-25, 25)))
        if lo < hi:
            exp = all(lo <= x < hi for x in v)
            try:
                r = a.checkAllIdsInRange(lo, hi)
                mon.ok(exp, "checkAllIdsInRange:accepted", v=v, lo=lo, hi=hi)
            except m.InterpKernelException:
                mon.ok(not exp, "checkAllIdsInRange:refused", v=v, lo=lo, hi=hi)


# ---------------------------------------------------------------- search
def t_find(rng, mon, m):
    c = cls(rng, m)
    v = vals(rng)
    a = G.da(c, v)
    x = rng.choice(v + [99])
    idx = lambda f: [i for i, y in enumerate(v) if f(y)]
    with G.Pure(mon, "find", a):
        ck(mon, "findIdsEqual", a.findIdsEqual(x), idx(lambda y: y == x))
        ck(mon, "findIdsNotEqual", a.findIdsNotEqual(x), idx(lambda y: y != x))
        ls = [rng.randint(-20, 20) for _ in range(rng.randint(1, 6))]
        ck(mon, "findIdsEqualList", a.findIdsEqualList(ls), idx(lambda y: y in ls))
        ck(mon, "findIdsNotEqualList", a.findIdsNotEqualList(ls), idx(lambda y: y not in ls))
        lo, hi = sorted((rng.randint(-22, 22), rng.randint(-22, 22)))
        ck(mon, "findIdsInRange", a.findIdsInRange(lo, hi), idx(lambda y: lo <= y < hi))
        ck(mon, "findIdsNotInRange", a.findIdsNotInRange(lo, hi), idx(lambda y: not lo <= y < hi))
        ck(mon, "findIdsStrictlyNegative", a.findIdsStrictlyNegative(), idx(lambda y: y < 0))
        ck(mon, "findIdsGreaterOrEqualTo", a.findIdsGreaterOrEqualTo(x), idx(lambda y: y >= x))
        ck(mon, "findIdsGreaterThan", a.findIdsGreaterThan(x), idx(lambda y: y > x))
        ck(mon, "findIdsLowerOrEqualTo", a.findIdsLowerOrEqualTo(x), idx(lambda y: y <= x))
        ck(mon, "findIdsLowerThan", a.findIdsLowerThan(x), idx(lambda y: y < x))
        mon.eq(a.findIdFirstEqual(x), v.index(x) if x in v else -1, "findIdFirstEqual")
        fl = [i for i, y in enumerate(v) if y in ls]
        mon.eq(a.findIdFirstEqual(ls), fl[0] if fl else -1, "findIdFirstEqual:list")
        mon.eq(a.presenceOfValue(x), x in v, "presenceOfValue")
        mon.eq(x in a, x in v, "contains")
        mon.eq(a.index(x), v.index(x) if x in v else -1, "index")
        mon.eq(a.presenceOfValue(ls), bool(fl), "presenceOfValue:list")
        mon.eq(a.count(x), v.count(x), "count")
        k = rng.randint(1, 3)
        if rng.random() < 0.7 and len(v) >= k:
            p = rng.randint(0, len(v) - k)
            seq = v[p:p + k]
        else:
            seq = G.ints(rng, k, -3, 3)
        pos = next((i for i in range(len(v) - k + 1) if v[i:i + k] == seq), -1)
        mon.eq(a.findIdSequence(seq), pos, "findIdSequence", v=v, seq=seq)
    b = a.deepCopy()
    nb = b.changeValue(x, 77)
    ck(mon, "changeValue", b, [77 if y == x else y for y in v])
    mon.eq(nb, v.count(x), "changeValue:count")
    mon.eq(a.getMaxValue(), (max(v), v.index(max(v))), "getMaxValue")
    mon.eq(a.getMinValue(), (min(v), v.index(min(v))), "getMinValue")
    mon.eq((a.getMinValueInArray(), a.getMaxValueInArray()), (min(v), max(v)), "minmaxInArray")
    mon.eq(tuple(a.getMinMaxValues()), (min(v), max(v)), "getMinMaxValues")
    mx = max(abs(y) for y in v)
    mon.eq(abs(a.getMaxAbsValueInArray()), mx, "getMaxAbsValueInArray")
    # tuples
    nc = rng.randint(1, 4)
    t = tuples(vals(rng, nc * rng.randint(1, 30), 0, 2), nc)
    b = G.da(c, flat(t), nc)
    q = rng.choice(t) if rng.random() < 0.8 else tuple([9] * nc)
    mon.eq(b.findIdFirstEqualTuple(list(q)), t.index(q) if q in t else -1, "findIdFirstEqualTuple")
    mon.eq(b.presenceOfTuple(list(q)), q in t, "presenceOfTuple")
    ck(mon, "findIdsEqualTuple", b.findIdsEqualTuple(list(q)), [i for i, y in enumerate(t) if y == q])
    comp = [rng.randrange(nc) for _ in t]
    ck(mon, "sumPerTuple", b.sumPerTuple(), [sum(y) for y in t])
    mon.eq(list(b.accumulate()), [sum(y[i] for y in t) for i in range(nc)], "accumulate")
    i = rng.randrange(nc)
    mon.eq(b.accumulate(i), sum(y[i] for y in t), "accumulate:comp")
    cut = sorted(rng.sample(range(len(t) + 1), rng.randint(2, len(t) + 1)))
    ck(mon, "accumulatePerChunck", b.accumulatePerChunck(cut),
       flat([[sum(y[i] for y in t[p:q]) for i in range(nc)] for p, q in zip(cut, cut[1:])]))
    # locateComponentId: first component with the value
    tid = [rng.randrange(len(t)) for _ in range(10)]
    look = [t[k][comp[k]] for k in tid]
    ck(mon, "locateComponentId", b.locateComponentId(G.da(c, look), G.ids(m, tid)), [t[k].index(x) for k, x in zip(tid, look)])
    mon.raises(lambda: b.locateComponentId(G.da(c, [55]), G.ids(m, [0])), "locateComponentId:absent")


# ---------------------------------------------------------------- sets
def t_sets(rng, mon, m):
    c = cls(rng, m)
    n = rng.randint(1, 70)
    sets = [rng.sample(range(n), rng.randint(0, n)) for _ in range(rng.randint(2, 4))]
    arrs = [G.da(c, s) for s in sets]
    with G.Pure(mon, "sets", *arrs):
        a, b = arrs[0], arrs[-1]
        A, B = set(sets[0]), set(sets[-1])
        ck(mon, "buildComplement", a.buildComplement(n), sorted(set(range(n)) - A))
        ck(mon, "buildUnion", a.buildUnion(b), sorted(A | B))
        ck(mon, "buildIntersection", a.buildIntersection(b), sorted(A & B))
        ck(mon, "BuildUnion", c.BuildUnion(arrs), sorted(set().union(*sets)))
        ck(mon, "BuildIntersection", c.BuildIntersection(arrs), sorted(set.intersection(*map(set, sets))))
        if sets[0]:
            ck(mon, "buildSubstraction", a.buildSubstraction(b), sorted(A - B))
        s = sorted(A)
        sub = sorted(rng.sample(s, rng.randint(0, len(s))))
        ck(mon, "buildSubstractionOptimized", G.da(c, s).buildSubstractionOptimized(G.da(c, sub)), sorted(A - set(sub)))
        if len(sets[0]) > 0:
            mon.raises(lambda: a.buildComplement(max(sets[0])), "buildComplement:out-of-range")
    v = vals(rng)
    w = [k for k, _ in itertools.groupby(v)]
    d = G.da(c, v)
    sv = sorted(v)
    ds = G.da(c, sv)
    with G.Pure(mon, "unique", d, ds):
        ck(mon, "buildUnique", ds.buildUnique(), sorted(set(v)))
        ck(mon, "buildUnique:unsorted", d.buildUnique(), w)
        ck(mon, "buildUniqueNotSorted", d.buildUniqueNotSorted(), list(dict.fromkeys(v)))
        ck(mon, "getDifferentValues", d.getDifferentValues(), sorted(set(v)))
        ck(mon, "indexOfSameConsecutiveValueGroups", d.indexOfSameConsecutiveValueGroups(),
           [0] + list(itertools.accumulate(len(list(g)) for _, g in itertools.groupby(v))))
        parts, vs = d.partitionByDifferentValues()
        mon.eq(list(vs), sorted(set(v)), "partitionByDifferentValues:values")
        mon.eq([rd(p) for p in parts], [[i for i, y in enumerate(v) if y == k] for k in sorted(set(v))],
               "partitionByDifferentValues")
    mon.eq(d.isEqualWithoutConsideringStrAndOrder(ds), True, "isEqualWithoutConsideringStrAndOrder")
    o = v[:]
    o[rng.randrange(len(o))] += 1
    mon.eq(d.isEqualWithoutConsideringStrAndOrder(G.da(c, o)), False, "isEqualWithoutConsideringStrAndOrder:different")


def t_partition(rng, mon, m):
    """MakePartition: families of elements by membership."""
    c = cls(rng, m)
    n = rng.randint(1, 40)
    gs = [rng.sample(range(n), rng.randint(0, n)) for _ in range(rng.randint(1, 5))]
    arrs = [G.da(c, g) for g in gs]
    with G.Pure(mon, "MakePartition", *arrs):
        p, f = c.MakePartition(arrs, n)
    p = rd(p)
    mon.need(len(p) == n, "MakePartition:size")
    sig = [frozenset(i for i, g in enumerate(gs) if e in g) for e in range(n)]
    byfam = {}
    for e in range(n):
        byfam.setdefault(p[e], set()).add(sig[e])
    mon.ok(all(len(s) == 1 for s in byfam.values()), "MakePartition:coherent", gs=gs, p=p)
    mon.ok(len(byfam) == len(set(sig)), "MakePartition:minimal", gs=gs, p=p)
    for i, g in enumerate(gs):
        mon.eq(sorted(e for e in range(n) if p[e] in f[i]), sorted(g), "MakePartition:groups", fam=f[i])
        mon.eq(len(set(f[i])), len(f[i]), "MakePartition:groups-unique")


# ---------------------------------------------------------------- index arrays
def mkpacks(rng, lo=0, hi=30, n=None, empty=True):
    n = rng.randint(1, 25) if n is None else n
    return [G.ints(rng, rng.randint(0 if empty else 1, 5), lo, hi) for _ in range(n)]


def packs(cl, m, p):
    return G.da(cl, flat(p)), G.ids(m, [0] + list(itertools.accumulate(map(len, p))))


def unpack(a, i):
    v, x = rd(a), rd(i)
    return [v[p:q] for p, q in zip(x, x[1:])], (x[0], x[-1], len(v))


def t_offsets(rng, mon, m):
    c = cls(rng, m)
    v = G.ints(rng, G.size(rng), 0, 9)
    a = G.da(c, v)
    acc = [0] + list(itertools.accumulate(v))
    b = a.deepCopy()
    b.computeOffsets()
    ck(mon, "computeOffsets", b, acc[:-1])
    b = a.deepCopy()
    b.computeOffsetsFull()
    ck(mon, "computeOffsetsFull", b, acc)
    with G.Pure(mon, "deltaShiftIndex", b):
        ck(mon, "deltaShiftIndex", b.deltaShiftIndex(), v)
    sel = [rng.randrange(len(v)) for _ in range(rng.randint(0, 20))]
    with G.Pure(mon, "buildExplicitArrByRanges", b):
        ck(mon, "buildExplicitArrByRanges", G.da(c, sel).buildExplicitArrByRanges(b),
           flat([range(acc[s], acc[s + 1]) for s in sel]))
    mon.raises(lambda: G.da(c, sel + [len(v)]).buildExplicitArrByRanges(b), "buildExplicitArrByRanges:out-of-range")
    mon.raises(lambda: G.da(c, sel + [-1]).buildExplicitArrByRanges(b), "buildExplicitArrByRanges:negative")
    st = rng.randint(0, len(v))
    en = rng.randint(st, len(v))
    step = rng.randint(1, 3)
    ck(mon, "buildExplicitArrOfSliceOnScaledArr", b.buildExplicitArrOfSliceOnScaledArr(slice(st, en, step)),
       flat([[s] * (acc[s + 1] - acc[s]) for s in range(st, en, step)]))
    # findIdsRangesInListOfIds: strictly increasing offsets
    w = G.ints(rng, rng.randint(1, 15), 1, 4)
    acc = [0] + list(itertools.accumulate(w))
    full = sorted(rng.sample(range(len(w)), rng.randint(0, len(w))))
    ids = set(flat([range(acc[k], acc[k + 1]) for k in full]))
    for k in range(len(w)):
        if k not in full and w[k] > 1 and rng.random() < 0.4:
            ids |= set(rng.sample(range(acc[k], acc[k + 1]), rng.randint(1, w[k] - 1)))
    ids = sorted(ids)
    r, i = G.da(c, acc).findIdsRangesInListOfIds(G.da(c, ids))
    mon.eq(rd(r), full, "findIdsRangesInListOfIds", acc=acc, ids=ids)
    mon.eq(rd(i), flat([range(acc[k], acc[k + 1]) for k in full]), "findIdsRangesInListOfIds:ids", acc=acc, ids=ids)
    # AggregateIndexes
    ps = [mkpacks(rng) for _ in range(rng.randint(1, 4))]
    xs = [[0] + list(itertools.accumulate(map(len, p))) for p in ps]
    ck(mon, "AggregateIndexes", c.AggregateIndexes([G.da(c, x) for x in xs]),
       [0] + list(itertools.accumulate(map(len, flat(ps)))))


def t_ranges(rng, mon, m):
    c = cls(rng, m)
    cut = sorted(rng.sample(range(0, 80), rng.randint(2, 10)))
    rg = list(zip(cut, cut[1:]))
    v = [rng.randint(cut[0], cut[-1] - 1) for _ in range(G.size(rng))]
    a, r = G.da(c, v), G.da(c, flat(rg), 2)
    k = [next(i for i, (p, q) in enumerate(rg) if p <= x < q) for x in v]
    with G.Pure(mon, "ranges", a, r):
        ck(mon, "findRangeIdForEachTuple", a.findRangeIdForEachTuple(r), k)
        ck(mon, "findIdInRangeForEachTuple", a.findIdInRangeForEachTuple(r), [x - rg[i][0] for x, i in zip(v, k)])
        x, y, z = a.splitByValueRange(G.da(c, cut) if rng.random() < 0.5 else cut)
        ck(mon, "splitByValueRange", x, k)
        ck(mon, "splitByValueRange:rank", y, [x - rg[i][0] for x, i in zip(v, k)])
        ck(mon, "splitByValueRange:present", z, sorted(set(k)))
    mon.raises(lambda: G.da(c, v + [cut[-1]]).findRangeIdForEachTuple(r), "findRangeIdForEachTuple:outside")
    mon.raises(lambda: G.da(c, v + [cut[-1]]).splitByValueRange(cut), "splitByValueRange:outside")
    w = G.ints(rng, rng.randint(1, 40), 0, 9)
    nb = rng.randint(1, 6)
    sl = G.da(c, w).splitInBalancedSlices(nb)
    mon.eq(len(sl), nb, "splitInBalancedSlices:count")
    mon.eq(flat([range(s.start, s.stop, s.step or 1) for s in sl]), list(range(len(w))), "splitInBalancedSlices:partition")


def t_indexed(rng, mon, m):
    c = cls(rng, m)
    p = mkpacks(rng)
    a, ai = packs(c, m, p)
    n = len(p)
    sel = [rng.randrange(n) for _ in range(rng.randint(0, 12))]
    with G.Pure(mon, "ExtractFromIndexedArrays", a, ai):
        got = unpack(*c.ExtractFromIndexedArrays(G.ids(m, sel) if rng.random() < 0.5 or not sel else sel, a, ai))
        mon.eq(got[0], [p[i] for i in sel], "ExtractFromIndexedArrays")
        st, en, step = rng.randint(0, n), rng.randint(0, n), rng.randint(1, 3)
        if st <= en:
            got = unpack(*c.ExtractFromIndexedArraysSlice(st, en, step, a, ai))
            mon.eq(got[0], p[st:en:step], "ExtractFromIndexedArraysSlice")
    mon.raises(lambda: c.ExtractFromIndexedArrays(sel + [n], a, ai), "ExtractFromIndexedArrays:out-of-range")
    mon.raises(lambda: c.ExtractFromIndexedArrays(sel + [-1], a, ai), "ExtractFromIndexedArrays:negative")
    # remove
    rem = rng.sample(range(0, 31), rng.randint(1, 8))
    off = 0 if rng.random() < 0.6 else 1
    if off and any(not x for x in p):
        off = 0
    b, bi = a.deepCopy(), ai.deepCopy()
    ch = c.RemoveIdsFromIndexedArrays(rem, b, bi, off)
    w = [x[:off] + [y for y in x[off:] if y not in rem] for x in p]
    mon.eq(unpack(b, bi), (w, (0, len(flat(w)), len(flat(w)))), "RemoveIdsFromIndexedArrays", p=p, rem=rem, off=off)
    mon.eq(bool(ch), w != p, "RemoveIdsFromIndexedArrays:changed")
    # set part
    ids = rng.sample(range(n), rng.randint(0, n))
    q = mkpacks(rng, n=len(ids)) if ids else []
    w = [list(x) for x in p]
    for i, y in zip(ids, q):
        w[i] = y
    if ids:
        b, bi = packs(c, m, q)
        with G.Pure(mon, "SetPartOfIndexedArrays", a, ai, b, bi):
            got = unpack(*c.SetPartOfIndexedArrays(G.ids(m, ids), a, ai, b, bi))
            mon.eq(got[0], w, "SetPartOfIndexedArrays", p=p, ids=ids, q=q)
        q2 = [G.ints(rng, len(p[i]), 50, 60) for i in ids]
        w = [list(x) for x in p]
        for i, y in zip(ids, q2):
            w[i] = y
        b, bi = packs(c, m, q2)
        a2 = a.deepCopy()
        with G.Pure(mon, "SetPartOfIndexedArraysSameIdx", ai, b, bi):
            c.SetPartOfIndexedArraysSameIdx(G.ids(m, ids), a2, ai, b, bi)
        mon.eq(unpack(a2, ai)[0], w, "SetPartOfIndexedArraysSameIdx")


def t_pairs(rng, mon, m):
    c = cls(rng, m)
    # chains
    verts = rng.sample(range(200), rng.randint(2, 40))
    chain = [(x, y) for x, y in zip(verts, verts[1:])]
    if rng.random() < 0.3 and len(verts) > 2:
        chain.append((verts[-1], verts[0]))
    sh = [e if rng.random() < 0.5 else e[::-1] for e in chain]
    sh[0] = chain[0]
    a = G.da(c, flat(sh), 2)
    if len(sh) > 1:
        a.sortEachPairToMakeALinkedList()
        t = tuples(rd(a), 2)
        mon.ok(all(p[1] == q[0] for p, q in zip(t, t[1:])), "sortEachPairToMakeALinkedList:linked", sh=sh, t=t)
        mon.ok(all(set(p) == set(q) for p, q in zip(t, sh)), "sortEachPairToMakeALinkedList:pairs", sh=sh, t=t)
        l = rd(a.fromLinkedListOfPairToList())
        mon.eq(l, [t[0][0]] + [x[1] for x in t], "fromLinkedListOfPairToList")
    rot = sh[:]
    rng.shuffle(rot)
    b = G.da(c, flat(rot), 2)
    b.sortToHaveConsecutivePairs()
    t = tuples(rd(b), 2)
    mon.ok(all(p[1] == q[0] for p, q in zip(t, t[1:])), "sortToHaveConsecutivePairs:linked", rot=rot, t=t)
    mon.eq(sorted(map(sorted, t)), sorted(map(sorted, rot)), "sortToHaveConsecutivePairs:pairs", rot=rot)
    # several chains
    pool = rng.sample(range(300), 40)
    edges, k = [], 0
    nch = 0
    while k < 36 and nch < 4:
        ln = rng.randint(2, 6)
        vs = pool[k:k + ln]
        edges += [e if rng.random() < 0.5 else e[::-1] for e in zip(vs, vs[1:])]
        k += ln
        nch += 1
    rng.shuffle(edges)
    with G.Pure(mon, "splitPairsIntoChains", b):
        ch = G.da(c, flat(edges), 2).splitPairsIntoChains()
    mon.eq(len(ch), nch, "splitPairsIntoChains:count", edges=edges)
    got = []
    for x in ch:
        t = tuples(rd(x), 2)
        mon.ok(all(p[1] == q[0] for p, q in zip(t, t[1:])), "splitPairsIntoChains:linked", t=t)
        got += t
    mon.eq(sorted(map(sorted, got)), sorted(map(sorted, edges)), "splitPairsIntoChains:pairs")
    # groups from pairs: the connected components, represented by packs
    n = rng.randint(2, 25)
    el = [tuple(rng.sample(range(n), 2)) for _ in range(rng.randint(1, 12))]
    x, xi = G.da(c, flat(el), 2).fromListOfPairsToIndexArray()
    gr = unpack(x, xi)[0]
    par = list(range(n))

    def f(i):
        while par[i] != i:
            i = par[i]
        return i
    star = True
    for p, q in el:
        par[f(p)] = f(q)
    comp = {}
    for i in sorted(set(flat(el))):
        comp.setdefault(f(i), set()).add(i)
    mon.eq(sorted(sorted(g) for g in gr), sorted(sorted(s) for s in comp.values()), "fromListOfPairsToIndexArray", el=el)


def t_reduction(rng, mon, m):
    """forThisAsPartitionBuildReduction: after the reduction every fused entity carries the union of the groups."""
    c = cls(rng, m)
    n = rng.randint(2, 30)
    part = G.ints(rng, n, -4, 4)
    idl = G.perm(rng, n)
    groups = []
    while len(idl) > 2 and rng.random() < 0.8:
        k = rng.randint(2, min(4, len(idl)))
        groups.append(sorted(idl[:k]))
        idl = idl[k:]
    groups.sort()
    arr, ai = flat(groups), [0] + list(itertools.accumulate(map(len, groups)))
    a, ca, ci = G.da(c, part), G.ids(m, arr), G.ids(m, ai)
    with G.Pure(mon, "forThisAsPartitionBuildReduction", a, ca, ci):
        red, mod, modi = a.forThisAsPartitionBuildReduction(ca, ci)
    o2n, nb = m.DataArrayInt.ConvertIndexArrayToO2N(n, ca, ci)
    o2n = rd(o2n)
    red = rd(red)
    mon.need(len(red) == nb, "forThisAsPartitionBuildReduction:size", red=red, nb=nb)
    tbl = {x[0]: set(x[1:]) for x in unpack(mod, modi)[0]}
    for new in range(nb):
        olds = {part[i] for i in range(n) if o2n[i] == new}
        got = tbl.get(red[new], {red[new]})
        mon.ok(got == olds, "forThisAsPartitionBuildReduction", part=part, groups=groups, new=new, got=got, olds=olds)


# ---------------------------------------------------------------- building, selecting, assigning
def t_select(rng, mon, m):
    c = cls(rng, m)
    n, nc = G.size(rng), rng.randint(1, 4)
    t = tuples(vals(rng, n * nc), nc)
    a = G.da(c, flat(t), nc)
    a.setInfoOnComponents(["i%d [m]" % i for i in range(nc)])
    a.setName("nm")
    sel = [rng.randrange(n) for _ in range(rng.randint(0, 20))]
    st, en, step = rng.randint(0, n), rng.randint(0, n), rng.randint(1, 3)
    if st > en:
        st, en = en, st
    with G.Pure(mon, "select", a):
        s = G.ids(m, sel)
        r = a.selectByTupleId(s)
        ck(mon, "selectByTupleId", r, flat([t[i] for i in sel]))
        mon.eq((r.getName(), list(r.getInfoOnComponents())), ("nm", ["i%d [m]" % i for i in range(nc)]),
               "selectByTupleId:strings")
        ck(mon, "selectByTupleIdSafe", a.selectByTupleIdSafe(s), flat([t[i] for i in sel]))
        ck(mon, "selectByTupleIdSafeSlice", a.selectByTupleIdSafeSlice(st, en, step), flat(t[st:en:step]))
        ck(mon, "selectByTupleIdSafeSlice:negative-step", a[slice(en - 1, st - 1 if st else None, -step)] if en > st
           else a.selectByTupleIdSafeSlice(st, st, 1), flat(t[slice(en - 1, st - 1 if st else None, -step)]) if en > st else [])
        ck(mon, "subArray", a.subArray(st, en), flat(t[st:en]))
        rg = []
        for _ in range(rng.randint(1, 3)):
            p = rng.randint(0, n)
            rg.append((p, rng.randint(p, n)))
        ck(mon, "selectByTupleRanges", a.selectByTupleRanges(rg), flat(flat([t[p:q] for p, q in rg])))
        mon.raises(lambda: a.selectByTupleIdSafe(G.ids(m, sel + [n])), "selectByTupleIdSafe:out-of-range")
        mon.raises(lambda: a.selectByTupleIdSafe(G.ids(m, sel + [-1])), "selectByTupleIdSafe:negative")
        cs = [rng.randrange(nc) for _ in range(rng.randint(1, 4))]
        r = a.keepSelectedComponents(cs)
        ck(mon, "keepSelectedComponents", r, flat([[y[i] for i in cs] for y in t]))
        mon.eq(list(r.getInfoOnComponents()), ["i%d [m]" % i for i in cs], "keepSelectedComponents:info")
        mon.raises(lambda: a.keepSelectedComponents([nc]), "keepSelectedComponents:out-of-range")
        mon.eq([rd(x) for x in a.explodeComponents()], [[y[i] for y in t] for i in range(nc)], "explodeComponents")
        k = rng.randint(1, 6)
        r = a.changeNbOfComponents(k, 13)
        ck(mon, "changeNbOfComponents", r, flat([(list(y) + [13] * k)[:k] for y in t]))
        q = rng.randint(1, 4)
        ck(mon, "duplicateEachTupleNTimes", a.keepSelectedComponents([0]).duplicateEachTupleNTimes(q),
           flat([[y[0]] * q for y in t]))
        ck(mon, "duplicateNTimes", a.duplicateNTimes(q), flat(t) * q)
        ck(mon, "toNoInterlace", a.toNoInterlace(), flat([[y[i] for y in t] for i in range(nc)]))
        ck(mon, "fromNoInterlace", a.toNoInterlace().fromNoInterlace(), flat(t))
        b = G.da(c, flat(t[::-1]), nc)
        ck(mon, "Aggregate", c.Aggregate([a, b, a]), flat(t + t[::-1] + t))
        d = G.da(c, [x[0] for x in t])
        ck(mon, "Meld", c.Meld([a, d, b]), flat([x + (x[0],) + y for x, y in zip(t, t[::-1])]))
        k = rng.randint(0, n)
        ck(mon, "Aggregate:offset", c.Aggregate(a, b, k), flat(t + t[::-1][k:]))
        mon.raises(lambda: c.Aggregate(a, b, n + 7), "Aggregate:offset-out-of-range")
    a2 = a.deepCopy()
    a2.rearrange(1)
    mon.eq((a2.getNumberOfTuples(), a2.getNumberOfComponents(), rd(a2)), (n * nc, 1, flat(t)), "rearrange")
    a2.rearrange(nc)
    mon.eq((a2.getNumberOfTuples(), a2.getNumberOfComponents(), rd(a2)), (n, nc, flat(t)), "rearrange:back")
    a2 = a.deepCopy()
    a2.transpose()
    mon.eq((a2.getNumberOfTuples(), a2.getNumberOfComponents()), (nc, n), "transpose")
    if (n * nc) % (nc + 1):
        mon.raises(lambda: a.deepCopy().rearrange(nc + 1), "rearrange:not-divisible")
    lo, hi, step = rng.randint(-20, 20), rng.randint(-20, 20), rng.choice([1, 2, 3, -1, -2])
    if (hi - lo) * step >= 0:
        ck(mon, "Range", c.Range(lo, hi, step), list(range(lo, hi, step)))


def t_assign(rng, mon, m):
    c = cls(rng, m)
    n, nc = rng.randint(1, 20), rng.randint(1, 4)
    t = [list(x) for x in tuples(vals(rng, n * nc), nc)]
    a = G.da(c, flat(t), nc)
    t0, t1, ts = rng.randint(0, n - 1), 0, rng.randint(1, 3)
    t1 = rng.randint(t0 + 1, n)
    c0 = rng.randint(0, nc - 1)
    c1, cs = rng.randint(c0 + 1, nc), rng.randint(1, 2)
    rows, cols = list(range(t0, t1, ts)), list(range(c0, c1, cs))
    src = [G.ints(rng, len(cols), 100, 200) for _ in rows]
    b = G.da(c, flat(src), len(cols))
    x = a.deepCopy()
    with G.Pure(mon, "setPartOfValues1", b):
        x.setPartOfValues1(b, t0, t1, ts, c0, c1, cs, True)
    w = [list(y) for y in t]
    for i, r in enumerate(rows):
        for j, k in enumerate(cols):
            w[r][k] = src[i][j]
    ck(mon, "setPartOfValues1", x, flat(w))
    x = a.deepCopy()
    x[t0:t1:ts, c0:c1:cs] = b
    ck(mon, "setitem:slices", x, flat(w))
    x = a.deepCopy()
    x.setPartOfValuesSimple1(-77, t0, t1, ts, c0, c1, cs)
    w = [[(-77 if i in rows and j in cols else y) for j, y in enumerate(z)] for i, z in enumerate(t)]
    ck(mon, "setPartOfValuesSimple1", x, flat(w))
    rr = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
    x = a.deepCopy()
    x[rr, c0:c1:cs] = -5
    w = [[(-5 if i in rr and j in cols else y) for j, y in enumerate(z)] for i, z in enumerate(t)]
    ck(mon, "setitem:list-slice", x, flat(w))
    cc = rng.sample(range(nc), rng.randint(1, nc))
    x = a.deepCopy()
    x[G.ids(m, rr), cc] = -6
    w = [[(-6 if i in rr and j in cc else y) for j, y in enumerate(z)] for i, z in enumerate(t)]
    ck(mon, "setitem:ids-list", x, flat(w))
    sel = rng.sample(range(n), rng.randint(1, n))
    pick = [rng.randrange(n) for _ in sel]
    x = a.deepCopy()
    src = G.da(c, [100 + i for i in range(n * nc)], nc)
    st = tuples([100 + i for i in range(n * nc)], nc)
    x.setPartOfValuesAdv(src, G.ids(m, flat(zip(sel, pick))) if False else G.da(m.DataArrayInt, flat(zip(sel, pick)), 2))
    w = [list(y) for y in t]
    for i, k in zip(sel, pick):
        w[i] = list(st[k])
    ck(mon, "setPartOfValuesAdv", x, flat(w))
    k = len(pick)
    s = rng.randint(0, n - k)
    x = a.deepCopy()
    x.setContigPartOfSelectedValues(s, src, G.ids(m, pick))
    w = [list(y) for y in t]
    w[s:s + k] = [list(st[q]) for q in pick]
    ck(mon, "setContigPartOfSelectedValues", x, flat(w))
    p, q = sorted((rng.randint(0, n), rng.randint(0, n)))
    s = rng.randint(0, n - (q - p))
    x = a.deepCopy()
    x.setContigPartOfSelectedValuesSlice(s, src, p, q, 1)
    w = [list(y) for y in t]
    w[s:s + q - p] = [list(y) for y in st[p:q]]
    ck(mon, "setContigPartOfSelectedValuesSlice", x, flat(w))
    d = G.da(c, list(range(n * 2)), 2)
    x = a.deepCopy()
    if nc >= 2:
        two = rng.sample(range(nc), 2)
        x.setSelectedComponents(d, two)
        w = [list(y) for y in t]
        for i in range(n):
            w[i][two[0]], w[i][two[1]] = 2 * i, 2 * i + 1
        ck(mon, "setSelectedComponents", x, flat(w))
    mon.raises(lambda: a.deepCopy().setPartOfValuesSimple1(1, 0, n + 1, 1, 0, nc, 1), "setPartOfValuesSimple1:out-of-range")
    mon.raises(lambda: a.deepCopy().setContigPartOfSelectedValues(n, src, G.ids(m, [0])),
               "setContigPartOfSelectedValues:out-of-range")
    mon.raises(lambda: a.getIJSafe(n, 0), "getIJSafe:out-of-range")


def t_push(rng, mon, m):
    c = cls(rng, m)
    a = c.New()
    a.alloc(0, 1)
    model = []
    for _ in range(rng.randint(5, 60)):
        k = rng.random()
        if k < 0.5:
            v = rng.randint(-99, 99)
            a.pushBackSilent(v)
            model.append(v)
        elif k < 0.7:
            l = G.ints(rng, rng.randint(1, 9), -9, 9)
            a.pushBackValsSilent(l)
            model += l
        elif k < 0.85 and model:
            mon.eq(a.popBackSilent(), model.pop(), "popBackSilent")
        elif k < 0.9:
            a.reserve(len(model) + rng.randint(0, 20))
        elif k < 0.95:
            a.pack()
        else:
            n = rng.randint(0, len(model))
            a.reAlloc(n)
            del model[n:]
        mon.eq(a.getNumberOfTuples(), len(model), "push:size")
        if model:
            mon.eq((a.front(), a.back()), (model[0], model[-1]), "push:front-back")
    mon.eq(rd(a), model, "push:content")


def cdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def t_arith(rng, mon, m):
    c = cls(rng, m)
    n, nc = G.size(rng), rng.randint(1, 3)
    v, w = vals(rng, n * nc), [x or 1 for x in vals(rng, n * nc)]
    a, b = G.da(c, v, nc), G.da(c, w, nc)
    cmod = lambda x, y: x - cdiv(x, y) * y
    with G.Pure(mon, "arith", a, b):
        ck(mon, "Add", a + b, [x + y for x, y in zip(v, w)])
        ck(mon, "Substract", a - b, [x - y for x, y in zip(v, w)])
        ck(mon, "Multiply", a * b, [x * y for x, y in zip(v, w)])
        ck(mon, "Divide", c.Divide(a, b), [cdiv(x, y) for x, y in zip(v, w)])
        ck(mon, "Modulus", c.Modulus(a, b), [cmod(x, y) for x, y in zip(v, w)])
        if nc == 1:
            e = [rng.randint(0, 4) for _ in v]
            ck(mon, "Pow", c.Pow(a, G.da(c, e, nc)), [x ** y for x, y in zip(v, e)])
        ck(mon, "negate", a.negate(), [-x for x in v])
        ck(mon, "neg", -a, [-x for x in v])
        ck(mon, "computeAbs", a.computeAbs(), [abs(x) for x in v])
        k = rng.randint(1, 9)
        ck(mon, "add-const", a + k, [x + k for x in v])
        ck(mon, "rsub-const", k - a, [k - x for x in v])
        ck(mon, "mul-const", a * k, [x * k for x in v])
    for nm, f in (("addEqual", lambda x, y: x + y), ("substractEqual", lambda x, y: x - y),
                  ("multiplyEqual", lambda x, y: x * y), ("divideEqual", cdiv), ("modulusEqual", cmod)):
        x = a.deepCopy()
        with G.Pure(mon, nm, b):
            getattr(x, nm)(b)
        ck(mon, nm, x, [f(p, q) for p, q in zip(v, w)])
    x = a.deepCopy()
    x.abs()
    ck(mon, "abs", x, [abs(p) for p in v])
    x = a.deepCopy()
    k, o = rng.randint(-5, 5), rng.randint(-5, 5)
    x.applyLin(k, o)
    ck(mon, "applyLin", x, [k * p + o for p in v])
    cid = rng.randrange(nc)
    x = a.deepCopy()
    x.applyLin(k, o, cid)
    ck(mon, "applyLin:comp", x, [(k * p + o if i % nc == cid else p) for i, p in enumerate(v)])
    x = a.deepCopy()
    d = rng.randint(1, 9)
    x.applyDivideBy(d)
    ck(mon, "applyDivideBy", x, [cdiv(p, d) for p in v])
    x = a.deepCopy()
    x.applyModulus(d)
    ck(mon, "applyModulus", x, [cmod(p, d) for p in v])
    mon.raises(lambda: a.deepCopy().applyDivideBy(0), "applyDivideBy:zero")
    mon.raises(lambda: c.Add(a, G.da(c, v + v, nc)), "Add:sizes") if n > 1 else None
    x = a.deepCopy()
    x.iota(k) if nc == 1 else None
    if nc == 1:
        ck(mon, "iota", x, [k + i for i in range(n)])
    x.fillWithValue(o)
    ck(mon, "fillWithValue", x, [o] * (n * nc))
    ck(mon, "convertToDblArr", a.convertToDblArr(), [float(p) for p in v])
    other = a.convertToInt32Arr() if c is m.DataArrayInt64 else a.convertToInt64Arr()
    mon.eq((rd(other), other.getNumberOfComponents()), (v, nc), "convert-width")
    tpb = tuples(vals(rng, 1 + rng.randint(0, 40), 0, 3), 1)
    # findCommonTuples on integer tuples
    q = G.da(c, flat(tpb), 1)
    cm, ci = q.findCommonTuples()
    gr = unpack(cm, ci)[0]
    want = collections.OrderedDict()
    for i, y in enumerate(tpb):
        want.setdefault(y, []).append(i)
    mon.eq(sorted(map(sorted, gr)), sorted(g for g in want.values() if len(g) > 1), "findCommonTuples:int")


def t_switch(rng, mon, m):
    """getSlice / GetNumberOfItemGivenBES: slices of an index space."""
    b, e, s = rng.randint(0, 30), rng.randint(0, 60), rng.randint(1, 5)
    c = m.DataArrayInt
    if b <= e:
        mon.eq(c.GetNumberOfItemGivenBES(b, e, s, ""), len(range(b, e, s)), "GetNumberOfItemGivenBES")
        nb = rng.randint(1, 5)
        sl = slice(b, e, s)
        got = []
        for i in range(nb):
            r = c.GetSlice(sl, i, nb)
            got += list(range(r.start, r.stop, r.step))
        mon.eq(got, list(range(b, e, s)), "GetSlice:partition", sl=sl, nb=nb)
    s = rng.choice([-3, -2, -1, 1, 2, 3])
    if (e - b) * s >= 0:
        mon.eq(c.GetNumberOfItemGivenBESRelative(b, e, s, ""), len(range(b, e, s)), "GetNumberOfItemGivenBESRelative")
        if len(range(b, e, s)):
            v = rng.choice(list(range(b, e, s)))
            mon.eq(c.GetPosOfItemGivenBESRelativeNoThrow(v, b, e, s), list(range(b, e, s)).index(v),
                   "GetPosOfItemGivenBESRelative")
    if e < b:
        mon.raises(lambda: c.GetNumberOfItemGivenBES(b, e, 1, ""), "GetNumberOfItemGivenBES:reversed")


def t_faces(rng, mon, m):
    """Polyhedra in the three layouts of VTK; permutations, remainders, hash codes."""
    c = rng.choice([m.DataArrayInt32, m.DataArrayInt64])
    cells = [[[rng.randint(0, 60) for _ in range(rng.randint(0 if rng.random() < .1 else 3, 7))] for _ in range(rng.randint(1, 6))]
             for _ in range(rng.randint(0, 6))]
    med, medI = [], [0]
    for ce in cells:
        for k, fa in enumerate(ce):
            med += ([-1] if k else []) + fa
        medI.append(len(med))
    old, oldI = [], [0]
    for ce in cells:
        old.append(len(ce))
        for fa in ce:
            old += [len(fa)] + fa
        oldI.append(len(old))
    allf = [fa for ce in cells for fa in ce]
    fc, fi = flat(allf), [0] + list(itertools.accumulate(map(len, allf)))
    ci = [0] + list(itertools.accumulate(map(len, cells)))
    ids = lambda v: G.ids(m, v)
    o, oi = G.da(c, old, 1), ids(oldI)
    # the size of the result is computed from the number of cells: one face at least and two sizes per cell
    with G.Pure(mon, "vtk-faces", o, oi):
        if len(old) - 2 * len(cells) == len(med):
            g, gi = c.FromVTKInternalReprOfPolyedra(o, oi)
            ck(mon, "vtk-faces:9.3", g, med)
            mon.eq(G.L(gi), medI, "vtk-faces:9.3:index")
        g, gi = c.FromVTK93To94FacesInternaReprOfPolyedra(o, oi)
        ck(mon, "vtk-faces:9.3-9.4", g, fc)
        mon.eq(G.L(gi), fi, "vtk-faces:9.3-9.4:index")
    g, gi = c.FromVTK94InternalReprOfPolyedra(G.da(c, fc, 1), ids(fi), ids(ci))
    ck(mon, "vtk-faces:9.4", g, med)
    mon.eq(G.L(gi), medI, "vtk-faces:9.4:index")
    if cells:
        cut = rng.choice([-1, 1])
        bad = list(oldI)
        bad[-1] += cut
        w = old + [3]
        mon.raises(lambda: c.FromVTK93To94FacesInternaReprOfPolyedra(G.da(c, w, 1), ids(bad)), "vtk-faces:bad-index")
    mon.raises(lambda: c.FromVTK93To94FacesInternaReprOfPolyedra(o, ids([])), "vtk-faces:no-index")
    # a permutation from any distinct values
    v = rng.sample(range(-50, 50), rng.randint(1, 12))
    so = sorted(v)
    mon.eq(G.L(c.CheckAndPreparePermutation(G.da(c, v, 1))), [so.index(x) for x in v], "CheckAndPreparePermutation")
    mon.raises(lambda: c.CheckAndPreparePermutation(G.da(c, v + [rng.choice(v)], 1)), "CheckAndPreparePermutation:twice")
    nc = rng.choice([1, 2, 3])
    n = rng.randint(0, 6)
    v = [rng.randint(1, 40) for _ in range(n * nc)]
    x, k = G.da(c, v, nc), rng.randint(0, 100)
    x.applyRModulus(k)
    ck(mon, "applyRModulus", x, [k % p for p in v])
    if v:
        v[rng.randrange(len(v))] = rng.choice([0, -3])
        mon.raises(lambda: G.da(c, v, nc).applyRModulus(k), "applyRModulus:zero")
    # equal arrays have the same hash, one changed value changes the one which walks along all elements
    v = [rng.randint(-1000, 1000) for _ in range(rng.choice([1, 2, 7, 30, 60, 100]))]
    x, y = G.da(c, v, 1), G.da(c, v, 1)
    mon.eq([x.getHashCode(), x.getHashCode2()], [y.getHashCode(), y.getHashCode2()], "hash:equal")
    i = rng.randrange(len(v))
    v2 = list(v)
    v2[i] += rng.randint(1, 50)
    mon.ok(G.da(c, v2, 1).getHashCode2() != x.getHashCode2(), "hash:change", i=i)
    inc = rng.random() < .5
    z = sorted(set(v), reverse=not inc)
    G.da(c, z, 1).checkStrictlyMonotonic(inc)
    if len(z) > 1:
        mon.raises(lambda: G.da(c, z, 1).checkStrictlyMonotonic(not inc), "checkStrictlyMonotonic")
    mon.raises(lambda: G.da(c, z + [z[-1]], 1).checkStrictlyMonotonic(inc), "checkStrictlyMonotonic:equal")
    mon.nontrivial = len(cells) > 1


OPS1 = [(f.__name__[2:], f) for f in (t_invert_o2n, t_invert_bis, t_map, t_renumber, t_permutation_of_sort,
                                      t_convert_index, t_transform, t_order, t_predicates)]
OPS2 = [(f.__name__[2:], f) for f in (t_find, t_sets, t_partition)]
OPS3 = [(f.__name__[2:], f) for f in (t_offsets, t_ranges, t_indexed, t_pairs, t_reduction, t_faces)]
OPS4 = [(f.__name__[2:], f) for f in (t_select, t_assign, t_push, t_arith, t_switch)]
FAMILIES = [G.table("renumbering", OPS1, 800), G.table("search-sets", OPS2, 1200), G.table("index-arrays", OPS3, 1000),
            G.table("build-assign", OPS4, 1000)]
