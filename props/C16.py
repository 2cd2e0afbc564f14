"""C16: graph renumberings are permutations with the properties their algorithm promises."""
import itertools

import numpy as np

from props import gen as G
from props import mesh as M
from vt.worker import Skip

RULE = ("a renumbering gives two inverse permutations, renumbering the mesh with them keeps its cells; the one of Boost is a "
        "reverse Cuthill-McKee ordering of the graph")
ASSUMPTIONS = ["graphs are symmetric, as the connectivity between cells is"]


def graph(rng):
    """Symmetric adjacency, as lists."""
    n = rng.choice([1, 2, 3, rng.randint(4, 40), rng.randint(40, 300)])
    kind = rng.choice(["random", "path", "grid", "star", "empty", "parts", "complete"])
    E = set()
    if kind == "random":
        for _ in range(rng.randint(0, 3 * n)):
            E.add((rng.randrange(n), rng.randrange(n)))
    elif kind == "path":
        p = G.perm(rng, n)
        E = set(zip(p[:-1], p[1:]))
    elif kind == "grid":
        a, b = rng.randint(1, 15), rng.randint(1, 15)
        n = a * b
        p = G.perm(rng, n)
        for i in range(a):
            for j in range(b):
                if i + 1 < a:
                    E.add((p[i * b + j], p[(i + 1) * b + j]))
                if j + 1 < b:
                    E.add((p[i * b + j], p[i * b + j + 1]))
    elif kind == "star":
        c = rng.randrange(n)
        E = set((c, i) for i in range(n))
    elif kind == "complete":
        n = min(n, 25)
        E = set(itertools.combinations(range(n), 2))
    elif kind == "parts":
        p = G.perm(rng, n)
        k = rng.randint(1, 5)
        for i in range(n - 1):
            if rng.random() > k / n:
                E.add((p[i], p[i + 1]))
    adj = [set() for _ in range(n)]
    for a, b in E:
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    out = []
    for s in adj:
        l = sorted(s)
        rng.shuffle(l)
        out.append(l)
    return out, kind


def rcm(order, adj):
    """Reasons why order is not a reverse Cuthill-McKee ordering."""
    n = len(adj)
    pos = {c: i for i, c in enumerate(order[::-1])}
    cm = order[::-1]
    comp = [-1] * n
    k = 0
    for i in range(n):
        if comp[i] < 0:
            st = [i]
            comp[i] = k
            while st:
                x = st.pop()
                for y in adj[x]:
                    if comp[y] < 0:
                        comp[y] = k
                        st.append(y)
            k += 1
    seen = []
    for c in cm:
        if not seen or seen[-1] != comp[c]:
            seen.append(comp[c])
    if len(seen) != k:
        return "components are interleaved"
    last = None
    for i, c in enumerate(cm):
        if i == 0 or comp[cm[i - 1]] != comp[c]:
            last = None
            continue
        p = min(pos[x] for x in adj[c])
        if p > i:
            return "a vertex comes before all its neighbours"
        key = (p, len(adj[c]))
        if last is not None and key < last:
            return "vertices are not in the order of their first neighbour, then of their degree"
        last = key
    return ""


def judge(rng, mon, m, g, gi, adj, key):
    meth = rng.choice(["BOOST", "Boost", "METIS", "metis"])
    key = key + ":" + meth.lower()
    n = len(adj)
    r = m.RenumberingFactory(meth)
    mon.need(r is not None, key + ":factory")
    with G.Pure(mon, key, g, gi):
        n2o, o2n = r.renumber(g, gi)
    n2o, o2n = G.L(n2o), G.L(o2n)
    mon.need(sorted(n2o) == list(range(n)), key + ":permutation", got=n2o[:20])
    mon.eq([o2n[x] for x in n2o], list(range(n)), key + ":inverse")
    a, b = r.renumber(g, gi)
    mon.eq((G.L(a), G.L(b)), (n2o, o2n), key + ":again")
    if meth.lower() == "boost":
        mon.eq(rcm(n2o, adj), "", key + ":order")
    mon.mark(key, min(n, 50) // 10)
    mon.nontrivial = n > 2
    return n2o, o2n


def t_graph(rng, mon, m):
    adj, kind = graph(rng)
    off = [0]
    for l in adj:
        off.append(off[-1] + len(l))
    judge(rng, mon, m, G.ids(m, [x for l in adj for x in l]), G.ids(m, off), adj, "graph:" + kind)


def t_mesh(rng, mon, m):
    """The renumbering of a mesh."""
    if rng.random() < 0.3:
        u = M.cmesh(rng, m)[0].buildUnstructured()
    else:
        u = M.anymesh(rng).um(m)
    g, gi = u.computeNeighborsOfCells()
    L, I = G.L(g), G.L(gi)
    adj = [L[a:b] for a, b in zip(I[:-1], I[1:])]
    if any(i not in adj[j] for i, l in enumerate(adj) for j in l):
        raise Skip("graph")
    n2o, o2n = judge(rng, mon, m, g, gi, adj, "mesh:%dd" % u.getMeshDimension())
    v = u.deepCopy()
    v.renumberCells(G.ids(m, o2n), True)
    c0 = [u.getNodeIdsOfCell(i) for i in range(len(adj))]
    mon.eq([v.getNodeIdsOfCell(i) for i in range(len(adj))], [c0[x] for x in n2o], "mesh:cells")
    L2, I2 = [G.L(x) for x in v.computeNeighborsOfCells()]
    got = [sorted(L2[a:b]) for a, b in zip(I2[:-1], I2[1:])]
    mon.eq(got, [sorted(o2n[y] for y in adj[x]) for x in n2o], "mesh:graph")


def t_factory(rng, mon, m):
    mon.eq(sorted(x.lower() for x in m.RenumberAvailableMethods()), ["boost", "metis"], "factory:available")
    mon.ok(set(m.RenumberAvailableMethods()) <= set(m.AllRenumberMethods()), "factory:all")
    mon.ok(m.RenumberingFactory(rng.choice(["", "foo", "boos", "metis2"])) is None, "factory:unknown")
    r = m.RenumberingFactory(rng.choice(["boost", "metis"]))
    g, gi = m.DataArrayInt([], 0, 1), m.DataArrayInt([0])
    a, b = r.renumber(g, gi)
    mon.eq((G.L(a), G.L(b)), ([], []), "factory:empty")
    mon.raises(lambda: r.renumber(m.DataArrayInt(), gi), "factory:not-allocated")
    mon.nontrivial = True


OPS = [("graph", t_graph), ("graph2", t_graph), ("mesh", t_mesh), ("factory", t_factory)]
FAMILIES = [G.table("renumber", OPS, 800, 3)]
