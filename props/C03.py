"""Analytic expressions evaluated on arrays, fields and meshes."""
import math

import numpy as np

from props import gen as G
from props import mesh as M

RULE = ("Each case builds eight random expression trees (depth up to 5; + - * / ^, unary signs, comparisons inside if, "
        "min, max, 14 functions, constants in every number format, IVec..LVec), writes them with random spacing and "
        "brackets, evaluates them through one of the entry points of arrays, fields or meshes and compares with the "
        "tree evaluated in Python; or corrupts the text and requires a refusal. Trees whose value is ill conditioned "
        "or on the edge of a domain are drawn again. Non-trivial: at least one tree with an operator was compared.")
ASSUMPTIONS = ["IEEE double arithmetic of Python as reference, relative tolerance 1e-9",
               "left-to-right association of operators of one level, signs binding tighter than operators"]

FUN1 = {"cos": math.cos, "sin": math.sin, "tan": math.tan, "atan": math.atan, "exp": math.exp, "abs": abs,
        "sqrt": math.sqrt, "ln": math.log, "log": math.log, "log10": math.log10, "cosh": math.cosh,
        "sinh": math.sinh, "tanh": math.tanh, "acos": math.acos, "asin": math.asin}
POS = ("sqrt", "ln", "log", "log10")


class Bad(Exception):
    pass


def tree(rng, vars_, depth, comma=True, vec=()):
    r = rng.random()
    if depth == 0 or r < 0.12:
        k = rng.random()
        if vec and k < 0.25:
            return ("v", rng.choice(vec))
        if k < 0.65 and vars_:
            return ("v", rng.choice(vars_))
        return ("c", rng.choice([rng.randint(0, 12), round(rng.uniform(0, 9), 3), rng.uniform(0, 1)]))
    if r < 0.60:
        op = rng.choice("++--**/^")
        if op == "^":
            return ("^", tree(rng, vars_, depth - 1, comma, vec), rng.choice([
                ("c", rng.choice([0, 1, 2, 3, 0.5])), ("n", ("c", 1)), ("n", ("c", 2)),
                tree(rng, vars_, min(1, depth - 1), False, vec)]))
        return (op, tree(rng, vars_, depth - 1, comma, vec), tree(rng, vars_, depth - 1, comma, vec))
    if r < 0.68:
        return ("n", tree(rng, vars_, depth - 1, comma, vec))
    if r < 0.72:
        return ("p", tree(rng, vars_, depth - 1, comma, vec))
    if r < 0.90 or not comma:
        return ("f", rng.choice(sorted(FUN1)), tree(rng, vars_, depth - 1, comma, vec))
    if r < 0.96:
        return (rng.choice(["max", "min"]), tree(rng, vars_, depth - 1, False, vec), tree(rng, vars_, depth - 1, False, vec))
    if rng.random() < 0.5:  # simple sides, often equal
        ab = tuple(("v", rng.choice(vars_)) if vars_ and rng.random() < 0.7 else ("c", rng.choice([0, 1, 2, 3]))
                   for _ in range(2))
        return ("if", rng.choice("<>")) + ab + tuple(tree(rng, vars_, min(2, depth - 1), False, vec) for _ in range(2))
    return ("if", rng.choice("<>")) + tuple(tree(rng, vars_, min(2, depth - 1), False, vec) for _ in range(4))


def exact(t):
    """The value of the tree is known exactly."""
    return t[0] in "vc" or t[0] in "np" and exact(t[1])


def ev(t, env):
    k = t[0]
    if k == "c":
        return float(t[1])
    if k == "v":
        return env[t[1]]
    if k == "n":
        return -ev(t[1], env)
    if k == "p":
        return ev(t[1], env)
    if k == "f":
        x = ev(t[2], env)
        f = t[1]
        if exact(t[2]) and (f == "sqrt" and x == 0 or f in ("acos", "asin") and abs(x) == 1):
            return FUN1[f](x)
        if f in POS and x < 1e-3 or f in ("acos", "asin") and abs(x) > 0.98 or f in ("exp", "cosh", "sinh") and abs(x) > 12:
            raise Bad()
        if f == "tan" and abs(math.cos(x)) < 0.05 or f in ("cos", "sin", "tan") and abs(x) > 1e4:
            raise Bad()
        return chk(FUN1[f](x))
    if k in ("max", "min"):
        return (max if k == "max" else min)(ev(t[1], env), ev(t[2], env))
    if k == "if":
        a, b = ev(t[2], env), ev(t[3], env)
        if abs(a - b) < 1e-6 * max(1, abs(a)) and not (exact(t[2]) and exact(t[3])):
            raise Bad()
        c, d = ev(t[4], env), ev(t[5], env)
        return c if (a < b if t[1] == "<" else a > b) else d
    a, b = ev(t[1], env), ev(t[2], env)
    if k == "+" or k == "-":
        r = a + b if k == "+" else a - b
        if r != 0 and abs(r) < 1e-5 * max(abs(a), abs(b)):
            raise Bad()
        return chk(r)
    if k == "*":
        return chk(a * b)
    if k == "/":
        if abs(b) < 1e-3:
            raise Bad()
        return chk(a / b)
    if k == "^":
        if exact(t[1]) and a == 0 and b >= 0.1:
            return 0.
        if a < 1e-3 or abs(b) > 6:
            raise Bad()
        return chk(a ** b)
    raise AssertionError(k)


def chk(x):
    if abs(x) > 1e6 or (x != 0 and abs(x) < 1e-9):
        raise Bad()
    return x


def num(rng, v):
    if isinstance(v, int):
        return rng.choice(["%d", "%d.", "%d.0", "%de0", "%d.E+0"]) % v
    return rng.choice([repr(v), "%.17e" % v, ("%.17e" % v).replace("e", "E")])


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3}


def text(rng, t, sp):
    """(string, level): 4 for an operand which can be put anywhere."""
    def s():
        return " " if rng.random() < sp else ""
    k = t[0]
    if k == "c":
        return num(rng, t[1]), 4
    if k == "v":
        return t[1], 4
    if k in ("n", "p"):
        x, l = text(rng, t[1], sp)
        if l < 4 or t[1][0] in ("n", "p"):
            x = "(" + x + ")"
        return ("-" if k == "n" else "+") + s() + x, 2.5
    if k == "f":
        return t[1] + s() + "(" + s() + text(rng, t[2], sp)[0] + s() + ")", 4
    if k in ("max", "min"):
        return k + "(" + text(rng, t[1], sp)[0] + s() + "," + s() + text(rng, t[2], sp)[0] + ")", 4
    if k == "if":
        a, b, c, d = [text(rng, x, sp)[0] for x in t[2:]]
        return "if(" + a + s() + t[1] + s() + b + "," + c + s() + "," + d + ")", 4
    p = PREC[k]
    a, la = text(rng, t[1], sp)
    b, lb = text(rng, t[2], sp)
    if la < p or (k == "^" and la < 4) or rng.random() < 0.1:
        a = "(" + a + ")"
    if lb <= p and lb != 2.5 or (k == "^" and lb < 4 and t[2][0] not in ("n",)) or rng.random() < 0.1:
        b = "(" + b + ")"
    elif t[2][0] == "n" and k in "+-*/^" and rng.random() < 0.4:
        b = "(" + b + ")"
    return a + s() + k + s() + b, p


def uses(t, kind):
    return t[0] in kind or any(isinstance(x, tuple) and uses(x, kind) for x in t[1:])


def names(t):
    if t[0] == "v":
        return {t[1]}
    return set().union(*[names(x) for x in t[1:] if isinstance(x, tuple)] or [set()])


def nested(t, inside=False):
    """A comparison or a function of several arguments below another node, or a sign right before the name of a
    function: the parser may refuse it."""
    if t[0] in ("n", "p") and t[1][0] in ("f", "max", "min", "if"):
        return True
    if t[0] in ("if", "max", "min"):
        if inside:
            return True
        inside = True
    else:
        inside = True
    return any(isinstance(x, tuple) and nested(x, inside) for x in t[1:])


VARS = ["x", "y", "z", "t", "u1", "Ab", "v_2", "q"]
VEC = ["IVec", "JVec", "KVec", "LVec"]


def draw(rng, vars_, rows, envs, vec=(), single=False):
    """A tree defined on every environment."""
    for _ in range(200):
        t = tree(rng, vars_, rng.randint(1, 5), True, vec)
        if single and not names(t):
            continue
        try:
            return t, [ev(t, e) for e in envs]
        except (Bad, OverflowError, ValueError, ZeroDivisionError):
            continue
    return ("c", 2), [2.0 for _ in envs]


def expect(mon, fn, want, t, s, key):
    import medcoupling as m
    if nested(t):
        try:
            got = fn()
        except m.InterpKernelException:
            mon.note("nested-refused")
            return
        mon.note("nested-accepted")
    else:
        got = fn()
    mon.close(got, want, key, 1e-9, scale=max(1.0, np.abs(np.asarray(want)).max() if np.size(want) else 1), expr=s)


def t_arr(rng, mon, m):
    n, nc = rng.randint(1, 8), rng.randint(1, 4)
    vs = sorted(rng.sample(VARS, nc))
    a = np.array([rng.choice([rng.uniform(-3, 3), rng.uniform(0.1, 2), float(rng.randint(-2, 3))]) for _ in range(n * nc)]).reshape(n, nc)
    x = G.npd(m, a)
    t, want = draw(rng, vs, a, [dict(zip(vs, r)) for r in a.tolist()])
    s = text(rng, t, rng.choice([0, 0.3]))[0]
    used = sorted(names(t))
    mode = rng.choice(["func", "compo", "named", "unsafe"])
    mon.mark("arr", mode, t[0])
    out = rng.randint(1, 3)
    w = np.repeat(np.array(want).reshape(n, 1), out, 1)
    with G.Pure(mon, "applyFunc", x):
        if mode in ("func", "unsafe"):
            # variables in alphabetical order are the components
            env = [dict(zip(used, r)) for r in a.tolist()]
            try:
                w1 = np.repeat(np.array([ev(t, e) for e in env]).reshape(n, 1), out, 1)
            except (Bad, OverflowError, ValueError, ZeroDivisionError):
                return
            expect(mon, lambda: G.np2(x.applyFunc(out, s, mode == "func")), w1, t, s, "applyFunc")
        elif mode == "compo":
            o = G.perm(rng, nc)
            y = G.npd(m, a[:, o])
            y.setInfoOnComponents([vs[i] + rng.choice(["", " [m]"]) for i in o])
            expect(mon, lambda: G.np2(y.applyFuncCompo(out, s)), w, t, s, "applyFuncCompo")
        else:
            o = G.perm(rng, nc)
            y = G.npd(m, a[:, o])
            expect(mon, lambda: G.np2(y.applyFuncNamedCompo(out, [vs[i] for i in o], s)), w, t, s, "applyFuncNamedCompo")


def t_each(rng, mon, m):
    n, nc = rng.randint(1, 6), rng.randint(1, 4)
    a = np.array([rng.choice([rng.uniform(-3, 3), rng.uniform(0.1, 2), float(rng.randint(0, 3))]) for _ in range(n * nc)]).reshape(n, nc)
    x = G.npd(m, a)
    v = rng.choice(VARS)
    t, want = draw(rng, [v], a, [{v: r} for r in a.ravel().tolist()])
    s = text(rng, t, 0.2)[0]
    mon.mark("each", t[0])
    w = np.array(want).reshape(n, nc)
    with G.Pure(mon, "applyFunc1", x):
        expect(mon, lambda: G.np2(x.applyFunc(s)), w, t, s, "applyFunc:each")

    def on():
        y = G.npd(m, a)
        y.applyFuncOnThis(s)
        return G.np2(y)
    expect(mon, on, w, t, s, "applyFuncOnThis")


def t_vec(rng, mon, m):
    n, nc, out = rng.randint(1, 5), rng.randint(1, 3), rng.randint(1, 4)
    vs = sorted(rng.sample(VARS, nc))
    a = np.array([rng.choice([rng.uniform(-3, 3), rng.uniform(0.1, 2), float(rng.randint(0, 3))]) for _ in range(n * nc)]).reshape(n, nc)
    terms = []
    want = np.zeros((n, out))
    for c in rng.sample(range(out), rng.randint(1, out)):
        t, w = draw(rng, vs, a, [dict(zip(vs, r)) for r in a.tolist()])
        if nested(t) or uses(t, ("if", "max", "min")):
            t, w = ("+", ("v", vs[0]), ("c", 1)), a[:, 0] + 1
        terms.append("(" + text(rng, t, 0.1)[0] + ")*" + VEC[c])
        want[:, c] += np.array(w)
    s = "+".join(terms)
    mon.mark("vec", len(terms), out)
    y = G.npd(m, a)
    got = G.np2(y.applyFuncNamedCompo(out, vs, s))
    mon.close(got, want, "unit-vectors", 1e-9, scale=max(1., np.abs(want).max()), expr=s)
    if out < 4:
        mon.raises(lambda: y.applyFuncNamedCompo(out, vs, vs[0] + "*" + VEC[out]), "unit-vectors:too-high", out=out)


def t_field(rng, mon, m):
    k = rng.random()
    if k < 0.5:
        pm = M.anymesh(rng)
        u = pm.um(m)
        co = pm.coords
        bary = G.np2(u.computeCellCenterOfMass()) if True else None
    else:
        u, ax = M.cmesh(rng, m)
        co = np.array([[a[i] for a, i in zip(ax, reversed(ix))] for ix in np.ndindex(*[len(a) for a in reversed(ax)])])
        bary = G.np2(u.computeCellCenterOfMass())
    d = co.shape[1]
    u.checkConsistencyLight()
    vs = ["x", "y", "z"][:d]
    on = rng.choice([m.ON_CELLS, m.ON_NODES])
    loc = bary if on == m.ON_CELLS else co
    t, want = draw(rng, vs, loc, [dict(zip(vs, r)) for r in loc.tolist()])
    if set(names(t)) != set(vs) and rng.random() < 0.8:
        t = ("+", t, ("*", ("c", 2), ("v", vs[-1])))
        want = [w + 2 * r[-1] for w, r in zip(want, loc.tolist())]
    s = text(rng, t, 0.2)[0]
    mode = rng.choice(["plain", "compo", "named", "field"])
    mon.mark("field", mode, on)
    out = rng.randint(1, 2)
    w = np.repeat(np.array(want).reshape(-1, 1), out, 1)
    used = sorted(names(t))
    if mode == "plain" or mode == "field":
        if used != vs[:len(used)]:
            return
    if mode == "compo":
        if k < 0.5:
            u.getCoords().setInfoOnComponents(vs)
        else:
            for i, v in enumerate(vs):
                u.getCoordsAt(i).setInfoOnComponent(0, v)
    with G.Pure(mon, "fillFromAnalytic", u):
        if mode == "plain":
            expect(mon, lambda: G.np2(u.fillFromAnalytic(on, out, s).getArray()), w, t, s, "fillFromAnalytic")
        if mode == "named":
            expect(mon, lambda: G.np2(u.fillFromAnalyticNamedCompo(on, out, vs, s).getArray()), w, t, s,
                   "fillFromAnalyticNamedCompo")
    if mode == "compo":
        expect(mon, lambda: G.np2(u.fillFromAnalyticCompo(on, out, s).getArray()), w, t, s, "fillFromAnalyticCompo")
    if mode == "field":
        f = m.MEDCouplingFieldDouble(on, m.ONE_TIME)
        f.setMesh(u)

        def on_field():
            f.fillFromAnalytic(out, s)
            return G.np2(f.getArray())
        expect(mon, on_field, w, t, s, "field.fillFromAnalytic")
        g, a = M.field(rng, m, u, on, 1)
        t2, w2 = draw(rng, ["p"], a, [{"p": r} for r in a.ravel().tolist()])
        s2 = text(rng, t2, 0.1)[0]

        def on_field2():
            h = g.deepCopy()
            h.applyFunc(s2)
            return G.np2(h.getArray())
        expect(mon, on_field2, np.array(w2).reshape(-1, 1), t2, s2, "field.applyFunc")

        def on_field3():
            h = g.deepCopy()
            h.applyFunc(2, s2)
            return G.np2(h.getArray())
        if names(t2):
            expect(mon, on_field3, np.repeat(np.array(w2).reshape(-1, 1), 2, 1), t2, s2, "field.applyFunc:compo")


def t_bad(rng, mon, m):
    n = rng.randint(1, 9)
    a = np.array([[rng.uniform(0.5, 2), rng.uniform(0.5, 2)] for _ in range(n)])
    x = G.npd(m, a)
    t, _ = draw(rng, ["x", "y"], a, [dict(zip("xy", r)) for r in a.tolist()])
    s = text(rng, t, 0)[0]
    k = rng.randrange(9)
    mon.mark("bad", k)
    bad = {0: lambda: "(" + s, 1: lambda: s + ")", 2: lambda: s + rng.choice("+-*/^"),
           3: lambda: rng.choice("*/^") + "(" + s + ")", 4: lambda: "foo(" + s + ")",
           5: lambda: "cos(x,y)", 6: lambda: rng.choice(["max(x)", "if(x>y,x)", "cos()", "()", "x+()", "(x)*()", ""]),
           7: lambda: "x" + rng.choice(["*/", "/*", "^*", "*^", "+*", "-/"]) + "y",
           8: lambda: rng.choice(["1e", "2.e+", "x+3e", "0x10"])}[k]()
    mon.raises(lambda: x.applyFunc(1, bad), "malformed", expr=bad)
    mon.raises(lambda: x.applyFunc(1, "x+y+z"), "too-many-variables")
    mon.raises(lambda: x.applyFuncNamedCompo(1, ["x", "y"], "x+w"), "unknown-variable")
    # an evaluation error at one tuple is reported, not computed
    i = rng.randrange(n)
    b = a.copy()
    b[i, 0] = 0. if k % 2 else -1.
    e = rng.choice(["1/x+y", "y/x"]) if k % 2 else rng.choice(["sqrt(x)+y", "y-ln(x)", "log10(x)*y", "x^0.5+y", "acos(x-1)*y"])
    y = G.npd(m, b)
    with G.Pure(mon, "applyFunc:error", y):
        mon.raises(lambda: y.applyFunc(1, e), "evaluation-error", expr=e)
    mon.raises(lambda: y.keepSelectedComponents([0]).applyFunc(e.replace("y", "2")), "evaluation-error:each", expr=e)


OPS = [("arr", t_arr), ("each", t_each), ("vec", t_vec), ("field", t_field), ("arr", t_arr), ("bad", t_bad)]
FAMILIES = [G.table("expr", OPS, 2000, 8)]
