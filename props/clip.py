"""Reference measures of intersections of polygons and of polyhedra with planar faces (independent of the library)."""
import math


def cross2(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def area2(p):
    """Signed area, positive for anticlockwise polygons."""
    if len(p) < 3:
        return 0.
    o = p[0]
    return sum(cross2(o, p[k], p[k + 1]) for k in range(1, len(p) - 1)) / 2


def centroid2(p):
    o = p[0]
    s = x = y = 0.
    for k in range(1, len(p) - 1):
        a, b = p[k], p[k + 1]
        w = cross2(o, a, b)
        s += w
        x += w * (o[0] + a[0] + b[0])
        y += w * (o[1] + a[1] + b[1])
    return (x / (3 * s), y / (3 * s)) if s else o


def cut2(p, a, b):
    """The part of polygon p on the left of the line a-b."""
    r = []
    d = [cross2(a, b, q) for q in p]
    n = len(p)
    for k in range(n):
        j = (k + 1) % n
        if d[k] >= 0:
            r.append(p[k])
        if (d[k] > 0 > d[j]) or (d[k] < 0 < d[j]):
            t = d[k] / (d[k] - d[j])
            r.append((p[k][0] + t * (p[j][0] - p[k][0]), p[k][1] + t * (p[j][1] - p[k][1])))
    return r


def clip2(p, c):
    """p inside the convex anticlockwise polygon c."""
    for k in range(len(c)):
        if not p:
            break
        p = cut2(p, c[k], c[(k + 1) % len(c)])
    return p


def ccw(p):
    p = [(float(x[0]), float(x[1])) for x in p]
    return p if area2(p) > 0 else p[::-1]


def convex2(p):
    n = len(p)
    return all(cross2(p[k], p[(k + 1) % n], p[(k + 2) % n]) >= 0 for k in range(n))


def parts2(p):
    """[(sign, convex polygon)] whose signed sum is the indicator of the simple polygon p."""
    p = ccw(p)
    if convex2(p):
        return [(1., p)]
    r = []
    for k in range(1, len(p) - 1):
        t = [p[0], p[k], p[k + 1]]
        a = area2(t)
        if a:
            r.append((1., t) if a > 0 else (-1., t[::-1]))
    return r


def inter2(pa, pb, fn=None):
    """Area of the intersection (or the sum of sign * fn(piece)) of two polygons given by parts2."""
    s = 0.
    for x, a in pa:
        for y, b in pb:
            q = clip2(a, b)
            if len(q) > 2:
                s += x * y * (area2(q) if fn is None else fn(q))
    return s


def seg_in_convex(a, b, c):
    """Length of segment a-b inside the convex anticlockwise polygon c."""
    t0, t1 = 0., 1.
    for k in range(len(c)):
        u, v = c[k], c[(k + 1) % len(c)]
        da, db = cross2(u, v, a), cross2(u, v, b)
        if da < 0 and db < 0:
            return 0.
        if da < 0:
            t0 = max(t0, da / (da - db))
        elif db < 0:
            t1 = min(t1, da / (da - db))
    return max(0., t1 - t0) * math.dist(a, b)


# ------------------------------------------------------------------------------------------------- space
def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def areavec(p):
    o = p[0]
    s = [0., 0., 0.]
    for k in range(1, len(p) - 1):
        c = cross(sub(p[k], o), sub(p[k + 1], o))
        s[0] += c[0]
        s[1] += c[1]
        s[2] += c[2]
    return (s[0] / 2, s[1] / 2, s[2] / 2)


class Poly3:
    """A convex polyhedron: faces oriented outwards, with unit normals and offsets."""

    def __init__(self, faces):
        self.faces = []
        pts = [q for f in faces for q in f]
        self.lo = tuple(min(q[i] for q in pts) for i in range(3))
        self.hi = tuple(max(q[i] for q in pts) for i in range(3))
        g = tuple(sum(q[i] for q in pts) / len(pts) for i in range(3))
        for f in faces:
            a = areavec(f)
            n = math.sqrt(dot(a, a))
            if n == 0:
                continue
            u = (a[0] / n, a[1] / n, a[2] / n)
            d = sum(dot(u, q) for q in f) / len(f)
            if dot(u, g) > d:
                u, d, f = (-u[0], -u[1], -u[2]), -d, f[::-1]
            self.faces.append((f, u, d))

    def convex(self, eps):
        return all(dot(u, q) <= d + eps for _, u, d in self.faces for f, _, _ in self.faces for q in f)


def cut3(p, u, d, eps):
    """The part of the polygon p (in space) with u.x <= d."""
    r = []
    s = [dot(u, q) - d for q in p]
    n = len(p)
    for k in range(n):
        j = (k + 1) % n
        if s[k] <= eps:
            r.append(p[k])
        if (s[k] > eps and s[j] < -eps) or (s[k] < -eps and s[j] > eps):
            t = s[k] / (s[k] - s[j])
            a, b = p[k], p[j]
            r.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])))
    return r


def face_in(f, P, eps, skip=None):
    """The polygon f (in space) clipped by the convex polyhedron P."""
    for _, u, d in P.faces:
        f = cut3(f, u, d, eps)
        if len(f) < 3:
            return []
    return f


def apart(A, B):
    return any(A.lo[i] > B.hi[i] or B.lo[i] > A.hi[i] for i in range(3))


def vol_convex(A, B, eps):
    """Volume of the intersection of two convex polyhedra, by the divergence theorem."""
    if apart(A, B):
        return 0.
    v = 0.
    o = A.lo
    for f, u, d in A.faces:
        q = face_in(f, B, eps)
        if q:
            v += (d - dot(u, o)) * dot(areavec(q), u)
    for f, u, d in B.faces:
        same = False
        for _, w, e in A.faces:
            if dot(u, w) > 1 - 1e-12 and all(abs(dot(w, q) - e) <= 10 * eps for q in f):
                same = True
                break
        if same:
            continue
        q = face_in(f, A, eps)
        if q:
            v += (d - dot(u, o)) * dot(areavec(q), u)
    return v / 3


def parts3(faces, eps):
    """[(sign, Poly3)] for a polyhedron with planar faces oriented outwards."""
    faces = [[tuple(map(float, q)) for q in f] for f in faces]
    P = Poly3(faces)
    if P.convex(eps):
        return [(1., P)]
    r = []
    o = faces[0][0]
    for f in faces:
        if any(q == o for q in f):
            continue
        for k in range(1, len(f) - 1):
            a, b, c = f[0], f[k], f[k + 1]
            v = dot(sub(a, o), cross(sub(b, o), sub(c, o))) / 6
            if abs(v) > 1e-14:
                r.append((1. if v > 0 else -1., Poly3([[a, b, c], [o, a, b], [o, b, c], [o, c, a]])))
    return r


def inter3(pa, pb, eps):
    return sum(x * y * vol_convex(a, b, eps) for x, a in pa for y, b in pb)


def vol(faces):
    """Volume of a polyhedron with faces oriented outwards."""
    o = faces[0][0]
    return sum(dot(sub(f[0], o), areavec(f)) for f in faces) / 3


def moments_convex(A, B, eps, pts=None):
    """Volume and first moments of the intersection of two convex polyhedra; pts receives its vertices."""
    if apart(A, B):
        return 0., (0., 0., 0.)
    o = A.lo
    v, mx, my, mz = 0., 0., 0., 0.

    def add(q):
        nonlocal v, mx, my, mz
        if pts is not None:
            pts.extend(q)
        for k in range(1, len(q) - 1):
            a, b, c = sub(q[0], o), sub(q[k], o), sub(q[k + 1], o)
            t = dot(a, cross(b, c)) / 6
            v += t
            mx += t * (a[0] + b[0] + c[0]) / 4
            my += t * (a[1] + b[1] + c[1]) / 4
            mz += t * (a[2] + b[2] + c[2]) / 4
    for f, u, d in A.faces:
        q = face_in(f, B, eps)
        if q:
            add(q)
    for f, u, d in B.faces:
        if any(dot(u, w) > 1 - 1e-12 and all(abs(dot(w, q) - e) <= 10 * eps for q in f) for _, w, e in A.faces):
            continue
        q = face_in(f, A, eps)
        if q:
            add(q)
    return v, (mx + v * o[0], my + v * o[1], mz + v * o[2])
