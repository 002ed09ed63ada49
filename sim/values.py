"""C17, C18: transforms, matrices, rectangles and lines as values: shared, handed on, moved by their owner, with calls cut short."""
import json
import math
import sys
from fractions import Fraction as F

from . import adorn as A, engine, harness, lib
from .harness import Exec, Result, alone, show

CAP = 4_000_000


# --- values in a comparable, unshared form
def freeze(v):
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if v != v:
        return "nan"
    n = type(v).__name__
    if n == "Transform":
        return "T", freeze(v.transform)
    if n == "BoundsRectangle":
        return "R", freeze((v.left, v.bottom, v.right, v.top))
    return v


def lists(v, depth):
    """Nested lists down to `depth`, tuples below: a segment is a list of points, a matrix a list of lists."""
    return [lists(x, depth - 1) for x in v] if depth else tuple(v)


DEPTH = {"pt": 0, "seg": 1, "contour": 2, "contours": 3, "mat": 2}


def thaw(L, kind, v):
    if kind == "tf":
        return L.get("Transform").Transform([list(r) for r in v[1]])
    if kind == "rect":
        return rect(L, v[1])
    if kind == "mat":
        return [list(r) for r in v]
    if kind == "row":
        return list(v)
    if kind in DEPTH:
        return lists(v, DEPTH[kind])
    return v


def rect(L, e):
    r = L.get("PathUtilities").BoundsRectangle()
    r.left, r.bottom, r.right, r.top = e
    return r


def build(L, spec):
    k, v = spec["k"], spec["v"]
    if k == "tf":
        return make(L, v[0], v[1:])
    if k == "rect":
        return L.get("PathUtilities").BoundsRectangle(*[tuple(p) for p in v])
    if k == "mat":
        return [list(r) for r in v]
    return list(v) if k == "row" else lists(v, DEPTH[k])


# what an argument left out stands for
DEFAULTS = {"scale": [1, 1], "shear": [0, 0], "mirror": [False, False], "rotation": [90, True], "perspective": [0, 0, 1], "rotationAbout": [None, 90, True],
            "mirrorAround": [None, False, False], "perspectiveFrom": [None, 0, 0]}


def short(args, defaults):
    """The arguments, without those at the end that need not be given."""
    args = list(args)
    while args and len(args) <= len(defaults) and args[-1] is not None and args[-1] == defaults[len(args) - 1]:
        args.pop()
    return args


def make(L, ctor, args):
    return getattr(L.get("Transform").Transform, ctor)(*[tuple(a) if isinstance(a, list) else a for a in short(args, DEFAULTS.get(ctor, []))])


# --- what can be asked
def PU(L):
    return L.get("PathUtilities")


def T(L):
    return L.get("Transform").Transform


def CF(L):
    return L.get("CurveFitting")


def info(r):
    return [r.width, r.height, r.area, r.diagonal, r.contour, r.centerPoint, r.points, str(r)]


def line(p, s):
    return [p.slope(s), p.slopeAngle(s), p.rawSlopeAngle(s), p.midpoint(s), p.length(s), p.isVerticalLine(s), p.isHorizontalLine(s),
            p.isDiagonalLine(s), p.endPoints(s), p.getDeltas(s)]


OPS = {
    # name: (kinds of arguments, kind of the answer, how)
    "make": (None, "tf", lambda L, ctor, *a: make(L, ctor, a)),
    "cat": ("tf+", "tf", lambda L, *t: T(L)(*[x.transform for x in t])),
    "pt": (["tf", "pt"], "pt", lambda L, t, p: t.applyToPoint(p)),
    "seg": (["tf", "seg"], "seg", lambda L, t, s: t.applyToSegment(s)),
    "con": (["tf", "contour"], "contour", lambda L, t, c: t.applyToContour(c)),
    "cons": (["tf", "contours"], "contours", lambda L, t, c: t.applyToContours(c)),
    "rm": (["row", "mat"], "row", lambda L, r, m: T(L).multiplyRowByMatrix(r, m)),
    "mm": (["mat", "mat"], "mat", lambda L, a, b: T(L).multiplyMatrixByMatrix(a, b)),
    "cm": ("mat+", "mat", lambda L, *m: T(L).concatenateMatrices(*m)),
    "rotpt": (["pt", "pt", None, None], "pt", lambda L, x, c, d, w: PU(L).rotatePointAbout(x, c, *short([d, w], [90, True]))),
    "rotseg": (["seg", "pt", None, None], "seg", lambda L, x, c, d, w: PU(L).rotateSegmentAbout(x, c, *short([d, w], [90, True]))),
    "rotcon": (["contour", "pt", None, None], "contour", lambda L, x, c, d, w: PU(L).rotateContourAbout(x, c, *short([d, w], [90, True]))),
    "rotcons": (["contours", "pt", None, None], "contours", lambda L, x, c, d, w: PU(L).rotateContoursAbout(x, c, *short([d, w], [90, True]))),
    "inv": (["mat"], "mat", lambda L, m: L.get("MatrixInversion").matrixInvert(m)),
    "mul": (["mat", "mat"], "mat", lambda L, a, b: CF(L).multiply(a, b)),
    "tr": (["mat"], "mat", lambda L, m: CF(L).transpose(m)),
    "rect": (["seg"], "rect", lambda L, s: PU(L).BoundsRectangle(*s)),
    "rectc": (["contour"], "rect", lambda L, c: PU(L).BoundsRectangle.fromContour(c)),
    "rectcs": (["contours"], "rect", lambda L, c: PU(L).BoundsRectangle.fromCoutours(c)),
    "union": (["rect", "rect"], "rect", lambda L, a, b: a.union(b)),
    "inter": (["rect", "rect"], "rect", lambda L, a, b: a.intersection(b)),
    "enc": (["rect", "rect"], None, lambda L, a, b: a.encloses(b)),
    "rel": (["rect", "rect"], None, lambda L, a, b: a.relationTo(b)),
    "encp": (["rect", "pt"], None, lambda L, a, p: a.enclosesPoint(p)),
    "cross": (["rect", "pt"], None, lambda L, a, p: [a.crossesX(p[0]), a.crossesY(p[1])]),
    "from": (["rect", None], None, lambda L, a, k: [a.xFromLeft(k), a.yFromBottom(k)]),
    "info": (["rect"], None, lambda L, a: info(a)),
    "outline": (["rect"], "contour", lambda L, a: a.contour),
    "line": (["seg"], None, lambda L, s: line(PU(L), s)),
    "linec": (["seg"], None, lambda L, s: line(PU(L), [complex(*p) for p in s])),
    "x": (["seg", "seg"], None, lambda L, a, b: PU(L).intersectionPoint(a, b)),
    "on": (["pt", "seg"], None, lambda L, p, s: PU(L).pointOnLine(p, s)),
    "flat": (["contours"], "flat", lambda L, c: PU(L).flatten(c)),
    "misc": (["pt"], None, lambda L, p: [PU(L).minMax(*p), PU(L).toMicros(p[0], 1000), PU(L).pointXY(complex(*p)), PU(L).pointXY(p)]),
}
C17 = ["make", "cat", "pt", "seg", "con", "cons", "rm", "mm", "cm", "rotpt", "rotseg", "rotcon", "rotcons", "inv", "mul", "tr"]
C18 = ["rect", "rectc", "rectcs", "union", "inter", "enc", "rel", "encp", "cross", "from", "info", "outline", "line", "line", "linec", "x", "on", "flat", "misc"]
EDGES = ["left", "bottom", "right", "top"]


# --- what the answers should be, in exact arithmetic: values come with the size of what they were summed from
def ex(m):
    return [[(F(v), abs(F(v))) for v in r] for r in m]


def xmul(a, b):
    return [[(sum(a[i][k][0] * b[k][j][0] for k in range(len(b))), sum(a[i][k][1] * b[k][j][1] for k in range(len(b))))
             for j in range(len(b[0]))] for i in range(len(a))]


def near(got, want, k=F(1, 10 ** 12)):
    v, mag = want
    return isinstance(got, (int, float)) and math.isfinite(got) and abs(F(got) - v) <= k * mag


def mat_bad(got, want):
    if not isinstance(got, tuple) or len(got) != len(want) or any(len(g) != len(w) for g, w in zip(got, want)):
        return "shape"
    return None if all(near(g, w) for gr, wr in zip(got, want) for g, w in zip(gr, wr)) else "value"


def xmat(a=1, b=0, c=0, d=1, m=0, n=0, p=0, q=0, s=1):
    return [[v if isinstance(v, tuple) else (F(v), abs(F(v))) for v in r] for r in ((a, b, p), (c, d, q), (m, n, s))]


def turn(deg, ccw):
    s, c = F(math.sin(math.radians(deg))), F(math.cos(math.radians(deg)))
    one = F(1)
    s = s if ccw else -s
    return xmat(a=(c, one), b=(s, one), c=(-s, one), d=(c, one))


def shift(f, t):
    v = [(F(t[i]) - F(f[i]), abs(F(t[i])) + abs(F(f[i]))) for i in range(2)]
    return xmat(m=v[0], n=v[1])


def xmake(ctor, a):
    o = (0, 0)
    if ctor == "translate":
        return shift(*a)
    if ctor == "scale":
        return xmat(a=a[0], d=a[1])
    if ctor == "shear":
        return xmat(b=a[1], c=a[0])
    if ctor == "mirror":
        return xmat(a=-1 if a[1] else 1, d=-1 if a[0] else 1)
    if ctor == "rotation":
        return turn(*a)
    if ctor == "perspective":
        return xmat(p=a[0], q=a[1], s=a[2])
    if ctor == "moveAndRotate":
        return xmul(shift(a[0], a[1]), turn(a[2], True))
    if ctor == "rotateAndMove":
        return xmul(turn(a[2], True), shift(a[0], a[1]))
    if ctor == "rotationAbout":
        return xmul(xmul(shift(a[0], o), turn(a[1], a[2])), shift(o, a[0]))
    if ctor == "mirrorAround":
        x, y = F(a[0][0]), F(a[0][1])
        return xmat(a=-1 if a[2] else 1, d=-1 if a[1] else 1, m=(2 * x if a[2] else F(0), 2 * abs(x)), n=(2 * y if a[1] else F(0), 2 * abs(y)))
    if ctor == "perspectiveFrom":
        return xmul(xmul(shift(a[0], o), xmat(p=a[1], q=a[2])), shift(o, a[0]))
    raise ValueError(ctor)


def apt_bad(m, p, got):
    """Point p mapped by the matrix m (with sizes)?"""
    (x, mx), (y, my), (w, mw) = xmul([[(F(p[0]), abs(F(p[0]))), (F(p[1]), abs(F(p[1]))), (F(1), F(1))]], m)[0]
    if abs(w) <= mw / 10 ** 6:
        return None
    if not isinstance(got, tuple) or len(got) != 2:
        return "shape"
    ok = near(got[0], (x / w, mx / abs(w) + abs(x) * mw / (w * w))) and near(got[1], (y / w, my / abs(w) + abs(y) * mw / (w * w)))
    return None if ok else "value"


def map_bad(m, v, got, depth):
    if depth == 0:
        return apt_bad(m, v, got)
    if not isinstance(got, tuple) or len(got) != len(v):
        return "shape"
    return next((b for b in (map_bad(m, x, g, depth - 1) for x, g in zip(v, got)) if b), None)


def inv_bad(m, got):
    n = len(m)
    if any(len(r) != n for r in m):
        return None if got is None else "non-square, yet an inverse"
    if any(not any(r) for r in m) or any(not any(r[j] for r in m) for j in range(n)):
        return None if got is None else "a row or column of zeros, yet an inverse"
    c = [[F(v) for v in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        k = next((k for k in range(i, n) if c[k][i] != 0), None)
        if k is None:
            return None  # singular, which rounding can hide
        c[i], c[k] = c[k], c[i]
        e = c[i][i]
        c[i] = [v / e for v in c[i]]
        for k in range(n):
            if k != i and c[k][i]:
                f = c[k][i]
                c[k] = [a - f * b for a, b in zip(c[k], c[i])]
    want = [r[n:] for r in c]
    big = max(abs(v) for r in want for v in r)
    cond = n * max(abs(F(v)) for r in m for v in r) * big
    if cond > 10 ** 8:
        return None  # too ill-conditioned for floats
    tol = F(1, 10 ** 14) * n * n * cond * big
    if not isinstance(got, tuple) or len(got) != n or any(len(r) != n for r in got):
        return "shape"
    return None if all(abs(F(g) - w) <= tol for gr, wr in zip(got, want) for g, w in zip(gr, wr)) else f"expected {[[float(v) for v in r] for r in want]}"


def box(pts):
    return (min((p[0] for p in pts), default=math.inf), min((p[1] for p in pts), default=math.inf),
            max((p[0] for p in pts), default=-math.inf), max((p[1] for p in pts), default=-math.inf))


def enc(a, b):
    return a[0] <= b[0] and a[1] <= b[1] and a[2] >= b[2] and a[3] >= b[3]


def hit(a, b):
    return max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3])


def close(got, want, size):
    return isinstance(got, (int, float)) and math.isfinite(got) and abs(F(got) - F(want)) <= F(1, 10 ** 12) * F(size)


def dyadic(*pts):
    return all(F(v).denominator <= 8 and abs(v) < 1 << 20 for p in pts for v in p)


def info_bad(e, got):
    l, b, r, t = e
    w, h = F(r) - F(l), F(t) - F(b)
    size = max(abs(v) for v in e)
    if not (close(got[0], w, abs(w)) and close(got[1], h, abs(h)) and close(got[2], w * h, abs(w * h))):
        return f"width, height, area {got[:3]}"
    if got[3] != ((l, b), (r, t)) or got[6] != e:
        return f"diagonal {got[3]} or points {got[6]}"
    if got[4] != (((l, b), (l, t)), ((l, t), (r, t)), ((r, t), (r, b)), ((r, b), (l, b))):
        return f"contour {got[4]}"
    if not (close(got[5][0], (F(l) + F(r)) / 2, size) and close(got[5][1], (F(b) + F(t)) / 2, size)):
        return f"centre {got[5]}"


def line_bad(s, got):
    (x0, y0), (x1, y1) = s[0], s[-1]
    dx, dy = F(x1) - F(x0), F(y1) - F(y0)
    slope, sa, ra, mid, ln, isv, ish, isd, ends, deltas = got
    if (slope != math.inf) if dx == 0 else not close(slope, dy / dx, abs(dy / dx)):
        return f"slope {slope}"
    if abs(sa - math.degrees(math.atan2(abs(dx), abs(dy)))) > 1e-9 or abs(ra - math.degrees(math.atan2(dy, dx))) > 1e-9:
        return f"angles {sa}, {ra}"
    if not close(mid[0], (F(x0) + F(x1)) / 2, abs(x0) + abs(x1)) or not close(mid[1], (F(y0) + F(y1)) / 2, abs(y0) + abs(y1)):
        return f"midpoint {mid}"
    if abs(ln - math.hypot(dx, dy)) > 1e-9 * ln:
        return f"length {ln}"
    two = len(s) == 2
    if (bool(isv), bool(ish), bool(isd)) != (two and dx == 0, two and dy == 0, two and dx != 0 and dy != 0):
        return f"vertical, horizontal, diagonal: {isv}, {ish}, {isd}"
    if ends != (x0, y0, x1, y1) or not close(deltas[0], dx, abs(dx)) or not close(deltas[1], dy, abs(dy)):
        return f"ends {ends}, deltas {deltas}"


def cross_bad(a, b, got):
    (ax, ay), (bx, by) = [[F(v) for v in p] for p in a]
    (cx, cy), (dx, dy) = [[F(v) for v in p] for p in b]
    d1, d2 = (bx - ax, by - ay), (dx - cx, dy - cy)
    den = d1[0] * d2[1] - d1[1] * d2[0]
    l1, l2 = math.hypot(*d1), math.hypot(*d2)
    if den == 0:
        return None if got is None or not dyadic(*a, *b) else f"lines are parallel, yet cross at {got}"
    size = max(abs(v) for p in (*a, *b) for v in p)
    sine = abs(float(den)) / (l1 * l2)
    tol = 1e-13 * (float(size) ** 2 / (min(l1, l2) * sine) + float(size))
    e = max(1e-6, tol / (min(l1, l2) * sine))
    if sine < 1e-6 or e > 1e-3:
        return None
    t = ((cx - ax) * d2[1] - (cy - ay) * d2[0]) / den
    u = ((cx - ax) * d1[1] - (cy - ay) * d1[0]) / den
    if min(t, u) > e and max(t, u) < 1 - e:
        w = (float(ax + t * d1[0]), float(ay + t * d1[1]))
        if got is None or math.dist(got, w) > tol:
            return f"crossing at {w} reported as {got}"
    elif (min(t, u) < -e or max(t, u) > 1 + e) and got is not None:
        return f"no crossing within both, yet {got}"
    elif got is not None and math.dist(got, (float(ax + t * d1[0]), float(ay + t * d1[1]))) > tol:
        return f"crossing at {got}"


def on_bad(p, s, got):
    if not dyadic(p, *s):
        return None
    (x0, y0), (x1, y1), (x, y) = s[0], s[-1], p
    b = box(s)
    want = b[0] <= x <= b[2] and b[1] <= y <= b[3] and (x1 - x0) * (y - y0) == (y1 - y0) * (x - x0)
    return None if bool(got) == want else f"{p} on {s}: {got}"


def judge(f, a, r):
    """A complaint about answer r to f(a), or None."""
    if f == "make":
        return mat_bad(r[1], xmake(a[0], a[1:]))
    if f in ("cat", "cm"):
        ms = [ex(x[1] if f == "cat" else x) for x in a]
        w = ms[0]
        for m in ms[1:]:
            w = xmul(w, m)
        return mat_bad(r[1] if f == "cat" else r, w)
    if f in ("pt", "seg", "con", "cons"):
        return map_bad(ex(a[0][1]), a[1], r, ["pt", "seg", "con", "cons"].index(f))
    if f in ("rotpt", "rotseg", "rotcon", "rotcons"):
        return map_bad(xmake("rotationAbout", a[1:]), a[0], r, ["rotpt", "rotseg", "rotcon", "rotcons"].index(f))
    if f == "rm":
        return mat_bad((r,), xmul(ex([a[0]]), ex(a[1])))
    if f in ("mm", "mul"):
        return mat_bad(r, xmul(ex(a[0]), ex(a[1])))
    if f == "tr":
        return None if r == tuple(zip(*a[0])) else "value"
    if f == "inv":
        return inv_bad(a[0], r)
    if f in ("rect", "rectc", "rectcs"):
        pts = a[0] if f == "rect" else [p for s in a[0] for p in s] if f == "rectc" else [p for c in a[0] for s in c for p in s]
        return None if r[1] == box(pts) else f"expected {box(pts)}"
    if f in ("union", "inter", "enc", "rel", "encp", "cross", "from", "info", "outline"):
        x = a[0][1]
        y = a[1][1] if len(a) > 1 and isinstance(a[1], tuple) and a[1][0] == "R" else None
        if f == "union":
            w = (min(x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]), max(x[3], y[3]))
            return None if r[1] == w else f"expected {w}"
        if any(math.isinf(v) for v in x + (y or ())) or x[0] > x[2] or x[1] > x[3] or y and (y[0] > y[2] or y[1] > y[3]):
            return None  # empty, or turned inside out by its owner
        if f == "inter":
            w = hit(x, y)
            w = None if w[2] < w[0] or w[3] < w[1] else w
            return None if (r and r[1]) == w else f"expected {w}"
        if f == "enc":
            return None if bool(r) == enc(x, y) else f"{r}"
        if f == "rel":
            w = hit(x, y)
            w = 0 if enc(x, y) else 1 if enc(y, x) else 3 if w[2] < w[0] or w[3] < w[1] else 2
            return None if r == w else f"expected {w}"
        if f == "encp":
            return None if bool(r) == enc(x, a[1] * 2) else f"{r}"
        if f == "cross":
            w = (x[0] <= a[1][0] <= x[2], x[1] <= a[1][1] <= x[3])
            return None if r == w else f"expected {w}"
        if f == "from":
            k = F(a[1])
            ok = close(r[0], F(x[0]) + (F(x[2]) - F(x[0])) * k, 2 * max(abs(v) for v in x)) and \
                close(r[1], F(x[1]) + (F(x[3]) - F(x[1])) * k, 2 * max(abs(v) for v in x))
            return None if ok else f"{r}"
        if f == "outline":
            l, b, rr, t = x
            return None if r == (((l, b), (l, t)), ((l, t), (rr, t)), ((rr, t), (rr, b)), ((rr, b), (l, b))) else f"{r}"
        return info_bad(x, r)
    if f in ("line", "linec"):
        return line_bad(a[0], r)
    if f == "x":
        return cross_bad(a[0], a[1], r)
    if f == "on":
        return on_bad(a[0], a[1], r)
    if f == "flat":
        return None if r == tuple(s for c in a[0] for s in c) else f"{r}"
    if f == "misc":
        x, y = a[0]
        ok = r[0] == (min(x, y), max(x, y)) and close(r[1], x, abs(x)) and r[2] == (x, y) and r[3] == (x, y)
        return None if ok else f"{r}"


# --- a run
def kind_of(v):
    if isinstance(v, tuple) and v and v[0] == "T":
        return "tf"
    return "rect" if isinstance(v, tuple) and v and v[0] == "R" else None


def alter(v, how, flat=False):
    """The owner of a list of numbers or points alters it."""
    if flat:  # (its members are still the contours')
        v.append(how)
        return
    while v and isinstance(v[0], list):
        v = v[how % len(v)]
    if not isinstance(v, list) or not v:
        return
    if isinstance(v[0], tuple):
        v[how % len(v)] = (v[0][0] + 1000 + how, -5)
    else:
        v[how % len(v)] += 1000 + how


def run(scn, trace=None):
    res = Result()
    L = lib.fresh()
    for n in ("Transform", "PathUtilities", "CurveFitting", "MatrixInversion"):
        L.get(n)
    env = {n: build(L, s) for n, s in scn["objs"].items()}
    truth = {n: freeze(v) for n, v in env.items()}
    kinds = {n: s["k"] for n, s in scn["objs"].items()}
    exe = Exec(scn, res, trace)
    asked = []   # (thread, op index, op, kinds of arguments, arguments as they should be, outcome, answer)
    held = []    # answers handed out, and what they were

    def body(tid):
        mine, was, kind = dict(env), dict(truth), dict(kinds)

        def sync():  # what is shared can only be changed by its owner
            for n, v in mine.items():
                if trace is None and freeze(v) != was[n]:
                    res.bad("altered", f"thread {tid} op {oi} {o}: {n} was {was[n]}, is now {freeze(v)}")
                    was[n] = freeze(v)
        for oi, o in enumerate(scn["threads"][tid]["ops"]):
            names = [a[1:] for a in o["a"] if isinstance(a, str) and a[0] == "$"]
            if any(n not in mine for n in names):
                continue
            if o["f"] == "move":
                n, e, v = names[0], o["a"][1], o["a"][2]
                setattr(mine[n], e, v)
                w = list(was[n][1])
                w[EDGES.index(e)] = v
                was[n] = "R", tuple(w)
                for h in held:
                    if h[0] is mine[n]:
                        h[1] = was[n]
                continue
            if o["f"] == "poke":
                n = names[0]
                alter(mine[n], o["a"][1], kind[n] == "flat")
                was[n] = freeze(mine[n])
                for h in held:
                    if h[0] is mine[n]:
                        h[1] = was[n]
                continue
            args, frozen, ks = [], [], []
            for a in o["a"]:
                if isinstance(a, str) and a[0] == "$":
                    args.append(mine[a[1:]])
                    frozen.append(was[a[1:]])
                    ks.append(kind[a[1:]])
                elif isinstance(a, dict):
                    args.append(build(L, a))
                    frozen.append(freeze(args[-1]))
                    ks.append(a["k"])
                else:
                    args.append(a)
                    frozen.append(freeze(a))
                    ks.append(None)
            inline = [(x, f) for x, f, a in zip(args, frozen, o["a"]) if isinstance(a, dict)]
            how = OPS[o["f"]][2]
            r = exe.call(tid, oi, lambda: how(L, *args), CAP)
            got = freeze(r.raw) if r.ok else None
            if r.ok and o.get("as") and r.raw is not None:
                mine[o["as"]], was[o["as"]], kind[o["as"]] = r.raw, got, OPS[o["f"]][1]
            if trace is None:
                if r.ok and isinstance(r.raw, (list, tuple)) or kind_of(got):
                    held.append([r.raw, got, f"thread {tid} op {oi} {o}"])
                asked.append((tid, oi, o, ks, frozen, r, got))
                for x, f in inline:
                    if freeze(x) != f:
                        res.bad("altered", f"thread {tid} op {oi} {o} altered its argument {f} to {freeze(x)}")
                if len(scn["threads"]) == 1:
                    sync()
            r.raw = args = inline = None
        oi, o = "end", ""
        if len(scn["threads"]) == 1:
            sync()
    exe.go([(lambda i=i: body(i)) for i in range(len(scn["threads"]))])
    if trace is not None:
        return res
    for n, v in env.items():
        if len(scn["threads"]) > 1 and freeze(v) != truth[n]:
            res.bad("altered", f"{n} was {truth[n]}, is now {freeze(v)}")
    for v, f, where in held:
        if freeze(v) != f:
            res.bad("answer changed", f"the answer to {where} was {f}, is now {freeze(v)}")
    for tid, oi, o, ks, frozen, r, got in asked:
        where = f"thread {tid} op {oi} {o['f']}{show([repr(x) for x in frozen])}"
        if r.out in ("budget", "deadlock"):
            res.bad("liveness", f"{where} does not finish")
            continue
        if r.cut:
            continue
        M = lib.fresh()
        want = alone(lambda: OPS[o["f"]][2](M, *[thaw(M, k, v) if k else v for k, v in zip(ks, frozen)]), CAP)
        wf = freeze(want.raw) if want.ok else None
        if r.out != want.out or got != wf:
            res.bad("answer", f"{where}: {r.out} {got}; alone: {want.out} {wf}")
        elif r.ok:
            bad = judge(o["f"], frozen, got)
            if bad:
                res.bad("value", f"{where} = {got}: {bad}")
        elif not (r.out == "exc:ZeroDivisionError" and o["f"] in ("pt", "seg", "con", "cons")):
            res.bad("exception", f"{where} raised {r.out[4:]}")
        L.activate()
    res.signature += json.dumps([t["ops"] for t in scn["threads"]])
    fired = res.stats["switches"] + sum(res.stats["faults"].values())
    res.nontrivial = bool(fired) or len(scn["threads"]) == 1
    return res


# --- scenarios
def number(rng, fam):
    if fam == "int":
        return rng.randint(-60, 60)
    if fam == "half":
        return rng.randint(-100, 100) / 2
    if fam == "tenth":
        return rng.randint(-500, 500) / 10
    if fam == "big":
        return rng.randint(-60000, 60000)
    if fam == "tiny":
        return rng.uniform(-1e-3, 1e-3)
    return rng.uniform(-300, 300)


def point(rng, fam):
    x = number(rng, fam)
    return [x, x if rng.random() < 0.04 else number(rng, fam)]


def segment(rng, fam, n=None):
    s = [point(rng, fam) for _ in range(n or rng.choice([2, 2, 2, 2, 2, 3, 3, 4, 4, 6]))]
    r = rng.random()
    if len(s) == 2 and r < 0.4:
        s[1][r < 0.2] = s[0][r < 0.2]
    return s


def matrix(rng, fam, n=None, square=True):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 5])
    k = n if square else rng.choice([n + 1, max(1, n - 1), n + 2])

    def small():
        return rng.randint(-9, 9) if fam != "float" else rng.uniform(-9, 9)
    m = [[small() for _ in range(k)] for _ in range(n)]
    r = rng.random()
    if not square:
        return m
    if r < 0.45:  # rows that dominate, in any order
        for i in range(n):
            m[i][i] = (sum(abs(v) for v in m[i]) + 1) * rng.choice([1, -1])
        if rng.random() < 0.5:
            rng.shuffle(m)
    elif r < 0.55:  # triangular
        for i in range(n):
            m[i][i] = m[i][i] or 1
            for j in range(i):
                m[i][j] = 0
        if rng.random() < 0.5:
            m.reverse()
    elif r < 0.65:
        i = rng.randrange(n)
        for j in range(n):
            if rng.random() < 0.5:
                m[i] = [0] * n
            else:
                m[j][i] = 0
    elif r < 0.8:  # a zero on the diagonal
        i = rng.randrange(n)
        m[i][i] = 0
    elif r < 0.9 and n > 1:
        m[0] = list(m[1])
    if rng.random() < 0.15:  # in other units
        u = rng.choice([2.0 ** -20, 2.0 ** -40, 2.0 ** 30])
        m = [[v * u for v in row] for row in m]
    return m


def transform(rng, fam):
    deg = rng.choice([0, 30, 45, 90, 180, 270, -90, 360, rng.randint(-720, 720), rng.uniform(-360, 360)])
    if rng.random() < 0.1:  # next to a round angle
        deg = rng.choice([0, 45, 90, 180, -90]) + rng.choice([1, -1]) * rng.choice([1e-6, 1e-4, 5e-4, 0.01, 0.3])
    flag = rng.random() < 0.5, rng.random() < 0.5
    small = rng.choice([0, 0.001, -0.002, 0.01])
    if rng.random() < 0.1:  # some arguments left out
        return rng.choice([["scale", 3, 1], ["scale", 1, 1], ["shear", 0.5, 0], ["mirror", True, False], ["rotation", 90, True], ["perspective", 0.001, 0, 1],
                           ["rotationAbout", point(rng, fam), 90, True], ["mirrorAround", point(rng, fam), True, False], ["perspectiveFrom", point(rng, fam), 0.001, 0]])
    return rng.choice([
        ["translate", point(rng, fam), point(rng, fam)], ["scale", rng.choice([2, 0.5, -1, 3, 0.1]), rng.choice([2, 1, -1, 0.25, 7])],
        ["shear", rng.choice([0, 1, 0.5, -2]), rng.choice([0, 1, 0.25])], ["mirror", *flag], ["rotation", deg, flag[0]],
        ["perspective", small, -small / 2, rng.choice([1, 1, 2])], ["moveAndRotate", point(rng, fam), point(rng, fam), deg],
        ["rotateAndMove", point(rng, fam), point(rng, fam), deg], ["rotationAbout", point(rng, fam), deg, flag[0]],
        ["mirrorAround", point(rng, fam), *flag], ["perspectiveFrom", point(rng, fam), small, small]])


def value(rng, kind, fam):
    if kind == "pt":
        v = point(rng, fam)
    elif kind == "seg":
        v = segment(rng, fam)
    elif kind == "contour":
        v = [segment(rng, fam) for _ in range(rng.choice([1, 2, 3]))]
    elif kind == "contours":
        v = [[segment(rng, fam) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([0, 1, 2, 3]))]
    elif kind == "mat":
        v = matrix(rng, fam)
    elif kind == "row":
        v = [number(rng, fam) for _ in range(3)]
    elif kind == "tf":
        v = transform(rng, fam)
    else:
        v = [point(rng, fam) for _ in range(rng.choice([0, 1, 2, 2, 2, 3]) if rng.random() < 0.3 else 2)]
    return {"k": kind, "v": v}


def nudge(rng, spec):
    """Almost the same value."""
    s = json.loads(json.dumps(spec))
    v = s["v"]
    while v and isinstance(v[-1], list):
        v = v[rng.randrange(len(v))] if all(isinstance(x, list) for x in v) else v[-1]
    for i in rng.sample(range(len(v)), len(v)):
        if isinstance(v[i], (int, float)) and not isinstance(v[i], bool):
            v[i] += rng.choice([1e-7, -1e-4, 1, 0.25])
            break
    return s


class Gen:
    def __init__(self, rng, ops):
        self.rng, self.ops = rng, ops
        self.fam = rng.choice(["int", "int", "half", "tenth", "float", "big", "tiny"])
        self.objs = {}
        self.last, self.fresh = None, False
        kinds = ["pt", "seg", "contour", "contours", "tf", "tf", "mat", "row"] if ops is C17 else ["pt", "seg", "seg", "rect", "rect", "contour", "contours"]
        for k in rng.sample(kinds, rng.choice([2, 3, 4])):
            self.add(k)
        if rng.random() < 0.4:
            n = rng.choice(sorted(self.objs))
            if self.objs[n]["v"]:
                self.objs[f"v{len(self.objs)}"] = nudge(rng, self.objs[n])

    def add(self, k):
        self.objs[f"v{len(self.objs)}"] = value(self.rng, k, self.fam)

    def arg(self, kind, extra, size=None):
        """A shared value, one of this thread's own answers, or one made for the occasion."""
        rng = self.rng
        names = [n for n, s in self.objs.items() if s["k"] == kind] + [n for n, k in extra.items() if k == kind]
        if size:
            return {"k": "mat", "v": matrix(rng, self.fam, size)}
        if names and not self.fresh and rng.random() < 0.75:
            return "$" + rng.choice(names)
        return value(rng, kind, self.fam)

    def pts(self, a, extra):
        """Points an argument stands for, if known now."""
        spec = self.objs.get(a[1:]) if isinstance(a, str) else a
        return spec["v"] if spec and spec["v"] else None

    def op(self, extra, i, lone):
        rng = self.rng
        own = [n for n, k in extra.items() if k == "rect"] + ([n for n, s in self.objs.items() if s["k"] == "rect"] if lone else [])
        if own and self.ops is C18 and rng.random() < 0.15:
            return {"f": "move", "a": ["$" + rng.choice(own), rng.choice(EDGES), number(rng, self.fam)]}
        soft = [n for n, k in extra.items() if k in ("seg", "contour", "contours", "mat", "row", "flat") and not n.startswith("k")]
        if soft and rng.random() < 0.1:
            return {"f": "poke", "a": ["$" + rng.choice(soft), rng.randrange(4)]}
        f = rng.choice(self.ops)
        self.fresh = False
        if self.last and rng.random() < 0.3:  # the same of other values, which live no longer than the call
            f, self.fresh = self.last, rng.random() < 0.7
        self.last = f
        ks, out, _ = OPS[f]
        if f == "make":
            a = transform(rng, self.fam)
        elif f == "cat":
            a = [self.arg("tf", extra) for _ in range(rng.choice([1, 2, 2, 3]))]
        elif f in ("cm", "mm"):
            a = [{"k": "mat", "v": matrix(rng, self.fam, 3)} for _ in range(2 if f == "mm" else rng.choice([2, 2, 3]))]
            m3 = ["$" + n for n, s in self.objs.items() if s["k"] == "mat" and len(s["v"]) == 3]
            if m3 and rng.random() < 0.7:
                a[rng.randrange(len(a))] = rng.choice(m3)
        elif f == "rm":
            a = [self.arg("row", {}), {"k": "mat", "v": matrix(rng, self.fam, 3)}]
        elif f == "mul":
            n, k, m = (rng.randint(1, 4) for _ in range(3))
            a = [{"k": "mat", "v": [[number(rng, self.fam) for _ in range(k)] for _ in range(n)]}, {"k": "mat", "v": [[number(rng, self.fam) for _ in range(m)] for _ in range(k)]}]
            sq = [(x, len(s["v"])) for x, s in self.objs.items() if s["k"] == "mat"]
            if sq and rng.random() < 0.6:
                x, n = rng.choice(sq)
                a = ["$" + x, {"k": "mat", "v": matrix(rng, self.fam, n)}]
        elif f == "inv" and rng.random() < 0.1:
            a = [{"k": "mat", "v": matrix(rng, self.fam, None, False)}]
        elif f.startswith("rot"):
            a = [self.arg(ks[0], extra), self.arg("pt", extra), rng.choice([90, 90, 45, -30, 180, rng.uniform(-400, 400)]), rng.random() < 0.5]
        elif f == "from":
            a = [self.arg("rect", extra), rng.choice([0, 1, 0.5, 0.25, rng.random(), 1.5])]
        elif f == "x":
            a = [self.arg("seg", {}), self.arg("seg", {})]
            for j in range(2):
                p = self.pts(a[j], extra)
                if not p or len(p) != 2 or isinstance(a[j], dict) and rng.random() < 0.5:
                    a[j] = {"k": "seg", "v": segment(rng, self.fam, 2)}
            p, q = (self.pts(v, extra) for v in a)
            if rng.random() < 0.5 and p[0] != p[1]:  # made to cross
                k = rng.choice([0.5, rng.uniform(0.1, 0.9)])
                c = [p[0][i] + k * (p[1][i] - p[0][i]) for i in range(2)]
                e = point(rng, self.fam)
                if rng.random() < 0.4:
                    e[rng.randrange(2)] = 0
                a[1] = {"k": "seg", "v": [[c[0] - e[0], c[1] - e[1]], [c[0] + e[0] * 2, c[1] + e[1] * 2]]}
        elif f == "on":
            a = [self.arg("pt", extra), self.arg("seg", {})]
            p = self.pts(a[1], extra)
            if not p or len(p) != 2:
                a[1] = {"k": "seg", "v": segment(rng, self.fam, 2)}
                p = a[1]["v"]
            if rng.random() < 0.25:  # on a long line of whole coordinates, or right beside it
                n = rng.choice([1000, 4000, 20000])
                v, m = [rng.randint(-8, 8), rng.randint(-8, 8)], rng.randint(1, n)
                p = [[rng.randint(-n, n), rng.randint(-n, n)]]
                p.append([p[0][i] + v[i] * n for i in range(2)])
                q = [p[0][i] + v[i] * m for i in range(2)]
                q[rng.randrange(2)] += rng.choice([0, 1, -1])
                a = [{"k": "pt", "v": q}, {"k": "seg", "v": p}]
            elif rng.random() < 0.7:
                k = rng.choice([0, 1, 0.5, 0.25, 0.75, 1.25, -0.25])
                a[0] = {"k": "pt", "v": [p[0][i] + k * (p[1][i] - p[0][i]) for i in range(2)]}
        elif f in ("encp", "cross"):
            a = [self.arg("rect", extra), self.arg("pt", extra)]
            p = self.pts(a[0], extra)
            if p and rng.random() < 0.6:  # on its edge, its corner or inside
                q = [p[0], p[-1]]
                a[1] = {"k": "pt", "v": [rng.choice([q[0][i], q[1][i], (q[0][i] + q[1][i]) / 2]) for i in range(2)]}
        elif f in ("union", "inter", "enc", "rel"):
            a = [self.arg("rect", extra), self.arg("rect", extra)]
            p = self.pts(a[0], extra)
            if p and rng.random() < 0.6:  # sharing edges, inside, touching, beside
                b = [*map(list, zip(*p))]
                xs = [[min(v), max(v), (min(v) + max(v)) / 2, max(v) + 1, min(v) - 1] for v in b]
                a[1] = {"k": "rect", "v": [[rng.choice(xs[0]), rng.choice(xs[1])], [rng.choice(xs[0]), rng.choice(xs[1])]]}
                if rng.random() < 0.5:
                    a.reverse()
        elif f == "misc":
            a = [self.arg("pt", {})]
        else:
            a = [self.arg(k, extra) for k in ks]
        o = {"f": f, "a": a}
        if out and rng.random() < 0.6:
            # a lone matrix or transform concatenated with nothing is that matrix: not the caller's to alter
            o["as"] = ("k" if f in ("cat", "cm") else "r") + str(i)
            extra[o["as"]] = out
        return o


def gen(rng, ops):
    g = Gen(rng, ops)
    nt = rng.choice([1, 1, 2, 2, 3])
    threads = []
    for t in range(nt):
        extra = {}
        threads.append({"ops": [g.op(extra, i, nt == 1) for i in range((rng.choice([2, 4, 8, 12]) if rng.random() < 0.98 else 60) if nt == 1 else rng.choice([1, 2, 3]))]})
    scn = {"objs": g.objs, "threads": threads}
    mode = rng.choice(["hist", "hist", "fault"] if nt == 1 else ["switch", "switch", "walk", "both"])
    return A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in threads])


def gen_C17(rng):
    return gen(rng, C17)


def gen_C18(rng):
    return gen(rng, C18)
