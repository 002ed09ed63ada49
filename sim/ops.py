"""Operations of a geometry session: how to ask, how to normalise, how to judge."""
import decimal
import functools
import math

from . import model as M


class NoPiece(Exception):
    pass


# --- results in comparable form
def norm(r, depth=0):
    if r is None or isinstance(r, (bool, str)):
        return r
    if isinstance(r, int):
        return float(r) if abs(r) < 1 << 53 else str(r)
    if isinstance(r, float):
        return "nan" if r != r else r
    if isinstance(r, decimal.Decimal):
        return ["D", str(r) if not r.is_finite() else [int(x) if not isinstance(x, tuple) else list(x) for x in r.as_tuple()]]
    if isinstance(r, dict):
        return ["dict"] + [[norm(k), norm(v)] for k, v in sorted(r.items())]
    if isinstance(r, (list, tuple)):
        if depth > 8:
            return "deep"
        return [norm(v, depth + 1) for v in r]
    n = type(r).__name__
    if n == "Bezier":
        return ["B"] + [norm(p) for p in r.controlPoints]
    if n == "BoundsRectangle":
        return ["R"] + [norm(v) for v in r.points]
    return f"<{n}>"


def undec(r):
    if not isinstance(r, list):
        return decimal.Decimal(r)
    v = r[1]
    return decimal.Decimal(v) if isinstance(v, str) else decimal.Decimal((v[0], tuple(v[1]), v[2]))


# --- environments and targets
class Env:
    """Objects of a scenario, built in one instance of the library."""

    def __init__(self, lib, objs):
        self.lib = lib
        self.objs = {}
        for name, spec in objs.items():
            self.objs[name] = build(lib, spec)
        self.pieces = {}
        self.sim = None

    def resolve(self, target):
        parts = target.split("|")
        o = self.base(parts[0])
        key = parts[0]
        for p in parts[1:]:
            key += "|" + p
            nxt = self.pieces.get(key)
            if nxt is None:
                nxt = derive(o, p)
                self.pieces[key] = nxt
            o = nxt
        return o

    def base(self, name):
        f = name.split(".")
        o = self.objs[f[0]]
        for i in f[1:]:
            o = o.contours[int(i)] if type(o).__name__ == "BOutline" else o[int(i)]
        return o


def derive(o, p):
    if p[0] == "L":
        return o.split(float(p[2:]))[0]
    if p[0] == "R":
        return o.split(float(p[2:]))[1]
    if p[0] == "S":
        a, b = p[2:].split(",")
        return o.split(num(a), num(b))
    if p[0] == "D":
        r = o.reduce()
        if not r:
            raise NoPiece()
        return r[int(p[2:]) % len(r)]
    if p[0] == "A":
        return o.align()
    raise ValueError(p)


def num(s):
    v = float(s)
    return int(v) if v in (0.0, 1.0) else v


def tup(pts):
    """Points of a scenario; coordinates written as text are Decimal."""
    return [tuple(decimal.Decimal(v) if isinstance(v, str) else v for v in p) for p in pts]


def build(lib, spec):
    k = spec["k"]
    if k == "curve":
        return lib.Bezier(tup(spec["p"]))
    if k == "contour":
        return lib.BContour([tup(c) for c in spec["c"]])
    return lib.BOutline([[tup(c) for c in cc] for cc in spec["cc"]])


def unchanged(obj, spec):
    """The object still has exactly the control points it was built from."""
    if spec["k"] == "curve":
        return norm(obj.controlPoints) == norm(tup(spec["p"]))
    if spec["k"] == "contour":
        return [norm(b.controlPoints) for b in obj] == [norm(tup(c)) for c in spec["c"]]
    return [[norm(b.controlPoints) for b in c] for c in obj] == [[norm(tup(c)) for c in cc] for cc in spec["cc"]]


def spec_points(objs, target):
    """Control points a target name stands for, without derivation."""
    f = target.split("|")[0].split(".")
    s = objs[f[0]]
    if s["k"] == "curve":
        return s["p"]
    if s["k"] == "contour":
        return s["c"][int(f[1])]
    return s["cc"][int(f[1])][int(f[2])]


# --- what each operation does
OPS = {}
CHECKS = {}
HEAVY = set()


def heavy(o):
    """Too slow to be watched instruction by instruction as a matter of course."""
    return o["f"] in HEAVY or "|D" in (o.get("o") or "") or (o["f"] == "scalefn" and "reduce" in o["a"])


def op(name, heavy=False):
    def deco(f):
        OPS[name] = f
        if heavy:
            HEAVY.add(name)
        return f
    return deco


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


OPS["get"] = lambda e, o, t: o.get(t)
OPS["mid"] = lambda e, o: o.midpoint
OPS["ends"] = lambda e, o: [o.start, o.end, o.startX, o.startY, o.endX, o.endY]
OPS["cps"] = lambda e, o: [o.order, o.controlPoints]
UP, DOWN, FLAT, MIXED = "up", "down", "flat", "mixed"


def _direction(e, o):
    names = {getattr(type(o), "dir_" + n): n for n in (UP, DOWN, FLAT, MIXED)}
    return names[o.direction]


OPS["direction"] = _direction
OPS["lut"] = lambda e, o, n: o.getLUT(n)
OPS["hull"] = lambda e, o, t: o.hull(t)
OPS["dc"] = lambda e, o: o.dcPoints
OPS["normal"] = lambda e, o, t: o.normal(t)
OPS["extrema"] = lambda e, o: o.extrema
OPS["bbox"] = lambda e, o: o.bbox
OPS["bounds"] = lambda e, o: o.boundsRectangle
OPS["tight"] = lambda e, o: o.tightbbox
OPS["skel"] = lambda e, o: o.skeletonBounds
OPS["align"] = lambda e, o: o.align()
OPS["length"] = lambda e, o: o.length
OPS["split1"] = lambda e, o, t: o.split(t)
OPS["split2"] = lambda e, o, a, b: o.split(a, b)
OPS["simple"] = lambda e, o: o.simple()
OPS["raise"] = lambda e, o: o.raiseOrder()
OPS["roots"] = lambda e, o: o.roots()
OPS["rootsline"] = lambda e, o, a, b: o.roots([tuple(a), tuple(b)])
OPS["lineint"] = lambda e, o, a, b: o.lineIntersects((tuple(a), tuple(b)))
OPS["linepoint"] = lambda e, o, a, b=None: o.intersectWithLine(e.resolve(a) if isinstance(a, str) else e.lib.Bezier([tuple(a), tuple(b)]))
OPS["abc"] = lambda e, o, t: o.getABC(t)
OPS["overlaps"] = lambda e, o, other: o.overlaps(e.resolve(other))
OPS["offset2"] = lambda e, o, t, d: o.offset(t, d)
OPS["d"] = lambda e, o: o.d()
OPS["closest"] = lambda e, o, p, n: o.findClosestPoint(tuple(p), n)
OPS["curves"] = lambda e, o: [b.controlPoints for b in o]
OPS["contours"] = lambda e, o: [[b.controlPoints for b in c] for c in o]
OPS["new"] = lambda e, o: [type(o)(list(o.controlPoints)).bbox]
# a curve built for one question and dropped
OPS["passing"] = lambda e, o, pts, f, args: OPS[f](e, e.lib.Bezier(tup(pts)), *args)
OPS["trace"] = lambda e, o, us: [o.controlPoints[0], o.controlPoints[-1]] + [o.get(u) for u in us]
for _n, _f in {
    "reduce": lambda e, o: o.reduce(),
    "offset1": lambda e, o, d: o.offset(d),
    "intersects": lambda e, o, other, thr: o.intersects(e.resolve(other), thr),
    "selfint": lambda e, o, thr: o.intersects(None, thr),
}.items():
    OPS[_n] = _f
    HEAVY.add(_n)
OPS["scale"] = lambda e, o, d: o.scale(d)


class CallbackFailure(Exception):
    pass


@op("scalefn")
def _scalefn(e, o, d0, d1, fail=None, reenter=None, how=None):
    """scale() by a caller's function, which may fail at its n-th call or ask the curve something itself."""
    calls = [0]

    def fn(t):
        calls[0] += 1
        if fail is not None and calls[0] == fail:
            raise CallbackFailure()
        if reenter == "reduce":
            o.reduce()
        elif reenter == "bbox":
            o.bbox
            o.extrema
        elif reenter == "lut":
            o.getLUT(7)
        elif reenter == "scale":
            try:
                o.scale(d1)
            except (ValueError, ZeroDivisionError):
                pass
        return d0 + (d1 - d0) * t
    return o.scale(fn if how is None else functools.partial(fn) if how == "partial" else Caller(fn) if how == "object" else Caller(fn).call)


class Caller:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, t):
        return self.fn(t)

    call = __call__


@op("lineage")
def _lineage(e, o, u, h, thr):
    """Cut the piece with a short probe through its point u; parameters must be the ancestor's."""
    p = o.get(u)
    a, b = o.get(max(0.0, u - 0.01)), o.get(min(1.0, u + 0.01))
    dx, dy = b[0] - a[0], b[1] - a[1]
    q = math.hypot(dx, dy)
    if not q > 0:
        raise NoPiece()
    nx, ny = -dy / q, dx / q
    ex, ey = dx / q * h * 0.005, dy / q * h * 0.005  # (slightly bent, through p all the same)
    probe = [(p[0] - nx * h - ex, p[1] - ny * h - ey), (p[0] + ex, p[1] + ey), (p[0] + nx * h - ex, p[1] + ny * h - ey)]
    r = e.lib.Bezier.pairiteration(o, e.lib.Bezier(probe), thr)
    return [p, probe, r]


# library-level operations (no target object)
OPS["binomial"] = lambda e, o, n, k: e.lib.get("CurveFitting").binomial(n, k)
OPS["basis"] = lambda e, o, n: e.lib.get("CurveFitting").basisMatrix(n)
OPS["fit"] = lambda e, o, pts, poly: e.lib.get("CurveFitting").fit([tuple(p) for p in pts], poly)
OPS["lsq"] = lambda e, o, pts, poly, n: _lsq(e.lib.get("CurveFitting"), [tuple(p) for p in pts], poly, n)


def _lsq(cf, pts, poly, n):
    m, s = cf.basisMatrix(n), cf.computeTimeValues(pts, polygonal=poly)
    return [pts, m, s, cf.bestFit(pts, m, s, n)]


# --- what each answer should be.  Arguments: points (control points of the target), args, normalised result.
# Returns None or a complaint.
def _tol(p, k=1e-9):
    return k * M.scale_of(p)


@check("get")
def _(p, a, r):
    w = M.bern(p, a[0])
    if not M.near(r, w, _tol(p)):
        return f"get({a[0]}) = {r}, expected {w}"


@check("trace")
def _(p, a, r):
    w = [p[0], p[-1]] + [M.bern(p, u) for u in a[0]]
    if not M.nearpts(r, w, _tol(p)):
        return f"ends and points at {a[0]} are {r}, expected {w}"


@check("passing")
def _(p, a, r):
    return CHECKS[a[1]](a[0], a[2], r) if a[1] in CHECKS else None


@check("mid")
def _(p, a, r):
    if not M.near(r, M.bern(p, 0.5), _tol(p)):
        return f"midpoint {r}"


@check("ends")
def _(p, a, r):
    w = [list(p[0]), list(p[-1]), p[0][0], p[0][1], p[-1][0], p[-1][1]]
    g = [r[0], r[1], [r[2], r[3]], [r[4], r[5]]]
    if not all(M.near(x, y, _tol(p)) for x, y in zip(g, [w[0], w[1], w[0], w[1]])):
        return f"start/end {r}, expected {w}"


@check("cps")
def _(p, a, r):
    if r[0] != len(p) - 1 or not M.nearpts(r[1], p, _tol(p)):
        return f"control points {r}"


@check("lut")
def _(p, a, r):
    n = a[0]
    if len(r) != n:
        return f"table of {n} has {len(r)} points"
    for i, q in enumerate(r):
        if not M.near(q, M.bern(p, i / (n - 1)), _tol(p)):
            return f"table entry {i} of {n} is {q}, expected {M.bern(p, i / (n - 1))}"


@check("hull")
def _(p, a, r):
    if not M.nearpts(r, M.castel(p, a[0]), _tol(p)):
        return f"hull({a[0]}) = {r}"


@check("dc")
def _(p, a, r):
    q = p
    w = []
    while len(q) > 1:
        q = M.hodo(q)
        w.append(q)
    if len(w) != len(r) or not all(M.nearpts(x, y, 10 * _tol(p)) for x, y in zip(w, r)):
        return f"derivative control points {r}"


@check("normal")
def _(p, a, r):
    d = M.heading(p, a[0])
    q = math.hypot(*d)
    if q > 1e-6 * M.scale_of(p) and not M.near(r, (-d[1] / q, d[0] / q), 1e-9 if q > 1e-2 * M.scale_of(p) else 1e-5):
        return f"normal({a[0]}) = {r}, expected {(-d[1] / q, d[0] / q)}"


@check("extrema")
def _(p, a, r):
    d = {int(k): v for k, v in r[1:]}
    if sorted(d) != [0, 1, 2]:
        return f"extrema keys {sorted(d)}"
    h = M.hodo(p)
    sc = M.scale_of(p)
    for dim in (0, 1):
        for t in d[dim]:
            if not (0 <= t <= 1):
                return f"extremum {t} outside [0, 1]"
            v1 = M.bern(h, t)[dim] if len(h) else 0
            h2 = M.hodo(h) if len(h) > 1 else [(0, 0)]
            v2 = M.bern(h2, t)[dim]
            if abs(v1) > 1e-4 * sc and abs(v2) > 1e-4 * sc:
                return f"extremum {t} in dimension {dim} is no root"
        for t in M.comp_roots(h, dim):
            if 1e-6 < t < 1 - 1e-6:
                # a true turning point, not a mere inflection
                e = 1e-4
                if M.bern(h, max(0, t - e))[dim] * M.bern(h, min(1, t + e))[dim] < 0:
                    sharp = len(h) == 2 or abs(M.bern(M.hodo(h), t)[dim]) > 1e-3 * sc
                    if not any(abs(t - x) < (1e-7 if sharp else 1e-4) or abs(M.bern(p, t)[dim] - M.bern(p, x)[dim]) < 1e-9 * sc and not sharp for x in d[dim]):
                        return f"turning point {t} missing in dimension {dim}: {d[dim]}"
        if len(p) == 4:
            a, b = M.hodo(h)[0][dim], M.hodo(h)[1][dim]
            if abs(a - b) > 1e-3 * sc and 1e-3 < a / (a - b) < 0.999 and not any(abs(a / (a - b) - x) < 1e-6 for x in d[dim]):
                return f"inflection {a / (a - b)} missing in dimension {dim}: {d[dim]}"
    if d[2] != sorted(set(d[0] + d[1])):
        return f"combined extrema {d[2]} are not the sorted union of {d[0]} and {d[1]}"


def _box_bad(got, p):
    w = M.box(p)
    t = _tol(p, 1e-8)
    for dim in (0, 1):
        for k in (0, 1):
            if abs(got[dim][k] - w[dim][k]) > t:
                return f"box {got}, expected {w}"


@check("bbox")
def _(p, a, r):
    return _box_bad([r[1][1], r[2][1]], p)


@check("bounds")
def _(p, a, r):
    return _box_bad([(r[1], r[3]), (r[2], r[4])], p)


@check("skel")
def _(p, a, r):
    xs, ys = [q[0] for q in p], [q[1] for q in p]
    if r != ["R"] + [float(v) for v in (min(xs), min(ys), max(xs) + 40, max(ys))]:
        return f"skeleton bounds {r}"


@check("align")
def _(p, a, r):
    q = r[1:]
    dx, dy = p[-1][0] - p[0][0], p[-1][1] - p[0][1]
    l = math.hypot(dx, dy)
    c, s = (dx / l, dy / l) if l else (1.0, 0.0)
    w = [((x - p[0][0]) * c + (y - p[0][1]) * s, (y - p[0][1]) * c - (x - p[0][0]) * s) for x, y in p]
    if not M.nearpts(q, w, _tol(p, 1e-9)):
        return f"aligned {q}, expected {w}"


@check("tight")
def _(p, a, r):
    if len(r) != 4 or any(len(s) != 2 for s in r):
        return f"tight box shape {r}"
    c = [s[0] for s in r]
    for i in range(4):
        if not M.near(r[i][1], r[(i + 1) % 4][0], _tol(p, 1e-6)):
            return f"tight box not closed: {r}"
    sc = _tol(p, 1e-8)
    dx, dy = p[-1][0] - p[0][0], p[-1][1] - p[0][1]
    l = math.hypot(dx, dy)
    ux, uy = (dx / l, dy / l) if l else (1.0, 0.0)
    for ax, ay in ((ux, uy), (-uy, ux)):
        q = [(x * ax + y * ay, 0.0) for x, y in p]
        lo, hi = M.box(q)[0]
        g = [x * ax + y * ay for x, y in c]
        if abs(min(g) - lo) > 4 * sc or abs(max(g) - hi) > 4 * sc:
            return f"tight box {c} spans {min(g), max(g)} along {ax, ay}, curve spans {lo, hi}"


def _pieces_of(r):
    return [b[1:] for b in r]


@check("split1")
def _(p, a, r):
    t = a[0]
    if not M.nearpts(r[0][1:], M.cut(p, 0, t), _tol(p)):
        return f"left part {r[0]}, expected {M.cut(p, 0, t)}"
    if not M.nearpts(r[1][1:], M.cut(p, t, 1), _tol(p)):
        return f"right part {r[1]}, expected {M.cut(p, t, 1)}"
    if not M.nearpts(r[2], M.castel(p, t), _tol(p)):
        return f"hull of split {r[2]}"


@check("split2")
def _(p, a, r):
    w = M.cut(p, a[0], a[1])
    if not M.nearpts(r[1:], w, _tol(p, 1e-6)):
        return f"part [{a[0]}, {a[1]}] is {r[1:]}, expected {w}"


@check("reduce")
def _(p, a, r):
    if not r:
        return "reduction of a regular curve is empty" if M.regular(p) or M.retracted(p) else None
    if not M.regular(p, 1e-3) and not M.retracted(p):
        return None
    ps = _pieces_of(r)
    t = _tol(p, 1e-6)
    if not M.near(ps[0][0], p[0], t) or not M.near(ps[-1][-1], p[-1], t):
        return f"reduction runs from {ps[0][0]} to {ps[-1][-1]}"
    for x, y in zip(ps, ps[1:]):
        if not M.near(x[-1], y[0], t):
            return f"pieces do not join: {x[-1]} then {y[0]}"
    prev = 0.0
    for i, x in enumerate(ps):
        for u in (0.5, 1.0):
            at = M.passes(p, M.bern(x, u), 5e-6 * M.scale_of(p), prev)
            if at is None:
                return f"piece {i} at {u} is off the curve's remainder, from {prev} on"
            prev = at
        d0, d1 = M.deriv(x, 0), M.deriv(x, 1)
        q = math.hypot(*d0) * math.hypot(*d1)
        if q > 0:
            c = (d0[0] * d1[0] + d0[1] * d1[1]) / q
            if c < math.cos(math.radians(60.001)):
                return f"piece {i} turns by {math.degrees(math.acos(max(-1, min(1, c))))} degrees"


@check("simple")
def _(p, a, r):
    d0, d1 = (M.heading(p, 0), M.heading(p, 1)) if M.retracted(p) else (M.deriv(p, 0), M.deriv(p, 1))
    q = math.hypot(*d0) * math.hypot(*d1)
    if not q > 0:
        return None
    ang = math.acos(max(-1.0, min(1.0, (d0[0] * d1[0] + d0[1] * d1[1]) / q)))
    w = ang < math.pi / 3
    if abs(ang - math.pi / 3) < 1e-6:
        return None
    if len(p) == 4:
        def ang3(o, v, u):
            ax, ay, bx, by = v[0] - o[0], v[1] - o[1], u[0] - o[0], u[1] - o[1]
            return ax * by - ay * bx
        a1, a2 = ang3(p[0], p[3], p[1]), ang3(p[0], p[3], p[2])
        if M.retracted(p) and (tuple(p[0]) == tuple(p[1]) or tuple(p[2]) == tuple(p[3])):
            a1 = a2 = 1  # a handle lying on its end is on neither side
        if abs(a1) < 1e-6 or abs(a2) < 1e-6:
            return None
        if (a1 > 0) != (a2 > 0):
            w = False
    if bool(r) != w:
        return f"simple() = {r}, turning {math.degrees(ang)}"


@check("raise")
def _(p, a, r):
    q = r[1:]
    if len(q) != len(p) + 1:
        return f"raised to {len(q)} points from {len(p)}"
    for i in range(6):
        if not M.near(M.bern(q, i / 5), M.bern(p, i / 5), _tol(p)):
            return f"raised curve differs at {i / 5}"


@check("offset2")
def _(p, a, r):
    t, d = a
    c = M.bern(p, t)
    v = M.deriv(p, t)
    q = math.hypot(*v)
    if q <= 1e-6 * M.scale_of(p):
        return None
    n = (-v[1] / q, v[0] / q)
    if not M.near(r[0], c, _tol(p)) or not M.near(r[1], n, 1e-5) or not M.near(r[2], (c[0] + d * n[0], c[1] + d * n[1]), 1e-5 * (M.scale_of(p) + abs(d))):
        return f"offset point {r}"


def _ofs(p, t, d):
    c = M.bern(p, t)
    v = M.heading(p, t)
    q = math.hypot(*v)
    if not q > 0:
        return None
    return (c[0] - d * v[1] / q, c[1] + d * v[0] / q)


@check("scale")
def _(p, a, r):
    bad = _scale_ends(p, a[0], a[0], r)
    if not bad and M.regular(p) and _easy(p) and _gentle(p, a[0]):
        bad = _beside(p, 0.0, 1.0, r[1:], a[0])
    return bad


@check("scalefn")
def _(p, a, r):
    bad = _scale_ends(p, a[0], a[1], r)
    if bad or not M.regular(p, 1e-4) and not M.retracted(p):
        return bad
    q = r[1:]
    t = 1e-6 * (M.scale_of(p) + M.scale_of(q))
    for x, y, u in ((q[0], q[1], 0), (q[-2], q[-1], 1)):
        v = M.heading(p, u)
        if not _settled(p, u):
            continue
        if abs((y[0] - x[0]) * v[1] - (y[1] - x[1]) * v[0]) > t * math.hypot(*v):
            return f"the scaled curve runs from {x} to {y} at its end {u}, the source in direction {v}"


def _origin(p):
    """Where the normals at the two ends meet."""
    (ux, uy), (vx, vy), (ax, ay), (bx, by) = M.heading(p, 0), M.heading(p, 1), p[0], p[-1]
    d = ux * vy - uy * vx
    if d == 0:
        return None
    m, n = ax * ux + ay * uy, bx * vx + by * vy
    return ((m * vy - n * uy) / d, (n * ux - m * vx) / d)


def _settled(p, u):
    """Is the place of the scaled handle at end u well determined? Not when the normals meet on the tangent there."""
    v, o, h = M.heading(p, u), _origin(p), p[1] if u == 0 else p[-2]
    if len(p) == 3:
        h = ((p[u * 2][0] + 2 * h[0]) / 3, (p[u * 2][1] + 2 * h[1]) / 3)
    return o is not None and abs((h[0] - o[0]) * v[1] - (h[1] - o[1]) * v[0]) > 1e-4 * M.dist(h, o) * math.hypot(*v)


def scalable(p):
    """A curve which scale() must not fail on; it may refuse it, with ValueError, when the end normals are parallel."""
    return _settled(p, 0) and _settled(p, 1)


def fans(p):
    """Do the normals at the two ends meet, beyond doubt?"""
    (ux, uy), (vx, vy) = M.heading(p, 0), M.heading(p, 1)
    return abs(ux * vy - uy * vx) > 1e-3 * math.hypot(ux, uy) * math.hypot(vx, vy)


def _easy(p):
    """Do the control points turn to one side, visibly, and by less than 59 degrees altogether?"""
    s = []
    for a, b, c in zip(p, p[1:], p[2:]):
        ux, uy, vx, vy = b[0] - a[0], b[1] - a[1], c[0] - b[0], c[1] - b[1]
        s.append(math.atan2(ux * vy - uy * vx, ux * vx + uy * vy))
    return (all(x > 1e-5 for x in s) or all(x < -1e-5 for x in s)) and abs(sum(s)) < math.radians(59)


def _scale_ends(p, d0, d1, r):
    if not M.regular(p, 1e-4) and not M.retracted(p):
        return None
    t = (1e-9 if M.regular(p) else 1e-6) * (M.scale_of(p) + abs(d0) + abs(d1))
    q = r[1:]
    if not M.near(q[0], _ofs(p, 0, d0), t) or not M.near(q[-1], _ofs(p, 1, d1), t):
        return f"scaled ends {q[0]}, {q[-1]}; expected {_ofs(p, 0, d0)}, {_ofs(p, 1, d1)}"


def _gentle(p, d):
    """Is distance d at most 0.45 of the radius of the tightest bend?"""
    d2 = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(p, p[1:])]
    d2 = [((len(p) - 1) * (len(p) - 2) * (b[0] - a[0]), (len(p) - 1) * (len(p) - 2) * (b[1] - a[1])) for a, b in zip(d2, d2[1:])]
    for i in range(101):
        u, v = M.deriv(p, i / 100), M.bern(d2, i / 100)
        if abs(u[0] * v[1] - u[1] * v[0]) * abs(d) > 0.45 * math.hypot(*u) ** 3:
            return False
    return True


def _beside(p, lo, hi, x, d):
    """Offset piece x of the part [lo, hi] of p keeps to its side, roughly at its distance."""
    for u in (0.3, 0.6):
        q = M.bern(x, u)
        dd, t = M.nearest(p, q, 60, lo, hi)
        c, v = M.bern(p, t), M.deriv(p, t)
        side = (q[1] - c[1]) * v[0] - (q[0] - c[0]) * v[1]
        if not d and dd <= 1e-9 * (1 + max(abs(w) for s in p for w in s)):
            continue  # (on the curve)
        if not 0.5 * abs(d) <= dd <= 1.5 * abs(d) or (side > 0) != (d > 0):
            return f"offset piece {x} strays at {u}: {dd} from the curve, asked for {d}"


@check("offset1")
def _(p, a, r):
    d = a[0]
    if not M.regular(p) and not M.retracted(p):
        return None
    if not r:
        return "offset of a regular curve is empty"
    ps = _pieces_of(r)
    t = 1e-5 * (M.scale_of(p) + abs(d))

    def slack(x):
        """A piece straight to within the library's tolerance is moved along one normal."""
        a, b = x[0], x[-1]
        l = M.dist(a, b)
        if not l > 0 or any(abs((q[0] - a[0]) * (b[1] - a[1]) - (q[1] - a[1]) * (b[0] - a[0])) > 1.1e-4 * l for q in x):
            return 0.0
        d0, d1 = M.heading(x, 0), M.heading(x, 1)
        return 2 * abs(d) * abs(math.atan2(d0[0] * d1[1] - d0[1] * d1[0], d0[0] * d1[0] + d0[1] * d1[1]))
    fine = t / 1000 if M.regular(p) else t
    if not M.near(ps[0][0], _ofs(p, 0, d), fine):
        return f"offset starts at {ps[0][0]}, expected {_ofs(p, 0, d)}"
    if not M.near(ps[-1][-1], _ofs(p, 1, d), fine + slack(ps[-1])):
        return f"offset ends at {ps[-1][-1]}, expected {_ofs(p, 1, d)}"
    at = [0.0]
    for i, (x, y) in enumerate(zip(ps, ps[1:])):
        if not M.near(x[-1], y[0], t + slack(x)):
            return f"offset pieces do not join: {x[-1]} then {y[0]}"
        dd, _t = M.nearest(None, None, 400, f=lambda s: M.dist(_ofs(p, s, d), x[-1]))
        if dd > 10 * t + slack(x):
            return f"joint {x[-1]} is {dd} away from every point at distance {d} along a normal"
        at.append(_t)
    at.append(1.0)
    if len(p) > 2 and at == sorted(at) and _gentle(p, d):
        for x, lo, hi in zip(ps, at, at[1:]):
            bad = not slack(x) and _beside(p, lo, hi, x, d)
            if bad:
                return bad


@check("roots")
def _(p, a, r):
    return _on_line(p, (0, 0), (1, 0), r)


@check("rootsline")
def _(p, a, r):
    return _on_line(p, a[0], a[1], r)


@check("lineint")
def _(p, a, r):
    return _on_line(p, a[0], a[1], r, True)


def _on_line(p, a, b, r, within=False):
    """Parameters r at which the curve is said to meet the line through a and b, or the segment between them."""
    e = M.heights(p, a, b)
    far = max(map(abs, e))
    big = max(abs(v) for q in (*p, a, b) for v in q)
    if not far > max(1e-4, 1e-9 * big) or len(p) > 4:
        return None  # all on the line, as far as floats can tell
    if len(r) > len(p) - 1:
        return f"{len(r)} crossings of a curve of order {len(p) - 1}: {r}"
    # the library takes coefficients below 1e-6 for zero, and roots less than 1e-7 apart for one
    tol = 3e-6 + 1e-7 * far + 1e-11 * big + (1e-6 * abs(e[3] - 3 * e[2] + 3 * e[1] - e[0]) if len(e) == 4 else 0)
    box = [(min(a[i], b[i]), max(a[i], b[i])) for i in (0, 1)]
    edge = 1e-5 + 1e-5 * big
    for t in r:
        if not -2e-6 <= t <= 1 + 2e-6:
            return f"crossing at {t}, outside [0, 1]"
        if abs(M.bern1(e, t)) > tol + 4e-6 * far * (not 0 <= t <= 1):
            return f"crossing at {t}, where the curve is {M.bern1(e, t)} off the line"
        q = M.bern(p, t)
        if within and any(not box[i][0] - edge <= q[i] <= box[i][1] + edge for i in (0, 1)):
            return f"crossing at {t}, {q}, which is not within {a} to {b}"
    for t, slope in M.simple_roots(e):
        if abs(slope) < 0.5 + 1e-3 * far + 1e-6 * big:
            continue
        if within:
            q, l = M.bern(p, t), M.dist(a, b)
            k = ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / l
            # where the segment ends on the curve, it meets it, if floats can tell
            sharp = big < 3000 and abs(slope) > 0.1 * math.hypot(*M.heading(p, t)) and (len(e) == 3 or abs(e[3] - 3 * e[2] + 3 * e[1] - e[0]) > 0.01 * far)
            if not edge < k < l - edge and not (sharp and min(abs(k), abs(l - k)) < 1e-11 * big and 1e-3 < t < 0.999):
                continue
        hits = sum(abs(t - x) < 1e-5 for x in r)
        if hits != 1:
            return f"the crossing at {t} is reported {hits} times: {r}"


@check("linepoint")
def _(p, a, r):
    return _first_on_line(p, a[0], a[1], r) if len(a) == 2 and not isinstance(a[0], str) else None


def _first_on_line(p, a, b, r):
    e = M.heights(p, a, b)
    far = max(map(abs, e))
    big = max(abs(v) for q in (*p, a, b) for v in q)
    if not far > max(1e-4, 1e-6 * big) or len(p) > 4:
        return None
    if len(p) == 2:
        den = e[0] - e[1]
        if abs(den) < 1e-6 * far:
            return None  # all but parallel
        if r is None or abs(M.heights([r], a, b)[0]) > 1e-9 * (far + big) * far / abs(den) or abs(M.heights([r], *p)[0]) > 1e-9 * (far + big) * far / abs(den):
            return f"the lines through {p} and through {a}, {b} cross at {r}"
        return None
    sure = [t for t, slope in M.simple_roots(e) if abs(slope) > 0.5 + 1e-3 * far + 1e-6 * big]
    if r is None:
        return f"no crossing reported, there is one at {sure[0]}" if sure else None
    if abs(M.heights([r], a, b)[0]) > 3e-6 + 8e-6 * far + 1e-11 * big or M.passes(p, r, 1e-6 * M.scale_of(p)) is None:
        return f"crossing at {r}, which is not on both curve and line"


@check("abc")
def _(p, a, r):
    t, n = a[0], len(p) - 1
    if n not in (2, 3):
        return None
    A_, B, C, ratio, hull = r
    s = t ** n + (1 - t) ** n
    w = M.castel(p, t)
    if not M.nearpts(hull, w, _tol(p)) or not M.near(B, M.bern(p, t), _tol(p)):
        return f"B = {B}, hull {hull}"
    want = p[1] if n == 2 else w[5]
    if not M.near(A_, want, _tol(p)):
        return f"A = {A_}, expected {want}"
    if abs(ratio - abs((s - 1) / s)) > 1e-9:
        return f"ratio {ratio}, expected {abs((s - 1) / s)}"
    u = (1 - t) ** n / s
    c = (u * p[0][0] + (1 - u) * p[-1][0], u * p[0][1] + (1 - u) * p[-1][1])
    l1, l2 = M.dist(want, c), M.dist(p[0], p[-1])
    if min(l1, l2) > 1e-6 * M.scale_of(p):
        sine = abs((want[0] - c[0]) * (p[-1][1] - p[0][1]) - (want[1] - c[1]) * (p[-1][0] - p[0][0])) / (l1 * l2)
        l3 = M.dist(want, B)
        if sine > 1e-3 and l3 > 1e-6 * M.scale_of(p) and (C is None or not M.near(C, c, 1e-10 * M.scale_of(p) ** 2 / (sine * min(l2, l3)))):
            return f"C = {C}, expected {c}"


@check("direction")
def _(p, a, r):
    y = [q[1] for q in p]
    if any(0 < abs(v - w) < 1e-9 * M.scale_of(p) for v, w in zip(y, y[1:])):
        return None
    if len(y) == 2 and y[0] == y[1]:
        w = FLAT
    elif len(y) < 5:
        w = UP if y == sorted(y) else DOWN if y == sorted(y, reverse=True) else MIXED
    else:
        w = MIXED
    if r != w:
        return f"direction {r}, expected {w}"


@check("overlaps")
def _(p, a, r, q=None):
    b, c = M.box(p), M.box(q)
    e = 1e-6 * (M.scale_of(p) + M.scale_of(q))
    gap = max(max(b[i][0], c[i][0]) - min(b[i][1], c[i][1]) for i in (0, 1))
    if abs(gap) <= e:
        return None
    if bool(r) != (gap < 0):
        return f"overlaps = {r}, boxes {b} and {c}"


@check("intersects")
def _(p, a, r, q=None):
    return _pairs(p, q, a[1], r, None)


@check("selfint")
def _(p, a, r):
    return _pairs(p, p, a[0], r, 0.25)


def _pairs(p, q, thr, r, gap):
    e = 1e-6 * (M.scale_of(p) + M.scale_of(q))
    for t, s in r:
        if not (-1e-9 <= t <= 1 + 1e-9 and -1e-9 <= s <= 1 + 1e-9):
            return f"pair {t, s} outside [0, 1]"
        d = M.dist(M.bern(p, t), M.bern(q, s))
        if d > 2 * thr + e:
            return f"pair {t, s} lies {d} apart (threshold {thr})"
    if not (M.sound(p) and M.sound(q)):
        return None
    pts = None
    for t, s, pt, sine in M.crossings(p, q, self_gap=gap):
        if sine < 0.2 or not (0.03 < t < 0.97 and 0.03 < s < 0.97):
            continue
        if pts is None:
            pts = [(M.bern(p, x), M.bern(q, y), x, y) for x, y in r]
        tol = 4 * thr + 1e-3 * M.scale_of(p)
        if not any(M.dist(x, pt) <= tol and M.dist(y, pt) <= tol and
                   abs(u - t) * 0.05 * M.vmax(p) <= 4 * tol for x, y, u, v in pts):
            return f"crossing near {t, s} at {pt} not reported: {r[:6]}"


@check("lineage")
def _(p, a, r, root=None):
    """p: control points of the ancestor the parameters must refer to."""
    u, h, thr = a
    pt, probe, pairs = r
    if not pairs:
        return f"probe through {pt} not found"
    e = 1e-6 * M.scale_of(p)
    hit = False
    for t, s in pairs:
        d = M.dist(M.bern(p, t), M.bern(probe, s))
        if d > 2 * thr + e:
            return f"pair {t, s} lies {d} apart on the ancestor (threshold {thr})"
        hit = hit or M.dist(M.bern(p, t), pt) <= 3 * thr + e
    if not hit:
        return f"no reported parameter leads back to {pt}"


# tables and fits
def t_binomial(a, r):
    n, k = a
    if r != norm(math.comb(n, k)):
        return f"binomial({n}, {k}) = {r}, expected {math.comb(n, k)}"


def t_basis(a, r):
    n = a[0]
    w = [[(-1) ** (i + j) * math.comb(n - 1, i) * math.comb(i, j) if j <= i else 0 for j in range(n)] for i in range(n)]
    if r != norm(w):
        return f"basis matrix of {n} is {r}, expected {w}"


def _carried(n):
    """How well floats carry a least-squares fit of n control points."""
    return 1e-8 if n < 6 else 1e-6 if n == 6 else 1e-5


def t_fit(a, r):
    pts, poly = a[0], a[1]
    n = a[2] if len(a) > 2 else len(pts)
    gp, m, s, (cx, cy) = r
    if gp != norm(pts):
        return f"fit of {pts} reports points {gp}"
    bad = t_basis([n], m)
    if bad:
        return bad
    d = [0.0]
    for i, (p, q) in enumerate(zip(pts, pts[1:])):
        d.append(d[-1] + (M.dist(p, q) if poly else 1.0))
    w = [v / d[-1] for v in d]
    if len(s) != len(w) or any(abs(x - y) > 1e-12 for x, y in zip(s, w)):
        return f"times {s}, expected {w}"
    if len(cx) != n or len(cy) != n or any(len(v) != 1 for v in cx + cy):
        return f"{len(cx)}, {len(cy)} control points fitted, expected {n}"
    if n > 8:
        return None  # floats don't carry the fit itself so far
    c = [(x[0], y[0]) for x, y in zip(cx, cy)]
    sc = M.scale_of(c)
    if n == len(pts):
        for p, t in zip(pts, w):
            q = M.bern(c, t)
            if not M.near(q, p, _carried(n) * 10 * sc):
                return f"the fitted curve is at {q} at time {t}, expected {p}"
        return None
    want = M.least_squares(pts, w, n)
    sc = max(sc, M.scale_of(want))
    if not M.nearpts(c, want, _carried(n) * sc):
        return f"least-squares control points {c}, expected {want}"


# contours
def c_bounds(c, r):
    bs = [M.box(p) for p in c]
    w = [(min(b[i][0] for b in bs), max(b[i][1] for b in bs)) for i in (0, 1)]
    t = max(_tol(p, 1e-8) for p in c)
    g = [(r[1], r[3]), (r[2], r[4])]
    if any(abs(g[i][k] - w[i][k]) > t for i in (0, 1) for k in (0, 1)):
        return f"bounds {g}, expected {w}"


def c_lut(c, a, r):
    n = a[0]
    w = []
    for i, p in enumerate(c):
        w += [M.bern(p, k / (n - 1)) for k in range(1 if i else 0, n)]
    t = max(_tol(p) for p in c)
    if len(r) != len(w):
        return f"contour table for {n} per curve has {len(r)} points, expected {len(w)}"
    for i, (x, y) in enumerate(zip(r, w)):
        if not M.near(x, y, t):
            return f"contour table entry {i} is {x}, expected {y}"


def c_closest(c, a, r):
    pt, n = a
    d, q = r
    e = max(_tol(p, 1e-6) for p in c) + 1e-9 * M.scale_of([pt])
    if abs(M.dist(q, pt) - d) > e:
        return f"reported distance {d} is not that of {q} from {pt}"
    if all(M.passes(p, q, 5 * e) is None for p in c):
        return f"reported point {q} is {min(M.nearest(p, q)[0] for p in c)} off the contour"
    each = [M.nearest(p, pt, 100)[0] for p in c]  # (never less than the true distance)
    speeds = [M.vmax(p) for p in c]
    for near, v in zip(each, speeds):  # (some sample is within half a step of the nearest point)
        if d > near + v / (n - 1) / 2 + e:
            return f"a curve's nearest distance is {near}, reported {d} (sampling step {v / (n - 1)})"
    best = _about_sample(c, pt, n, e)
    if best is not None and d > best + max(speeds) / 150 + e:
        return f"{best} away between the nearest sample and its neighbours, reported {d}"


def _about_sample(c, pt, n, e):
    """The least distance between the neighbours of the nearest of n samples per curve, when nothing else competes."""
    if n > 151:
        return None  # (the sampling step says as much)
    K, N = 16, n - 1
    s = [M.dist(M.bern(p, j / N), pt) for i, p in enumerate(c) for j in range(1 if i else 0, n)]
    k = min(range(len(s)), key=s.__getitem__)
    if any(x <= s[k] + e for i, x in enumerate(s) if abs(i - k) > 1):
        return None
    w = []
    for i in (k - 1, k):
        if 0 <= i < len(s) - 1:
            p, j = c[i // N], i % N
            w += [M.dist(M.bern(p, (j + u / K) / N), pt) for u in range(1 if w else 0, K + 1)]
    m = min(range(len(w)), key=w.__getitem__)
    if any(w[i] < w[i + 1] for i in range(m)) or any(w[i] > w[i + 1] for i in range(m, len(w) - 1)):
        return None
    return w[m]


def c_d(c, r):
    subs = M.parse_path(r)
    if isinstance(subs, str):
        return subs
    if len(subs) != 1 or subs[0][0] != (float(c[0][0][0]), float(c[0][0][1])):
        return f"path {r!r} does not start at {c[0][0]}"
    if not M.path_equal(subs[0][1], M.path_expected(c[0][0], c)):
        return f"path {r!r} does not describe {c}"


def c_rebuilt(c, r):
    """A contour built again from this one's curves, and its first curve from its points."""
    want = [[norm(tup(p)) for p in c], [norm(c[0][0]), norm(c[-1][-1])], norm([[v[0] for v in c[0]], [v[1] for v in c[0]]]), norm(tup(c[0])), norm([tuple(v) for v in c[0]])]
    for g, w, what in zip(r[:-1], want, ("curves", "ends", "coordinates", "points", "points")):
        if g != w:
            return f"a contour built from the same curves has {what} {g}, expected {w}"
    return c_bounds(c, r[-1])


def c_ends(c, r):
    if r[0] != norm(c[0][0]) or r[1] != norm(c[-1][-1]):
        return f"contour ends {r}"


OPS["c.bounds"] = OPS["bounds"]
OPS["c.lut"] = OPS["lut"]
OPS["c.closest"] = OPS["closest"]
OPS["c.d"] = OPS["d"]
OPS["c.passing"] = lambda e, o, cs, f, args: OPS[f](e, e.lib.BContour([tup(c) for c in cs]), *args)
OPS["c.ends"] = lambda e, o: [o.start, o.end]
OPS["c.curves"] = OPS["curves"]
@op("c.rebuilt")
def _rebuilt(e, o):
    BO = e.lib.get("Bezier").BOutline
    k = BO.pathFromSegments(*o)
    p = o[0].controlPoints
    return [[b.controlPoints for b in k], [k.start, k.end], BO.unzipPoints(p), BO.segmentFromPoints(p).controlPoints, [k.xyPoint(*k.pointXY(q)) for q in p], k.boundsRectangle]


OPS["c.item"] = lambda e, o, i: o[i]
OPS["o.bounds"] = OPS["bounds"]
OPS["o.contours"] = OPS["contours"]
