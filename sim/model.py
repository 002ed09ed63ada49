"""Independent reference geometry: what each answer should be, from control points alone."""
import decimal
import functools
import math
import re
from fractions import Fraction

EPS = 1e-7


def scale_of(pts):
    return 1.0 + max((max(abs(float(x)), abs(float(y))) for x, y in pts), default=0.0)


def bern(p, t):
    n = len(p) - 1
    m = 1 - t
    x = y = 0.0
    for i, (px, py) in enumerate(p):
        c = math.comb(n, i) * m ** (n - i) * t ** i
        x += c * px
        y += c * py
    return (x, y)


def hodo(p):
    n = len(p) - 1
    return [(n * (p[i + 1][0] - p[i][0]), n * (p[i + 1][1] - p[i][1])) for i in range(n)]


def deriv(p, t):
    if len(p) == 1:
        return (0.0, 0.0)
    return bern(hodo(p), t)


def castel(p, t):
    q = [(float(x), float(y)) for x, y in p]
    rows = list(q)
    while len(q) > 1:
        q = [((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1]) for a, b in zip(q, q[1:])]
        rows += q
    return rows


def cut(p, a, b):
    """Control points of the part of p between parameters a and b (blossoming)."""
    n = len(p) - 1
    out = []
    for k in range(n + 1):
        q = [(float(x), float(y)) for x, y in p]
        for i in range(n):
            t = b if i < k else a
            q = [((1 - t) * u[0] + t * v[0], (1 - t) * u[1] + t * v[1]) for u, v in zip(q, q[1:])]
        out.append(q[0])
    return out


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def near(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def nearpts(a, b, tol):
    return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))


def quad_roots(a, b, c):
    """Real roots of a t^2 + b t + c, computed stably."""
    if a == 0:
        return [] if b == 0 else [-c / b]
    d = b * b - 4 * a * c
    if d < 0:
        return []
    s = math.sqrt(d)
    q = -0.5 * (b + math.copysign(s, b))
    r = [q / a]
    if q != 0:
        r.append(c / q)
    return r


def comp_roots(h, dim):
    """Parameters where component dim of a Bezier hodograph of degree <= 2 vanishes."""
    v = [float(q[dim]) for q in h]
    if len(v) == 2:
        return quad_roots(0, v[1] - v[0], v[0])
    if len(v) == 3:
        return quad_roots(v[0] - 2 * v[1] + v[2], 2 * (v[1] - v[0]), v[0])
    return []


def heights(p, a, b):
    """How far each point is to the left of the line from a to b."""
    ax, ay = Fraction(a[0]), Fraction(a[1])
    dx, dy = Fraction(b[0]) - ax, Fraction(b[1]) - ay
    l = math.hypot(dx, dy)
    return [float(dx * (Fraction(y) - ay) - dy * (Fraction(x) - ax)) / l for x, y in p]


def bern1(e, t):
    return bern([(v, 0) for v in e], t)[0]


def simple_roots(e):
    """(t, slope) of every sign change in [0, 1] of the polynomial with Bernstein coefficients e, of degree 2 or 3."""
    h = hodo([(v, 0) for v in e])
    ends = [0.0] + sorted(t for t in comp_roots(h, 0) if 0 < t < 1) + [1.0]
    out = []
    for lo, hi in zip(ends, ends[1:]):
        v, w = bern1(e, lo), bern1(e, hi)
        if v == 0 or w == 0:
            t = hi if v else lo
        elif (v > 0) == (w > 0):
            continue
        else:
            a, b = lo, hi
            for _ in range(60):
                t = (a + b) / 2
                if (bern1(e, t) > 0) == (v > 0):
                    a = t
                else:
                    b = t
        if all(abs(t - x) > 1e-9 for x, _ in out):
            out.append((t, bern(h, t)[0]))
    return out


def box(p):
    """((minx, maxx), (miny, maxy)) of the curve."""
    h = hodo(p)
    out = []
    for dim in (0, 1):
        ts = [0.0, 1.0] + [t for t in comp_roots(h, dim) if 0 < t < 1]
        vals = [bern(p, t)[dim] for t in ts]
        out.append((min(vals), max(vals)))
    return out


def speeds(p, n=64):
    return [math.hypot(*deriv(p, i / n)) for i in range(n + 1)]


def regular(p, ratio=0.05):
    """No cusp, no vanishing end tangent."""
    s = speeds(p)
    return max(s) > 0 and min(s) > ratio * max(s)


def retracted(p):
    """Is p a cubic one or both of whose handles lie exactly on their ends, and which is regular otherwise?"""
    if len(p) != 4 or p[0] == p[3]:
        return False
    a, b = tuple(p[0]) == tuple(p[1]), tuple(p[2]) == tuple(p[3])
    s = speeds(p)
    s = s[8 * a:len(s) - 8 * b]
    return (a or b) and min(s) > 0.1 * max(s)


def sound(p):
    return regular(p) or retracted(p)


def heading(p, t):
    """The derivative at t; at an end where it vanishes, the direction the curve leaves (arrives) in."""
    v = deriv(p, t)
    if v[0] == v[1] == 0 and t in (0, 1):
        q = p if t == 0 else p[::-1]
        for x in q:
            if tuple(x) != tuple(q[0]):
                return (x[0] - q[0][0], x[1] - q[0][1]) if t == 0 else (q[0][0] - x[0], q[0][1] - x[1])
    return v


def vmax(p):
    h = hodo(p)
    return max(math.hypot(*q) for q in h)


_GL5 = [(-0.906179845938664, 0.2369268850561891), (-0.5384693101056831, 0.4786286704993665), (0.0, 0.5688888888888889),
        (0.5384693101056831, 0.4786286704993665), (0.906179845938664, 0.2369268850561891)]


def arclen(p):
    def seg(a, b):
        m, r = (a + b) / 2, (b - a) / 2
        return r * sum(w * math.hypot(*deriv(p, m + r * x)) for x, w in _GL5)

    def rec(a, b, whole, d):
        m = (a + b) / 2
        l, r = seg(a, m), seg(m, b)
        if d > 18 or abs(l + r - whole) <= 1e-13 * (abs(whole) + 1e-30):
            return l + r
        return rec(a, m, l, d + 1) + rec(m, b, r, d + 1)

    return sum(rec(i / 4, (i + 1) / 4, seg(i / 4, (i + 1) / 4), 0) for i in range(4))


# --- arc length in high precision, with quadrature worked out here
_rules = {}


def gauss(n, prec=60):
    """Nodes and weights of Gauss-Legendre quadrature with n points on [0, 1], to about 50 digits."""
    if n not in _rules:
        D = decimal.Decimal
        with decimal.localcontext(decimal.Context(prec=prec)):
            out = []
            for k in range(n):
                x = D(math.cos(math.pi * (k + 0.75) / (n + 0.5)))
                for _ in range(8):
                    a, b = D(1), x
                    for j in range(2, n + 1):
                        a, b = b, ((2 * j - 1) * x * b - (j - 1) * a) / j
                    d = n * (x * b - a) / (x * x - 1)
                    x -= b / d
                out.append(((x + 1) / 2, 1 / ((1 - x * x) * d * d)))
            _rules[n] = out
    return _rules[n]


@functools.lru_cache(256)
def arclen_fine(p):
    """(arc length, error of 24-point quadrature), as Decimals."""
    D = decimal.Decimal
    with decimal.localcontext(decimal.Context(prec=50)):
        q = [(D(x), D(y)) for x, y in p]
        n = len(q) - 1
        h = [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(q, q[1:])]

        def speed(t):
            r = h
            while len(r) > 1:
                r = [((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1]) for a, b in zip(r, r[1:])]
            return (r[0][0] * r[0][0] + r[0][1] * r[0][1]).sqrt()
        rule = gauss(24)
        whole = sum(w * speed(t) for t, w in rule)
        parts = sum(w * speed((t + i) / 3) for i in range(3) for t, w in rule) / 3
        return parts, abs(whole - parts)


def nearest(p, pt, n=200, lo=0.0, hi=1.0, f=None):
    """(distance, parameter) of the point of the curve nearest to pt."""
    if f is None:
        def f(t): return dist(bern(p, t), pt)
    vals = [f(lo + (hi - lo) * i / n) for i in range(n + 1)]
    lows = [i for i in range(n + 1) if (i == 0 or vals[i] <= vals[i - 1]) and (i == n or vals[i] <= vals[i + 1])]
    order = sorted(lows, key=vals.__getitem__)[:8]
    best = None
    for i in order:
        a = lo + (hi - lo) * max(0, i - 1) / n
        b = lo + (hi - lo) * min(n, i + 1) / n
        g = (math.sqrt(5) - 1) / 2
        c, d = b - g * (b - a), a + g * (b - a)
        fc, fd = f(c), f(d)
        for _ in range(60):
            if fc < fd:
                b, d, fd = d, c, fc
                c = b - g * (b - a)
                fc = f(c)
            else:
                a, c, fc = c, d, fd
                d = a + g * (b - a)
                fd = f(d)
        for t in (a, b, (a + b) / 2, lo + (hi - lo) * i / n):
            v = f(t)
            if best is None or v < best[0]:
                best = (v, t)
    return best


def passes(p, pt, e, lo=0.0):
    """The first parameter from lo on at which the curve is within e of pt (or 3e, perhaps), by subdivision; or None."""
    todo = [(list(p), 0.0, 1.0)]
    while todo:
        q, u, v = todo.pop()
        if v < lo:
            continue
        xs, ys = [a[0] for a in q], [a[1] for a in q]
        l, r, b, t = min(xs), max(xs), min(ys), max(ys)
        if not (l - e <= pt[0] <= r + e and b - e <= pt[1] <= t + e):
            continue
        if r - l + t - b <= e:
            return max(u, lo)
        left, right = [q[0]], [q[-1]]
        while len(q) > 1:
            q = [((a[0] + c[0]) / 2, (a[1] + c[1]) / 2) for a, c in zip(q, q[1:])]
            left.append(q[0])
            right.append(q[-1])
        m = (u + v) / 2
        todo += [(right[::-1], m, v), (left, u, m)]
    return None


# --- crossings of two polylines, by recursive bounding boxes
def _tree(pts, i, j):
    xs = [q[0] for q in pts[i:j + 1]]
    ys = [q[1] for q in pts[i:j + 1]]
    b = (min(xs), max(xs), min(ys), max(ys))
    if j - i <= 1:
        return (b, i, None, None)
    m = (i + j) // 2
    return (b, i, _tree(pts, i, m), _tree(pts, m, j))


def crossings(p, q, n=192, self_gap=None):
    """Transversal crossings of two curves: [(t, s, point, sine of angle)]."""
    A = [bern(p, i / n) for i in range(n + 1)]
    B = A if q is p else [bern(q, i / n) for i in range(n + 1)]
    out = []

    def hit(a, b):
        x1, y1 = A[a]
        x2, y2 = A[a + 1]
        x3, y3 = B[b]
        x4, y4 = B[b + 1]
        dx, dy, ex, ey = x2 - x1, y2 - y1, x4 - x3, y4 - y3
        den = dx * ey - dy * ex
        l = math.hypot(dx, dy) * math.hypot(ex, ey)
        if l == 0 or abs(den) < 1e-3 * l:
            return
        u = ((x3 - x1) * ey - (y3 - y1) * ex) / den
        v = ((x3 - x1) * dy - (y3 - y1) * dx) / den
        if 0 <= u < 1 and 0 <= v < 1:
            out.append(((a + u) / n, (b + v) / n, (x1 + u * dx, y1 + u * dy), abs(den) / l))

    def rec(u, v):
        b, c = u[0], v[0]
        if b[1] < c[0] or c[1] < b[0] or b[3] < c[2] or c[3] < b[2]:
            return
        if u[2] is None and v[2] is None:
            if self_gap is None or v[1] - u[1] > self_gap * n:
                hit(u[1], v[1])
        elif v[2] is None or (u[2] is not None and (b[1] - b[0]) + (b[3] - b[2]) >= (c[1] - c[0]) + (c[3] - c[2])):
            rec(u[2], v)
            rec(u[3], v)
        else:
            rec(u, v[2])
            rec(u, v[3])

    rec(_tree(A, 0, n), _tree(B, 0, n))
    return out


def least_squares(pts, times, n):
    """Control points of the order n-1 curve nearest to the points at the given times, exactly."""
    from fractions import Fraction as F
    rows = [[math.comb(n - 1, i) * F(t) ** i * (1 - F(t)) ** (n - 1 - i) for i in range(n)] for t in times]
    a = [[sum(r[i] * r[j] for r in rows) for j in range(n)] + [sum(r[i] * F(p[d]) for r, p in zip(rows, pts)) for d in (0, 1)] for i in range(n)]
    for i in range(n):
        k = next(k for k in range(i, n) if a[k][i])
        a[i], a[k] = a[k], a[i]
        a[i] = [v / a[i][i] for v in a[i]]
        for k in range(n):
            if k != i and a[k][i]:
                f = a[k][i]
                a[k] = [u - f * v for u, v in zip(a[k], a[i])]
    return [(float(r[n]), float(r[n + 1])) for r in a]


# --- path strings
_tok = re.compile(r"[A-Za-z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
_bad = re.compile(r"[^A-Za-z0-9eE+\-.,\s]")


def parse_path(d):
    """Subpaths of an SVG path string: [(start, [segment points after the pen...], closed)], or an error text."""
    if _bad.search(d):
        return f"illegal character in path {d!r}"
    left = _tok.sub(" ", d).replace(",", " ").strip()
    if left:
        return f"unparsable text {left!r} in path {d!r}"
    toks = _tok.findall(d)
    subs = []
    pen = None
    i = 0
    cmd = None
    need = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "C": 6, "Z": 0}
    while i < len(toks):
        if toks[i].isalpha():
            cmd = toks[i]
            i += 1
            if cmd not in need:
                return f"unexpected command {cmd!r}"
            if cmd == "Z":
                if not subs:
                    return "close before move"
                subs[-1][2] = True
                cmd = "Z!"
                continue
        elif cmd in (None, "Z!"):
            return "numbers without a command"
        k = need[cmd]
        try:
            v = [float(x) for x in toks[i:i + k]]
        except ValueError:
            return f"missing numbers after {cmd}"
        if len(v) < k:
            return f"missing numbers after {cmd}"
        i += k
        if cmd == "M":
            pen = (v[0], v[1])
            subs.append([pen, [], False])
            cmd = "L"  # further pairs are implicit lines
            continue
        if pen is None:
            return "drawing before move"
        if cmd == "H":
            pts = [(v[0], pen[1])]
        elif cmd == "V":
            pts = [(pen[0], v[0])]
        else:
            pts = [(v[j], v[j + 1]) for j in range(0, k, 2)]
        subs[-1][1].append(pts)
        pen = pts[-1]
    return subs


def path_expected(start, segs):
    """What a path string must say for segments (each a list of >= 2 points) drawn from start."""
    pen = tuple(start)
    out = []
    for s in segs:
        rest = [tuple(q) for q in s[1:]]
        if len(s) == 2 and rest[0] == pen:
            continue
        out.append(rest)
        pen = rest[-1]
    return out


def path_equal(got, want):
    return len(got) == len(want) and all(
        len(g) == len(w) and all(a[0] == b[0] and a[1] == b[1] for a, b in zip(g, w)) for g, w in zip(got, want))
