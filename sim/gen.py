"""Generation of curves, contours and arguments: many small families, chosen per run."""
import math

from . import model as M


def curve(rng, order=None, family=None, size=None):
    order = order or rng.choice([1, 2, 2, 3, 3, 3])
    size = size or rng.choice([10, 50, 200, 1000, 1000, 16000])
    family = family or rng.choice(["grid", "grid", "half", "float", "arc", "arc", "flat", "degenerate", "scurve", "loop", "axis", "far", "thin", "tiny"])
    n = order + 1

    def g():
        return rng.randint(-size, size)
    if family == "grid":
        return [(g(), g()) for _ in range(n)]
    if family == "half":
        return [(g() + 0.5 * rng.randint(0, 1), g() + 0.5 * rng.randint(0, 1)) for _ in range(n)]
    if family == "float":
        return [(rng.uniform(-size, size), rng.uniform(-size, size)) for _ in range(n)]
    if family == "arc":  # a smooth turning arc, in any of eight directions
        a0 = rng.choice([0, 90, 180, 270, rng.randint(0, 359)])
        turn = rng.choice([30, 60, 90, 90, 120, 150]) * rng.choice([1, -1])
        return arc(rng, order, size, a0, turn)
    if family == "flat":  # collinear control points
        dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (3, -2)])
        ks = [rng.randint(-size, size) for _ in range(n)]
        return [(k * dx, k * dy) for k in ks]
    if family == "degenerate":  # coincident points
        pts = [(g(), g()) for _ in range(n)]
        for _ in range(rng.randint(1, 2)):
            pts[rng.randrange(n)] = pts[rng.randrange(n)]
        return pts
    if family == "scurve" and order == 3:
        w = rng.randint(5, size)
        h = rng.randint(5, size)
        return [(0, 0), (w, 0), (rng.randint(-w, w), h), (w, h)]
    if family == "loop" and order == 3:
        w = rng.randint(5, size)
        return [(0, 0), (2 * w, w + rng.randint(0, w)), (-w - rng.randint(0, w // 2), w + rng.randint(0, w)), (w, 0)]
    if family == "axis":  # tangents along the axes: extrema exactly at the ends, linear derivatives
        a, b = rng.randint(1, size), rng.randint(1, size)
        if order == 3:
            return rng.choice([[(0, 0), (0, b), (a, b), (a, 0)], [(0, 0), (0, b), (a, 2 * b), (2 * a, 2 * b)],
                               [(0, 0), (a, b), (2 * a, b), (3 * a, 0)], [(0, 0), (a, 3 * b), (2 * a, 3 * b), (3 * a, 0)]])
        if order == 2:
            return rng.choice([[(0, 0), (0, b), (a, b)], [(0, 0), (a, b), (2 * a, 0)], [(0, 0), (a, 0), (2 * a, b)]])
        return rng.choice([[(0, 0), (a, 0)], [(0, b), (0, 0)], [(a, b), (a, b)]])
    if family == "far":
        ox, oy = rng.choice([40000, -40000, 100000]), rng.choice([40000, -70000, 0])
        return [(ox + g() % 2000, oy + g() % 2000) for _ in range(n)]
    if family == "thin":  # all but level, or all but upright
        e = rng.choice([1e-3, 1e-5, 1e-6, 1e-8])
        pts = [(g(), rng.randint(-20, 20) * e) for _ in range(n)]
        return [(y, x) for x, y in pts] if rng.random() < 0.5 else pts
    if family == "tiny":  # in a unit em, or smaller
        e = rng.choice([1 / 1000, 1 / 2048, 1e-5])
        return [(rng.randint(-1000, 1000) * e, rng.randint(-1000, 1000) * e) for _ in range(n)]
    return [(g(), g()) for _ in range(n)]


def arc(rng, order, size, a0, turn):
    d0 = (math.cos(math.radians(a0)), math.sin(math.radians(a0)))
    d1 = (math.cos(math.radians(a0 + turn)), math.sin(math.radians(a0 + turn)))
    k = max(4, size // 2)
    l0, l1 = rng.randint(k // 2 + 1, k), rng.randint(k // 2 + 1, k)
    p0 = (rng.randint(-size, size), rng.randint(-size, size))
    p1 = (p0[0] + l0 * d0[0], p0[1] + l0 * d0[1])
    if order == 1:
        return [p0, p1]
    if order == 2:
        return [p0, p1, (p1[0] + l1 * d1[0], p1[1] + l1 * d1[1])]
    m = rng.randint(1, k) * 0.7
    mid = math.radians(a0 + turn / 2)
    p2 = (p1[0] + m * math.cos(mid), p1[1] + m * math.sin(mid))
    return [p0, p1, p2, (p2[0] + l1 * d1[0], p2[1] + l1 * d1[1])]


def regular_curve(rng, order=None, size=None, ratio=0.05):
    for _ in range(40):
        p = curve(rng, order or rng.choice([2, 3, 3]), rng.choice(["grid", "half", "float", "arc", "arc", "scurve", "loop", "axis"]),
                  size or rng.choice([20, 100, 100, 400]))
        if M.regular(p, ratio):
            return units(rng, p) if size is None else p
    return arc(rng, order or 3, 100, 30, 90)


def units(rng, p, share=0.1):
    """Now and then, in other units: coordinates that are no whole numbers."""
    if rng.random() >= share:
        return p
    k = rng.choice([0.001, 1 / 2048, 0.01, 0.1, 1 / 3, 0.7])
    return [(x * k, y * k) for x, y in p]


def early_turn(rng):
    """A curve one of whose coordinates turns back very close to its start or end."""
    s = rng.choice([50, 1000])
    p = [[rng.randint(-s, s) for _ in range(2)] for _ in range(rng.choice([3, 4, 4]))]
    i = rng.randrange(2)
    t = 10 ** -rng.uniform(1.5, 5.5)
    k = rng.choice([1, -1]) * rng.randint(5, s)
    p[1][i] = p[0][i] - k * t * (len(p) - 2)
    p[2][i] = p[1][i] + k
    if rng.random() < 0.5:
        p.reverse()
    return [tuple(q) for q in p]


def retracted_curve(rng):
    """A cubic with one handle (sometimes both) on its end."""
    for _ in range(60):
        p = [tuple(map(float, q)) for q in curve(rng, 3, rng.choice(["grid", "arc", "half", "scurve"]), rng.choice([20, 100, 100, 400]))]
        k = rng.choice([1, 1, 2, 2, 3])
        if k & 1:
            p[1] = p[0]
        if k & 2:
            p[2] = p[3]
        if M.retracted(p):
            return units(rng, p, 0.4)
    return [(0, 0), (0, 0), (50, 0), (50, 50)]


def contour(rng, n=None, size=None, closed=None):
    """A contiguous chain of curves."""
    n = n or (rng.choice([1, 1, 2, 2, 3, 4, 5]) if rng.random() < 0.98 else rng.randint(8, 30))
    unit = rng.choice([0.001, 0.01, 0.1, 1 / 3]) if size is None and rng.random() < 0.05 else None
    size = size or rng.choice([50, 200, 1000])
    pts = (rng.randint(-size, size), rng.randint(-size, size))
    start = pts
    out = []
    for i in range(n):
        o = rng.choice([1, 2, 3])
        c = curve(rng, o, rng.choice(["grid", "half", "axis", "degenerate", "scurve", "grid"]), size)
        dx, dy = pts[0] - c[0][0], pts[1] - c[0][1]
        c = [(x + dx, y + dy) for x, y in c]
        c[0] = pts
        if o == 1 and rng.random() < 0.4:
            c[1] = (c[1][0], pts[1]) if rng.random() < 0.5 else (pts[0], c[1][1])
        if i == n - 1 and (closed if closed is not None else rng.random() < 0.6):
            c[-1] = start
        out.append(c)
        pts = c[-1]
    if unit:
        out = [[(x * unit, y * unit) for x, y in c] for c in out]
    return out


def t(rng):
    return rng.choice([0, 1, 0.5, 0.25, 0.75, rng.random(), rng.random(), round(rng.random(), 2), 0.01, 0.99])


def tin(rng):
    return rng.choice([0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, rng.uniform(0.01, 0.99), rng.uniform(0.01, 0.99)])


def piece_chain(rng, depth, reduce_ok):
    s = ""
    for _ in range(depth):
        k = rng.choice("LRSSD" if reduce_ok else "LRSS")
        if k == "D":
            s += f"|D:{rng.randint(0, 5)}"
            continue
        if k == "S":
            a = rng.choice([0.0, 0.2, round(rng.uniform(0.05, 0.6), 3)])
            b = rng.choice([1.0, round(a + rng.uniform(0.1, 0.9) * (1 - a), 3)])
            if a == 0.0 and b == 1.0:
                b = 0.5
            s += f"|S:{a},{b}"
        else:
            s += f"|{k}:{rng.choice([0.5, 0.25, round(rng.uniform(0.1, 0.9), 3)])}"
    return s
