"""C09, C10: plotters drawing contours, paths and point runs, compactly or plainly, with calls cut short."""
import json
import re
import sys

from . import adorn as A, engine, gen, harness, lib, model as M, ops as O
from .harness import Exec, Result, alone, show

CAP = 4_000_000  # steps no call comes near
ATTRS = ("_strokeWidth", "_strokeColor", "_strokeOpacity", "_strokeDash", "_fillColor", "_fillOpacity")
_attr = re.compile(r"([A-Za-z][\w-]*)\s*=\s*(?:'([^']*)'|\"([^\"]*)\")")


def state(p):
    return tuple(None if getattr(p, a) is None else str(getattr(p, a)) for a in ATTRS)


def attrs(el):
    return {m[0]: m[1] or m[2] for m in _attr.findall(el)}


def wanted(p, st, color, fill):
    """The attributes an element drawn by a call with this colour must carry."""
    w, sc, so, sd, fc, fo = st
    if fill:
        return {"fill": str(color if color else fc), "fill-opacity": str(fo)}
    return {"fill": "none", "stroke": str(color if color else sc), "stroke-width": str(w), "stroke-opacity": str(so), "stroke-dasharray": str(sd)}


def elements(o, paths):
    """What the call must draw: [("path", [(start, segments, closed)]) | ("circle", x, y, r, colour index)]."""
    f = o["f"]
    if f == "contours":
        return [("path", [(c[0][0], c, o["close"]) for c in o["cc"]])]
    if f == "curve":
        return [("path", [(o["p"][0], [o["p"]], False)])]
    if f == "paths":
        return [("path", [(p[0][0], p, None)]) for p in (paths[i] for i in o["paths"])]
    if f == "dstring":
        return []
    if f == "arrow":
        return [("line", *o["a"], *o["b"])]
    if f == "segments":
        return [("path", [(o["pts"][0], [[a, b] for a, b in zip(o["pts"], o["pts"][1:])], False)])]
    if f in ("circles", "complex"):
        return [("circle", p[0], p[1], o["r"], i) for i, p in enumerate(o["pts"])]
    return None


def check_path(el, want):
    a = attrs(el)
    if "d" not in a:
        return f"no path in {el!r}"
    subs = M.parse_path(a["d"])
    if isinstance(subs, str):
        return subs
    if len(subs) != len(want):
        return f"{len(subs)} subpaths drawn, {len(want)} contours given: {a['d']!r}"
    for s, (start, segs, closed) in zip(subs, want):
        if tuple(s[0]) != (float(start[0]), float(start[1])):
            return f"subpath starts at {s[0]}, expected {start}: {a['d']!r}"
        if not M.path_equal(s[1], M.path_expected(start, segs)):
            return f"path {a['d']!r} says {s[1]}, expected {M.path_expected(start, segs)}"
        if closed is not None and bool(s[2]) != bool(closed):
            return f"subpath {'is' if s[2] else 'is not'} closed: {a['d']!r}"


def check_shape(el, w):
    a = attrs(el)
    names = ("cx", "cy", "r") if w[0] == "circle" else ("x1", "y1", "x2", "y2")
    got = [a.get(k) for k in names]
    try:
        same = [float(v) for v in got] == [float(v) for v in w[1:len(names) + 1]]
    except (TypeError, ValueError):
        same = False
    if not same:
        return f"{w[0]} {got}, expected {w[1:len(names) + 1]}"


def run(scn, trace=None):
    res = Result()
    inst = lib.fresh()
    CP = inst.get("ContourPlotter").ContourPlotter
    Color = inst.get("Color").Color
    colors = [Color(*c) for c in scn["colors"]]
    paths = [inst.BContour([O.tup(c) for c in p]) for p in scn["paths"]]
    pal = lambda i: None if i is None else colors[i]
    ex = Exec(scn, res, trace)
    look, geo = scn.get("look", True), scn.get("geo", True)

    def body(tid):
        t = scn["threads"][tid]
        p = CP((0, 0, 1000, 700), poly=t["poly"])
        p.setStrokeColor(colors[0])
        p.setFillColor(colors[1])
        p.setFillOpacity(0.5)
        saved = []
        stack = []  # attributes saved by pushes
        nest = True  # until a call is cut short inside a push
        for oi, o in enumerate(t["ops"]):
            f = o["f"]
            before = state(p)
            n0 = len(p._content)
            color = pal(o.get("color"))
            if f == "contours":
                def call(): p.drawContours([[O.tup(s) for s in c] for c in o["cc"]], color=color, fill=o["fill"], close=o["close"])
            elif f == "curve":
                def call(): p.drawCurve(O.tup(o["p"]), color)
            elif f == "paths":
                def call(): p.drawPaths([paths[i] for i in o["paths"]], color=color, fill=o["fill"])
            elif f == "segments":
                def call(): p.drawPointsAsSegments(O.tup(o["pts"]), color)
            elif f == "circles":
                def call(): p.drawPointsAsCircles([complex(*q) for q in o["pts"]] if o.get("complex") else O.tup(o["pts"]), o["r"], [pal(c) for c in o["colors"]] or None, fill=o["fill"])
            elif f == "complex":
                def call(): p.drawComplexPointsAsCircles([complex(*q) for q in o["pts"]], o["r"], [pal(c) for c in o["colors"]] or None, fill=o["fill"])
            elif f == "skeleton":
                def call(): p.drawSkeleton(paths[o["path"]][0], color or colors[2], [colors[3]])
            elif f == "hull":
                def call(): p.drawHull(paths[o["path"]][0], o["t"], color or colors[2], colors[3])
            elif f == "arrow":
                def call(): p.drawArrowBetweenPoints(tuple(o["a"]), tuple(o["b"]), color)
            elif f == "dstring":
                def call(): return paths[o["path"]].d()
            elif f == "pushFill":
                def call(): p.pushFillAttributes(color=color, opacity=o.get("op"))
            elif f == "pushStroke":
                def call(): p.pushStrokeAttributes(width=o.get("w"), color=color, opacity=o.get("op"), dash=o.get("dash"))
            elif f == "popFill":
                def call(): p.popFillAttributes()
            elif f == "popStroke":
                def call(): p.popStrokeAtributes()
            elif f == "set":
                def call():
                    p.setStrokeWidth(o["w"])
                    p.setStrokeColor(color)
                    p.setFillOpacity(o["op"])
                    p.setStrokeDash(o["dash"])
            r = ex.call(tid, oi, call, CAP)
            if trace is not None:
                continue
            where = f"plotter {tid} op {oi} {f} {show({k: v for k, v in o.items() if k != 'f'})}"
            if r.out in ("budget", "deadlock"):
                res.bad("liveness", f"{where} does not finish")
                return
            if not r.ok and not r.cut:
                res.bad("exception", f"{where} raised {r.out[4:]}")
                return
            after = state(p)
            new = list(p._content[n0:])
            if p._content[:n0] != saved:
                if geo:
                    res.bad("earlier", f"{where} altered elements drawn earlier")
                    return
            saved = list(p._content)
            if look and r.ok:
                w, sc, so, sd, fc, fo = before
                want = before
                given = lambda v: None if v is None else str(v)
                given0 = lambda v, old: old if v is None else str(v)
                if f in ("pushFill", "pushStroke"):
                    stack.append((f[4:], before))
                    if f == "pushFill":
                        want = (w, sc, so, sd, given(color) or fc, given0(o.get("op"), fo))
                    else:
                        want = (given0(o.get("w"), w), given(color) or sc, given0(o.get("op"), so), given(o.get("dash")) or sd, fc, fo)
                elif f in ("popFill", "popStroke"):
                    k = next((i for i in range(len(stack) - 1, -1, -1) if stack[i][0] == f[3:]), None)
                    b = stack.pop(k)[1] if k is not None else before
                    want = b[:4] + before[4:] if f == "popStroke" else before[:4] + b[4:]
                    if not nest:
                        want = after
                elif f == "set":
                    want = (given(o["w"]), given(color), so, given(o["dash"]), fc, given(o["op"]))
                if after != want:
                    res.bad("attributes", f"{where} left {dict(zip(ATTRS, after))}, expected {dict(zip(ATTRS, want))}")
                    return
            if not r.ok:
                nest = False
            els = elements(o, scn["paths"])
            if els is None:
                continue
            if f == "dstring" and r.ok and geo:
                src = scn["paths"][o["path"]]
                m = check_path(f"<path d='{r.raw}'/>", [(src[0][0], src, None)]) if isinstance(r.raw, str) else f"answered {r.raw!r}"
                if m:
                    res.bad("path", f"{where}: {m}")
                    return
            if geo:
                if len(new) > len(els) or (r.ok and len(new) != len(els)):
                    res.bad("elements", f"{where} emitted {len(new)} elements, expected {len(els)}")
                    return
                for el, w in zip(new, els):
                    m = check_path(el, w[1]) if w[0] == "path" else check_shape(el, w)
                    if m:
                        res.bad("path", f"{where}{', cut short,' if r.cut else ''}: {m}")
                        return
            if look and len(new) == len(els):
                for el, w in zip(new, els):
                    c = color
                    if w[0] == "circle":
                        c = pal(o["colors"][w[4] % len(o["colors"])]) if o["colors"] else None
                    exp = wanted(p, before, c, o.get("fill", False))
                    got = attrs(el)
                    if w[0] == "line":  # arrows have their own dash, and nothing to fill
                        exp = {k: v for k, v in exp.items() if k not in ("fill", "stroke-dasharray")}
                        got.pop("stroke-dasharray", None)
                    for k in ("d", "cx", "cy", "r", "x1", "y1", "x2", "y2"):
                        got.pop(k, None)
                    if got != exp:
                        res.bad("element", f"{where} drew with {got}, expected {exp}")
                        return

    ex.go([(lambda i=i: body(i)) for i in range(len(scn["threads"]))])
    res.signature += json.dumps([[t["poly"], [o["f"] for o in t["ops"]]] for t in scn["threads"]])
    res.nontrivial = True
    return res


# --- generation
def point(rng, grid):
    if grid == 0:
        return [rng.randint(-3, 3), rng.randint(-3, 3)]
    if grid == 1:
        return [rng.randint(-1000, 1000), rng.randint(-1000, 1000)]
    if grid == 2:
        return [rng.choice([0, 1e-7, 0.5, -0.5, 1e16, 12345.678]), rng.choice([0, -1e-7, 2.5, 1e21, -3])]
    if rng.random() < 0.3:  # every digit counts
        return [rng.uniform(-1000, 1000), rng.choice([rng.randint(-10, 10) / 3, rng.uniform(-1, 1) * 1e-3, rng.randint(0, 9) * 0.1 + 0.2])]
    return [round(rng.uniform(-1000, 1000), rng.choice([1, 3, 9])), rng.randint(-1000, 1000) + 0.5]


def chain(rng, grid):
    """Consecutive segments, with plenty of repeated commands, vertical, horizontal and empty lines."""
    pen = point(rng, grid)
    out = []
    kinds = rng.choice(["lqc", "l", "q", "c", "lq", "lc", "hv", "hvl"])
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 12]) if rng.random() < 0.98 else rng.randint(20, 80)):
        k = rng.choice(kinds)
        n = {"q": 2, "c": 3}.get(k, 1)
        ps = [point(rng, grid) for _ in range(n)]
        if k == "h" or k == "l" and rng.random() < 0.2:
            ps[0][1] = pen[1]
        if k == "v" or k == "l" and rng.random() < 0.2:
            ps[0][0] = pen[0]
        if k not in "qc" and rng.random() < 0.12:
            ps[0] = list(pen)
        if rng.random() < 0.1 and out:
            ps[-1] = list(out[0][0])
        out.append([list(pen)] + ps)
        pen = ps[-1]
    return out


def colours(rng, n):
    out = []
    while len(out) < n:
        c = [rng.randint(0, 255) for _ in range(3)]
        if c not in out:
            out.append(c)
    return out


def draw(rng, scn, grid, kinds):
    f = rng.choice(kinds)
    col = rng.choice([None] + list(range(len(scn["colors"]))))
    o = {"f": f, "color": col}
    if f == "contours":
        o.update(cc=[chain(rng, grid) for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else 0)], fill=rng.random() < 0.4, close=rng.random() < 0.6)
    elif f == "curve":
        o.update(p=[point(rng, grid) for _ in range(rng.choice([2, 3, 4]))])
    elif f == "paths":
        o.update(paths=[rng.randrange(len(scn["paths"])) for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else 0)], fill=rng.random() < 0.4)
    elif f == "segments":
        o.update(pts=[point(rng, grid) for _ in range(rng.choice([1, 2, 3, 5, 12]))])
        for i in range(1, len(o["pts"])):
            if rng.random() < 0.15:
                o["pts"][i] = list(o["pts"][i - 1])
    elif f in ("circles", "complex"):
        o.update(pts=[point(rng, grid) for _ in range(rng.choice([1, 2, 3, 5, 7, 12]))], r=rng.choice([1, 2, 3.5]),
                 colors=[rng.randrange(len(scn["colors"])) for _ in range(rng.choice([0, 1, 2, 3]))], fill=rng.random() < 0.5)
        if f == "circles" and rng.random() < 0.3:
            o["complex"] = True
        del o["color"]
    elif f == "dstring":
        o.update(path=rng.randrange(len(scn["paths"])))
    elif f == "arrow":
        o.update(a=point(rng, grid), b=point(rng, grid))
    elif f in ("skeleton", "hull"):
        o.update(path=rng.randrange(len(scn["paths"])), t=rng.choice([0, 0.5, 0.25, 1]))
    return o


def world(rng, paths=None):
    grid = rng.choice([0, 0, 1, 1, 2, 3])
    scn = {"colors": colours(rng, rng.choice([4, 5, 6])), "paths": [chain(rng, grid) for _ in range(paths or rng.choice([1, 2, 3]))]}
    return scn, grid


def gen_C10(rng):
    scn, grid = world(rng)
    scn.update(look=False, geo=True)
    T = rng.choice([1, 1, 1, 2, 2, 3])
    kinds = rng.choice([["contours"], ["contours", "contours", "paths", "segments", "curve"], ["paths"], ["paths", "contours", "dstring"], ["dstring", "dstring", "paths"],
                        ["segments", "curve", "circles", "complex", "contours"]])
    scn["threads"] = [{"poly": rng.random() < 0.65, "ops": [draw(rng, scn, grid, kinds) for _ in range(rng.choice([1, 2, 3, 5]) if T > 1 or rng.random() < 0.98 else 30)]} for _ in range(T)]
    mode = rng.choice(["hist", "fault", "fault"] if T == 1 else ["switch", "walk", "both"])
    return A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in scn["threads"]])


def gen_C09(rng):
    scn, grid = world(rng)
    scn.update(look=True, geo=False)
    T = rng.choice([1, 1, 1, 1, 2])
    kinds = rng.choice([["contours", "paths", "segments", "circles", "complex", "curve", "skeleton", "hull", "arrow"], ["circles", "complex", "segments"],
                        ["contours", "paths"], ["skeleton", "hull", "circles"], ["arrow", "segments", "contours"]])
    scn["threads"] = []
    for _ in range(T):
        ops, depth = [], []
        deep = rng.random() < 0.3
        for _ in range(rng.choice([2, 3, 5, 8, 12]) if T > 1 or rng.random() < 0.97 else rng.randint(30, 80)):
            r = rng.random()
            if r < (0.5 if deep else 0.2):
                k = rng.choice(["Fill", "Stroke"])
                depth.append(k)
                o = {"f": "push" + k, "color": rng.choice([None, None] + list(range(len(scn["colors"])))), "op": rng.choice([None, 0.25, 0.75, 0])}
                if k == "Stroke":
                    o.update(w=rng.choice([None, 2, 7, 0]), dash=rng.choice([None, "2, 1", "4"]))
                ops.append(o)
            elif r < (0.7 if deep else 0.35) and depth:
                k = rng.choice(depth)
                depth.remove(k)
                ops.append({"f": "pop" + k})
            elif r < 0.75 if deep else r < 0.45:
                ops.append({"f": "set", "w": rng.choice([1, 3]), "color": rng.choice([None] + list(range(len(scn["colors"])))),
                            "op": rng.choice([0.5, 1]), "dash": rng.choice([None, "1, 1"])})
            else:
                ops.append(draw(rng, scn, grid, kinds))
        for k in reversed(depth):
            if rng.random() < 0.8:
                ops.append({"f": "pop" + k})
        scn["threads"].append({"poly": rng.random() < 0.5, "ops": ops})
    mode = rng.choice(["hist", "hist", "fault"] if T == 1 else ["switch", "walk", "both"])
    return A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in scn["threads"]])
