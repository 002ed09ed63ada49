"""C06, C07: glyphs drawn into pens, with components, failures and other pens at work at the same time."""
import json
import sys

from . import adorn as A, engine, harness, lib
from .harness import Exec, Result, alone, show

CAP = 4_000_000  # steps no call comes near
IDENT = (1, 0, 0, 1, 0, 0)


class DrawFailure(Exception):
    pass


class Log:
    """A logger; `fail` makes its n-th message fail, as a full disk under a log file does."""

    def __init__(self, fail=None):
        self.fail, self.n = fail, 0

    def debug(self, *a, **k):
        self.n += 1
        if self.fail is not None and self.n == self.fail:
            raise OSError(engine.FAULT_TEXT)

    info = warning = error = log = debug


def tt(v):
    return tuple(tt(x) if isinstance(x, list) else x for x in v)


def play(pen, calls):
    for c in calls:
        if c[0] == "fail":
            raise DrawFailure()
        getattr(pen, c[0])(*[tt(x) if isinstance(x, list) else x for x in c[1:]])


class Glyph:
    def __init__(self, calls):
        self.calls = calls

    def draw(self, pen):
        play(pen, self.calls)


class Failed(Exception):
    pass


# --- what a pen should hold
class ModelPen:
    """Contours by definition of the drawing calls, not by the library."""

    def __init__(self, world):
        self.done, self.open, self.at, self.world = [], [], (0, 0), world

    def moveTo(self, p):
        self.open, self.at = [], p

    def line(self, a, b):
        if a != b:
            self.open.append([a, b])

    def lineTo(self, p):
        self.line(self.at, p)
        self.at = p

    def curveTo(self, *ps):
        self.open.append([self.at, *ps])
        self.at = ps[-1]

    def qCurveTo(self, *ps):
        off, end = ps[:-1], ps[-1]
        if not off:
            return self.lineTo(end)
        for i, q in enumerate(off):
            if i + 1 < len(off):
                to = ((q[0] + off[i + 1][0]) / 2, (q[1] + off[i + 1][1]) / 2)
            else:
                to = end
            self.open.append([self.at, q, to])
            self.at = to

    def closePath(self):
        if self.open:
            self.line(self.open[-1][-1], self.open[0][0])
            self.done.append(self.open)
            self.open = []

    def addComponent(self, name, t):
        self.done += component(self.world, name, t, lambda: ModelPen(self.world))


class LonePen:
    """What the library's own pen makes of calls other than components, on a lone fresh copy."""

    def __init__(self, world):
        self.world = world
        self.pen = lib.fresh().get("SegmentPen").SegmentPen({}, Log())
        self.done, self.seen = [], 0

    def addComponent(self, name, t):
        self.done += component(self.world, name, t, lambda: LonePen(self.world))

    def __getattr__(self, n):
        def call(*a):
            getattr(self.pen, n)(*a)
            self.done += self.pen.contours[self.seen:]
            self.seen = len(self.pen.contours)
        return call


def component(world, name, t, make):
    if name not in world["glyphs"]:
        raise Failed("KeyError")
    if world["depth"] > 90:
        raise Failed("RecursionError")
    world["depth"] += 1
    try:
        pen = make()
        for c in world["glyphs"][name]:
            if c[0] == "fail":
                raise Failed("DrawFailure")
            getattr(pen, c[0])(*[tt(x) if isinstance(x, list) else x for x in c[1:]])
    finally:
        world["depth"] -= 1
    xx, xy, yx, yy, dx, dy = t
    return [[[(xx * x + yx * y + dx, xy * x + yy * y + dy) for x, y in s] for s in c] for c in pen.done]


def same(a, b, tol):
    if len(a) != len(b):
        return False
    for c, d in zip(a, b):
        if len(c) != len(d):
            return False
        for s, u in zip(c, d):
            if len(s) != len(u):
                return False
            for p, q in zip(s, u):
                if not (len(p) == 2 and abs(p[0] - q[0]) <= tol * (1 + abs(q[0])) and abs(p[1] - q[1]) <= tol * (1 + abs(q[1]))):
                    return False
    return True


def copy(contours):
    return [[[tuple(p) for p in s] for s in c] for c in contours]


def run(scn, trace=None):
    res = Result()
    inst = lib.fresh()
    pens = inst.get("SegmentPen")
    # each pen has a glyph set of its own: the common one, with some glyphs drawn otherwise
    sets = [{n: Glyph(c) for n, c in {**scn["glyphs"], **t.get("own", {})}.items()} for t in scn["threads"]]
    plans = []
    # what each operation adds: [(after call i, contours so far)], or a failure at call i
    if trace is None:
        for t in scn["threads"]:
            world = {"glyphs": {**scn["glyphs"], **t.get("own", {})}, "depth": 0}
            ref = LonePen(world) if scn.get("lone") else ModelPen(world)
            out = []
            for op in t["ops"]:
                steps = [copy(ref.done)]
                fail = None
                if "edit" in op:
                    world["glyphs"][op["edit"][0]] = op["edit"][1]
                for c in op["calls"]:
                    try:
                        if c[0] == "fail":
                            raise Failed("DrawFailure")
                        if scn.get("lone"):
                            with engine.mode("loc", ()):
                                getattr(ref, c[0])(*[tt(x) if isinstance(x, list) else x for x in c[1:]])
                        else:
                            getattr(ref, c[0])(*[tt(x) if isinstance(x, list) else x for x in c[1:]])
                    except Failed as e:
                        fail = e.args[0]
                        break
                    except Exception:
                        if op.get("loose"):
                            break
                        if scn.get("lone"):
                            return res  # the plain pen itself is broken: C06's business
                        raise
                    steps.append(copy(ref.done))
                out.append((steps, fail))
            plans.append(out)
    inst.activate()
    ex = Exec(scn, res, trace)
    objs = []

    def body(tid):
        t = scn["threads"][tid]
        glyphs = sets[tid]
        pen = pens.SegmentPen(glyphs, Log(t.get("logfail")))
        objs.append(pen)
        base = []     # contours of the pen so far
        skew = 0      # contours of the plan that a cut call kept from being drawn
        room = None   # contours the call cut short last didn't get to
        for oi, op in enumerate(t["ops"]):
            if "edit" in op:
                glyphs[op["edit"][0]] = Glyph(op["edit"][1])
            r = ex.call(tid, oi, lambda: play(pen, op["calls"]), CAP)
            if trace is not None:
                continue
            got = copy(pen.contours)
            steps, fail = plans[tid][oi]
            start = len(steps[0])
            where = f"pen {tid} op {oi} {show(op['calls'])}"
            exact = 1e-9 if any(c[0] == "addComponent" for o2 in t["ops"][:oi + 1] for c in o2["calls"]) else 0
            if not same(got[:len(base)], base, exact):
                res.bad("finished", f"{where}: contours already finished became {show(got[:len(base)])}, were {show(base)}")
                return
            added = got[len(base):]
            wants = [s[start:] for s in steps]
            if op.get("loose"):
                # drawing resumed in the middle: what there is to finish is anyone's guess, but it's finished once
                if room is not None and len(added) > room:
                    res.bad("partial", f"{where}, after a call cut short, added {show(added)}: already finished, or never drawn")
                    return
                base, room = got, None
                continue
            if r.out in ("budget", "deadlock"):
                res.bad("liveness", f"{where} does not finish")
                return
            logcut = t.get("logfail") and not r.ok and r.out == "exc:OSError"
            if r.cut or logcut:
                if not any(same(added, w, exact) for w in wants):
                    res.bad("partial", f"{where}, cut short ({r.out}), added {show(added)}; whole steps are {show(wants)}")
                    return
                room = len(wants[-1]) - len(added) if op["calls"][-1] == ["closePath"] and not any(c[0] == "moveTo" for c in op["calls"][1:]) else None
            elif fail is not None:
                if r.ok:
                    res.bad("swallowed", f"{where} reports success though drawing fails with {fail}")
                if not same(added, wants[-1], exact):
                    res.bad("partial", f"{where}, failing with {fail}, added {show(added)}; expected {show(wants[-1])}")
                    return
            elif not r.ok:
                res.bad("exception", f"{where} raised {r.out[4:]}")
                return
            elif not same(added, wants[-1], exact):
                res.bad("contours", f"{where} added {show(added)}; expected {show(wants[-1])}")
                return
            if r.ok and not exact:
                for c in added:
                    if not c or c[0][0] != c[-1][-1] or any(a[-1] != b[0] for a, b in zip(c, c[1:])):
                        res.bad("open", f"{where} finished a contour that is not closed and contiguous: {show(c)}")
                        return
            base = got
    ex.go([(lambda i=i: body(i)) for i in range(len(scn["threads"]))])
    res.signature += json.dumps([[[c[0] for c in o["calls"]] for o in t["ops"]] for t in scn["threads"]])
    res.nontrivial = True
    return res


# --- generation
def pt(rng, grid):
    if grid == 0:
        return [rng.randint(-3, 3), rng.randint(-3, 3)]
    if grid == 1:
        return [rng.randint(-1000, 1000), rng.randint(-1000, 1000)]
    return [rng.randint(-1000, 1000) + 0.5 * rng.randint(0, 1), round(rng.uniform(-1000, 1000), 3)]


def nudged(rng, p):
    """A point all but at p."""
    d = rng.choice([0.25, 1e-3, 1e-7, 1e-10])
    i = rng.randint(0, 1)
    return [p[0] + d * i, p[1] + d * (1 - i)]


def stroke(rng, grid, end=True, comps=None):
    """One contour's calls."""
    first = pt(rng, grid)
    calls = [["moveTo", first]]
    at = first
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]) if rng.random() < 0.98 else rng.randint(8, 40)):
        k = rng.choice(["lineTo", "lineTo", "curveTo", "qCurveTo", "qCurveTo"])
        n = 1 if k == "lineTo" else 3 if k == "curveTo" else rng.choice([1, 2, 2, 3, 4, 5, 9]) if rng.random() < 0.97 else rng.randint(6, 30)
        ps = [pt(rng, grid) for _ in range(n)]
        if rng.random() < 0.15:
            ps[-1] = list(at)
        elif rng.random() < 0.15:
            ps[-1] = list(first)
        elif rng.random() < 0.06:
            ps[-1] = nudged(rng, rng.choice([at, first]))
        calls.append([k] + ps)
        at = ps[-1]
        if comps and rng.random() < 0.2:
            calls.append(comps(rng))
    if rng.random() < 0.3 and at != first:
        calls.append(["lineTo", list(first)])
    if end:
        calls.append(["closePath"])
        if rng.random() < 0.08:
            calls.append(["closePath"])
    return calls


def transform(rng):
    r = rng.random()
    if r < 0.15:
        t = list(IDENT)
        if rng.random() < 0.3:  # all but the identity
            t[rng.randint(0, 5)] += rng.choice([1e-3, 1e-7, -1e-5])
        return t
    if r < 0.35:
        return [1, 0, 0, 1, rng.randint(-500, 500), rng.randint(-500, 500)]
    if r < 0.6:
        return [rng.choice([0.5, 2, -1, 1]), 0, 0, rng.choice([0.5, 2, -1, 1]), rng.choice([0, 100, -37]), rng.choice([0, 20])]
    if r < 0.75:
        return [0, 1, -1, 0, rng.randint(-100, 100), 0]
    if r < 0.83:
        return [1, rng.choice([0, 0.5]), rng.choice([0.25, 0]), 1, 0, rng.choice([0, 10])]
    if r < 0.87:  # onto a line, or a point
        return rng.choice([[1, 1, 1, 1], [0, 0, 0, 1], [1, 0, 0, 0], [0, 2, 0, 0], [1, 2, 0.5, 1], [0, 0, 0, 0], [-1, 0.5, 2, -1]]) + [rng.randint(-50, 50), rng.choice([0, 7])]
    return [round(rng.uniform(-2, 2), 2) for _ in range(4)] + [rng.randint(-300, 300), round(rng.uniform(-300, 300), 1)]


def pack(rng, strokes):
    """Group calls into operations."""
    r = rng.random()
    if r < 0.4:
        return [{"calls": s} for s in strokes]
    flat = [c for s in strokes for c in s]
    if r < 0.7:
        return [{"calls": [c]} for c in flat]
    return [{"calls": flat}]


def gen_C06(rng):
    grid = rng.choice([0, 0, 1, 2])
    T = rng.choice([1, 1, 1, 2, 2, 3])
    threads = []
    for _ in range(T):
        strokes = [stroke(rng, grid, rng.random() < 0.9) for _ in range(rng.choice([1, 2, 3, 4]) if rng.random() < 0.98 else rng.randint(6, 20))]
        t = {"ops": pack(rng, strokes)}
        if T == 1 and rng.random() < 0.1:
            # a log that fails once, then a new contour
            t["logfail"] = rng.randint(1, sum(map(len, strokes)))
            t["ops"] = [{"calls": [c for s in strokes for c in s]}] + [{"calls": stroke(rng, grid)} for _ in range(2)]
        threads.append(t)
    scn = {"glyphs": {}, "threads": threads, "resume": True}
    mode = rng.choice(["hist", "fault"] if T == 1 else ["switch", "walk", "both"])
    return wrap(rng, scn, mode)


def wrap(rng, scn, mode):
    """After a cut operation the drawing is abandoned: a new contour begins."""
    ts = scn["threads"]
    scn = A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in ts])
    cuts = {(e[0], e[1]) for e in scn["plan"] if e[4] == "fault"}
    for tid, t in enumerate(ts):
        first = min((o for q, o in cuts if q == tid), default=None)
        if first is None:
            continue
        # what follows the first cut call starts afresh; the plan's later entries may no longer apply
        again = []
        if scn.get("resume") and rng.random() < 0.5:
            # or is taken up again, as a caller might who missed the failure
            last = t["ops"][first]["calls"][-1]
            again = [{"calls": [rng.choice([["closePath"], ["lineTo", pt(rng, 1)], last])], "loose": True}]
            if rng.random() < 0.4:
                again.append({"calls": [rng.choice([["lineTo", pt(rng, 1)], ["closePath"]])], "loose": True})
        t["ops"] = t["ops"][:first + 1] + again + [{"calls": stroke(rng, 1)} for _ in range(2)] + \
            [o for o in t["ops"][first + 1:] if o["calls"][0][0] == "moveTo" or o["calls"][0][0] == "addComponent"]
    return scn


def gen_C07(rng):
    grid = rng.choice([1, 1, 2, 0])
    deep = rng.random() < 0.04  # one glyph in another, many times over
    n = rng.randint(8, 60) if deep else rng.choice([1, 2, 3, 5])
    names = [f"g{i}" for i in range(n)]
    glyphs = {}
    kind = rng.random()
    for i, g in enumerate(names):
        def comp(rng, i=i):
            if deep:
                return ["addComponent", names[i + 1], [1, 0, 0, 1, rng.randint(-5, 5), rng.randint(-5, 5)] if rng.random() < 0.8 else [0, 1, -1, 0, 3, 0]]
            return ["addComponent", rng.choice(names[i + 1:]), transform(rng)]
        calls = []
        for _ in range(rng.choice([0, 1, 1, 2]) if not deep else 0):
            calls += stroke(rng, grid, True, comp if i + 1 < n and rng.random() < 0.3 else None)
            if i + 1 < n and rng.random() < 0.5:
                calls.append(comp(rng))
        if deep and (i == n - 1 or rng.random() < 0.2):
            calls += stroke(rng, grid)
        if i + 1 < n and not any(c[0] == "addComponent" for c in calls):
            calls.append(comp(rng))
        glyphs[g] = calls
    if rng.random() < 0.3:  # what some glyph sets show for a missing glyph, but nobody asked for it
        glyphs[".notdef"] = stroke(rng, grid)
    if kind < 0.12:
        bad = rng.choice(names)
        glyphs[bad].insert(rng.randint(0, len(glyphs[bad])), ["fail"])
    elif kind < 0.2:
        bad = rng.choice(names)
        glyphs[bad].insert(rng.choice([len(glyphs[bad]), 0]), ["addComponent", "missing", transform(rng)])
    elif kind < 0.23 and not deep:
        glyphs[rng.choice(names)].append(["addComponent", names[0], transform(rng)])  # a cycle, if reached
    T = rng.choice([1, 1, 1, 2, 2, 3]) if not 0.2 <= kind < 0.23 else 1
    threads = []
    for _ in range(T):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.3:
                ops.append({"calls": stroke(rng, grid)})
            elif r < 0.85:
                ops.append({"calls": [["addComponent", rng.choice(names + names[:1] * (n if deep else 1) + (["nowhere"] if rng.random() < 0.1 else [])), transform(rng)]]})
            else:
                ops.append({"calls": stroke(rng, grid, True, lambda rng: ["addComponent", rng.choice(names), transform(rng)])})
        if not any(c[0] == "addComponent" for o in ops for c in o["calls"]):
            ops.append({"calls": [["addComponent", rng.choice(names), transform(rng)]]})
        if rng.random() < 0.2:  # a glyph is redrawn between calls
            o = rng.choice(ops)
            ops.insert(rng.randint(0, len(ops)), dict(o))
            rng.choice(ops)["edit"] = [rng.choice(names), stroke(rng, grid)]
        threads.append({"ops": ops})
    scn = {"glyphs": glyphs, "threads": threads, "lone": True}
    if T > 1 and rng.random() < 0.4:  # another pen's glyphs of the same names look different
        threads[-1]["own"] = {g: stroke(rng, grid) for g in names if rng.random() < 0.7}
    mode = rng.choice(["hist", "fault", "fault"] if T == 1 else ["switch", "walk", "both"])
    return wrap(rng, scn, mode)
