"""Geometry sessions: one scenario generator per property (worlds of questions to curves, contours, outlines)."""
import collections
import decimal

from . import adorn as A, engine, gen, harness, lib, model as M, ops as O, session

CURVE_LIGHT = ["get", "mid", "ends", "cps", "direction", "lut", "hull", "dc", "normal", "extrema", "bbox", "bounds", "tight", "skel", "align",
               "length", "split1", "split2", "simple", "raise", "roots", "rootsline", "lineint", "linepoint", "abc", "overlaps", "offset2", "scale",
               "scalefn", "new", "trace", "passing"]
CONT = ["c.bounds", "c.lut", "c.closest", "c.d", "c.ends", "c.curves", "c.item", "c.passing", "c.rebuilt"]
OUT = ["o.bounds", "o.contours"]
LUTS = [2, 3, 5, 11, 26, 51, 51, 100, 101, 101, 7]


def names(objs, kind):
    return [n for n in objs if objs[n]["k"] == kind]


def curve_targets(objs):
    out = names(objs, "curve")
    for n in names(objs, "contour"):
        out += [f"{n}.{i}" for i in range(len(objs[n]["c"]))]
    for n in names(objs, "outline"):
        for i, c in enumerate(objs[n]["cc"]):
            out += [f"{n}.{i}.{j}" for j in range(len(c))]
    return out


def contour_targets(objs):
    return names(objs, "contour") + [f"{n}.{i}" for n in names(objs, "outline") for i in range(len(objs[n]["cc"]))]


def around(rng, pts):
    """A point in the neighbourhood of some geometry."""
    s = M.scale_of(pts)
    r = rng.random()
    if r < 0.3:
        p = rng.choice(pts)
        return [p[0], p[1]]
    if r < 0.6:
        t = rng.random()
        q = M.bern(pts, t)
        return [q[0] + rng.uniform(-0.1, 0.1) * s, q[1] + rng.uniform(-0.1, 0.1) * s]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    w = (max(xs) - min(xs) + 1), (max(ys) - min(ys) + 1)
    return [rng.uniform(min(xs) - w[0], max(xs) + w[0]), rng.uniform(min(ys) - w[1], max(ys) + w[1])]


def a_line(rng, p):
    """Two points of a line that has something to do with curve p."""
    r = rng.random()
    if r < 0.2:
        a, b = around(rng, p), around(rng, p)
    elif r < 0.5:  # through two of its points
        a, b = (list(M.bern(p, rng.choice([0, 1, rng.random(), rng.random(), rng.random()]))) for _ in range(2))
    else:  # across one of its points, often level or upright
        c, s = M.bern(p, rng.random()), M.scale_of(p)
        d = rng.choice([(s, 0), (0, s), (0, -s), (rng.uniform(-s, s), rng.uniform(-s, s)), (rng.randint(-9, 9), rng.randint(-9, 9))])
        k = rng.choice([1, 1, 0.5, 0, rng.random()])
        a, b = [c[0] - k * d[0], c[1] - k * d[1]], [c[0] + d[0], c[1] + d[1]]
    if rng.random() < 0.4:
        a, b = ([round(v) for v in q] for q in (a, b))
    return [a, b] if a != b else [a, [a[0] + 1, a[1] + 2]]


def question(rng, f, objs, target, orders=None):
    """A concrete question of kind f to target, or None when it makes no sense there."""
    if f in CONT or f in OUT:
        o = {"f": f, "o": target, "a": []}
        if f == "c.lut":
            o["a"] = [rng.choice(LUTS)]
        elif f == "c.closest":
            c = objs[target.split(".")[0]]
            cs = c["c"] if c["k"] == "contour" else c["cc"][int(target.split(".")[1])]
            o["a"] = [around(rng, rng.choice(cs)), rng.choice([3, 5, 11, 26, 51, 51, 101])]
        elif f == "c.item":
            o["a"] = [rng.choice([0, -1])]
        elif f == "c.passing":
            cs = gen.contour(rng, rng.choice([1, 2, 3]))
            i = rng.choice(["c.lut", "c.closest", "c.bounds"])
            o["a"] = [cs, i, [rng.choice(LUTS[:7])] if i == "c.lut" else [around(rng, rng.choice(cs)), rng.choice([3, 5, 11, 26])] if i == "c.closest" else []]
        return o
    p = O.spec_points(objs, target)
    order = len(p) - 1
    if order == 1 and f in session.NOT_FOR_LINES:
        return None
    o = {"f": f, "o": target, "a": []}
    s = M.scale_of(p)
    if f in ("get", "hull", "normal"):
        o["a"] = [gen.t(rng)]
    elif f == "lut":
        o["a"] = [rng.choice(LUTS)]
    elif f == "split1":
        o["a"] = [gen.tin(rng) if rng.random() < 0.95 else rng.choice([4e-7, 1 - 4e-7])]
    elif f == "split2":
        a, b = sorted([gen.t(rng), gen.t(rng)])
        if rng.random() < 0.1:  # all but the end
            a, b = rng.choice([(4e-7, b), (a, 1 - 4e-7), (4e-7, 1 - 4e-7)])
        if b == 0 or a == b or a == 1:
            a, b = rng.choice([(0, 0.5), (0.5, 1), (0.2, 0.7), (0.25, 0.75)])
        o["a"] = [a, b]
    elif f in ("rootsline", "lineint", "linepoint"):
        o["a"] = a_line(rng, p)
        ls = [n for n in names(objs, "curve") if len(objs[n]["p"]) == 2 and objs[n]["p"][0] != objs[n]["p"][1]]
        if ls and f == "linepoint" and rng.random() < 0.5:
            o["a"] = [rng.choice(ls)]
    elif f == "abc":
        o["a"] = [gen.tin(rng)]
    elif f == "passing":
        if rng.random() < 0.5:  # of the same order, so of the same size in memory
            q = gen.curve(rng, order)
        else:
            q = gen.curve(rng)
        i = rng.choice(["lut", "bbox", "bounds", "extrema", "dc", "length", "trace"] + (["roots", "rootsline", "lineint", "abc", "direction"] if len(q) > 2 else []))
        if i in ("rootsline", "lineint"):
            o["a"] = [q, i, a_line(rng, q)]
            return o
        if i == "abc":
            o["a"] = [q, i, [gen.tin(rng)]]
            return o
        o["a"] = [q, i, [rng.choice([3, 5, 11])] if i == "lut" else [[round(rng.random(), 3) for _ in range(3)]] if i == "trace" else []]
    elif f == "overlaps":
        o["a"] = [rng.choice(curve_targets(objs))]
    elif f == "offset2":
        o["a"] = [gen.t(rng), rng.choice([-20, -3, 0, 1, 10, 55.5])]
    elif f in ("scale", "offset1"):
        o["a"] = [rng.choice([-1, 1]) * rng.choice([1, 2.5, 10, round(s / 20, 2)] if rng.random() < 0.93 else [0, 1e-4, 5e-4, 0.01])]
    elif f == "scalefn":
        k = rng.choice([1, 5, round(s / 30, 2)])
        o["a"] = [rng.choice([k, -k, 2 * k, k, 0]), rng.choice([k, -k, 3 * k, 0])]
        r = rng.random()
        if r < 0.3:
            o["a"] += [rng.choice([1, 2, 3])]
        elif r < 0.6:
            o["a"] += [None, rng.choice(["reduce", "bbox", "lut", "scale"])]
        if rng.random() < 0.2:  # not a plain function
            o["a"] += [None] * (4 - len(o["a"])) + [rng.choice(["method", "partial", "object"])]
    elif f == "trace":
        o["a"] = [[round(rng.random(), 3) for _ in range(3)]]
    elif f == "lineage":
        o["a"] = [round(rng.uniform(0.1, 0.9), 3), s / 25, s / 200]
    elif f == "selfint":
        o["a"] = [s / 200]
    elif f == "intersects":
        c = [n for n in names(objs, "curve") if n != target.split("|")[0] and len(objs[n]["p"]) > 2]
        if not c:
            return None
        n = rng.choice(c)
        s = max(s, M.scale_of(objs[n]["p"]))
        o["a"] = [n, rng.choice([s / 50, s / 100, s / 300])]
    return o


def targets_for(f, objs):
    if f in CONT:
        return contour_targets(objs)
    if f in OUT:
        return names(objs, "outline")
    return curve_targets(objs)


def ask(rng, f, objs, prefer=None):
    ts = targets_for(f, objs)
    if not ts:
        return None
    if prefer:
        p = [t for t in ts if t.split("|")[0].split(".")[0] == prefer]
        if p and rng.random() < 0.8:
            ts = p
    return question(rng, f, objs, rng.choice(ts))


def heavy_profile(f, order, _cache={}):
    """Where a heavy question goes, on a representative curve (profiled once per process)."""
    k = (f, order)
    if k not in _cache:
        p = [(0, 0), (0, 100), (100, 100), (100, 0)] if order == 3 else [(0, 0), (50, 100), (100, 0)]
        objs = {"c0": {"k": "curve", "p": p}, "c1": {"k": "curve", "p": [(-20, 30), (50, 60), (120, 20)]}}
        a = {"reduce": [], "offset1": [5], "selfint": [2], "intersects": ["c1", 2]}[f]
        scn = {"objs": objs, "threads": [{"ops": [{"f": f, "o": "c0", "a": a}]}], "traced": [(0, 0)]}
        _cache[k] = harness.profile(session, scn)[(0, 0)]
    return _cache[k]


def twin_points(rng, p, how):
    if how == "float":
        return [(float(x), float(y)) for x, y in p]
    q = [tuple(v) for v in p]
    k = rng.randrange(1, len(q) - 1) if len(q) > 2 else None
    if k is not None:
        e = rng.choice([1, 1, 1e-3 * M.scale_of(p), 1e-7 * M.scale_of(p)])
        q[k] = rng.choice([(q[k][0] + e, q[k][1]), (q[k][0], q[k][1] - e)])
    return q


def twins(rng, scn):
    """Something almost like one of the objects, asked some of the same: it must not get the other's answers."""
    objs = scn["objs"]
    n = rng.choice(list(objs))
    s = objs[n]
    how = rng.choice(["float", "nudge", "nudge"])
    flat = [s["p"]] if s["k"] == "curve" else s["c"] if s["k"] == "contour" else [p for c in s["cc"] for p in c]
    if any(isinstance(v, str) for p in flat for q in p for v in q):
        return
    m = n[0] + "9"
    if s["k"] == "curve":
        new = {"k": "curve", "p": twin_points(rng, s["p"], how)}
    elif s["k"] == "contour":
        new = {"k": "contour", "c": [twin_points(rng, p, how) for p in s["c"]]}
    else:
        new = {"k": "outline", "cc": [[twin_points(rng, p, how) for p in c] for c in s["cc"]]}
    done = 0
    for t in scn["threads"]:
        for i in range(len(t["ops"]) - 1, -1, -1):
            o = t["ops"][i]
            f = (o.get("o") or "").split("|")[0].split(".")
            if f[0] != n or o["f"] in ("intersects", "selfint", "offset1", "scalefn") or "|D" in o["o"] or rng.random() < 0.4:
                continue
            if len(t["ops"]) > 10 and done:
                continue
            t["ops"].insert(i + rng.choice([0, 1]), dict(o, o=m + o["o"][len(n):]))
            done += 1
    if done:
        objs[m] = new


def finish(rng, scn, mode, exact=False):
    """Schedule and faults for a session."""
    if scn["objs"] and rng.random() < 0.15:
        twins(rng, scn)
    ts = scn["threads"]
    nops = [len(t["ops"]) for t in ts]
    if mode == "hist":
        return A.adorn(rng, session, scn, mode, nops)
    slow = [o["f"] for t in ts for o in t["ops"] if O.heavy(o)]
    if mode == "walk" and slow and (len(slow) > 2 or set(slow) & {"intersects", "selfint", "offset1"} or rng.random() < 0.7):
        mode = "switch"
    prof = None
    if mode != "walk":
        prof = harness.profile(session, dict(scn, traced=[(0, 0)]) if exact else scn)
        for t, th in enumerate(ts):
            for i, o in enumerate(th["ops"]):
                if O.heavy(o) and not (exact and prof.get((t, i))):
                    prof[(t, i)] = heavy_profile(o["f"] if o["f"] in O.HEAVY else "reduce", len(O.spec_points(scn["objs"], o["o"])) - 1)
    if mode == "walk" and slow:
        scn = A.adorn(rng, session, scn, mode, nops)
        scn["walk"]["p"] = min(scn["walk"]["p"], 0.02)
        return scn
    # a failure is always followed by something that could notice its traces
    ok = {(t, i) for t in range(len(ts)) for i in range(nops[t]) if i < nops[t] - 1 or len(ts) > 1}
    return A.adorn(rng, session, scn, mode, nops, prof, ok)


def some_objs(rng, what=None):
    what = what or rng.choice(["curve", "curve", "curve", "curves", "contour", "contour", "outline", "mix"])
    objs = {}
    if what in ("curve", "curves", "mix"):
        for i in range(1 if what == "curve" else 2):
            objs[f"c{i}"] = {"k": "curve", "p": gen.curve(rng)}
    if what in ("contour", "mix"):
        objs["k0"] = {"k": "contour", "c": gen.contour(rng)}
    if what == "outline":
        objs["w0"] = {"k": "outline", "cc": [gen.contour(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2]))]}
    return objs


def kinds_for(rng, objs, heavy=0.12):
    """Swarm: a small random subset of the kinds of questions that fit the objects."""
    pool = list(CURVE_LIGHT)
    if contour_targets(objs):
        pool = pool + CONT * 3
    if names(objs, "outline"):
        pool = pool + OUT * 3
    k = [rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
    if rng.random() < 0.5:  # questions answered from stored results
        k += rng.sample(["lut", "extrema", "bbox", "bounds", "length", "dc"] + (["c.lut", "c.closest"] if contour_targets(objs) else []), 2)
    if rng.random() < heavy and any(len(O.spec_points(objs, t)) > 2 for t in curve_targets(objs)):
        k.append(rng.choice(["reduce", "reduce", "offset1", "selfint", "intersects"]))
    return k


def some_ops(rng, objs, kinds, n, prefer=None):
    out = []
    guard = 0
    heavy = 0
    while len(out) < n and guard < 20 * n:
        guard += 1
        f = rng.choice(kinds)
        if f in O.HEAVY:
            heavy += 1
            if heavy > 3:
                continue
        q = ask(rng, f, objs, prefer)
        if q and sane(objs, q):
            out.append(q)
            if rng.random() < 0.15:
                out.append(dict(q))
    return out or [question(rng, "get", objs, curve_targets(objs)[0])]


def again(rng, objs, ops, p):
    """Ask some of the questions once more, with other parameters."""
    for o in list(ops):
        if o.get("o") and o["a"] and rng.random() < p:
            q = question(rng, o["f"], objs, o["o"])
            if q and q["f"] == "intersects":
                q["a"][0] = o["a"][0]
                if q["o"] in names(objs, "curve") and rng.random() < 0.3:  # the other way about
                    q["o"], q["a"][0] = q["a"][0], q["o"]
            if q and sane(objs, q):
                ops.insert(rng.randrange(len(ops) + 1), q)


def sane(objs, q):
    """Keep searches that could blow up (overlapping or singular curves) out of sessions."""
    if q["f"] in ("intersects", "selfint"):
        ps = [O.spec_points(objs, q["o"])]
        if q["f"] == "intersects":
            ps.append(O.spec_points(objs, q["a"][0]))
        if not all(M.regular(p) for p in ps):
            return False
        if len(ps) == 2 and not tame(*ps):
            return False
    return True


def tame(p, q):
    """The two curves do not run along each other."""
    s = max(M.scale_of(p), M.scale_of(q)) / 60
    A_ = [M.bern(p, i / 40) for i in range(41)]
    B_ = [M.bern(q, i / 40) for i in range(41)]
    return sum(1 for a in A_ if any(abs(a[0] - b[0]) + abs(a[1] - b[1]) < s for b in B_)) <= 10


def searches(rng, T, modes):
    """The long questions, by several threads or cut short."""
    kinds = [rng.choice(["intersects", "intersects", "intersects", "selfint", "offset1", "reduce"])]
    cross = kinds == ["intersects"] and rng.random() < 0.6
    objs = crossing(rng) if cross else regular_objs(rng, 2)
    threads = []
    for _ in range(T):
        ops = some_ops(rng, objs, kinds, 1)
        if T == 1:
            again(rng, objs, ops, 0.3)
        threads.append({"ops": ops + ([dict(ops[0])] if T == 1 else [])})
    mode = rng.choice(modes)
    scn = finish(rng, {"objs": objs, "threads": threads, "judge": [], "report": None}, mode, cross and T == 1)
    if cross and mode == "fault":
        deep_cuts(rng, scn)
    return scn


def deep_cuts(rng, scn):
    """Failures while the pieces of two curves are compared, rather than while the curves are cut into pieces."""
    asked = dict(scn, plan=[], walk=None)
    asked["threads"] = [{"ops": [{"f": "reduce", "o": "c0", "a": []}, {"f": "reduce", "o": "c1", "a": []}, scn["threads"][0]["ops"][0]]}]
    asked["traced"] = [(0, 0), (0, 1), (0, 2)]
    seen = harness.profile(session, asked)
    before = collections.Counter(seen.get((0, 0), {})) + collections.Counter(seen.get((0, 1), {}))
    by = {}
    for name, n in sorted(seen.get((0, 2), {}).items()):
        loc = engine._ids.get(name)
        if loc is not None and engine.flags_of(loc) & engine.SIG and n > before[name]:
            by.setdefault(loc[0], []).append((name, before[name] + 1, n))
    for e in scn["plan"]:
        if by and e[4] == "fault" and e[:2] == [0, 0] and rng.random() < 0.7:
            e[2], a, b = rng.choice(by[rng.choice(sorted(by, key=lambda k: by[k][0][0]))])
            e[3] = rng.choice([a, b, rng.randint(a, b), rng.randint(a, b)])


# ------------------------------------------------------------------ C01
def gen_C01(rng):
    if rng.random() < 0.04:
        return searches(rng, rng.choice([2, 2, 3]), ["switch"])
    objs = some_objs(rng)
    kinds = kinds_for(rng, objs)
    main = rng.choice(list(objs))
    T = rng.choice([2, 2, 2, 3, 4])
    threads = [{"ops": some_ops(rng, objs, kinds, rng.choice([1, 1, 2, 3]), main)} for _ in range(T)]
    if rng.random() < 0.4:  # everyone asks the same
        other = rng.random() < 0.25  # or the same of something else each time
        for t in threads[1:]:
            t["ops"] = [dict(o) for o in threads[0]["ops"]]
            if other:
                t["ops"] = [q for q in (question(rng, o["f"], objs, o["o"]) for o in t["ops"]) if q and sane(objs, q)] or t["ops"]
            if rng.random() < 0.5:
                rng.shuffle(t["ops"])
    scn = {"objs": objs, "threads": threads, "judge": [], "report": None}
    return finish(rng, scn, rng.choice(["switch", "switch", "switch", "walk", "walk", "both"]))


def ctxs(rng):
    r = rng.random()
    if r < 0.5:
        return None
    if r < 0.85:
        return {"prec": rng.choice([1, 2, 3, 6, 10, 15, 28, 30, 50])}
    return {"prec": rng.choice([3, 9, 28, 40]), "rounding": rng.choice(["ROUND_DOWN", "ROUND_UP", "ROUND_FLOOR", "ROUND_CEILING", "ROUND_HALF_UP"])}


def gen_C02(rng):
    if rng.random() < 0.06:  # the searches, and the same ones again
        objs = some_objs(rng, "curves")
        ops = some_ops(rng, objs, [rng.choice(["intersects", "intersects", "selfint", "offset1"])], rng.choice([1, 2]))
        again(rng, objs, ops, 1)
    elif rng.random() < 0.015:  # a long session
        objs = some_objs(rng)
        kinds = kinds_for(rng, objs, 0)
        ops = some_ops(rng, objs, kinds, rng.randint(50, 140), rng.choice(list(objs)))
        for o in ops:
            if o["f"] in ("lut", "c.lut") and o.get("a") and rng.random() < 0.5:
                o["a"] = [rng.randint(2, 130)]
    else:
        objs = some_objs(rng)
        kinds = kinds_for(rng, objs, 0.2)
        ops = some_ops(rng, objs, kinds, rng.choice([2, 3, 5, 8, 12]), rng.choice(list(objs)))
        if rng.random() < 0.3:
            again(rng, objs, ops, 0.4)
    for o in list(ops):
        if rng.random() < 0.3:
            ops.append(dict(o))
    if rng.random() < 0.3:
        rng.shuffle(ops)
    for o in ops:
        if o["f"] == "length":
            o["ctx"] = ctxs(rng)
    if rng.random() < 0.25:
        extend_pieces(rng, objs, ops)
    scn = {"objs": objs, "threads": [{"ops": ops}], "judge": [], "report": None}
    if rng.random() < 0.3:
        twins(rng, scn)
    return scn


def extend_pieces(rng, objs, ops):
    """Ask some of the questions of pieces instead."""
    for o in ops:
        if o.get("o") and o["f"] not in CONT + OUT and len(O.spec_points(objs, o["o"])) > 2 and o["f"] not in O.HEAVY and rng.random() < 0.6:
            o["o"] += gen.piece_chain(rng, rng.choice([1, 1, 2]), False)


def gen_C03(rng):
    if rng.random() < 0.06:
        scn = searches(rng, 1, ["fault"])
        scn["context"] = "fault"
        return scn
    objs = some_objs(rng)
    kinds = kinds_for(rng, objs, 0.15)
    main = rng.choice(list(objs))
    first = some_ops(rng, objs, kinds, rng.choice([1, 1, 2, 3]), main)
    ops = first + [dict(o) for o in first]
    ops += some_ops(rng, objs, kinds + ["bbox", "lut", "extrema"], rng.choice([0, 1, 2, 3]), main)
    for o in ops:
        if o["f"] == "length" and rng.random() < 0.5:
            o["ctx"] = ctxs(rng)
    threads = [{"ops": ops}]
    mode = "fault"
    if rng.random() < 0.2:
        threads.append({"ops": some_ops(rng, objs, kinds, 2, main)})
        mode = "both"
    scn = {"objs": objs, "threads": threads, "judge": [], "report": None, "context": "fault"}
    scn = finish(rng, scn, mode)
    # strike mostly the first asking
    for e in scn["plan"]:
        if e[4] == "fault" and e[0] == 0 and e[1] >= len(first) and e[1] < 2 * len(first) and rng.random() < 0.8:
            e[1] -= len(first)
    return scn


CTX_ODD = [{"prec": 5, "Emax": 6, "Emin": -6}, {"prec": 28, "traps": ["Inexact"]}, {"prec": 28, "traps": ["FloatOperation"]},
           {"prec": 28, "traps": []}, {"prec": 4, "traps": ["Rounded"]}, {"prec": 10, "clamp": 1}, {"prec": 12, "capitals": 0}]


def len_ctx(rng):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.6:
        return {"prec": rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 28, 33, 50, 80])}
    if r < 0.85:
        return {"prec": rng.choice([2, 3, 5, 9, 28, 40]),
                "rounding": rng.choice(["ROUND_DOWN", "ROUND_UP", "ROUND_FLOOR", "ROUND_CEILING", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_05UP"])}
    return dict(rng.choice(CTX_ODD))


def gen_C05(rng):
    objs = {f"c{i}": {"k": "curve", "p": gen.curve(rng)} for i in range(rng.choice([1, 1, 2]))}
    if rng.random() < 0.2:  # Decimal coordinates, of more digits than most callers' precision
        k = rng.choice([0, 2, 9, 20])
        objs["c0"]["p"] = [[str(decimal.Decimal(rng.randint(-10 ** (k + 4), 10 ** (k + 4))).scaleb(-k)) for _ in range(2)] for _ in range(rng.choice([2, 3, 4]))]
        if rng.random() < 0.3:  # one of its points in whole numbers
            i = rng.randrange(len(objs["c0"]["p"]))
            objs["c0"]["p"][i] = [int(decimal.Decimal(v)) for v in objs["c0"]["p"][i]]
    T = rng.choice([1, 1, 1, 2, 2, 3])
    threads = []
    per_thread = rng.random() < 0.5
    for _ in range(T):
        c = len_ctx(rng)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            n = rng.choice(list(objs))
            if rng.random() < 0.8:
                o = {"f": "length", "o": n, "a": []}
            elif rng.random() < 0.3:
                o = {"f": "passing", "o": n, "a": [gen.curve(rng), "length", []]}
            elif any(isinstance(p[0], str) for p in objs[n]["p"]):
                o = {"f": "dc", "o": n, "a": []}
            else:
                o = question(rng, rng.choice(["dc", "bbox", "split1", "lut", "align", "tight"]), objs, n) or {"f": "length", "o": "c0", "a": []}
            o["ctx"] = c if per_thread else len_ctx(rng)
            ops.append(o)
            if rng.random() < 0.3:
                ops.append(dict(o))
        threads.append({"ops": ops})
    if rng.random() < 0.2:
        o = rng.choice(rng.choice(threads)["ops"])
        if o["f"] == "length" and len(objs[o["o"]]["p"]) > 2 and not any(isinstance(p[0], str) for p in objs[o["o"]]["p"]):
            o["o"] += gen.piece_chain(rng, 1, False)
    scn = {"objs": objs, "threads": threads, "judge": ["length"], "report": ["length", "passing"], "context": "all"}
    modes = ["fault", "fault", "hist"] if T == 1 else ["switch", "walk", "both"]
    return finish(rng, scn, rng.choice(modes))


def gen_C08(rng):
    T = rng.choice([1, 1, 2, 2, 3])
    top = rng.choice([8, 12, 20, 40] * 6 + [70, 90])

    def one():
        f = rng.choice(["binomial", "binomial", "basis", "fit", "lsq"])
        if f == "binomial":
            n = rng.choice([rng.randint(0, top), rng.randint(6, top)])
            return {"f": f, "a": [n, rng.randint(0, n)]}
        if f == "basis":
            return {"f": f, "a": [rng.randint(1, min(top, 14)) if rng.random() < 0.93 else rng.choice([rng.randint(20, 30), rng.randint(38, 50)])]}
        n = rng.choice([2, 3, 4, 4, 5, 6, 7, 8]) if f == "lsq" or rng.random() < 0.9 else rng.randint(9, 11)
        while True:
            pts = [[rng.randint(-100, 100), rng.randint(-100, 100)] for _ in range(n)]
            if rng.random() < 0.3:
                k = rng.choice([1 / 2048, 0.001, 0.01, 0.1, 37.5, 1000])
                pts = [[x * k, y * k] for x, y in pts]
            d = [0.0]
            for a, b in zip(pts, pts[1:]):
                d.append(d[-1] + M.dist(a, b))
            if min(y - x for x, y in zip(d, d[1:])) > (0.06 if n < 9 else 0.04) * d[-1]:
                return {"f": f, "a": [pts, rng.random() < 0.6] + ([rng.randint(2, min(n, 6))] if f == "lsq" else [])}
    threads = [{"ops": [one() for _ in range(rng.choice([1, 2, 3, 5]))]} for _ in range(T)]
    if T == 1:
        ops = threads[0]["ops"]
        ops += [dict(o) for o in ops]
        ops.append({"f": "binomial", "a": [top, rng.randint(0, top)]})
    scn = {"objs": {}, "threads": threads, "judge": ["binomial", "basis", "fit", "lsq"], "report": None}
    scn = finish(rng, scn, rng.choice(["fault", "fault", "hist"] if T == 1 else ["switch", "switch", "walk", "both"]))
    return scn


def regular_objs(rng, n):
    return {f"c{i}": {"k": "curve", "p": gen.regular_curve(rng)} for i in range(n)}


def modes_for(rng, T, hist=0.4):
    if T == 1:
        return "hist" if rng.random() < hist else "fault"
    return rng.choice(["switch", "switch", "walk", "both"])


def gen_C12(rng):
    objs = regular_objs(rng, rng.choice([1, 1, 2]))
    if rng.random() < 0.1:
        objs["c0"]["p"] = gen.retracted_curve(rng)
    T = rng.choice([1, 1, 1, 2, 2])
    threads = []
    chains = [gen.piece_chain(rng, rng.choice([0, 1, 1, 2, 3]), rng.random() < 0.35) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(T):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            base = rng.choice(list(objs))
            tgt = base + rng.choice(chains)
            f = rng.choice(["lineage", "lineage", "lineage", "trace", "cps", "split1", "split2", "bbox", "extrema", "lut", "reduce", "simple", "raise"])
            if f == "reduce" and rng.random() < 0.5:
                tgt = base
            q = question(rng, f, objs, base)
            q["o"] = tgt
            ops.append(q)
        if len(objs) > 1 and rng.random() < 0.3:  # a piece asked for its own crossings, with a curve put across it
            a, b = rng.sample(list(objs), 2)
            tgt = a + gen.piece_chain(rng, rng.choice([1, 1, 2]), False)
            p = session.target_points(objs, tgt)
            m, k = M.bern(p, rng.uniform(0.1, 0.9)), M.bern(objs[b]["p"], rng.uniform(0.1, 0.9))
            q = [(x + m[0] - k[0], y + m[1] - k[1]) for x, y in objs[b]["p"]]
            if M.regular(p) and tame(p, q):
                objs[b]["p"] = q
                ops.append({"f": "intersects", "o": tgt, "a": [b, max(M.scale_of(p), M.scale_of(q)) / 100]})
        threads.append({"ops": ops})
    if T == 1:
        threads[0]["ops"] += [dict(o) for o in threads[0]["ops"][:3]]
    scn = {"objs": objs, "threads": threads, "judge": ["lineage", "trace", "cps", "split1", "split2", "reduce", "simple", "raise", "intersects"],
           "report": ["lineage", "trace", "cps", "split1", "split2", "reduce", "intersects"]}
    return finish(rng, scn, modes_for(rng, T, 0.6))


def crossing(rng):
    """Two curves, the second mostly moved across the first."""
    for _ in range(50):
        size = rng.choice([20, 100, 100, 400])
        objs = {"c0": {"k": "curve", "p": gen.regular_curve(rng, size=size)}, "c1": {"k": "curve", "p": gen.regular_curve(rng, size=size)}}
        if rng.random() < 0.1:
            objs[rng.choice(["c0", "c1"])]["p"] = gen.retracted_curve(rng)
        p, q = objs["c0"]["p"], objs["c1"]["p"]
        if rng.random() < 0.7:  # move the second across the first
            a, b = M.bern(p, rng.uniform(0.1, 0.9)), M.bern(q, rng.uniform(0.1, 0.9))
            q = objs["c1"]["p"] = [(x + a[0] - b[0], y + a[1] - b[1]) for x, y in q]
        if tame(p, q):
            break
    return objs


def gen_C13(rng):
    objs = crossing(rng)
    p, q = objs["c0"]["p"], objs["c1"]["p"]
    loop = rng.random() < 0.25
    if not loop and rng.random() < 0.12:  # mirrored about the middle: both are halved exactly where they cross
        k = rng.choice([10, 30, 100])
        p = [(rng.randint(-k, k), rng.randint(-k, k))]
        while len(p) < rng.choice([3, 4]):
            p.append((p[-1][0] + rng.randint(k // 5, k), p[-1][1] + rng.randint(k // 5, k)))
        if M.regular(p):
            m, i = M.bern(p, 0.5), rng.randint(0, 1)
            q = [(2 * m[0] - x, y) if i else (x, 2 * m[1] - y) for x, y in p]
            objs["c0"]["p"], objs["c1"]["p"] = (p, q) if rng.random() < 0.5 else (q, p)
    if loop:
        for _ in range(20):
            p = gen.curve(rng, 3, "loop", rng.choice([20, 100, 400]))
            if M.regular(p):
                objs["c0"]["p"] = p
                break
        if not tame(p, q):
            loop = True
            objs["c1"]["p"] = [(x + 5 * M.scale_of(p), y) for x, y in q]
    T = rng.choice([1, 1, 1, 2])
    pool = ["intersects"] * 3 + (["selfint"] * 4 if loop else ["selfint"]) + ["bbox", "extrema", "reduce", "overlaps", "length", "lut"]
    threads = [{"ops": some_ops(rng, objs, pool if rng.random() < 0.7 else pool[:3], rng.choice([1, 1, 2, 3]), "c0")} for _ in range(T)]
    if not any(o["f"] in ("intersects", "selfint") for t in threads for o in t["ops"]):
        threads[0]["ops"].append(question(rng, "selfint" if loop else "intersects", objs, "c0"))
    if T == 1 and rng.random() < 0.4:
        threads[0]["ops"] += [dict(o) for o in threads[0]["ops"]][:2]
    scn = {"objs": objs, "threads": threads, "judge": ["intersects", "selfint", "overlaps"], "report": ["intersects", "selfint", "overlaps"]}
    return finish(rng, scn, "hist" if T == 1 and rng.random() < 0.7 else modes_for(rng, T, 0))


VALUES = ["get", "mid", "ends", "cps", "lut", "lut", "hull", "dc", "normal", "extrema", "extrema", "bbox", "bbox", "bounds", "bounds", "tight",
          "skel", "align", "split1", "overlaps", "raise", "passing"]


HIGHER = ["get", "mid", "ends", "cps", "lut", "hull", "dc", "skel", "align", "raise", "direction", "trace"]


def gen_C14(rng):
    objs = some_objs(rng)
    T = rng.choice([1, 1, 1, 2, 2, 3])
    pool = VALUES + (["c.bounds", "c.lut", "c.ends", "c.d", "c.passing", "c.rebuilt"] * 2 if contour_targets(objs) else []) + (["o.bounds"] * 4 if names(objs, "outline") else [])
    kinds = [rng.choice(pool) for _ in range(rng.choice([2, 3, 5, 8]))]
    if rng.random() < 0.08:
        kinds.append("reduce")
    main = rng.choice(list(objs))
    if names(objs, "curve") and rng.random() < 0.04:
        objs[names(objs, "curve")[0]]["p"] = gen.retracted_curve(rng)
        kinds += ["normal", "bounds"]
    elif names(objs, "curve") and rng.random() < 0.06:
        main = names(objs, "curve")[0]
        objs[main]["p"] = gen.early_turn(rng)
        kinds = kinds[:3] + ["extrema", "bounds"]
    if rng.random() < 0.08:  # curves of higher order have points, tables and hulls too
        s = rng.choice([10, 1000])
        objs = {"c0": {"k": "curve", "p": [(rng.randint(-s, s), rng.randint(-s, s)) for _ in range(rng.choice([5, 5, 6, 8]))]}}
        kinds, main = [rng.choice(HIGHER) for _ in range(4)], "c0"
    threads = [{"ops": some_ops(rng, objs, kinds, rng.choice([1, 2, 3, 6]), main)} for _ in range(T)]
    judge = sorted(set(VALUES) | {"c.bounds", "c.lut", "c.ends", "c.d", "c.passing", "c.rebuilt", "o.bounds"})
    scn = {"objs": objs, "threads": threads, "judge": judge, "report": judge}
    return finish(rng, scn, modes_for(rng, T, 0.5))


def gen_C15(rng):
    T = rng.choice([1, 1, 1, 2])
    objs = {"c0": {"k": "curve", "p": gen.regular_curve(rng) if rng.random() < 0.85 else gen.retracted_curve(rng)}}
    if rng.random() < 0.15:
        objs["c0"]["p"] = gen.curve(rng, 1, "grid", 100)
        if objs["c0"]["p"][0] == objs["c0"]["p"][1]:
            objs["c0"]["p"][1] = (objs["c0"]["p"][0][0] + 7, objs["c0"]["p"][0][1] + 3)
    pool = ["scalefn", "scalefn", "scale", "offset1", "offset2", "offset2", "normal", "bbox", "extrema", "lut", "get", "reduce"]
    threads = []
    for _ in range(T):
        ops = some_ops(rng, objs, rng.sample(pool, 4), rng.choice([1, 2, 3, 4]))
        if T == 1 and rng.random() < 0.5:
            ops += [dict(o) for o in ops][:2]
        threads.append({"ops": ops})
    if M.retracted(objs["c0"]["p"]) and rng.random() < 0.5:
        d = round(rng.uniform(0.5, 20), rng.choice([1, 3]))
        threads[0]["ops"] = [{"f": "offset1", "o": "c0", "a": [rng.choice([d, -d]) * rng.choice([0.02, 0.1, 1])]} for _ in range(2)]
    for t in threads:
        for o in t["ops"]:
            if o["f"] in ("scale", "scalefn") and rng.random() < 0.5:  # a simple piece, as reduce() makes them
                o["o"] += "|S:" + rng.choice(["0.0,0.3", "0.35,0.6", "0.6,0.9", "0.7,1.0"])
    scn = {"objs": objs, "threads": threads, "judge": ["scale", "scalefn", "offset1", "offset2", "normal"],
           "report": None}
    return finish(rng, scn, modes_for(rng, T, 0.6))


def gen_C16(rng):
    objs = {"k0": {"k": "contour", "c": gen.contour(rng)}}
    T = rng.choice([1, 1, 1, 2, 2])
    pool = ["c.closest"] * 4 + ["c.lut", "lut", "bbox", "c.d", "c.passing"]
    cs = objs["k0"]["c"]
    pts = [around(rng, rng.choice(cs)) for _ in range(rng.choice([1, 2, 4]))]
    threads = []
    for _ in range(T):
        ops = some_ops(rng, objs, pool, rng.choice([1, 2, 3, 5]), "k0")
        for o in ops:
            if o["f"] == "c.closest":
                if rng.random() < 0.7:
                    o["a"][0] = rng.choice(pts)
                if rng.random() < 0.15:
                    o["a"][1] = rng.choice([2, 3, 4, 201, 251, 301, 333, 390, 402, 500])
        if not any(o["f"] == "c.closest" for o in ops):
            ops.append({"f": "c.closest", "o": "k0", "a": [rng.choice(pts), rng.choice([5, 11, 51])]})
        threads.append({"ops": ops})
    scn = {"objs": objs, "threads": threads, "judge": ["c.closest", "c.passing"], "report": ["c.closest", "c.passing"]}
    return finish(rng, scn, modes_for(rng, T, 0.6))


def line_curve(rng):
    """A curve to cross with lines: often close to one of lower order."""
    r = rng.random()
    if r < 0.4:
        return gen.curve(rng, rng.choice([1, 2, 3, 3]))
    s = rng.choice([10, 100, 1000, 30000])
    g = lambda k: (rng.uniform(-k, k), rng.uniform(-k, k))
    p, n = [g(s) for _ in range(rng.choice([2, 3]))], rng.choice([3, 3, 4])
    while len(p) < n:  # a line or a quadratic, raised
        k = len(p)
        p = [p[0]] + [((i * p[i - 1][0] + (k - i) * p[i][0]) / k, (i * p[i - 1][1] + (k - i) * p[i][1]) / k) for i in range(1, k)] + [p[-1]]
    d = rng.choice([0, 1, 2, 3, 4, 6, None])
    e = rng.choice([0, 0, 1e-9, 1e-6, 1e-4, 1e-2, 1]) * rng.choice([1, s])
    p = [(x + u, y + v) for (x, y), (u, v) in zip(p, (g(e) for _ in p))]
    return [(round(x, d), round(y, d)) for x, y in p] if d is not None else p


LINE_OPS = ["roots", "rootsline", "rootsline", "lineint", "lineint", "linepoint", "abc", "direction", "passing"]


def gen_C19(rng):
    T = rng.choice([1, 1, 1, 2, 2, 3])
    objs = {"c0": {"k": "curve", "p": line_curve(rng)}}
    if rng.random() < 0.3:
        objs["c1"] = {"k": "curve", "p": line_curve(rng)}
    if rng.random() < 0.3:
        objs["c2"] = {"k": "curve", "p": [tuple(q) for q in a_line(rng, objs["c0"]["p"])]}
    if rng.random() < 0.15:
        objs["k0"] = {"k": "contour", "c": gen.contour(rng)}
    kinds = [rng.choice(LINE_OPS + ["get", "extrema", "align", "bbox", "lut"]) for _ in range(rng.choice([1, 2, 3, 5]))] + [rng.choice(LINE_OPS)]
    if rng.random() < 0.3:  # level at the axis
        o = objs["c0"]
        y = M.bern(o["p"], rng.random())[1]
        o["p"] = [(q[0], q[1] - y) for q in o["p"]]
        kinds.append("roots")
    threads = [{"ops": some_ops(rng, objs, kinds, rng.choice([1, 2, 3, 6]), "c0")} for _ in range(T)]
    for t in threads:
        if rng.random() < 0.15:
            for o in t["ops"]:
                if len(O.spec_points(objs, o["o"])) > 2 and rng.random() < 0.5:
                    o["o"] += gen.piece_chain(rng, 1, False)
    judge = sorted(set(LINE_OPS))
    scn = {"objs": objs, "threads": threads, "judge": judge, "report": judge}
    return finish(rng, scn, modes_for(rng, T, 0.5))
