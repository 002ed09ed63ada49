"""Sessions: threads asking questions about shared geometry, under a schedule and faults, judged against
lone fresh copies (same library code, nothing shared) and against the reference model."""
import decimal
import json

from . import engine, lib, model as M, ops as O
from .harness import Exec, Result, alone, ctx_state, make_ctx, show


# --- one operation
def asker(env, o):
    f = O.OPS[o["f"]]

    def ask():
        target = env.resolve(o["o"]) if o.get("o") else None
        return f(env, target, *o.get("a", ()))
    return ask


def opkey(o):
    return json.dumps([o["f"], o.get("o"), o.get("a"), o.get("ctx")])


def needed(objs, o):
    names = set()
    for s in [o.get("o")] + [x for x in o.get("a", ()) if isinstance(x, str)]:
        if s:
            n = s.split("|")[0].split(".")[0]
            if n in objs:
                names.add(n)
    return {n: objs[n] for n in objs if n in names}


def reference(objs, o, ctx):
    """The answer to this question alone, on fresh copies in a fresh instance of the library."""
    inst = lib.fresh()
    env = O.Env(inst, needed(objs, o))
    spec = o.get("ctx", ctx)
    decimal.setcontext(make_ctx(spec))
    r = alone(asker(env, o))
    after, want = ctx_state(), ctx_state(make_ctx(spec))
    val = O.norm(r.raw) if r.ok else None
    bad = None
    for k, s in needed(objs, o).items():
        if not O.unchanged(env.objs[k], s):
            bad = f"{o['f']} altered the geometry of {k}"
    return {"out": r.out, "val": val, "steps": r.run.n, "geom": bad,
            "ctx": None if after == want else f"{want} became {after}"}


# operations that must answer for every curve, and for every regular curve of order >= 2
TOTAL = {"get", "mid", "ends", "cps", "lut", "hull", "dc", "extrema", "bbox", "bounds", "tight", "skel", "align", "direction",
         "overlaps", "c.bounds", "c.lut", "c.closest", "c.d", "c.ends", "c.curves", "c.rebuilt", "o.bounds", "o.contours", "trace",
         "split1", "split2", "raise", "length", "new", "passing"}
REGULAR = {"normal", "reduce", "intersects", "selfint", "offset2", "simple", "lineage"}
NOT_FOR_LINES = {"split1", "split2", "reduce", "intersects", "selfint", "lineage", "simple", "scale", "scalefn", "abc", "roots",
                 "rootsline", "lineint"}
LINES = {"roots", "rootsline", "lineint", "linepoint", "abc"}


def target_points(objs, target):
    """Exact control points of a target, or None when it cannot be known without the library."""
    p = [(float(x), float(y)) if isinstance(x, str) else (x, y) for x, y in O.spec_points(objs, target)]
    for s in target.split("|")[1:]:
        if s[0] == "L":
            p = M.cut(p, 0, float(s[2:]))
        elif s[0] == "R":
            p = M.cut(p, float(s[2:]), 1)
        elif s[0] == "S":
            a, b = s[2:].split(",")
            p = M.cut(p, float(a), float(b))
        else:
            return None
    return p


def ancestor(target):
    """The target whose parameters intersections with this piece must report."""
    parts = target.split("|")
    last = max((i for i, s in enumerate(parts) if s[0] == "D" and i), default=0)
    return "|".join(parts[:last]) if last else parts[0]


def judge(objs, o, ref, ctxspec=None):
    """Compare a lone answer with the reference model. Returns (kind, complaint) or None."""
    try:
        return verdict(objs, o, ref, ctxspec)
    except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError) as e:
        if ref["out"] != "ok":
            raise
        return o["f"], f"{o['f']}{o.get('a', [])} gave {show(ref['val'])}, which makes no sense ({type(e).__name__}: {e})"


def verdict(objs, o, ref, ctxspec):
    f = o["f"]
    a = o.get("a", [])
    out, val = ref["out"], ref["val"]
    if ref["geom"]:
        return "geometry", ref["geom"]
    if ref["ctx"]:
        return "context", f"{f} left the decimal context changed: {ref['ctx']}"
    if out == "budget":
        return "liveness", f"{f} on {o.get('o')} made no progress within the step limit"
    if out == "deadlock":
        return "deadlock", f"{f} blocked itself"
    t = {"binomial": O.t_binomial, "basis": O.t_basis, "fit": O.t_fit, "lsq": O.t_fit}.get(f)
    if t:
        m = f"raised {out[4:]}" if out != "ok" else t(a, val)
        return (f, m) if m else None
    if f[:2] in ("c.", "o."):
        if f[:2] == "o.":
            cs = [p for c in objs[o["o"]]["cc"] for p in c]
        else:
            n = o["o"].split(".")
            s = objs[n[0]]
            cs = s["c"] if s["k"] == "contour" else s["cc"][int(n[1])]
        if out != "ok":
            return "exception", f"{f}{a} raised {out[4:]}"
        g = {"c.bounds": lambda: O.c_bounds(cs, val), "c.lut": lambda: O.c_lut(cs, a, val), "c.closest": lambda: O.c_closest(cs, a, val),
             "c.d": lambda: O.c_d(cs, val), "c.rebuilt": lambda: O.c_rebuilt(cs, val), "c.ends": lambda: O.c_ends(cs, val), "o.bounds": lambda: O.c_bounds(cs, val)}.get(f)
        if f == "c.passing":
            g = {"c.lut": lambda: O.c_lut(a[0], a[2], val), "c.closest": lambda: O.c_closest(a[0], a[2], val), "c.bounds": lambda: O.c_bounds(a[0], val)}[a[1]]
        m = g() if g else None
        return (f, m) if m else None
    p = target_points(objs, o["o"])
    if out != "ok":
        if out == "exc:NoPiece" or p is None:
            return None
        line = len(p) == 2
        exotic = (o.get("ctx") or ctxspec) is not None
        if line and f in NOT_FOR_LINES:
            return None
        if f == "length" and exotic:
            return None
        if f in TOTAL or f in LINES and len(p) < 5:
            return "exception", f"{f}{a} raised {out[4:]}"
        ok = M.sound(p) if "|" not in o["o"] else M.regular(p)
        if f in ("intersects",):
            q = target_points(objs, a[0])
            ok = ok and q is not None and (M.sound(q) if "|" not in a[0] else M.regular(q)) and len(q) > 2
        if f in REGULAR and ok:
            return "exception", f"{f}{a} raised {out[4:]} for a regular curve"
        if f == "offset1" and ok:
            return "exception", f"{f}{a} raised {out[4:]} for a regular curve"
        if f in ("scale", "scalefn") and a[2:4] in ([], [None, None]) and ok and O.scalable(p) and (out != "exc:ValueError" or O.fans(p)):
            return "exception", f"{f}{a} raised {out[4:]}"
        return None
    c = O.CHECKS.get(f)
    if f != "length" and (c is None or any(isinstance(v, str) for q in O.spec_points(objs, o["o"]) for v in q)):
        return None
    if f == "lineage":
        anc = target_points(objs, ancestor(o["o"]))
        if anc is None:
            return None
        m = c(anc, a, val)
    elif p is None:
        return None
    elif f in ("overlaps", "intersects"):
        q = target_points(objs, a[0])
        if q is None:
            return None
        m = c(p, a, val, q)
    elif f == "linepoint" and isinstance(a[0], str):
        q = target_points(objs, a[0])
        m = None if q is None or len(q) != 2 or q[0] == q[1] else O._first_on_line(p, *q, val)
    elif f == "length":
        m = judge_length(p, O.tup(O.spec_points(objs, o["o"])) if "|" not in o["o"] else None, val, o.get("ctx") or ctxspec or {})
    else:
        m = c(p, a, val)
    return (f, m) if m else None


def judge_length(p, exact, val, spec):
    """The value answered in a decimal context must be the arc length, to quadrature accuracy and that context's rounding."""
    v = O.undec(val)
    prec = spec.get("prec", 28)
    if len(v.as_tuple().digits) > prec and v.is_finite():
        return f"length {v} has more than {prec} digits"
    if not v.is_finite():
        return None if spec.get("Emax", 999999) < 100 else f"length {v}"
    if spec.get("Emax", 999999) < 100 or spec.get("Emin", -999999) > -100:
        return None
    w = M.arclen(p)
    sp = M.speeds(p, 128)
    ratio = min(sp) / max(sp) if max(sp) else 1
    rel = 1e-6 if ratio > 0.3 else 1e-3 if ratio > 0.1 else 0.02
    if not abs(float(v) - w) <= (rel + 3 * 10.0 ** (1 - prec)) * w + 1e-9:
        return f"length {v} at precision {prec}, expected {w}"
    if exact is None or not w or not v:
        return None
    fine, err = M.arclen_fine(tuple(exact))
    ulp = decimal.Decimal((0, (1,), v.adjusted() - prec + 1))
    with decimal.localcontext(decimal.Context(prec=60)):
        slop = err * 2 + ulp * decimal.Decimal("2.5") + fine * decimal.Decimal("1e-37")
        if any(isinstance(c, float) for q in exact for c in q):
            slop += decimal.Decimal(1e-14 * M.scale_of(p))
        if abs(v - fine) > slop:
            return f"length {v} at precision {prec}, expected {fine} to within {slop:.3g}"


# --- a whole session
def run(scn, trace=None):
    res = Result()
    objs, threads = scn["objs"], scn["threads"]
    saved = decimal.getcontext()
    refs = {}
    if trace is None:
        engine.set_mode("loc")
        judged = scn.get("judge")
        for t in threads:
            for o in t["ops"]:
                k = opkey(o) + json.dumps(t.get("ctx"))
                if k in refs:
                    continue
                r = refs[k] = reference(objs, o, t.get("ctx"))
                m = judge(objs, o, r, t.get("ctx"))
                if m and (judged is None or o["f"] in judged or m[0] in ("liveness", "deadlock")) and (m[0] != "context" or scn.get("context") == "all"):
                    res.bad("lone:" + m[0], f"{o['f']}{o.get('a', [])} on {o.get('o')}, asked alone: {m[1]}")
        decimal.setcontext(saved)
        if any(v.kind in ("lone:liveness", "lone:deadlock") for v in res.violations):
            res.nontrivial = True
            return res

    inst = lib.fresh()
    for m in ("Bezier", "CurveFitting"):
        inst.get(m)
    env = O.Env(inst, objs)
    ex = Exec(scn, res, trace)
    retained = []
    context = scn.get("context")

    def body(tid):
        t = threads[tid]
        for oi, o in enumerate(t["ops"]):
            if trace is not None and O.heavy(o) and (tid, oi) not in scn.get("traced", ()):
                continue  # profiled separately
            decimal.setcontext(make_ctx(o.get("ctx", t.get("ctx"))))
            before = ctx_state()
            ref = refs.get(opkey(o) + json.dumps(t.get("ctx")))
            r = ex.call(tid, oi, asker(env, o), ref and ref["steps"] * 4 + 20000)
            if trace is not None:
                continue
            after = ctx_state()
            val = O.norm(r.raw) if r.ok else None
            where = f"thread {tid} op {oi} {o['f']}{o.get('a', [])} on {o.get('o')}"
            report = scn.get("report")
            quiet = report is not None and o["f"] not in report
            if after != before and (context == "all" or context == "fault" and r.fault):
                res.bad("context", f"{where} left the decimal context changed: {before} became {after}")
            if r.out == "budget":
                res.bad("liveness", f"{where} used more than {r.run.cap} steps (alone: {ref['steps']})")
            elif r.out == "deadlock":
                res.bad("deadlock", f"{where} blocks for ever")
            elif r.cut or quiet:
                pass
            elif r.out != ref["out"] or val != ref["val"]:
                res.bad("diff:" + o["f"], f"{where} gave {r.out} {show(val)}, alone it gives {ref['out']} {show(ref['val'])}"
                        + (f" (a simulated {r.fault} was delivered to it)" if r.fault else ""))
            if r.ok and not quiet:
                retained.append((r.raw, val, where))

    ex.go([(lambda i=i: body(i)) for i in range(len(threads))])
    if trace is not None:
        return res
    for raw, val, where in retained:
        if O.norm(raw) != val:
            res.bad("answer-changed", f"the answer given to {where} later changed from {show(val)} to {show(O.norm(raw))}")
    for name, spec in objs.items():
        if not O.unchanged(env.objs[name], spec):
            res.bad("geometry", f"the geometry of {name} changed")
    res.signature += json.dumps([[o["f"] for o in t["ops"]] for t in threads])
    fired = res.stats["switches"] + sum(res.stats["faults"].values())
    res.nontrivial = bool(fired) or (len(threads) == 1 and len(threads[0]["ops"]) > 1)
    return res
