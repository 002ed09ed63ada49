"""C04: contours and outlines being edited, asked about in between; calls may be cut short."""
import decimal
import json
import sys

from . import adorn as A, engine, gen, harness, lib, model as M, ops as O, themes as T
from .harness import Exec, Result, alone, make_ctx, show


CAP = 6_000_000


def sections(objs):
    """The contours of a scenario: name -> list of curves."""
    out = {}
    for n, s in objs.items():
        if s["k"] == "contour":
            out[n] = [O.tup(c) for c in s["c"]]
        else:
            for i, cc in enumerate(s["cc"]):
                out[f"{n}.{i}"] = [O.tup(c) for c in cc]
    return out


def objs_now(objs, cur):
    new = {}
    for n, s in objs.items():
        if s["k"] == "contour":
            new[n] = {"k": "contour", "c": cur[n]}
        else:
            new[n] = {"k": "outline", "cc": [cur[f"{n}.{i}"] for i in range(len(s["cc"]))]}
    return new


def idx(i):
    return slice(*i) if isinstance(i, list) else i


def edited(curves, o):
    """The curves after the edit, or None when the edit must fail."""
    c = list(curves)
    try:
        if o["e"] == "del":
            del c[idx(o["i"])]
        else:
            if len(o["p"]) < 2:
                return None
            c[o["i"]] = O.tup(o["p"])
    except IndexError:
        return None
    return c


def fits(cur, o):
    """The question's indices exist in the current contour."""
    t = o.get("o") or ""
    f = t.split("|")[0].split(".")
    n = f[0] if f[0] in cur else ".".join(f[:2])
    if n not in cur:
        return True
    k = len(f) - len(n.split("."))
    return k == 0 or int(f[-1]) < len(cur[n])


def lone(objs, o):
    env = O.Env(lib.fresh(), {n: objs[n] for n in objs if n == o["o"].split("|")[0].split(".")[0]})
    return alone(asker(env, o))


def asker(env, o):
    def ask():
        t = o["o"].split("|")
        target = env.base(t[0])
        for p in t[1:]:  # pieces are cut anew each time: their curve may have been replaced
            target = O.derive(target, p)
        return O.OPS[o["f"]](env, target, *o.get("a", ()))
    return ask


def run(scn, trace=None):
    """One thread edits and asks; others only ask meanwhile, and what they are told is their own affair."""
    res = Result()
    objs, threads = scn["objs"], scn["threads"]
    editor = next((i for i, t in enumerate(threads) if any("e" in o for o in t["ops"])), 0)
    inst = lib.fresh()
    env = O.Env(inst, objs)
    cur = sections(objs)
    ex = Exec(scn, res, trace)
    told = []

    def aside(tid):
        for oi, o in enumerate(threads[tid]["ops"]):
            decimal.setcontext(make_ctx())
            r = ex.call(tid, oi, asker(env, o), CAP)
            if r.out in ("budget", "deadlock"):
                res.bad("liveness", f"thread {tid} op {oi} {o['f']}{o.get('a', [])} on {o['o']} does not finish")
                return

    def body():
        for oi, o in enumerate(threads[editor]["ops"]):
            decimal.setcontext(make_ctx())
            if any(not c for c in cur.values()):
                return
            if "e" in o:
                target = env.base(o["o"])
                want = edited(cur[o["o"]], o)

                def edit():
                    if o["e"] == "del":
                        del target[idx(o["i"])]
                    else:
                        target[o["i"]] = O.tup(o["p"])
                r = ex.call(editor, oi, edit, CAP)
                now = [O.norm(b.controlPoints) for b in target]
                old = O.norm(cur[o["o"]])
                new = O.norm(want) if want is not None else None
                where = f"op {oi} {o['e']} {o['i']} of {o['o']}"
                if r.out == "budget" or r.out == "deadlock":
                    res.bad("liveness", f"{where} does not finish")
                    return
                if now == new and (r.ok or r.cut):
                    cur[o["o"]] = want
                    if r.cut:
                        res.probe("edit completed though cut short")
                elif now == old and not r.ok and (r.cut or new is None or want == []):
                    res.probe("edit refused" if not r.cut else "edit undone when cut short")
                elif not r.ok and now == new:  # failed after happening completely
                    cur[o["o"]] = want
                    if not r.cut and want:
                        res.bad("edit", f"{where} raised {r.out[4:]}")
                else:
                    res.bad("edit", f"{where} ended with {r.out} and curves {show(now)}; before {show(old)}, expected {show(new)}")
                    return
                continue
            if not fits(cur, o):
                continue
            r = ex.call(editor, oi, asker(env, o), CAP)
            if trace is None and not r.cut:
                told.append((f"op {oi}", o, objs_now(objs, cur), r.out, O.norm(r.raw) if r.ok else None, r.run.n))

    ex.go([body if i == editor else lambda i=i: aside(i) for i in range(len(threads))])
    if trace is not None:
        return res
    engine.set_mode("loc")
    saved = decimal.getcontext()
    if not res.violations and all(cur.values()):
        # when all is quiet
        asked = {}
        for t in threads:
            for o in t["ops"]:
                if "f" in o and fits(cur, o):
                    asked.setdefault(json.dumps(o), o)
        for o in [*asked.values()][:8] if len(threads) > 1 else ():
            inst.activate()
            decimal.setcontext(make_ctx())
            r = alone(asker(env, o))
            told.append(("at the end", o, objs_now(objs, cur), r.out, O.norm(r.raw) if r.ok else None, r.run.n))
    for where, o, then, out, val, steps in told:
        decimal.setcontext(make_ctx())
        ref = lone(then, o)
        b = O.norm(ref.raw) if ref.ok else None
        if out != ref.out or val != b:
            res.bad("stale:" + o["f"], f"{where} {o['f']}{o.get('a', [])} on {o['o']} gave {out} {show(val)}, a contour newly built from its "
                    f"current curves gives {ref.out} {show(b)}")
            break
        if steps > ref.run.n * 4 + 20000:
            res.bad("liveness", f"{where} {o['f']}{o.get('a', [])} on {o['o']} used {steps} steps; alone {ref.run.n}")
            break
    decimal.setcontext(saved)
    res.signature += json.dumps([[[o.get("e"), o.get("f"), o.get("i"), o["o"]] for o in t["ops"]] for t in threads])
    res.nontrivial = any("e" in o for o in threads[editor]["ops"])
    return res


QS = ["c.bounds", "c.bounds", "c.lut", "c.lut", "c.closest", "c.closest", "c.d", "c.d", "c.ends", "c.ends", "c.curves", "c.item", "c.rebuilt"]
CQ = ["bbox", "lut", "extrema", "length", "get", "trace", "cps", "dc"]


def gen_C04(rng):
    if rng.random() < 0.6:
        objs = {"k0": {"k": "contour", "c": gen.contour(rng, rng.choice([2, 2, 3, 4]))}}
    else:
        objs = {"w0": {"k": "outline", "cc": [gen.contour(rng, rng.choice([2, 3])) for _ in range(rng.choice([1, 2]))]}}
    cur = sections(objs)
    ops = []
    qs = rng.sample(QS, 4) + (["o.bounds", "o.bounds", "o.contours"] if "w0" in objs else [])
    steps = rng.choice([2, 3, 5, 11, 51])

    def ask(n):
        f = rng.choice(qs)
        if rng.random() < 0.15:
            i = rng.randrange(len(cur[n]))
            q = T.question(rng, rng.choice(CQ), objs_now(objs, cur), f"{n}.{i}")
            return q
        q = T.question(rng, f, objs_now(objs, cur), n.split(".")[0] if f in T.OUT else n)
        if f == "c.lut" and rng.random() < 0.7:
            q["a"] = [steps]
        if f == "c.closest" and rng.random() < 0.7:
            q["a"][1] = steps
        return q
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        n = rng.choice(list(cur))
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(ask(n))
        k = len(cur[n])
        r = rng.random()
        i = rng.choice([0, -1, rng.randrange(k), -k])
        if r < 0.55 or k == 1:
            c = rng.choice(cur[n])
            p = gen.curve(rng, None, rng.choice(["grid", "half", "axis", "scurve"]), rng.choice([50, 1000, 5000]))
            if rng.random() < 0.6:  # joined to its neighbours, perhaps larger
                p[0], p[-1] = c[0], c[-1]
            elif rng.random() < 0.3:
                p = [(q[0] / 50, q[1] / 50) for q in c]
            o = {"e": "set", "o": n, "i": i, "p": p}
        elif r < 0.8:
            o = {"e": "del", "o": n, "i": i if rng.random() < 0.8 or k < 3 else [0, rng.randint(1, k - 1)]}
        elif r < 0.9:
            o = {"e": "set", "o": n, "i": i, "p": rng.choice([[], [(1, 2)]])}
        else:
            o = {"e": rng.choice(["set", "del"]), "o": n, "i": rng.choice([k, -k - 1, k + 5]), "p": [(0, 0), (1, 1)]}
        w = edited(cur[n], o)
        if w == []:
            if rng.random() < 0.8:
                continue
        if w:
            cur[n] = w
        ops.append(o)
        if w == []:
            break
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(ask(n))
    scn = {"objs": objs, "threads": [{"ops": ops}]}
    if rng.random() < 0.3:  # others ask meanwhile
        cur = sections(objs)
        scn["threads"] += [{"ops": [ask(rng.choice(list(cur))) for _ in range(rng.choice([1, 1, 2, 3]))]} for _ in range(rng.choice([1, 1, 2]))]
        mode = rng.choice(["switch", "switch", "walk", "both"])
    else:
        mode = "fault" if rng.random() < 0.5 else "hist"
    edits = {(0, i) for i, o in enumerate(ops) if "e" in o}
    return A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in scn["threads"]], None, edits if rng.random() < 0.7 else None)
