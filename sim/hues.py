"""C11, C20: rotating, random and named colours, from one or several threads, with calls cut short."""
import colorsys
import json
import random
import sys

from . import adorn as A, engine, harness, lib
from .css import CSS
from .harness import Exec, Result, show


class Script:
    """The source of random bits, under the simulator's control: seeded, or at its extremes."""

    def __init__(self, spec):
        self.rng = random.Random(spec["seed"])
        self.kind = spec["kind"]
        self.n = 0

    def getrandbits(self, k):
        self.n += 1
        top = (1 << k) - 1
        if self.kind == "seeded" or self.n % 7 == 0:
            return self.rng.getrandbits(k)
        if self.kind == "low":
            return 0
        if self.kind == "high":
            return self.rng.choice([top, 255 & top, 254 & top, top - 1 if top else 0, 1 << (k - 1) if k else 0])
        return self.rng.choice([0, top, 255 & top, 1 & top])

    def random(self):
        self.n += 1
        if self.kind == "seeded" or self.n % 7 == 0:
            return self.rng.random()
        if self.kind == "low":
            return 0.0
        return 1.0 - 2.0 ** -53 if self.kind == "high" else self.rng.choice([0.0, 1.0 - 2.0 ** -53, 0.5])

    def install(self):
        i = random._inst
        i.getrandbits, i.random = self.getrandbits, self.random
        random.getrandbits, random.random = self.getrandbits, self.random

    @staticmethod
    def remove():
        i = random._inst
        for n in ("getrandbits", "random"):
            if n in i.__dict__:
                del i.__dict__[n]
        random.getrandbits, random.random = i.getrandbits, i.random


def chan(c):
    return [c.red, c.green, c.blue]


def named(Color, n):
    try:
        c = Color.fromName(n)
        return None if c is None else chan(c)
    except ValueError as e:
        if str(e) == engine.FAULT_TEXT:
            raise
        return "ValueError"


def meant(n):
    """What a colour name should resolve to. One that isn't all letters gives None, other strangers a ValueError."""
    if not n.isalpha():
        return None
    return CSS.get("".join(chr(ord(c) | 32) if "A" <= c <= "Z" else c for c in n), "ValueError")


def hue_of(c):
    return colorsys.rgb_to_hls(c[0] / 255, c[1] / 255, c[2] / 255)[0] * 360


def hue_near(c, h):
    d = abs(hue_of(c) - h % 360) % 360
    return min(d, 360 - d) <= 0.6


def bad_channels(c):
    return any(type(v) is not int or not 0 <= v <= 255 for v in c)


def run(scn, trace=None):
    res = Result()
    inst = lib.fresh()
    Color = inst.get("Color").Color
    ex = Exec(scn, res, trace)
    Script(scn["bits"]).install()
    clock = [0]
    hist = []  # one entry per operation: thread, op, kind, argument, invoked, returned, result, certain

    def body(tid):
        for oi, o in enumerate(scn["threads"][tid]["ops"]):
            clock[0] += 1
            e = {"t": tid, "i": oi, "o": o, "inv": clock[0], "ret": None, "val": None}
            hist.append(e)
            if o[0] == "set":
                def call(): return Color.setCurrentHue(*o[1:])
            elif o[0] == "next":
                def call(): return [chan(Color.randomHSLColor()) for _ in range(o[1])]
            elif o[0] == "name":
                def call(): return [named(Color, n) for n in o[1]]
            else:
                def call(): return [chan(Color.randomRGBColor()) for _ in range(o[1])]
            r = ex.call(tid, oi, call, 2000000)
            clock[0] += 1
            e["ret"] = clock[0]
            e["out"] = r.out
            where = f"thread {tid} op {oi} {o}"
            if trace is not None:
                continue
            if r.out in ("budget", "deadlock"):
                res.bad("liveness", f"{where} does not finish")
            elif r.ok:
                e["val"] = r.raw
                if o[0] == "name":
                    for n, c in zip(o[1], r.raw):
                        w = meant(n)
                        if c != w:
                            res.bad("name", f"{where}: {n!r} is {c}, expected {w}")
                    continue
                for c in r.raw or ():
                    if bad_channels(c):
                        res.bad("channels", f"{where} gave the colour {c}")
            elif not r.cut:
                res.bad("exception", f"{where} raised {r.out[4:]}")
    try:
        ex.go([(lambda i=i: body(i)) for i in range(len(scn["threads"]))])
    finally:
        Script.remove()
    if trace is None and not res.violations:
        judge(scn, res, hist)
    res.signature += json.dumps([t["ops"] for t in scn["threads"]])
    fired = res.stats["switches"] + sum(res.stats["faults"].values())
    res.nontrivial = bool(fired) or len(scn["threads"]) == 1
    return res


def judge(scn, res, hist):
    """Is there one order of the requests, respecting what came before what, that explains every colour?"""
    hist = [e for e in hist if e["o"][0] not in ("rgb", "name")]
    # steps: each colour asked for in one call is a step of its own
    steps = []
    for e in hist:
        if e["o"][0] == "set":
            steps.append((e, "set", (e["o"] + [0])[1]))
        elif e["out"] == "ok":
            for c in e["val"]:
                steps.append((e, "next", c))
        else:
            for _ in range(e["o"][1]):
                steps.append((e, "next", None))
    n = len(steps)
    if len(scn["threads"]) == 1:
        seen = {}
        hue, maybe = 0, {0}
        for e, k, v in steps:
            cut = e["out"] != "ok"
            if k == "set":
                maybe = {v % 360 if v >= 360 or v < 0 else v} | (maybe if cut else set())
                seen = {}
            elif cut:
                maybe |= {(h + 73) % 360 for h in maybe}
            else:
                nxt = {(h + 73) % 360 for h in maybe}
                ok = {h for h in nxt if hue_near(v, h)}
                if not ok:
                    res.bad("hue", f"op {e['i']}: colour {v} has hue {hue_of(v):.1f}, expected one of {sorted(nxt)[:4]}")
                    return
                maybe = ok
        # any 360 consecutive served hues are distinct
        run_ = []
        for e, k, v in steps:
            if k == "set":
                run_ = []
            else:  # a request cut short may have used up a hue
                if v is not None and v in run_[-359:]:
                    res.bad("repeat", f"op {e['i']}: colour {v} repeats within {len(run_)} requests")
                    return
                run_.append(v)
        return
    order = {}
    for k, s in enumerate(steps):
        order.setdefault(s[0]["t"], []).append(k)
    lists = list(order.values())
    stack = [(tuple(0 for _ in lists), 0)]
    seen = set()
    while stack:
        pos, hue = stack.pop()
        if (pos, hue) in seen:
            continue
        seen.add((pos, hue))
        if all(p == len(l) for p, l in zip(pos, lists)):
            return
        if len(seen) > 200000:
            res.probe("linearisation search given up")
            return
        heads = [(i, l[p]) for i, (p, l) in enumerate(zip(pos, lists)) if p < len(l)]
        first_ret = min(steps[k][0]["ret"] for _, k in heads)
        for i, k in heads:
            e, kind, v = steps[k]
            if e["inv"] > first_ret:
                continue  # something else had returned before this began
            nxt = tuple(p + 1 if j == i else p for j, p in enumerate(pos))
            cut = e["out"] != "ok"
            if kind == "set":
                stack.append((nxt, v % 360))
            else:
                h = (hue + 73) % 360
                if v is None or hue_near(v, h):
                    stack.append((nxt, h))
            if cut:
                stack.append((nxt, hue))
    res.bad("order", "no order of the requests explains the colours served: " +
            show([[e["t"], e["o"], e["inv"], e["ret"], e["val"]] for e in hist]))


def gen_C11(rng):
    T = rng.choice([1, 2, 2, 3])
    threads = []
    for _ in range(T):
        ops = []
        for _ in range(rng.choice([1, 2, 3]) if T > 1 else rng.choice([2, 4, 8])):
            r = rng.random()
            if r < 0.2:
                ops.append(["set"] + rng.choice([[], [rng.randint(0, 359)], [rng.randint(0, 359)], [359], [287], [rng.choice([0.5, 359.75, -30, 12.9, 100.8, 400, 720, 1000, 7654321, -99999])]]))
            elif r < 0.85:
                ops.append(["next", rng.choice([1, 1, 2, 3]) if T > 1 else rng.choice([1, 2, 5, 40, 365])])
            else:
                ops.append(["rgb", rng.choice([1, 3, 20])])
        if T > 1:
            ops = [o for o in ops if o[0] != "rgb"] or [["next", 1]]
        threads.append({"ops": ops})
    scn = {"threads": threads, "bits": {"seed": rng.randrange(1 << 30), "kind": rng.choice(["seeded", "low", "high", "mixed"])}}
    mode = rng.choice(["hist", "fault"] if T == 1 else ["switch", "switch", "walk", "both"])
    return A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in threads])


def spell(rng):
    n = rng.choice(sorted(CSS))
    r = rng.random()
    if r < 0.25:
        return n
    if r < 0.4:
        return n.upper()
    if r < 0.55:
        return n.capitalize()
    if r < 0.75:
        return "".join(rng.choice([c, c.upper()]) for c in n)
    if r < 0.85:  # a stranger
        return rng.choice([n[:-1], n + "s", n[0] + n, "dark" + n, "none", "keywords", "red" + n, "x"])
    if r < 0.88:  # letters that only look (or fold) like the right ones
        c = rng.choice(sorted(set(n)))
        like = {"s": "\u017f", "a": "\u0430", "i": "\u0131", "e": "\u00e9", "o": "\u043e"}.get(c, chr(0xFEE0 + ord(c)))
        return n.replace(c, like, rng.choice([1, 9])).replace("fi", rng.choice(["fi", "\ufb01"]))
    if r < 0.94:
        return rng.choice([n + " ", " " + n, n[:2] + "-" + n[2:], n + "1", "#" + n[:3], "", n + "\n", n[:3] + " " + n[3:], "_" + n, " ", "\t\n", "7"])
    return rng.choice([n.replace("gray", "grey"), n.replace("grey", "gray"), "Gray", "GREY"])


def gen_C20(rng):
    T = rng.choice([1, 2, 2, 3])
    shared = [spell(rng) for _ in range(rng.choice([1, 2, 4]))]
    threads = []
    for _ in range(T):
        ops = []
        for _ in range(rng.choice([1, 2, 3]) if T > 1 else rng.choice([2, 4, 8])):
            if rng.random() < 0.1:
                ops.append(rng.choice([["set", rng.randint(0, 359)], ["next", 1]]))
            else:
                ops.append(["name", [rng.choice(shared) if rng.random() < 0.4 else spell(rng) for _ in range(rng.choice([1, 3, 10, 25]) if rng.random() < 0.98 else 200)]])
        threads.append({"ops": ops})
    scn = {"threads": threads, "bits": {"seed": 1, "kind": "seeded"}}
    mode = rng.choice(["hist", "fault"] if T == 1 else ["switch", "switch", "walk", "both"])
    return A.adorn(rng, sys.modules[__name__], scn, mode, [len(t["ops"]) for t in threads])
