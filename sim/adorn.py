"""Choosing where threads switch and where failures strike, from where a run actually goes."""
import dis

from . import engine, harness

_WRITES = {"STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_SLICE"}
_MUT = {"append", "extend", "insert", "pop", "clear", "remove", "sort", "update", "setdefault"}
_near = {}


def near_write(cid):
    """Offsets of a function's positions next to a write of shared-looking state."""
    s = _near.get(cid)
    if s is None:
        c = engine._codes[cid]
        offs = sorted(engine._flags[cid])
        hot = []
        for ins in dis.get_instructions(c):
            if ins.opname in _WRITES or (ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in _MUT):
                hot.append(ins.offset)
        s = set()
        for h in hot:
            i = next((k for k, o in enumerate(offs) if o >= h), len(offs))
            s.update(offs[max(0, i - 2):i + 3])
        _near[cid] = s
    return s


class Spots:
    """Positions visited by one operation, to draw from."""

    def __init__(self, visits, flag):
        self.all = []
        self.near = []
        self.by = {}
        for name in sorted(visits):
            loc = engine._ids.get(name)
            if loc is None or not engine.flags_of(loc) & flag:
                continue
            e = (name, visits[name])
            self.all.append(e)
            self.by.setdefault(loc[0], []).append(e)
            if loc[1] in near_write(loc[0]):
                self.near.append(e)
        self.fns = [self.by[k] for k in sorted(self.by, key=lambda k: self.by[k][0][0])]

    def draw(self, rng):
        if not self.all:
            return None
        r = rng.random()
        if r < 0.4 and self.near:
            name, n = rng.choice(self.near)
        elif r < 0.75:
            name, n = rng.choice(rng.choice(self.fns))
        else:
            name, n = rng.choice(self.all)
        r = rng.random()
        j = 1 if r < 0.45 or n == 1 else n if r < 0.6 else rng.randint(1, n)
        return name, j


def spots(prof, key, flag, cache):
    s = cache.get((key, flag))
    if s is None:
        s = cache[(key, flag)] = Spots(prof.get(key, {}), flag)
    return s


KINDS = ["interrupt", "timeout", "memory", "recursion"]


def adorn(rng, world, scn, mode, nops, prof=None, faultable=None):
    """Give the scenario a schedule and/or faults.  nops: operations per thread.

    mode: "hist" (nothing), "fault", "switch" (few chosen switch points), "walk" (random walk), "both".
    """
    T = len(nops)
    scn["plan"] = []
    scn["walk"] = None
    if mode == "hist":
        return scn
    if T > 1:
        scn["order"] = rng.sample(range(T), T)
        scn["first"] = rng.randrange(T)
    if mode == "walk":
        scn["walk"] = {"seed": rng.randrange(1 << 30), "p": rng.choice([0.5, 0.2, 0.1, 0.05, 0.02, 0.01]), "focus": None}
        if rng.random() < 0.25:
            mode = "walkfault"
        else:
            return scn
    if prof is None:
        prof = harness.profile(world, scn)
    cache = {}
    ops = [(t, i) for t in range(T) for i in range(nops[t]) if prof.get((t, i))]
    if not ops:
        return scn
    if mode in ("fault", "both", "walkfault"):
        f = [k for k in ops if faultable is None or k in faultable]
        kinds = rng.choice([KINDS, [rng.choice(KINDS)]])
        for _ in range(rng.choice([1, 1, 1, 2, 3]) if f else 0):
            k = rng.choice(f)
            d = spots(prof, k, engine.SIG, cache).draw(rng)
            if d:
                scn["plan"].append([k[0], k[1], d[0], d[1], "fault", rng.choice(kinds)])
    if mode in ("switch", "both") and T > 1:
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        for _ in range(n):
            k = rng.choice(ops)
            d = spots(prof, k, engine.P, cache).draw(rng)
            if d:
                to = rng.choice([t for t in range(T) if t != k[0]])
                scn["plan"].append([k[0], k[1], d[0], d[1], "to", to])
    return scn
