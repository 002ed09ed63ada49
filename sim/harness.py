"""What every kind of simulated run shares: results, plans, one operation at a time, threads."""
import decimal
import json

from . import engine, lib
from .engine import OpRun, sim

REF_CAP = 6_000_000


class Violation:
    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def __repr__(self):
        return f"{self.kind}: {self.text}"


class Result:
    def __init__(self):
        self.violations = []
        self.log = []
        self.stats = {"ops": 0, "steps": 0, "switches": 0, "blocks": 0, "faults": {}}
        self.switches = []
        self.signature = None
        self.nontrivial = False
        self.probes = {}

    def bad(self, kind, text):
        self.violations.append(Violation(kind, text))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


# --- decimal contexts
_SIG = {s.__name__: s for s in (decimal.Inexact, decimal.Rounded, decimal.FloatOperation, decimal.Overflow, decimal.InvalidOperation,
                                decimal.DivisionByZero, decimal.Underflow, decimal.Subnormal, decimal.Clamped)}


def make_ctx(spec=None):
    c = decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999, capitals=1, clamp=0,
                        flags=[], traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
    for k, v in (spec or {}).items():
        if k == "traps":
            for s in c.traps:
                c.traps[s] = False
            for n in v:
                c.traps[_SIG[n]] = True
        else:
            setattr(c, k, v)
    return c


def ctx_state(c=None):
    c = c or decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(s.__name__ for s, v in c.traps.items() if v)))


def chain(e):
    """Type names of an exception and of everything it was raised from."""
    out, seen = [], set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


class Outcome:
    __slots__ = ("out", "raw", "run", "fault")

    @property
    def ok(self):
        return self.out == "ok"

    @property
    def cut(self):
        """The call was cut short by the simulated failure, and the caller saw it."""
        return self.fault is not None and self.out.startswith("cut:")


def protected(fn, run):
    """Call fn under run; the outcome is 'ok', 'exc:Type', 'cut:Type', 'budget' or 'deadlock'."""
    r = Outcome()
    r.raw = None
    sim.cur = run
    try:
        r.raw = fn()
        r.out = "ok"
    except engine.SimKilled:
        raise
    except engine.SimBudget:
        r.out = "budget"
    except engine.SimDeadlock:
        r.out = "deadlock"
    except BaseException as e:
        sim.cur = None
        if run.delivered is not None and any(str(x) == engine.FAULT_TEXT for x in chain(e)):
            r.out = "cut:" + type(e).__name__
        else:
            r.out = "exc:" + type(e).__name__
        e.__traceback__ = None
    finally:
        sim.cur = None
    r.run = run
    r.fault = run.delivered
    return r


def alone(fn, cap=REF_CAP):
    """Run fn with no schedule and no faults, measured."""
    return protected(fn, OpRun(-1, 0, cap=cap))


class Exec:
    """The simulated part of a run: threads, their schedule, their faults.

    scn: "plan": [[thread, op, location, occurrence, "to"|"fault", arg]], "walk": {"seed", "p", "focus"},
    "order": fallback order of threads, "first": thread to start with.
    """

    def __init__(self, scn, res, trace=None):
        self.scn, self.res, self.trace = scn, res, trace
        self.plan = {}
        for tid, oi, name, j, act, arg in scn.get("plan") or ():
            for loc in engine.locs_of([name]):
                self.plan.setdefault((tid, oi), {}).setdefault(loc, []).append((j, (act, arg)))
        for p in self.plan.values():
            for a in p.values():
                a.sort(key=lambda x: x[0])
        self.walk = scn.get("walk")
        self.walks = {}
        sim.log = res.log
        if trace is not None:
            engine.set_mode("trace")
        else:
            engine.set_mode("full" if self.walk else "loc", {l for p in self.plan.values() for l in p})

    def call(self, tid, oi, fn, cap=None, traced=True):
        w = None
        if self.walk and self.trace is None:
            w = self.walks.get(tid)
            if w is None:
                w = self.walks[tid] = engine.Walk(engine.rng_for("walk", self.walk["seed"], tid), self.walk["p"], self.walk.get("focus"))
        run = OpRun(tid, oi, plan=self.plan.get((tid, oi)), cap=cap, walk=w)
        if self.trace is not None:
            run.hist = self.trace.setdefault((tid, oi), {})
        r = protected(fn, run)
        self.res.stats["ops"] += 1
        if r.fault:
            f = self.res.stats["faults"]
            f[r.fault] = f.get(r.fault, 0) + 1
        self.res.log.append(["op", tid, oi, r.out, run.n])
        return r

    def go(self, bodies):
        res = self.res
        saved = decimal.getcontext()
        sim.steps = 0
        try:
            if len(bodies) > 1 and self.trace is None:
                s = engine.Scheduler(bodies, self.scn.get("order") or range(len(bodies)))
                s.run(self.scn.get("first", 0))
                res.switches = s.switches
                res.stats["switches"] = len(s.switches)
                res.stats["blocks"] = sum(1 for e in res.log if e[0] == "block")
                if s.deadlock:
                    res.bad("deadlock", "threads block each other for ever")
            else:
                for b in bodies:
                    b()
        finally:
            decimal.setcontext(saved)
        res.stats["steps"] = sim.steps
        res.signature = json.dumps([e for e in res.log if e[0] in ("switch", "fault", "block")])
        return res


def show(v):
    s = json.dumps(v)
    return s if len(s) < 200 else s[:197] + "..."


def profile(world, scn):
    """{(thread, op): {location name: visits}} when the scenario runs undisturbed, thread after thread."""
    trace = {}
    bare = dict(scn, plan=[], walk=None)
    world.run(bare, trace=trace)
    return {k: {engine.locname(l): n for l, n in h.items()} for k, h in trace.items()}
