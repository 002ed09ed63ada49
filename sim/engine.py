"""The simulator core: bytecode positions, the thread scheduler, fault delivery.

Real threads, parked and released one at a time.  A thread can only lose the
processor where the simulator says so: at an instruction of PathLib that touches
something another thread could see (attribute, item, global, call, iteration).
A failure can only be delivered where CPython itself could deliver one: on entry
to a function, after a call returns, at a backward jump - never inside clean-up
code (finally/except/__exit__).  Nothing here reads a clock or a PRNG other than
the scenario's.
"""
import _thread
import dis
import random
import sys
import threading

from . import lib

MON = sys.monitoring
TOOL = 3
P, SIG = 1, 2  # preemptible position; position where a failure can arrive

_VISIBLE = {
    "LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR", "DELETE_ATTR", "LOAD_SUPER_ATTR",
    "LOAD_GLOBAL", "STORE_GLOBAL", "DELETE_GLOBAL", "LOAD_NAME", "STORE_NAME",
    "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SLICE", "STORE_SLICE",
    "CALL", "CALL_FUNCTION_EX", "CALL_INTRINSIC_1", "CONTAINS_OP", "FOR_ITER", "GET_ITER",
    "UNPACK_SEQUENCE", "UNPACK_EX", "LIST_EXTEND", "DICT_UPDATE", "SET_UPDATE",
    "LOAD_DEREF", "STORE_DEREF", "BEFORE_WITH", "RESUME", "BINARY_OP", "YIELD_VALUE",
}
_CALLS = {"CALL", "CALL_FUNCTION_EX"}

FAULT_TEXT = "simulated failure"
KINDS = {
    "interrupt": lambda: KeyboardInterrupt(FAULT_TEXT),
    "timeout": lambda: TimeoutError(FAULT_TEXT),
    "memory": lambda: MemoryError(FAULT_TEXT),
    "recursion": lambda: RecursionError(FAULT_TEXT),
}


class SimBudget(BaseException):
    """An operation used more steps than its budget: no progress."""


class SimDeadlock(BaseException):
    pass


class SimKilled(BaseException):
    """Unwinds parked threads when a run is over."""


_flags = {}     # id(code) -> {offset: flags}
_codes = {}     # id(code) -> code
_cleanup = {}   # filename -> set of lines
_ids = {}       # location name -> (id(code), offset)
_names = {}     # id(code) -> "file|qualname|line"
STEP = 4        # function entry or backward jump: what progress is measured in


def _scan(code, path, cleanup):
    _cleanup[path] = cleanup
    short = path.rsplit("/", 1)[-1]
    stack = [code]
    while stack:
        c = stack.pop()
        stack.extend(k for k in c.co_consts if hasattr(k, "co_code"))
        if not c.co_flags & 1:
            continue  # module and class bodies run before the simulation starts
        fl = {}
        prev_call = None
        handlers = dis._parse_exception_table(c)

        def handler(offset):
            return next((e.target for e in handlers if e.start <= offset < e.end), None)

        for ins in dis.get_instructions(c):
            op = ins.opname
            if op == "CACHE":
                continue
            f = 0
            if op in _VISIBLE:
                f |= P
            if op == "RESUME" or op == "JUMP_BACKWARD":
                f |= SIG | STEP
            # CPython delivers the failure as the call's own: where the next
            # instruction is protected otherwise (leaving a with block), it
            # can't stand in for the end of the call
            if prev_call is not None and handler(prev_call) == handler(ins.offset):
                f |= SIG
            if f:
                fl[ins.offset] = f
            prev_call = ins.offset if op in _CALLS else None
        _flags[id(c)] = fl
        _codes[id(c)] = c
        _names[id(c)] = f"{short}|{c.co_qualname}|{c.co_firstlineno}"
        for off in fl:
            _ids[f"{_names[id(c)]}|{off}"] = (id(c), off)
        MON.set_local_events(TOOL, c, MON.events.INSTRUCTION)


def locname(loc):
    return f"{_names[loc[0]]}|{loc[1]}"


def lineof(name):
    """file:function:line of a location name, for people."""
    loc = _ids.get(name)
    if loc is None:
        return name
    c = _codes[loc[0]]
    line = c.co_firstlineno
    for s, e, l in c.co_lines():
        if s <= loc[1] < e and l:
            line = l
    return f"{c.co_filename.rsplit('/', 1)[-1]}:{c.co_qualname}:{line}"


class OpRun:
    """Execution of one operation by one simulated thread.

    `plan` maps a location to a sorted list of (occurrence, action): the action
    is ("to", thread) or ("fault", kind).  In full mode `walk` may also switch.
    """
    __slots__ = ("tid", "op", "n", "cap", "over", "plan", "seen", "delivered", "loc", "walk", "hist")

    def __init__(self, tid, op, plan=None, cap=None, walk=None, hist=None):
        self.tid = tid
        self.op = op
        self.n = 0
        self.cap = cap if cap is not None else 1 << 60
        self.over = False
        self.plan = plan or {}
        self.seen = {}
        self.delivered = None
        self.loc = None
        self.walk = walk
        self.hist = hist


class Walk:
    """Random-walk policy of one thread: switch after a geometric number of positions."""
    __slots__ = ("rng", "p", "left", "focus")

    def __init__(self, rng, p, focus):
        self.rng, self.p, self.focus = rng, p, focus
        self.left = self.gap()

    def gap(self):
        r = self.rng.random()
        p = self.p
        k = 1
        while r > p and k < 4000:  # geometric
            r = (r - p) / (1 - p)
            k += 1
        return k


class Sim:
    cur = None      # OpRun executing now, or None outside simulated code
    sched = None    # Scheduler when several threads are simulated
    log = None      # event log of the current run
    enabled = frozenset()
    steps = 0


sim = Sim()


def _in_cleanup(frame):
    while frame is not None:
        lines = _cleanup.get(frame.f_code.co_filename)
        if lines is not None and frame.f_lineno in lines:
            return True
        frame = frame.f_back
    return False


def _fault(cur, loc, j, kind):
    cur.delivered = kind
    cur.loc = locname(loc)
    sim.log.append(["fault", cur.tid, cur.op, cur.loc, j, kind])
    raise KINDS[kind]()


def _act(cur, loc, acts):
    """At a planned location: is it the planned occurrence?"""
    j = cur.seen.get(loc, 0) + 1
    cur.seen[loc] = j
    while acts and acts[0][0] <= j:
        act, arg = acts[0][1]
        if act == "fault":
            if acts[0][0] < j - 50:
                acts.pop(0)
                continue
            if _in_cleanup(sys._getframe(2)):
                return
            acts.pop(0)
            _fault(cur, loc, j, arg)
        else:
            acts.pop(0)
            if sim.sched is not None:
                sim.sched.preempt(cur, loc, j, arg)


def _step(cur):
    cur.n += 1
    sim.steps += 1
    if cur.n >= cur.cap:
        cur.over = True
        raise SimBudget()


def _cb_loc(code, off):
    cid = id(code)
    loc = (cid, off)
    fl = _flags.get(cid)
    f = fl.get(off, 0) if fl is not None else 0
    en = loc in sim.enabled
    if not en and not f & STEP:
        return MON.DISABLE
    cur = sim.cur
    if cur is None or lib.importing:
        return
    if f & STEP:
        _step(cur)
    if en:
        acts = cur.plan.get(loc)
        if acts:
            _act(cur, loc, acts)


def _cb_full(code, off):
    cid = id(code)
    fl = _flags.get(cid)
    f = fl.get(off, 0) if fl is not None else 0
    if not f:
        return MON.DISABLE
    cur = sim.cur
    if cur is None or lib.importing:
        return
    if f & STEP:
        _step(cur)
    loc = (cid, off)
    acts = cur.plan.get(loc)
    if acts:
        _act(cur, loc, acts)
    w = cur.walk
    if w is not None and f & P:
        if not acts:
            cur.seen[loc] = cur.seen.get(loc, 0) + 1
        if w.focus is None or _names[cid] in w.focus:
            w.left -= 1
            if w.left <= 0:
                w.left = w.gap()
                to = sim.sched.pick(w.rng, cur.tid)
                if to is not None:
                    sim.sched.preempt(cur, loc, cur.seen[loc], to)


def _cb_trace(code, off):
    cid = id(code)
    fl = _flags.get(cid)
    f = fl.get(off, 0) if fl is not None else 0
    if not f:
        return MON.DISABLE
    cur = sim.cur
    if cur is None or lib.importing:
        return
    if f & STEP:
        _step(cur)
    h = cur.hist
    loc = (cid, off)
    h[loc] = h.get(loc, 0) + 1


MON.use_tool_id(TOOL, "pathlib-sim")
lib.on_code(_scan)
_modes = {"loc": _cb_loc, "full": _cb_full, "trace": _cb_trace}


_now = ("loc", frozenset())


def get_mode():
    return _now


class mode:
    """Another mode for a while."""

    def __init__(self, *a):
        self.a = a

    def __enter__(self):
        self.was = _now
        if self.was != (self.a[0], frozenset(self.a[1])):
            set_mode(*self.a)

    def __exit__(self, *e):
        if _now != self.was:
            set_mode(*self.was)


def set_mode(mode, enabled=()):
    global _now
    _now = (mode, frozenset(enabled))
    sim.enabled = frozenset(enabled)
    MON.register_callback(TOOL, MON.events.INSTRUCTION, _modes[mode])
    MON.restart_events()


set_mode("loc")


def locs_of(names):
    return [_ids[n] for n in names if n in _ids]


def flags_of(loc):
    fl = _flags[loc[0]][loc[1]]
    c = _codes[loc[0]]
    if fl & SIG:
        # a failure is never delivered inside clean-up code
        lines = _cleanup[c.co_filename]
        for s, e, l in c.co_lines():
            if s <= loc[1] < e and l in lines:
                return fl & ~SIG
    return fl


class Scheduler:
    """Runs thread bodies as real threads, exactly one released at any time."""

    def __init__(self, bodies, order):
        self.n = len(bodies)
        self.bodies = bodies
        self.order = order              # fallback order when a thread ends or blocks
        self.locks = [_thread.allocate_lock() for _ in bodies]
        for l in self.locks:
            l.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.current = None
        self.errors = [None] * self.n
        self.switches = []              # realised [tid, op, location, occurrence, to]
        self.killed = False
        self.deadlock = False

    # --- choice
    def runnable(self, t):
        return not self.done[t] and (self.blocked[t] is None or not self.blocked[t].held)

    def pick(self, rng, me):
        c = [t for t in range(self.n) if t != me and self.runnable(t)]
        return rng.choice(c) if c else None

    def fallback(self, me, want=None):
        seq = ([want] if want is not None else []) + list(self.order)
        for t in seq:
            if t != me and 0 <= t < self.n and self.runnable(t):
                return t
        return None

    # --- switching (called in the running thread)
    def preempt(self, cur, loc, j, to):
        t = self.fallback(cur.tid, to)
        if t is None:
            return
        name = locname(loc)
        self.switches.append([cur.tid, cur.op, name, j, t])
        sim.log.append(["switch", cur.tid, cur.op, name, j, t])
        self._go(cur.tid, t)
        sim.cur = cur

    def _go(self, me, to):
        sim.cur = None
        self.current = to
        self.locks[to].release()
        self.locks[me].acquire()
        if self.killed:
            raise SimKilled()

    def block(self, lock):
        """The running thread cannot take `lock` now."""
        me = self.current
        saved = sim.cur
        self.blocked[me] = lock
        while lock.held:
            t = self.fallback(me)
            if t is None:
                self.deadlock = True
                self.blocked[me] = None
                raise SimDeadlock()
            sim.log.append(["block", me, t])
            self._go(me, t)
        self.blocked[me] = None
        sim.cur = saved

    def _thread(self, t):
        self.locks[t].acquire()
        try:
            if not self.killed:
                self.bodies[t]()
        except SimKilled:
            pass
        except BaseException as e:  # a harness error: re-raised by run()
            self.errors[t] = e
        finally:
            sim.cur = None
            self.done[t] = True
            nxt = self.fallback(t)
            if nxt is None and not all(self.done):
                self.killed = True
                self.deadlock = True
                nxt = next(i for i in range(self.n) if not self.done[i])
            if nxt is None:
                self.main.release()
            else:
                self.current = nxt
                self.locks[nxt].release()

    def run(self, first):
        sim.sched = self
        try:
            for t in range(self.n):
                _thread.start_new_thread(self._thread, (t,))
            self.current = first
            self.locks[first].release()
            self.main.acquire()
        finally:
            sim.sched = None
            sim.cur = None
        for e in self.errors:
            if e is not None and not isinstance(e, SimDeadlock):
                raise e


# --- locks the library might take: the simulator decides who gets them
class SimLock:
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            if not blocking or timeout == 0:
                return False
            if sim.sched is None:
                raise SimDeadlock()
            sim.sched.block(self)
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False

    def locked(self):
        return self.held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self.held = False
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.held and self.owner == me:
            self.count += 1
            return True
        if self.held:
            if not blocking or timeout == 0:
                return False
            if sim.sched is None:
                raise SimDeadlock()
            sim.sched.block(self)
        self.held, self.owner, self.count = True, me, 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.held, self.owner = False, None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


def rng_for(*parts):
    """One PRNG per stream, a pure function of the given integers and strings."""
    return random.Random("/".join(str(p) for p in parts))
