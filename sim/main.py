"""check <property> | replay <file> | selftest [property...]

check runs seeded simulations of the library in /repo's working tree, spread over worker processes,
minimises the first violation and writes it as a replay file.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
SELF = os.path.abspath(__file__)
KNOWN = os.path.join(ROOT, "known_findings.txt")

# property: world, runs in the quick tier, runs in the thorough tier
PLAN = {
    "C01": ("session", 8000, 160000), "C02": ("session", 8000, 160000), "C03": ("session", 8000, 160000),
    "C04": ("edits", 8000, 160000), "C05": ("session", 8000, 160000), "C06": ("pens", 24000, 400000),
    "C07": ("pens", 8000, 160000), "C08": ("session", 8000, 120000), "C09": ("plots", 16000, 400000),
    "C10": ("plots", 16000, 400000), "C11": ("hues", 24000, 600000), "C12": ("session", 4000, 60000),
    "C13": ("session", 2400, 40000), "C14": ("session", 8000, 160000), "C15": ("session", 8000, 120000),
    "C16": ("session", 8000, 120000), "C17": ("values", 16000, 300000), "C18": ("values", 16000, 300000),
    "C19": ("session", 16000, 240000), "C20": ("hues", 16000, 400000),
}
DEADLINE = {"quick": 420, "thorough": 3300}
STALL = 150  # seconds without a finished run before a worker is taken for stuck


def worlds():
    from sim import edits, engine, hues, pens, plots, session, themes, values
    engine.install_locks()
    return {"session": (session, themes), "edits": (edits, edits), "pens": (pens, pens), "plots": (plots, plots), "hues": (hues, hues), "values": (values, values)}


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def scenario(pid, seed, i):
    from sim import engine
    w, g = worlds()[PLAN[pid][0]]
    scn = getattr(g, "gen_" + pid)(engine.rng_for(pid, seed, i))
    return w, json.loads(json.dumps(scn))


def inside(e):
    """Did this exception come out of the library?"""
    from sim import lib
    if isinstance(e, AttributeError) and e.name and not e.name.startswith("_") and type(e.obj).__module__.startswith("PathLib."):
        return True  # one of its objects lacks something public
    home = os.path.join(os.path.abspath(lib.REPO), "PathLib") + os.sep
    t = e.__traceback__
    while t is not None:
        if os.path.abspath(t.tb_frame.f_code.co_filename).startswith(home):
            return True
        t = t.tb_next
    return False


def execute(world, scn):
    """Run a scenario. A call the library can't refuse - building the objects, asking a fresh copy - that fails all the same is a violation too."""
    from sim import harness
    try:
        if "unborn" in scn:
            scenario(*scn["unborn"])
            return harness.Result()
        return world.run(scn)
    except Exception as e:
        if not inside(e):
            raise
        res = harness.Result()
        res.bad("failure", f"{type(e).__name__}: {e} - from a call that sets the scenario up or answers for a fresh copy")
        return res


# --- known findings
def known(pid):
    """[(regular expression, description)] of the recorded findings of this property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\w+) match=/(.*)/ (.*)", line.strip())
            if m and m[1] == pid:
                out.append((re.compile(m[2]), m[3]))
    return out


def news(res, findings):
    return [v for v in res.violations if not any(r.search(f"{v.kind}: {v.text}") for r, _ in findings)]


# --- a worker
def worker(pid, seed, w, n, count, stop):
    """Runs w, w+n, w+2n, ...; reports on stdout, one line of JSON per message."""
    findings = known(pid)
    sigs, stats = set(), {"runs": 0, "ops": 0, "steps": 0, "switches": 0, "blocks": 0, "nontrivial": 0, "faults": {}, "probes": {}, "modes": {}, "suppressed": 0}
    spots = {"fault": set(), "switch": set()}
    samples = []
    unstable = []

    def say(msg, **k):
        print(json.dumps(dict(k, msg=msg)), flush=True)
    last = time.time()
    for i in range(w, count, n):
        if os.path.exists(stop):
            try:
                if int(open(stop).read() or 0) < i:
                    break
            except ValueError:
                pass
        say("start", i=i)
        try:
            world, scn = scenario(pid, seed, i)
        except Exception as e:
            if not inside(e):
                raise
            world, scn = worlds()[PLAN[pid][0]][0], {"unborn": [pid, seed, i]}
        res = execute(world, scn)
        stats["runs"] += 1
        for k in ("ops", "steps", "switches", "blocks"):
            stats[k] += res.stats[k]
        for k, v in res.stats["faults"].items():
            stats["faults"][k] = stats["faults"].get(k, 0) + v
        for k, v in res.probes.items():
            stats["probes"][k] = stats["probes"].get(k, 0) + v
        mode = ("walk" if scn.get("walk") else "") + ("+" if scn.get("walk") and scn.get("plan") else "") + ("plan" if scn.get("plan") else "") or "history"
        stats["modes"][mode] = stats["modes"].get(mode, 0) + 1
        for e in res.log:
            if e[0] in spots:
                spots[e[0]].add(e[3])
        if res.nontrivial:
            stats["nontrivial"] += 1
            sigs.add(digest([res.signature, scn.get("objs"), scn.get("threads"), scn.get("ops"), scn.get("glyphs"), scn.get("paths"), scn.get("bits")]))
            if len(samples) < 1 and len(json.dumps(scn)) < 3000 and (res.stats["switches"] or res.stats["faults"]):
                samples.append({"index": i, "scenario": scn, "events": [e for e in res.log if e[0] != "op"][:20]})
        bad = news(res, findings)
        stats["suppressed"] += len(res.violations) - len(bad)
        if bad:
            say("bad", i=i, scn=scn, kind=bad[0].kind, text=bad[0].text)
            break
        if i % 97 == w:  # the same scenario again: the same events?
            again = execute(world, scn)
            if again.log != res.log:
                unstable.append(i)
        if time.time() - last > 10:
            last = time.time()
    say("done", stats=stats, sigs=sorted(sigs), samples=samples, unstable=unstable, spots={k: sorted(v) for k, v in spots.items()})


# --- minimising
def lists(scn):
    return [t["ops"] for t in scn["threads"]] if "threads" in scn else [scn["ops"]]


def drop_op(scn, t, i):
    s = json.loads(json.dumps(scn))
    del lists(s)[t][i]
    plan = []
    for e in s.get("plan") or ():
        if e[0] == t:
            if e[1] == i:
                continue
            if e[1] > i:
                e = [e[0], e[1] - 1] + e[2:]
        plan.append(e)
    s["plan"] = plan
    return s


def minimise(world, scn, kind, findings, seconds=60):
    end = time.time() + seconds
    tries = [0]

    def fails(s):
        if time.time() > end:
            return False
        tries[0] += 1
        try:
            r = execute(world, json.loads(json.dumps(s)))
        except Exception:
            return False
        return any(v.kind == kind for v in news(r, findings))

    if "unborn" in scn:
        return scn, 0

    def plain(s, **k):
        return dict(json.loads(json.dumps(s)), **k)
    c = plain(scn, plan=[], walk=None)
    if fails(c):
        scn = c
    elif scn.get("walk"):
        r = world.run(scn)
        faults = [e for e in scn["plan"] if e[4] == "fault"]
        c = plain(scn, walk=None, plan=[[*s[:4], "to", s[4]] for s in r.switches] + faults)
        if fails(c):
            scn = c
    changed = True
    while changed and time.time() < end:
        changed = False
        # several plan entries at once, then one by one
        size = max(1, len(scn.get("plan") or ()) // 2)
        while scn.get("plan") and size:
            k = 0
            while k < len(scn["plan"]):
                c = plain(scn)
                del c["plan"][k:k + size]
                if fails(c):
                    scn, changed = c, True
                else:
                    k += size
            size //= 2
        for t in range(len(lists(scn))):
            if len(lists(scn)) > 1 and lists(scn)[t]:
                c = plain(scn)
                lists(c)[t].clear()
                c["plan"] = [e for e in c.get("plan") or () if e[0] != t]
                if fails(c):
                    scn, changed = c, True
                    continue
            i = len(lists(scn)[t]) - 1
            while i >= 0:
                c = drop_op(scn, t, i)
                if fails(c):
                    scn, changed = c, True
                i -= 1
            for o in range(len(lists(scn)[t])):
                if isinstance(lists(scn)[t][o], dict) and "calls" in lists(scn)[t][o]:
                    k = len(lists(scn)[t][o]["calls"]) - 1
                    while k >= 0:
                        c = plain(scn)
                        del lists(c)[t][o]["calls"][k]
                        if lists(c)[t][o]["calls"] and lists(c)[t][o]["calls"][0][0] in ("moveTo", "addComponent") and fails(c):
                            scn, changed = c, True
                        k -= 1
        for n in list(scn.get("objs") or ()):
            c = plain(scn)
            del c["objs"][n]
            if c["objs"] and fails(c):
                scn, changed = c, True
    return scn, tries[0]


def record(pid, seed, i, world, scn, findings):
    r = execute(world, json.loads(json.dumps(scn)))
    bad = news(r, findings)
    if not bad:
        return None
    return {"property": pid, "seed": seed, "index": i, "world": PLAN[pid][0], "scenario": scn, "kind": bad[0].kind, "text": bad[0].text,
            "events": r.log, "violations": [[v.kind, v.text] for v in r.violations]}


def minimise_main(pid, seed, i, src, out):
    m = json.load(open(src))
    w = worlds()[PLAN[pid][0]][0]
    findings = known(pid)
    scn, tries = minimise(w, m["scn"], m["kind"], findings)
    rec = record(pid, seed, i, w, scn, findings) or record(pid, seed, i, w, m["scn"], findings)
    if rec is None:
        return 3
    rec["minimised_in"] = tries
    json.dump(rec, open(out, "w"), indent=1)
    return 0


def replay(path, quiet=False):
    rec = json.load(open(path))
    pid = rec["property"]
    if rec["world"] == "stuck":
        w, scn = scenario(pid, rec["seed"], rec["index"])
        w.run(scn)
        print("the run finished: not reproduced")
        return 3
    w = worlds()[rec["world"]][0]
    r = execute(w, json.loads(json.dumps(rec["scenario"])))
    got = [[v.kind, v.text] for v in r.violations]
    if plain(got) != plain(rec["violations"]) or json.loads(json.dumps(r.log)) != rec["events"]:
        print("not reproduced: " + (json.dumps(got)[:2000] if got else "no violation") + ("" if r.log == rec["events"] else " (the events differ)"))
        return 3
    if not quiet:
        story(rec)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def plain(texts):
    """Without the addresses of objects."""
    return [[k, re.sub(r"0x[0-9a-f]{6,}", "0x", t)] for k, t in texts]


def story(rec):
    from sim import engine
    print(f"{rec['kind']}: {rec['text']}")
    print("scenario: " + json.dumps({k: v for k, v in rec["scenario"].items() if k not in ("plan",)}))
    for e in rec["events"]:
        if e[0] == "switch":
            print(f"  thread {e[1]} in op {e[2]} loses the processor at {engine.lineof(e[3])} (visit {e[4]}) to thread {e[5]}")
        elif e[0] == "fault":
            print(f"  thread {e[1]} in op {e[2]}: {e[5]} strikes at {engine.lineof(e[3])} (visit {e[4]})")
        elif e[0] == "block":
            print(f"  thread {e[1]} blocks; thread {e[2]} goes on")
        elif e[0] == "op":
            print(f"  thread {e[1]} op {e[2]}: {e[3]} after {e[4]} steps")


# --- the check
def check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in DEADLINE:
        tier = "quick"
    count = int(os.environ.get("SIM_RUNS") or PLAN[pid][1 if tier == "quick" else 2])
    n = int(os.environ.get("SIM_WORKERS") or min(8, os.cpu_count() or 1))
    findings = known(pid)
    for _, d in findings:
        print(f"KNOWN-FINDING: property={pid} {d}")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    tmp = tempfile.mkdtemp(prefix="sim-")
    stop = os.path.join(tmp, "stop")
    procs = []
    for w in range(n):
        sink = open(os.path.join(tmp, f"out{w}"), "w")
        out = open(os.path.join(tmp, f"out{w}"))
        p = subprocess.Popen([sys.executable, SELF, "worker", pid, str(seed), str(w), str(n), str(count), stop], stdout=sink,
                             stderr=subprocess.STDOUT, env=env, start_new_session=True)
        sink.close()
        procs.append([p, out, 0, "", time.time(), None, None, None])  # process, output, read so far, rest, last heard, current, bad, done
    noise = []
    stuck = None
    truncated = False

    def pump(s):
        s[1].seek(s[2])
        data = s[1].read()
        s[2] = s[1].tell()
        lines = (s[3] + data).split("\n")
        s[3] = lines.pop()
        for l in lines:
            try:
                m = json.loads(l)
                kind = m["msg"]
            except (ValueError, KeyError, TypeError):
                noise.append(l)
                continue
            s[4] = time.time()
            if kind == "start":
                s[5] = m["i"]
            elif kind == "bad":
                s[6] = m
                low = min(x[6]["i"] for x in procs if x[6])
                with open(stop + ".new", "w") as f:
                    f.write(str(low))
                os.replace(stop + ".new", stop)
            elif kind == "done":
                s[7] = m
    while True:
        alive = False
        for s in procs:
            dead = s[0].poll() is not None
            pump(s)
            if dead:
                continue
            alive = True
            if time.time() - s[4] > STALL:
                s[0].kill()
                if stuck is None or s[5] < stuck:
                    stuck = s[5]
        if not alive:
            break
        if time.time() - t0 > DEADLINE[tier] and not truncated:
            truncated = True
            with open(stop, "w") as f:
                f.write("-1")
        time.sleep(0.05)
    bad = min((s[6] for s in procs if s[6]), key=lambda m: m["i"], default=None)
    crashed = [s for s in procs if s[7] is None and s[0].returncode not in (None, -9)]
    done = [s[7] for s in procs if s[7]]
    rc, viol = 0, 0
    if bad is not None:
        rc, viol = report(pid, seed, bad, tmp, env)
    elif stuck is not None:
        rc, viol = report_stuck(pid, seed, stuck, env)
    elif crashed or not done or len(done) < n:
        rc = 2
        print("error: a worker failed")
        print("\n".join(noise[-40:]))
    evidence(pid, tier, seed, done, time.time() - t0, viol, truncated, n, count)
    for s in procs:
        s[1].close()
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    return rc


def report(pid, seed, bad, tmp, env):
    src = os.path.join(tmp, "bad.json")
    json.dump(bad, open(src, "w"))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{pid}-{seed}-{bad['i']}.json")
    print(f"{bad['kind']}: {bad['text']}")
    r = subprocess.run([sys.executable, SELF, "minimise", pid, str(seed), str(bad["i"]), src, path], env=env, timeout=400)
    if r.returncode:
        print("error: the violation found in a worker did not occur again when its scenario was run afresh")
        return 2, 0
    r = subprocess.run([sys.executable, SELF, "replay", path], env=env, timeout=400)
    if r.returncode != 1:
        print("error: the replay file does not reproduce the violation")
        return 2, 0
    return 1, 1


def report_stuck(pid, seed, i, env):
    """A run that never ends, not even by the step limits: it must do so again to count."""
    path = os.path.join(ROOT, "replays", f"{pid}-{seed}-{i}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump({"property": pid, "seed": seed, "index": i, "world": "stuck", "kind": "liveness", "text": "the run does not end"}, open(path, "w"))
    try:
        subprocess.run([sys.executable, SELF, "replay", path], env=env, timeout=STALL)
        print(f"error: run {i} was slow once")
        return 2, 0
    except subprocess.TimeoutExpired:
        print(f"run {i} of seed {seed} does not end")
        print(f"VIOLATION property={pid} replay={path}")
        return 1, 1


RULE = ("a run is one scenario drawn from PRNG(property, VERIF_SEED, run index): objects, each simulated thread's list of calls, and the switch points and "
        "failures to inject, placed where an undisturbed run of that scenario goes; it is non-trivial when a thread switch or failure really took place in it, "
        "or, for single-threaded histories, when it makes more than one call; distinct by scenario and realised sequence of switches, failures and blocks")


def evidence(pid, tier, seed, done, wall, viol, truncated, workers, planned):
    tot = {"runs": 0, "ops": 0, "steps": 0, "switches": 0, "blocks": 0, "nontrivial": 0, "suppressed": 0}
    faults, probes, modes, sigs = {}, {}, {}, set()
    spots = {"fault": set(), "switch": set()}
    for d in done:
        for k in tot:
            tot[k] += d["stats"][k]
        for name, acc in (("faults", faults), ("probes", probes), ("modes", modes)):
            for k, v in d["stats"][name].items():
                acc[k] = acc.get(k, 0) + v
        sigs.update(d["sigs"])
        for k in spots:
            spots[k].update(d["spots"][k])
    world = PLAN[pid][0]
    stub = {"plots": ["FontDocTools.GlyphPlotterEngine (stub: graphics state and element list)", "FontDocTools.Color (stub: channels)"],
            "hues": ["FontDocTools.Color (stub: channels)", "random bit source (scripted)"],
            "pens": ["logger and glyph set (harness)"]}.get(world, [])
    real = {"session": ["PathLib.Bezier", "PathLib.BezierUtilities", "PathLib.PathUtilities", "PathLib.Transform"] if pid != "C08" else ["PathLib.CurveFitting", "PathLib.MatrixInversion"],
            "edits": ["PathLib.Bezier", "PathLib.BezierUtilities", "PathLib.PathUtilities"], "pens": ["PathLib.SegmentPen", "PathLib.Transform"],
            "plots": ["PathLib.ContourPlotter", "PathLib.Color", "PathLib.Bezier"], "hues": ["PathLib.Color"],
            "values": ["PathLib.Transform", "PathLib.MatrixInversion", "PathLib.PathUtilities", "PathLib.BezierUtilities", "PathLib.CurveFitting"]}[world]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": viol,
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": len(sigs), "rule": RULE,
              "samples": [s for d in done for s in d["samples"]][:3] or [{"note": "no run with a switch or failure was short enough to print"}],
              "runs_planned": planned, "stopped_at_deadline": truncated, "nontrivial_runs": tot["nontrivial"],
              "runs_per_hour": round(tot["runs"] / wall * 3600), "seeds_per_hour": round(tot["runs"] / wall * 3600), "workers": workers,
              "operations": tot["ops"],
              "simulated_time_steps": tot["steps"], "simulated_time_unit": "function entries and backward jumps of library code; the library has no clock or timer",
              "thread_switches": tot["switches"], "lock_waits": tot["blocks"], "failures_injected": faults,
              "distinct_switch_positions": len(spots["switch"]), "distinct_failure_positions": len(spots["fault"]),
              "distinct_interleavings_measure": "distinct_nontrivial counts distinct (scenario, realised event sequence)",
              "scheduling_modes": modes, "probes": probes, "suppressed_known_findings": tot["suppressed"],
              "reruns_with_different_events": sum(len(d["unstable"]) for d in done),
              "ran_real_code": real, "ran_stub": stub},
          "assumptions": ["CPython's global interpreter lock: threads switch only between bytecode instructions",
                          "failures arrive only where CPython delivers them (function entry, after a call, backward jump), and not inside clean-up code (finally, except, __exit__)",
                          "the reference model in sim/model.py and sim/ops.py is right"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed {seed}: {tot['runs']} runs, {len(sigs)} distinct non-trivial, {tot['switches']} switches, failures {faults}, {wall:.1f} s")


def selftest(pids):
    """The same seeds in fresh processes with different hash seeds give the same events."""
    rc = 0
    for pid in pids or PLAN:
        ds = []
        for h in ("0", "1", "random"):
            r = subprocess.run([sys.executable, SELF, "events", pid, "1", "60"], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, text=True)
            ds.append((r.returncode, r.stdout.strip()))
        same = len(set(ds)) == 1 and ds[0][0] == 0
        rc = rc or not same
        print(pid, "deterministic" if same else f"DIFFERS {ds}")
    return int(rc)


def events(pid, seed, n):
    out = []
    for i in range(n):
        w, scn = scenario(pid, seed, i)
        r = w.run(scn)
        out.append([scn, r.log, [[v.kind, v.text] for v in r.violations]])
    print(digest(out))
    return 0


def main(a):
    if a[:1] == ["check"] and len(a) == 2 and a[1] in PLAN:
        return check(a[1])
    if a[:1] == ["worker"]:
        return worker(a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]), a[6])
    if a[:1] == ["minimise"]:
        return minimise_main(a[1], int(a[2]), int(a[3]), a[4], a[5])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["selftest"]:
        return selftest(a[1:])
    if a[:1] == ["events"]:
        return events(a[1], int(a[2]), int(a[3]))
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]) or 0)
