"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "deterministic simulation: seeded thread schedules at bytecode granularity and injected failures, against "
tech = {
    "C01": T + "lone fresh copies", "C02": "deterministic simulation: seeded call histories against lone fresh copies",
    "C03": T + "lone fresh copies and step budgets", "C04": T + "contours newly built from the current curves",
    "C05": T + "an arc-length model and decimal-context invariants", "C06": T + "a model pen", "C07": T + "a model of components over the library's own pen",
    "C08": T + "exact combinatorics and exact least squares", "C09": T + "a model of the graphics state", "C10": T + "an independent SVG path reader",
    "C11": T + "a linearizability search over the hue counter, with scripted random bits", "C12": T + "blossoming of the ancestor's control points",
    "C13": T + "a polyline crossing finder", "C14": T + "closed-form curve geometry", "C15": T + "exact offset points, with failing and re-entrant callbacks",
    "C16": T + "a dense nearest-point search", "C17": T + "exact rational matrix algebra", "C18": T + "exact rational plane geometry",
    "C19": T + "bracketed roots of exact distances from the line", "C20": T + "the CSS colour table",
}
NOTE = ("Sampled, not exhaustive: no violation in the seeded runs counted in the evidence file. Every run is repeatable from (property, VERIF_SEED, index). "
        "Trusts the reference model in /verif/sim, CPython's own atomicity of single instructions, and that failures arrive only where CPython delivers them and not inside clean-up code.")
extra = {"C09": " The plotter's engine (FontDocTools, not installed) is a stub.", "C10": " The plotter's engine (FontDocTools, not installed) is a stub.",
         "C20": " The colour base class (FontDocTools, not installed) is a stub.", "C11": " The colour base class (FontDocTools, not installed) is a stub."}
pure = {}
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info[:2] >= (3, 12)'", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the simulator observes the unmodified library through sys.monitoring and replaces threading's locks and the random bit source. "
              "python3 sim/main.py replay FILE replays a violation; python3 sim/main.py selftest checks determinism."}
for p in props:
    i = p["id"]
    if i in tech:
        cmd = f"python3 sim/main.py check {i}"
        m["checks"].append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": tech[i],
                            "level": "exploration", "level_note": NOTE + extra.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": pure[i]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
