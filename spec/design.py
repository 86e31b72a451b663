"""Writes DESIGN.md and known_findings.json (run by hand with the verification python)."""
import importlib
import json
import os
import subprocess
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "spec"), "/repo/src"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from fixed import FIXED  # noqa: E402
from how import ALARMS, FINDINGS, HOW, INTRO, MINOR, MISSES  # noqa: E402
from props import NA, PROPS  # noqa: E402

out = [INTRO.strip(), ""]
out += ["## The properties and how each is decided", ""]
for p in PROPS:
    m = importlib.import_module("harness." + p["id"].lower())
    out += [f"### {p['id']} {p['title']}", "", p["statement"], "",
            "*Oracle and method.* " + HOW[p["id"]], "",
            "*Quantified over.* " + p["quant"] + ".", "",
            "*Bounds.* " + m.BOUNDS[0].upper() + m.BOUNDS[1:] + "."]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["", "*Assumed.* " + "; ".join(m.ASSUMPTIONS) + "."]
    try:
        e = json.load(open(os.path.join(HERE, "evidence", p["id"] + ".json")))
        if e["tier"] == "quick":
            c = e["coverage"]
            out += ["", f"*Cost (quick).* {c['jobs']} jobs, {c['paths']} paths, {c['assertions_discharged']} "
                    f"assertions, {c['solver_queries']} queries, about {max(1, round(e['wall_s']))} s on 8 cores."]
    except FileNotFoundError:
        pass
    out += ["", "*Why tests cannot.* " + p["why"], ""]
if NA:
    out += ["## Not applicable", ""]
    out += [f"* {n['prop']['id']} {n['prop']['title']}: {n['reason']}" for n in NA] + [""]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
subj = dict(x.split(" ", 1) for x in log.splitlines())
missing = [h for h, s in subj.items() if s.startswith("fix:") and h not in FIXED]
assert not missing, missing
out += ["## Defects found and repaired in /repo", "",
        "Every one was found by one of these checks (or while writing it) as a concrete input or schedule on the "
        "real code; each is a `fix:` commit. Where the table's check reports it again if the commit is reverted "
        "is noted by the property.", "", "| commit | property | what failed |", "|---|---|---|"]
out += [f"| {h} | {p} | {w} |" for h, (p, w) in FIXED.items()] + [""]
out += ["## Known findings that are not repaired", ""]
out += [f"* {f['id']} ({f['property']}): {f['what']}" for f in FINDINGS] + ["", MINOR.strip(), ""]
out += ["## False alarms met while building, and what was done", "", ALARMS.strip(), ""]
out += ["## Planted changes and the checks that catch them", "",
        "| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | "
               f"{MISSES.get(d, m['property'] + ' (quick)')} |")
out += ["", MISSES.get("", "").strip(), ""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out).rstrip("\n") + "\n")
json.dump({"findings": FINDINGS,
           "fixed": [f"fixed: property={p} {h} {w}" for h, (p, w) in FIXED.items()]},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
