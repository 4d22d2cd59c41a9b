#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and the list below
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
  "C19": "Comparing two Element values is a pure function of its two arguments: no thread, clock, I/O, randomness or second party takes part, so there is no schedule and no fault for a simulator to decide. (Its consequences for the written files are simulated under C05, C06 and C14.)",
  "C20": "Converting a timestamp or a bounding-box text is a pure function of its argument: nothing a simulator controls can influence it. (Header boxes and timestamps that pass through files and dumps are simulated under C12, C17 and C18.)",
}
PENDING = {}
CLAIMED = os.environ.get("CLAIMED", "").split() or None
TECH = ("deterministic simulation with fault injection: the real code and its real threads run in one process under a seeded "
        "scheduler (futex, thread, clock and file system calls interposed, preemption at instrumented code edges), seeded search "
        "over schedules and storage faults, recorded history judged by an independent reference model")
import re
src = open(os.path.join(here, "sim/src/props/mod.rs")).read()
have = set()
for f in os.listdir(os.path.join(here, "sim/src/props")):
    have |= set(re.findall(r'prop: "(C\d\d)"', open(os.path.join(here, "sim/src/props", f)).read()))
notes = json.load(open(os.path.join(here, "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                       "technique": TECH, "level": "exploration", "level_note": notes[i]})
    else:
        na.append({"property": i, "reason": "its simulated workload is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(osm_io_sim)", "enable": "sim/rustc-wrap.sh passes --cfg osm_io_sim when it compiles /repo's crate",
               "source_commits": ["3c0fd0e"]}, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
