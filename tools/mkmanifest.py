#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the table below
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
import re
scens = set(re.findall(r'\{"(C\d\d)",', open(here + '/sim/scen_list.cc').read()))
NA = {}
T = "deterministic simulation with fault injection: seeded search over inputs, fault sequences and crash points of the real library and tools on a simulated disk, clock and heap, judged by an independent reference model"
checks, na = [], []
for p in props:
    i = p['id']
    if i in scens:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                           technique=T, level="exploration",
                           level_note="Every run is one seed of a seeded search; nothing is enumerated exhaustively. Coverage figures are in the evidence file."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash sim/build.sh _build/plain plain",
         hooks=dict(guard="none", enable="no hooks in /repo: the simulator interposes on libc below the library and tools, and renames malloc in their object files", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
