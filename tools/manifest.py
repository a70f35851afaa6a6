"""Regenerates MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import specs  # noqa

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "N": "A pure function of its arguments: no schedule, storage, time or multi-party behaviour for the outcome to depend on, so simulation with "
         "fault injection has nothing to vary; deciding it needs numerical property testing or proof.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i}", thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection: " + s["technique"],
                           level=s.get("level", "exploration"), level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i[0], "The simulation scenario for this property is not built yet.")))
m = dict(version=1, setup_cmd="gcc --version >/dev/null && /opt/venv/bin/python -c 'import hera_cal'", checks=checks, not_applicable=na,
         notes="No hooks are compiled into /repo: the seams are LD_PRELOAD (file system), the threading/queue/time modules (scheduling) and fork (crash, restart). "
               "Commits in /repo are repairs only (fix: ...); see known_findings.json.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not applicable")
