#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os
from props import PROPS
root = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                    thorough_cmd="python3 run.py %s --tier thorough" % i,
                    evidence_file="evidence/%s.json" % i,
                    technique=PROPS[i]["technique"], level=PROPS[i]["level"], level_note=PROPS[i]["note"])
               for i in ids if i in PROPS],
    "not_applicable": [dict(property=i, reason="no check yet") for i in ids if i not in PROPS],
    "notes": "No hooks in /repo: the monitors sit at the public interfaces (Reader, Writer, io.Reader, io.Writer) and at internal packages reached through the module path. Every check rebuilds its worker from /repo's working tree.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
