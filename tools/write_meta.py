#!/usr/bin/env python3
"""Authoring helper: writes properties.jsonl and MANIFEST.json from tools/meta/*.json.

tools/meta/<ID>.json holds {"property": {...}, "check": {...}} or
{"property": {...}, "not_applicable": "reason"}.
"""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(HERE, "meta", "*.json"))):
    d = json.load(open(f))
    pid = os.path.basename(f)[:-5]
    pr = d["property"]
    pr = dict(id=pid, **pr)
    assert len(pr["title"]) <= 80, (pid, len(pr["title"]))
    props.append(pr)
    if "check" in d:
        c = d["check"]
        checks.append(dict(
            property=pid,
            quick_cmd="python3 checker/run.py %s quick" % pid,
            thorough_cmd="python3 checker/run.py %s thorough" % pid,
            technique=c["technique"], level=c.get("level", "other"),
            level_note=c["level_note"]))
    else:
        na.append(dict(property=pid, reason=d["not_applicable"]))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pr in props:
        f.write(json.dumps(pr, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="python3 -c \"import ast, sys; assert sys.version_info >= (3, 8)\"",
           checks=checks, not_applicable=na,
           notes="Pure static analysis over /repo's source (checker/); nothing of /repo is imported "
                 "or run by a check. See DESIGN.md.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks")
