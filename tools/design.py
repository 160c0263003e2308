#!/usr/bin/env python3
"""Authoring helper: DESIGN.md from tools/DESIGN.in.md and the committed facts."""
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
text = open(os.path.join(HERE, "DESIGN.in.md")).read()
na = []
for f in sorted(glob.glob(os.path.join(HERE, "meta", "*.json"))):
    d = json.load(open(f))
    if "not_applicable" in d:
        na.append("* **%s** (%s): %s" % (os.path.basename(f)[:-5], d["property"]["title"],
                                         d["not_applicable"]))
fixed = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=* `%h` %s",
                        "ca177b2..HEAD"], stdout=subprocess.PIPE,
                       universal_newlines=True).stdout
seeds = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(HERE, "caught.json")))
for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    seeds.append("| %s | %s | %s | %s |" % (
        i, m["property"], " ".join(m["what_it_breaks"].split()).replace("|", "/"),
        ", ".join(caught.get(i, ["?"]))))
for k, v in (("@@NA@@", "\n".join(na)), ("@@FIXED@@", fixed.strip()),
             ("@@SEEDS@@", "\n".join(seeds))):
    text = text.replace(k, v)
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write(text)
