#!/usr/bin/env python3
"""Authoring helper for planted bugs.  python3 tools/seed.py SPEC.py [ID ...]

SPEC.py defines SEEDS: list of dicts {id, property, needs, breaks, edits: [(file, old, new)], demo}.
Each seed is applied in a scratch copy of /repo; it is kept in seeded/<id> when the demo passes
before and fails after and the stable tests pass.  Prints which checks catch it.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, universal_newlines=True)
    return r.returncode, r.stdout


def tests(repo, out):
    s = open("/opt/vp/test.sh").read().replace("/repo", repo).replace(". /opt/vp/env.sh", ". %s/env.sh" % repo)
    e = open("/opt/vp/env.sh").read().replace("/repo", repo)
    open(repo + "/env.sh", "w").write(e)
    open(repo + "/t.sh", "w").write(s)
    sh(["bash", repo + "/t.sh", out], repo, {"PYTHONPATH": repo})
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open(out))
    return sorted(set(b) - set(o["passed"]))


def one(s):
    d = os.path.join(W, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    repo = d + "/repo"
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", repo])
    demo = d + "/demo"
    os.makedirs(demo)
    open(demo + "/demo.sh", "w").write(DEMO)
    open(demo + "/demo.py", "w").write(s["demo"])
    rc0, o0 = sh(["bash", demo + "/demo.sh"], repo)
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return s["id"], "EDIT MATCHES %d TIMES in %s" % (t.count(old), f)
        open(p, "w").write(t.replace(old, new))
    _, diff = sh(["git", "diff"], repo)
    rc1, o1 = sh(["bash", demo + "/demo.sh"], repo)
    if os.environ.get("SEED_PROPS"):
        props = os.environ["SEED_PROPS"].split(",") + [s["property"]]
    else:
        props = [x[:-3].upper() for x in sorted(os.listdir(VERIF + "/checker/rules")) if x.startswith("p")]
    caught = []
    for pr in props:
        rc, o = sh(["python3", VERIF + "/checker/run.py", pr, "quick"], VERIF,
                   {"BAYESPY_REPO": repo, "CHECK_OUT": d + "/evidence"})
        if rc == 1:
            caught.append(pr)
        elif rc != 0:
            caught.append(pr + ":rc%d" % rc)
    res = "demo %d->%d" % (rc0, rc1)
    if rc0 != 0:
        return s["id"], res + " DEMO FAILS ON CLEAN " + o0[-400:]
    if rc1 == 0:
        return s["id"], res + " DEMO DOES NOT FAIL"
    lost = tests(repo, d + "/out.json") if not s.get("notest") else []
    if lost:
        return s["id"], res + " TESTS BROKEN %s" % lost[:3] + " caught by %s" % caught
    o = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(DEMO)
    open(o + "/demo.py", "w").write(s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
    return s["id"], "%s KEPT for %s; caught by %s %s" % (
        res, s["property"], caught, "" if s["property"] in caught else "  <<<< MISSED")


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ids = sys.argv[2:]
    seeds = [s for s in g["SEEDS"] if not ids or s["id"] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        def safe(s):
            try:
                return one(s)
            except Exception as err:
                return s["id"], "ERROR %r" % err
        for r in ex.map(safe, seeds):
            print("%-28s %s" % r, flush=True)


main()
