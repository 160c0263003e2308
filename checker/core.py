"""Shared machinery of the checks: obligations, findings, evidence, exit code."""
import json
import os
import sys
import time
import traceback

from program import Program, AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known_findings.json")


class Undecided(Exception):
    """The rule does not recognise this construct; it gives no verdict."""


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.p = Program()
        self.items = []          # obligations
        self.notes = []
        self.functions = set()
        self.assumptions = []
        self.rule_text = {}
        self.floor = {}          # rule -> minimal number of decided instances

    # ------------------------------------------------------------ obligations
    def rule(self, name, text, floor=1):
        self.rule_text[name] = text
        self.floor[name] = floor

    def ok(self, rule, construct, detail="", where=""):
        self.items.append(dict(rule=rule, construct=construct, status="ok",
                               detail=detail, where=where))

    def bad(self, rule, construct, detail, where=""):
        self.items.append(dict(rule=rule, construct=construct, status="violation",
                               detail=str(detail)[:600], where=where))

    def und(self, rule, construct, detail="", where=""):
        self.items.append(dict(rule=rule, construct=construct, status="undecided",
                               detail=str(detail)[:300], where=where))

    def verdict(self, rule, construct, holds, detail, where=""):
        """holds: True / False / None (undecided)."""
        if holds is None:
            self.und(rule, construct, detail, where)
        elif holds:
            self.ok(rule, construct, "", where)
        else:
            self.bad(rule, construct, detail, where)

    def guard(self, rule, construct):
        return _Guard(self, rule, construct)

    def saw(self, builder):
        """Record the functions covered by a value graph."""
        for f in getattr(builder, "inlined", ()):
            self.functions.add(f)
        for e in builder.effects:
            if e.func is not None:
                self.functions.add(e.func.where)

    # ----------------------------------------------------------------- finish
    def finish(self):
        uniq, seen = [], set()
        for it in self.items:
            k = (it["rule"], it["construct"], it["status"], it["detail"], it["where"])
            if k not in seen:
                seen.add(k)
                uniq.append(it)
        self.items = uniq
        known, fixed = load_known()
        viol, knownhits = [], []
        for it in self.items:
            if it["status"] != "violation":
                continue
            k = match_known(known, self.prop, it)
            if k is not None:
                it["status"] = "known"
                knownhits.append((k, it))
            else:
                viol.append(it)
        counts = {}
        for it in self.items:
            c = counts.setdefault(it["rule"], {})
            c[it["status"]] = c.get(it["status"], 0) + 1
        short = []
        for r, n in self.floor.items():
            c = counts.get(r, {})
            found = sum(c.values())          # undecided instances count: they were found
            if found < n:
                short.append("%s: %d instances, at least %d expected" % (r, found, n))
        outdir = os.environ.get("CHECK_OUT") or os.path.join(VERIF, "evidence")
        os.makedirs(outdir, exist_ok=True)
        replay = os.path.join(outdir, "%s.report.txt" % self.prop)
        with open(replay, "w") as f:
            for it in self.items:
                f.write("%-10s %-28s %s\n" % (it["status"], it["rule"], it["construct"]))
                if it["status"] != "ok":
                    f.write("           at %s\n           %s\n" % (it["where"], it["detail"]))
        seen = set()
        for k, it in knownhits:
            if id(k) in seen:
                continue
            seen.add(id(k))
            print("KNOWN-FINDING: property=%s [%s] %s: %s"
                  % (self.prop, it["rule"], it["construct"], k.get("what", it["detail"])))
        n_dec = sum(1 for i in self.items if i["status"] in ("ok", "known", "violation"))
        ev = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static decision over /repo's current source: value "
                               "graphs and effect traces are built for the anchored "
                               "functions and each rule is evaluated on every instance.",
                "rules": [dict(rule=r, text=t, floor=self.floor[r],
                               counts=counts.get(r, {}))
                          for r, t in self.rule_text.items()],
                "obligations": len(self.items),
                "discharged": sum(1 for i in self.items if i["status"] == "ok"),
                "decided": n_dec,
                "undecided": [dict(rule=i["rule"], construct=i["construct"],
                                   why=i["detail"][:160])
                              for i in self.items if i["status"] == "undecided"][:60],
                "known_findings": [dict(rule=i["rule"], construct=i["construct"])
                                   for _, i in knownhits],
                "modules_parsed": len(self.p.modules),
                "classes_resolved": len(self.p.classes),
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "instances": sorted({"%s | %s" % (i["rule"], i["construct"])
                                     for i in self.items})[:600],
                "source_digest": self.p.digest,
                "incomplete": short,
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        with open(os.path.join(outdir, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if viol:
            shown = set()
            for it in viol:
                key = (it["rule"], it["construct"], it["detail"])
                if key in shown:
                    continue
                shown.add(key)
                if len(shown) <= 25:
                    print("%s: [%s] %s\n    %s" % (it["where"], it["rule"],
                                                   it["construct"], it["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        for s in short:
            # the code took a form this rule does not recognise: nothing decided by it
            print("INCOMPLETE %s" % s)
        if n_dec == 0:
            print("ANALYSIS-BROKEN nothing decided")
            return 2
        print("%s: %d obligations, %d decided, %d undecided, %d known; %.1fs" % (
            self.prop, len(self.items), n_dec,
            sum(1 for i in self.items if i["status"] == "undecided"),
            len(knownhits), time.time() - self.t0))
        return 0


class _Guard:
    """Turn an analysis failure of one instance into an undecided obligation."""

    def __init__(self, ctx, rule, construct):
        self.ctx, self.rule, self.construct = ctx, rule, construct

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        if issubclass(et, Undecided):
            self.ctx.und(self.rule, self.construct, str(ev))
            return True
        if os.environ.get("CHECK_DEBUG"):
            traceback.print_exc()
        last = traceback.extract_tb(tb)[-1]
        self.ctx.und(self.rule, self.construct, "analysis failure: %s: %s (%s:%d)"
                     % (et.__name__, str(ev)[:200], os.path.basename(last.filename),
                        last.lineno))
        return True


def load_known():
    if not os.path.exists(KNOWN):
        return [], []
    with open(KNOWN) as f:
        d = json.load(f)
    return d.get("findings", []), d.get("fixed", [])


def match_known(known, prop, it):
    for k in known:
        if k["property"] == prop and k["rule"] == it["rule"] and \
                k["construct"] == it["construct"]:
            if k.get("detail_contains") and k["detail_contains"] not in it["detail"]:
                continue
            return k
    return None
