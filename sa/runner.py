"""Common driver of the property checks: obligations, verdict lines, evidence, known findings."""
import importlib
import json
import os
import sys
import time
import traceback

from . import build, evalcpp
from .build import VERIF, AnalysisBroken

KNOWN = os.path.join(VERIF, "known-findings.txt")
EVID = os.path.join(VERIF, "evidence")


class Ob:
    __slots__ = ("rule", "what", "where", "status", "why", "key")

    def __init__(self, rule, what, where, status, why=None, key=None):
        self.rule, self.what, self.where, self.status, self.why = rule, what, where, status, why
        self.key = key or "%s|%s" % (rule, what)


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.notes = []
        self.functions = set()
        self._P = None

    @property
    def P(self):
        if self._P is None:
            from .program import Program
            self._P = program()
        return self._P

    def ok(self, rule, what, where=None):
        self.obs.append(Ob(rule, what, where, "ok"))

    def bad(self, rule, what, where=None, why=None, key=None):
        self.obs.append(Ob(rule, what, where, "violation", why, key))

    def unk(self, rule, what, where=None, why=None):
        self.obs.append(Ob(rule, what, where, "undetermined", why))

    def judge(self, rule, what, where, verdict, why=None):
        """verdict: 'yes' / 'no' / 'unknown' (or a pair with the reason)"""
        if isinstance(verdict, tuple):
            verdict, why = verdict[0], verdict[1] or why
        {"yes": self.ok, "no": lambda r, a, b: self.bad(r, a, b, why),
         "unknown": lambda r, a, b: self.unk(r, a, b, why)}[verdict](rule, what, where)
        return verdict

    def saw(self, *fns):
        for f in fns:
            if f is not None:
                self.functions.add(f if isinstance(f, str) else f.qn)

    def count(self, rule=None, status=None):
        return sum(1 for o in self.obs if (rule is None or o.rule == rule) and (status is None or o.status == status))


_prog = []


def program():
    if not _prog:
        from .program import Program
        P = Program()
        evalcpp.PROG[0] = P
        _prog.append(P)
    return _prog[0]


def known_findings(pid):
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                body = line.split(" ", 2)[2]
                key, _, text = body.partition(" :: ")
                out.append((key.strip(), text.strip()))
    except FileNotFoundError:
        pass
    return out


def run(pid, module, fn, meta, tier):
    t0 = time.time()
    c = Check(pid, tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        fn(c)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception as e:  # the analyser met something it does not understand: no verdict on the rest
        c.unk("analyser", "remaining rules of %s" % pid, None, "%s: %s" % (type(e).__name__, str(e)[:200]))
        c.notes.append(traceback.format_exc()[-1500:])
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    known = dict(known_findings(pid))
    viol, found = [], []
    for o in c.obs:
        if o.status == "violation":
            (found if o.key in known else viol).append(o)
    n = {s: c.count(status=s) for s in ("ok", "violation", "undetermined")}
    rules = {}
    for o in c.obs:
        r = rules.setdefault(o.rule, {"obligations": 0, "discharged": 0, "undetermined": 0})
        r["obligations"] += 1
        if o.status == "ok":
            r["discharged"] += 1
        elif o.status == "undetermined":
            r["undetermined"] += 1
    os.makedirs(EVID, exist_ok=True)
    replay = None
    if viol:
        replay = os.path.join(EVID, "%s.violation.txt" % pid)
        with open(replay, "w") as f:
            for o in viol:
                f.write("property %s\nrule      %s\nconstruct %s\nwhat      %s\nwhy       %s\n\n" % (pid, o.rule, o.where, o.what, o.why))
            f.write("re-run: cd %s && python3 -m sa.check %s --tier %s\n" % (VERIF, pid, tier))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta["level"], "wall_s": round(time.time() - t0, 2),
        "assumptions": meta.get("assumptions", []),
        "coverage": {
            "technique": meta["technique"], "explanation": meta["explanation"],
            "obligations": len(c.obs), "discharged": n["ok"], "undetermined": n["undetermined"],
            "rules": rules, "functions_analysed": sorted(c.functions),
            "instances": [("%s: %s%s%s" % (o.status, o.what, " @ " + o.where if o.where else "", " -- " + str(o.why) if o.why else ""))[:400]
                          for o in c.obs][:400],
            "notes": c.notes[:50],
        },
    }
    if meta["level"] == "proof":
        ev["coverage"]["checker_cmd"] = "cd /verif && python3 -m sa.check %s" % pid
        ev["coverage"]["trusted_base"] = meta.get("trusted_base", [])
    if viol:
        ev["coverage"]["violating"] = [{"rule": o.rule, "construct": o.where, "what": o.what, "why": o.why} for o in viol]
    ev["violations"] = len(viol)
    tmp = os.path.join(EVID, "%s.json.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, "%s.json" % pid))
    for o in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[o.key] or o.what))
    print("%s: %d obligations, %d discharged, %d undetermined, %d violations; %d functions; %.1f s" % (
        pid, len(c.obs), n["ok"], n["undetermined"], len(viol), len(c.functions), time.time() - t0))
    for o in c.obs:
        if o.status == "undetermined":
            print("  undetermined: [%s] %s%s -- %s" % (o.rule, o.what, " @ " + o.where if o.where else "", o.why))
    for o in viol:
        print("  violation: [%s] %s @ %s -- %s" % (o.rule, o.what, o.where, str(o.why)[:500]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0
