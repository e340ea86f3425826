"""Collects obligations and violations of one property, applies the known-findings list and writes evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NoAnswer(Exception):
    pass


class Report:
    def __init__(self, prop, rule, level="other"):
        self.prop = prop; self.rule = rule; self.level = level
        self.t0 = time.time()
        self.counts = {}            # obligation class -> number examined
        self.samples = {}           # obligation class -> a few instances
        self.notes = []
        self.violations = []
        self._keys = set()

    def ok(self, cls, what=None, n=1):
        self.counts[cls] = self.counts.get(cls, 0) + n
        if what is not None:
            s = self.samples.setdefault(cls, [])
            if len(s) < 6:
                s.append(str(what))

    def note(self, s):
        if len(self.notes) < 60 and s not in self.notes:
            self.notes.append(s)

    def bad(self, key, msg, where="", cls="violation"):
        """key identifies the construct independent of line numbers"""
        if key in self._keys:
            return
        self._keys.add(key)
        self.violations.append({"key": key, "where": where, "msg": msg})

    def total(self):
        return sum(self.counts.values())

    def need(self, cls, n=1):
        if self.counts.get(cls, 0) < n and not self.violations:
            raise NoAnswer("%s: expected at least %d instances of '%s' to analyse, found %d: the anchor of this check is gone"
                           % (self.prop, n, cls, self.counts.get(cls, 0)))


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finish(rep, tier, seed, analysed):
    kn = {}
    for k in known():
        if k.get("status") == "known" and k["property"] == rep.prop:
            kn[k["key"]] = k
    new = [v for v in rep.violations if v["key"] not in kn]
    old = [v for v in rep.violations if v["key"] in kn]
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, kn[v["key"]]["what"]))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    vio = []
    replay = os.path.join(ev, rep.prop + ".violations.txt")
    if new:
        with open(replay, "w") as o:
            o.write("property %s\nrule: %s\nre-run: python3 %s/check.py %s\n\n" % (rep.prop, rep.rule, VERIF, rep.prop))
            for v in new:
                o.write("%s: %s\n   [%s]\n" % (v["where"], v["msg"], v["key"]))
                print("  %s: %s" % (v["where"], v["msg"]))
    elif os.path.exists(replay):
        os.unlink(replay)
    d = {"property": rep.prop, "tier": tier, "seed": seed, "level": rep.level,
         "coverage": {"explanation": "Rule: %s  Analysed from the current source of /repo with a clang 18 libTooling extractor; "
                      "every instance counted below was examined, none sampled." % rep.rule,
                      "obligations": rep.total(), "by_class": rep.counts, "samples": ["%s: %s" % (c, x) for c, xs in sorted(rep.samples.items()) for x in xs],
                      "analysed": analysed, "notes": rep.notes,
                      "known_findings_seen": [v["key"] for v in old]},
         "assumptions": ["clang's parse of the tree with -DT8_ENABLE_DEBUG/MPI/VTK/OCC and the shim for five missing libsc names equals what a user compiles"],
         "violations": [{"where": v["where"], "message": v["msg"], "key": v["key"]} for v in new],
         "wall_s": round(time.time() - rep.t0, 2)}
    tmp = os.path.join(ev, rep.prop + ".json.tmp")
    json.dump(d, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ev, rep.prop + ".json"))
    if new:
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    print("OK property=%s obligations=%d %s" % (rep.prop, rep.total(), json.dumps(rep.counts)))
    return 0
