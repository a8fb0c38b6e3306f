"""obligations, known findings, evidence and exit codes"""
import collections
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    """lines:  finding: property=<id> key=<key> :: <text>"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.strip()
            if ln.startswith("finding:"):
                head, _, txt = ln[len("finding:"):].partition("::")
                d = dict(t.split("=", 1) for t in head.split() if "=" in t)
                out[(d["property"], d["key"])] = txt.strip()
    return out


class Report:
    def __init__(self, prop, tier, rule, technique=""):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.obl = []
        self._seen = set()
        self.t0 = time.time()
        self.analysed = set()
        self.assumptions = []
        self.minimum = 1

    def ok(self, key, detail="", where=""):
        o = ("ok", key, detail, where)
        if o not in self._seen:
            self._seen.add(o)
            self.obl.append(o)

    def bad(self, key, detail, where=""):
        self.obl.append(("violation", key, detail, where))

    def undecided(self, key, detail, where=""):
        self.obl.append(("undecided", key, detail, where))

    def listed(self, limit):
        """what is not discharged and an even selection of the rest"""
        rest = [o for o in self.obl if o[0] == "ok"]
        step = max(1, -(-len(rest) // limit))
        return [o for o in self.obl if o[0] != "ok"][:limit] + rest[::step]

    def check(self, cond, key, detail="", where=""):
        if cond is True:
            self.ok(key, detail, where)
        elif cond is False:
            self.bad(key, detail, where)
        else:
            self.undecided(key, detail, where)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def finish(self):
        known = load_known()
        viol, hits, und = [], [], []
        seen = set()
        for st, k, d, w in self.obl:
            if st == "violation":
                if (self.prop, k) in known:
                    hits.append((k, d, w))
                elif k not in seen:
                    seen.add(k)
                    viol.append((k, d, w))
            elif st == "undecided":
                und.append((k, d, w))
        n = len(self.obl)
        okn = sum(1 for o in self.obl if o[0] == "ok")
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": n,
                "discharged": okn,
                "checker_cmd": f"python3 {VERIF}/check.py {self.prop} --tier {self.tier}",
                "trusted_base": [
                    "rtsa analyser (/verif/rtsa, /verif/checks)",
                    "CPython ast parser",
                ],
                "functions_analysed": sorted(self.analysed),
                "functions_analysed_count": len(self.analysed),
                "obligation_list": [
                    {"status": s, "key": k, "where": w, "detail": d[: 400 if n < 300 else 120]} for s, k, d, w in self.listed(800)
                ],
                "obligation_groups": dict(collections.Counter(":".join(k.split(":")[:2]) for _, k, _, _ in self.obl).most_common(200)),
                "known_findings": [h[0] for h in hits],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": [{"key": k, "where": w, "detail": d[:2000]} for k, d, w in viol],
        }
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
        with open(os.path.join(evdir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted({h[0] for h in hits}):
            print(f"KNOWN-FINDING: property={self.prop} {k} {known[(self.prop, k)]}")
        if viol:
            for k, d, w in viol[:40]:
                h = hashlib.sha1(k.encode()).hexdigest()[:10]
                path = os.path.join(evdir, "replay", f"{self.prop}-{h}.txt")
                with open(path, "w") as f:
                    f.write(
                        f"property : {self.prop}\nrule     : {k}\nwhere    : {w}\n"
                        f"finding  : {d}\n\nre-run   : python3 {VERIF}/check.py {self.prop}\n"
                    )
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  {k} @ {w}: {d[:600]}")
            return 1
        if und:
            print(f"ANALYSIS-INCOMPLETE property={self.prop}")
            for k, d, w in und[:15]:
                print(f"  {k} @ {w}: {d[:400]}")
            if len(und) > 15:
                print(f"  ... and {len(und) - 15} more (see the evidence file)")
            return 2
        if n < self.minimum:
            print(f"ANALYSIS-BROKEN property={self.prop}: only {n} obligations (expected >= {self.minimum})")
            return 2
        print(f"OK property={self.prop}: {okn}/{n} obligations discharged, "
              f"{len(self.analysed)} functions analysed")
        return 0
