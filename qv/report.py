"""Obligation bookkeeping, evidence, known findings, verdict lines."""
import json, os, sys, time, traceback
from .cxxprog import AnalysisBroken, REPO, VERIF
from .cxxeval import Undecided


def load_known():
    out, p = {}, os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                d = dict(x.split("=", 1) for x in ln[8:].split(" :: ")[0].split() if "=" in x)
                out.setdefault(d["property"], {})[d["key"]] = ln.split(" :: ", 1)[1] if " :: " in ln else ""
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rules = {}  # rule -> [discharged, violated, undecided]
        self.viol, self.und, self.samples, self.units = [], [], [], {}
        self.assume, self.trusted = [], []
        self.notes = {}
        self.keys = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def unit(self, kind, name):
        self.units.setdefault(kind, set()).add(str(name))

    def ob(self, rule, key, ok, where="", detail=""):
        """one obligation: ok True (discharged) / False (violated) / None (undecided)"""
        r = self.rules.setdefault(rule, [0, 0, 0])
        full = rule + "/" + str(key)
        if full in self.keys and ok is not False:
            pass
        self.keys.add(full)
        if ok is True:
            r[0] += 1
            if r[0] <= 2:
                self.samples.append({"rule": rule, "instance": str(key), "where": str(where), "verdict": "discharged"})
        elif ok is False:
            r[1] += 1
            self.viol.append({"rule": rule, "key": full.replace(" ", ""), "instance": str(key), "where": str(where), "detail": str(detail)[:600]})
        else:
            r[2] += 1
            self.und.append({"rule": rule, "instance": str(key), "where": str(where), "why": str(detail)[:300]})

    def attempt(self, rule, key, fn, where=""):
        """fn() -> (ok, detail); analysis imprecision makes the obligation undecided"""
        try:
            r = fn()
        except AnalysisBroken:
            raise
        except Undecided as e:
            self.ob(rule, key, None, where, "undecided: %s" % e)
            return None
        except (Exception, RecursionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(rule, key, None, where, "analysis gave up: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            return None
        if r is None:
            return None
        ok, detail = r if isinstance(r, tuple) else (r, "")
        self.ob(rule, key, ok, where, detail)
        return ok

    def finish(self, meta):
        known = load_known().get(self.prop, {})
        new = [v for v in self.viol if v["key"] not in known]
        seen = []
        for v in self.viol:
            if v["key"] in known and v["key"] not in seen:
                seen.append(v["key"])
                print("KNOWN-FINDING: property=%s %s: %s (%s)" % (self.prop, v["key"], known[v["key"]], v["where"]))
        dis = sum(r[0] for r in self.rules.values())
        tot = sum(sum(r) for r in self.rules.values())
        EV = os.environ.get("QV_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(EV, exist_ok=True)
        level = meta.get("level", "other")
        cov = {
            "explanation": meta["explains"],
            "obligations": tot,
            "discharged": dis,
            "violated_known": len(seen),
            "undecided": len(self.und),
            "rules": {k: {"discharged": r[0], "violated": r[1], "undecided": r[2]} for k, r in sorted(self.rules.items())},
            "analysed": {k: len(v) for k, v in self.units.items()},
            "analysed_names": {k: sorted(v)[:60] for k, v in self.units.items()},
            "samples": self.samples[:24],
            "undecided_obligations": self.und[:60],
        }
        cov.update(self.notes)
        if level == "proof":
            cov["checker_cmd"] = "./check.py %s --tier %s" % (self.prop, self.tier)
            cov["trusted_base"] = meta.get("trusted", [])
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": meta.get("assume", []),
            "violations": len(new),
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(EV, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known)" % (self.prop, tot, dis, len(self.und), len(self.viol), len(self.viol) - len(new)))
        if new:
            rp = os.path.join(EV, "violation-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump(new, f, indent=1, default=str)
            for v in new[:12]:
                print("  %s: rule %s, instance %s: %s" % (v["where"], v["rule"], v["instance"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        need = meta.get("min", 1)
        if dis + len(self.viol) < need:
            print("ANALYSIS-BROKEN property=%s: only %d of at least %d obligations could be decided" % (self.prop, dis, need))
            return 2
        return 0


def relpath(p):
    return p[len(REPO) + 1 :] if p.startswith(REPO + "/") else p


def wh(F):
    return "%s:%d (%s)" % (relpath(F.file), F.line, F.q)
