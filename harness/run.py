"""Entry point: run.py <property> [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402


class Run:
    """One run of one check: budget, findings and evidence."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.models = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []       # (clause, witness)
        self.extra = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_seen = []

    quick = property(lambda self: self.tier == "quick")

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, res):
        self.models.append(res)
        self.states += res["distinct"]
        self.transitions += res["generated"]

    def validated(self, tot):
        self.traces += tot["traces"]
        self.states += tot["distinct"]
        self.transitions += tot["generated"]
        for k, v in tot.get("info", {}).items():
            self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def report(self, clause, witness):
        """A violation with the failing input, schedule or history."""
        for k in self.known:
            if k["clause"] == clause and k["input"] == witness.get("known_key"):
                if k not in self.known_seen:
                    self.known_seen.append(k)
                return
        self.violations.append((clause, witness))

    def finish(self):
        os.makedirs(env.EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(env.EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (
                self.prop, self.traces, self.states, time.time() - self.t0))
            return 0
        replay = os.path.join(env.EVIDENCE, "%s.violation.json" % self.prop)
        with open(replay, "w") as f:
            json.dump([{"clause": c, "witness": w} for c, w in self.violations[:10]], f,
                      indent=1, default=repr)
        seen = []
        for c, w in self.violations:
            if c not in seen:
                seen.append(c)
                print("clause: %s" % c)
                if len(seen) == 1:
                    print("  e.g. %s" % json.dumps(w, default=repr)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        return 1


def load_known(prop):
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=env.TIER)
    ap.add_argument("--seed", type=int, default=env.SEED)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    env.use_repo()
    import registry
    mod, fn = registry.CHECKS[a.prop]
    r = Run(a.prop, tier, a.seed)
    try:
        getattr(importlib.import_module(mod), fn)(r)
    except Exception as ex:
        traceback.print_exc()
        last = traceback.extract_tb(ex.__traceback__)[-1]
        if os.path.realpath(last.filename).startswith(os.path.join(os.path.realpath(env.REPO), "concept_formation")):
            # nothing we call may fail, except where a check expects it to
            r.report("a call that has to succeed fails", {"error": repr(ex), "at": "%s:%s" % (last.name, last.line)})
            return r.finish()
        print("ERROR property=%s (machinery)" % a.prop)
        return 2
    return r.finish()


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
