"""One run of one check: counting, evidence, violations."""
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time

from core import VERIF, BUILD, Adapter, known_findings


class Check:
    def __init__(self, prop, level, rule):
        self.prop, self.level, self.rule = prop, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work_%s_" % prop, dir=BUILD)
        self.counts, self.actions = {}, {}
        self.states = self.transitions = self.traces = self.replayed = 0
        self.samples, self.violations, self.distinct = [], [], 0
        self.mc_runs = []
        self.notes = []
        self._ad = None

    @property
    def ad(self):
        if self._ad is None:
            self._ad = Adapter(self.work)
        return self._ad

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def add_tlc(self, r, traces=0):
        self.states += r.distinct
        self.transitions += r.states
        self.traces += traces
        for k, n in r.actions.items():
            self.actions[k] = self.actions.get(k, 0) + n

    def add_mc(self, name, r, constants):
        self.states += r.distinct
        self.transitions += r.states
        self.mc_runs.append({"model": name, "constants": constants, "distinct_states": r.distinct,
                             "states_generated": r.states, "depth": r.depth})

    def note_distinct(self, s):
        self.distinct += len(s)

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, v):
        self.violations.append(v)

    def elapsed(self):
        return time.time() - self.t0

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def finish(self):
        known = known_findings(self.prop)
        new, seen = [], {}
        for v in self.violations:
            k = v.get("key")
            hit = [x for x in known if x[0] == k]
            if hit:
                seen[hit[0][0]] = hit[0][1]
            else:
                new.append(v)
        for k, text in seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "model_behaviours_replayed": self.replayed,
            "evaluations": self.traces, "distinct_nontrivial": self.distinct,
            "rule": self.rule, "samples": self.samples or ["none"], "models": self.mc_runs,
            "actions_taken": self.actions, "counts": self.counts, "notes": self.notes,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(self.elapsed(), 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            new.sort(key=lambda v: len(json.dumps(v, default=str)))
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "violations": new[:20], "total": len(new)}, f, indent=1, default=str)
            print("first of %d: %s" % (len(new), json.dumps(new[0], default=str)[:3000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s ok: %d states, %d transitions, %d traces validated, %d behaviours replayed, %.1f s" % (
            self.prop, self.states, self.transitions, self.traces, self.replayed, self.elapsed()))
        return 0
