"""What all checks share: seeds, budgets, replay files, known findings, evidence."""
from __future__ import annotations

import json
import os
import re
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"


class MachineryError(Exception):
    """The check could not do its work; says nothing about the property."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.violations = []
        self.known_hits = []
        self.notes = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []
        self.known = load_known(prop)

    def left(self, total):
        return total - (time.time() - self.t0)

    def add(self, **k):
        for name, v in k.items():
            self.cov[name] = self.cov.get(name, 0) + v

    def tlc(self, stats):
        self.add(states=stats["distinct"], transitions=stats["states"])

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input/history; replay is JSON-able"""
        if key in self.known:
            if key not in self.known_hits:
                self.known_hits.append(key)
                print(f"KNOWN-FINDING: property={self.prop} {key}: {self.known[key]}", flush=True)
            return
        if len(self.violations) >= 20:
            self.violations.append((key, what, None))
            return
        d = VERIF / "out" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        f = d / f"{self.prop}-{self.tier}-{len(self.violations)}.json"
        f.write_text(json.dumps(dict(property=self.prop, key=key, what=what, replay=replay), indent=1, default=str))
        self.violations.append((key, what, f))
        print(f"VIOLATION property={self.prop} replay={f}", flush=True)
        print(f"  {key}: {what}"[:600], flush=True)


def load_known(prop):
    known = {}
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main(argv, registry):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    for a in argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
        if a.startswith("--seed="):
            seed = int(a[7:])
    if prop not in registry:
        print(f"no check for {prop}")
        return 2
    entry = registry[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        entry["run"](ctx)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed", flush=True)
        if not ctx.violations:
            return 3
    level = entry["level"]
    cov = {k: v for k, v in ctx.cov.items()}
    cov.update(ctx.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=entry.get("assumptions", []) + ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.violations))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    if ctx.violations:
        return 1
    print(f"OK property={prop} tier={tier} " + json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})
          + f" wall={ev['wall_s']}s", flush=True)
    return 0
