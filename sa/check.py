"""Common driver: runs one rule module, writes evidence, prints verdicts."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

from .model import AnalysisError, program

VERIF = Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts: dict[str, int] = {}
        self.violations: dict[str, str] = {}
        self.samples: list[str] = []
        self.notes: list[str] = []
        self.assumptions: list[str] = []
        self.rules: list[str] = []
        self.exhaustive = None
        self._prog = None
        self._minimums = []

    @property
    def prog(self):
        if self._prog is None:
            self._prog = program()
        return self._prog

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def rule(self, text):
        self.rules.append(text)

    def violation(self, key, msg):
        """key: stable identity (rule:construct), msg: file:line diagnosis."""
        self.violations.setdefault(key, msg)

    def require(self, name, minimum):
        """Instance counts below what was confirmed by hand are an analysis error."""
        self._minimums.append((name, minimum))

    def selftest(self, ok, what):
        if not ok:
            raise AnalysisError(f"self-test of rule failed: {what}")
        self.count("selftests_passed")


def known_keys(pid):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                parts = d.split(" ", 2)
                if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                    out[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    EVID.mkdir(exist_ok=True)
    mod = importlib.import_module(f"sa.rules.{pid.lower()}")
    err = None
    try:
        mod.run(ctx)
        for name, minimum in ctx._minimums:
            if ctx.counts.get(name, 0) < minimum and not ctx.violations:
                raise AnalysisError(f"only {ctx.counts.get(name, 0)} {name} analysed, expected at least {minimum}")
    except AnalysisError as e:
        err = f"ANALYSIS-ERROR property={pid}: {e}"
    except Exception:
        err = f"ANALYSIS-ERROR property={pid}: internal error\n{traceback.format_exc()}"
    known = known_keys(pid)
    new = {k: v for k, v in ctx.violations.items() if k not in known}
    old = {k: v for k, v in ctx.violations.items() if k in known}
    cov = dict(
        explanation="Static analysis of the working tree's source; nothing is executed. Rules: " + " | ".join(ctx.rules),
        counts=ctx.counts,
        modules_parsed=len(ctx._prog.modules) if ctx._prog else 0,
        functions_in_model=len(ctx._prog.functions) if ctx._prog else 0,
        samples=ctx.samples,
        notes=ctx.notes,
        known_findings=sorted(old),
        findings=[f"{k}: {v}" for k, v in sorted(new.items())],
    )
    if ctx.exhaustive is not None:
        cov["exhaustive"] = ctx.exhaustive
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 3), violations=len(new))
    if err:
        cov["error"] = err
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={pid} {k} {known[k]}")
    if new:
        rp = EVID / f"{pid}.violations.txt"
        rp.write_text("".join(f"{k}\n    {v}\n" for k, v in sorted(new.items())))
        for k, v in sorted(new.items()):
            print(f"finding {k}: {v}")
        print(f"VIOLATION property={pid} replay={rp}")
        if err:
            print(err, file=sys.stderr)
        return 1
    if err:
        print(err)
        return 2
    c = ", ".join(f"{k}={v}" for k, v in sorted(ctx.counts.items()))
    print(f"OK property={pid} {c} ({ev['wall_s']}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
