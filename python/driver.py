"""What the checks in Python have in common: search, shrinking, replay files, reports."""

import contextlib
import io
import json
import os
import sys
import time
from pathlib import Path


class Violated(Exception):
    """the case breaks the property"""


def need(ok, msg):
    if not ok:
        raise Violated(msg)


class Part:
    """strategy() makes cases; check(case) returns (non-trivial, labels) or raises Violated"""

    def __init__(self, name, quick, thorough, strategy, check):
        self.name, self.quick, self.thorough = name, quick, thorough
        self.strategy, self.check = strategy, check


def search(prop, part):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    start = time.time()
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    stats = {"evaluations": 0, "labels": {}, "samples": []}
    distinct, failed = set(), []

    @hypothesis.seed(seed)
    @settings(max_examples=part.thorough if thorough else part.quick, database=None, deadline=None,
              phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
              print_blob=False)
    @given(part.strategy())
    def test(case):
        stats["evaluations"] += 1
        try:
            good, labels = part.check(case)
        except Violated as e:
            failed[:] = [(str(e), case)]
            raise
        for k, v in labels.items():
            stats["labels"][k] = stats["labels"].get(k, 0) + bool(v)
        if good:
            text = json.dumps(case, sort_keys=True)
            if hash(text) not in distinct and len(text) < 3000 and len(stats["samples"]) < 5:
                stats["samples"].append(case)
            distinct.add(hash(text))

    violations = []
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except Exception:
        if not failed:
            raise
        msg, case = failed[0]
        path = Path(os.environ.get("VH_REPLAYS", ".")) / f"{prop}-{part.name}-{seed}.json"
        path.write_text(json.dumps({"property": prop, "profile": "release", "sub": part.name,
                                    "value": case, "message": msg}))
        violations.append({"message": f"{prop}/{part.name}: VIOLATED: {msg}"[:2000],
                           "replay": str(path)})
    print(f"{prop}/{part.name}: {stats['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{time.time() - start:.1f}s {json.dumps(stats['labels'])}", flush=True)
    return {"sub": part.name, "profile": "release", "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(distinct), "labels": stats["labels"],
            "samples": stats["samples"], "wall_s": round(time.time() - start, 1),
            "violations": violations}


def replay(parts, path):
    doc = json.loads(Path(path).read_text())
    part = next(p for p in parts if p.name == doc["sub"])
    try:
        part.check(doc["value"])
    except Violated as e:
        print(f"VIOLATED: {e}"[:2000])
        return 1
    print("held")
    return 0


def main(parts):
    """run ID --out FILE, or replay FILE; exits with 2 if the check itself fails"""
    sys.dont_write_bytecode = True
    try:
        if sys.argv[1] == "replay":
            code = replay(parts, sys.argv[2])
        else:
            only = os.environ.get("VH_ONLY")
            done = [search(sys.argv[2], p) for p in parts if only in (None, p.name)]
            Path(sys.argv[sys.argv.index("--out") + 1]).write_text(json.dumps(done))
            code = 1 if any(d["violations"] for d in done) else 0
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
