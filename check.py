#!/usr/bin/env python3
"""check.py ID          decide property ID (VERIF_SEED, VERIF_TIER) and write evidence/ID.json
check.py --setup       build everything
check.py --replay FILE run one recorded case again (in the profile it was found in)

Exit 0: held on everything explored. Exit 1: violated, with a VIOLATION line. Exit 2: an error
of the check itself (does not build, does not finish), which says nothing about the property."""

import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
TARGET = HERE / "target"
PROFILES = {"release": ["--release"], "checked": ["--profile", "checked"]}
KNOWN = HERE / "known_findings.txt"

RULES = json.loads((HERE / "rules.json").read_text())


def environment():
    env = dict(os.environ)
    env["HOME"] = "/root"
    env.setdefault("CARGO_HOME", "/root/.cargo")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUST_LOG", "PROPTEST_RNG_SEED",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "VH_PERCENT", "VH_ONLY", "VH_TRACE"):
        env.pop(k, None)
    return env


def error(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def harness(prop):
    """directory of the crate and name of its program"""
    for name, props in (("binding", ("C19",)), ("results", ("C20",))):
        if prop in props:
            return HERE / name, f"vh_{name}"
    for name, props in (("plots.py", ("C22",)), ("jobs.py", ("C23",))):
        if prop in props:
            return HERE / "python", name
    return HERE / "harness", "vh"


def profiles(program):
    return ["release"] if program.endswith(".py") else list(PROFILES)


def needs(prop):
    """further crates"""
    return [HERE / "results"] if prop == "C23" else []


def build(crate, profile, fatal=True):
    if crate.name == "python":
        return True
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", str(TARGET), *PROFILES[profile]]
    r = subprocess.run(cmd, cwd=crate, env=environment(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode and fatal:
        print(r.stdout[-6000:])
        error(f"{crate.name} does not build in profile {profile}")
    return r.returncode == 0


def command(program, profile):
    if program.endswith(".py"):
        python = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
        return [python, str(HERE / "python" / program)]
    return [TARGET / profile / program]


def run(cmd, limit, **kw):
    """runs in a process group of its own, which is ended with it"""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return None, None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def known():
    """(property, replay file, text) of the findings that are not repaired"""
    res = []
    for line in KNOWN.read_text().splitlines():
        m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line)
        if m:
            res.append(m.groups())
    return res


def replay_one(path, program):
    doc = json.loads(Path(path).read_text())
    profile = doc["profile"]
    return run([*command(program, profile), "replay", str(path)], 300, env=environment(),
               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)


def find_crash(prop, profile, program, replays, env, limit, out):
    """runs again, each case being written down before, and tries the last ones alone; returns the
    code of the second run, and the crashes"""
    with tempfile.TemporaryDirectory(prefix="vh-trace-") as trace:
        again, _ = run([*command(program, profile), "run", prop, "--out", str(out)],
                       limit, env=dict(env, VH_TRACE=trace), cwd=HERE)
        if again in (0, 1):
            # it was not a case that crashed, but the machine
            return again, []
        for path in sorted(Path(trace).glob("*.json"), key=lambda p: -p.stat().st_mtime_ns):
            try:
                code, out = replay_one(path, program)
            except ValueError:  # not completely written
                continue
            if code not in (0, 2, None):
                to = replays / f"{prop}-{path.stem}-crash.json"
                shutil.copy(path, to)
                what = out.strip().splitlines()[-1] if code == 1 and out.strip() \
                    else f"crashes or runs out of memory (code {code})"
                return again, [(what, str(to))]
    return again, []


def main():
    if sys.argv[1:] == ["--setup"]:
        for crate in ("harness", "binding", "results"):
            if (HERE / crate / "Cargo.toml").exists():
                for profile in PROFILES:
                    build(HERE / crate, profile, fatal=crate == "harness")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        doc = json.loads(Path(sys.argv[2]).read_text())
        crate, program = harness(doc["property"])
        for c in [crate, *needs(doc["property"])]:
            build(c, doc["profile"])
        code, out = replay_one(Path(sys.argv[2]).resolve(), program)
        print(out)
        if code not in (0, 2, None):
            print(f"VIOLATION property={doc['property']} replay={sys.argv[2]}")
            return 1
        return 2 if code is None else code
    prop = sys.argv[1]
    if prop not in RULES:
        error(f"unknown property {prop}")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    crate, program = harness(prop)
    for profile in profiles(program):
        for c in [crate, *needs(prop)]:
            build(c, profile)
    replays = HERE / "replays"
    replays.mkdir(exist_ok=True)
    env = environment()
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VH_REPLAYS=str(replays))
    limit = 6 * 3600 if tier == "thorough" else 800

    violations = []  # (message, replay file)
    listed = {}
    for p, path, text in known():
        if p == prop:
            listed[json.dumps(json.loads((HERE / path).read_text())["value"])] = text
            print(f"KNOWN-FINDING: property={prop} {text}")

    # saved cases first
    saved = sorted((HERE / "regressions").glob(f"{prop}-*.json"))
    for path in saved:
        code, out = replay_one(path, program)
        if code == 1:
            violations.append((out.strip().splitlines()[-1], str(path)))
        elif code is not None and code < 0:
            violations.append((f"crashes or runs out of memory (code {code})", str(path)))
        elif code != 0:
            error(f"the saved case {path} does not finish (code {code})")

    subs = []
    if not violations:
        for profile in profiles(program):
            out = replays / f".{prop}-{profile}-{os.getpid()}.json"
            left = limit - (time.time() - start)
            code, _ = run([*command(program, profile), "run", prop, "--out", str(out)], max(left, 1),
                          env=env, cwd=HERE)
            if code not in (0, 1, None):
                # it crashed or ran out of memory: which case does that?
                print(f"{prop} in profile {profile} ended with code {code}, it is run again")
                code, crashed = find_crash(prop, profile, program, replays, env,
                                           max(limit - (time.time() - start), 1), out)
                if crashed:
                    violations += crashed
                    break
            if code not in (0, 1) or not out.exists():
                error(f"{prop} in profile {profile} "
                      + ("is not done in time" if code is None else f"ended with code {code}"))
            done = json.loads(out.read_text())
            out.unlink()
            subs += done
            for s in done:
                for v in s["violations"]:
                    value = json.dumps(json.loads(Path(v["replay"]).read_text())["value"])
                    if value not in listed:
                        violations.append((v["message"], v["replay"]))
            if violations:
                break

    rule = RULES[prop]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs) + len(saved),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
            "rule": rule["rule"],
            "samples": [{"part": s["sub"], "case": c} for s in subs if s["profile"] == "release"
                        for c in s["samples"][:2]][:10],
            "parts": [{k: s[k] for k in ("sub", "profile", "evaluations", "distinct_nontrivial",
                                         "labels", "wall_s")} for s in subs],
            "saved_cases": len(saved),
        },
        "assumptions": rule["assumptions"],
        "wall_s": round(time.time() - start, 1),
        "violations": len(violations),
    }
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    for msg, path in violations:
        print(msg[:3000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # an exit code of 1 is reserved
        import traceback
        traceback.print_exc()
        error(repr(e))
