#!/usr/bin/env python3-vt
"""C23: the job scripts make every run once and keep its output.

jobs.py run C23 --out FILE      search (VERIF_SEED, VERIF_TIER, VH_REPLAYS)
jobs.py replay FILE             one recorded case

The scripts run as an unprivileged user in a directory of their own, in which also lies what they
take for /scratch, with stand-ins for the results program, the queue and rm (which records what it
is asked to remove outside of that directory, and leaves it)."""

import contextlib
import functools
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

sys.dont_write_bytecode = True

from driver import Part, Violated, main, need  # noqa: E402

REPO = Path("/repo/results")
PROGRAM = Path(__file__).resolve().parent.parent / "target" / "release" / "vh_results"
NOBODY = 65534

# argument lists are recorded with the unit separator between the words
RESULTS = r"""#!/bin/sh
printf '%s\037' "$PBS_JOBID" "$@" >> "$VH_ROOT/calls"; echo >> "$VH_ROOT/calls"
n=$(wc -l < "$VH_ROOT/calls")
[ -d output ] || exit 3
set_aside=
for f in $(cat "$VH_ROOT/files/$n" 2>/dev/null); do
  # at least one file is written at the end
  if [ -z "$set_aside" ]; then set_aside=$f; continue; fi
  printf '%s\037' "$@" > "output/$f" || exit 4
done
if [ -e "$VH_ROOT/during/$n" ]; then sh "$VH_ROOT/during/$n"; fi
if [ -n "$set_aside" ]; then
  printf '%s\037' "$@" > "output/$set_aside" || exit 4
fi
exit "$(cat "$VH_ROOT/codes/$n" 2>/dev/null || echo 0)"
"""
QSUB = r"""#!/bin/sh
printf '%s\037' "$@" >> "$VH_ROOT/submitted"; echo >> "$VH_ROOT/submitted"
"""
LSCPU = r"""#!/bin/sh
echo "processor of $VH_JOB"
"""
RM = r"""#!/usr/bin/python3
import os, sys
root = os.path.realpath(os.environ["VH_ROOT"])
words = [a for a in sys.argv[1:] if not a.startswith("-")]
for a in words:
    where = os.path.join(os.path.realpath(os.path.dirname(a.rstrip("/")) or "."),
                         os.path.basename(a.rstrip("/")))
    if not where.startswith(root + "/"):
        with open(os.path.join(root, "outside"), "a") as f:
            f.write(where + "\n")
        sys.exit(1)
os.execv("/usr/bin/rm", ["rm"] + sys.argv[1:])
"""


class World:
    """a submission directory, a place for scratch directories, and the stand-ins"""

    def __init__(self, root, case):
        self.root = Path(root)
        self.work = self.root / case["dir"]
        self.scratch = self.root / "scratch"
        self.home = self.root / "home"
        self.case = case
        for d in (self.work / "target/release", self.work / "parameters", self.work / "scripts",
                  self.scratch, self.home, self.root / "bin", self.root / "files",
                  self.root / "during", self.root / "codes"):
            d.mkdir(parents=True, exist_ok=True)
        for name, text in (("qsub", QSUB), ("lscpu", LSCPU), ("rm", RM)):
            self.program(self.root / "bin" / name, text)
        self.program(self.work / "target/release/results", RESULTS)
        for s in sorted((REPO / "scripts").glob("*.bash")):
            # the place for scratch directories is ours
            text = re.sub(r"(?<![\w.}/])/scratch(?!\w)", str(self.scratch), s.read_text())
            self.program(self.work / "scripts" / s.name, text)
        if case.get("old"):
            (self.work / "output").mkdir()
            (self.work / "log").mkdir()
            for f in case["old"]:
                (self.work / "output" / f).write_text("old")
        for f in case.get("others", []):
            (self.scratch / f / "output").mkdir(parents=True)
            (self.scratch / f / "output" / "theirs.json").write_text("theirs")

    @staticmethod
    def program(path, text):
        path.write_text(text)
        path.chmod(0o755)

    def lines(self, task, lines, ended):
        text = "\n".join(" ".join(line) for line in lines) + ("\n" if ended else "")
        (self.work / "parameters" / f"{task}.dat").write_text(text)

    def environment(self, **more):
        return {"PATH": f"{self.root}/bin:/usr/local/bin:/usr/bin:/bin", "HOME": str(self.home),
                "LANG": "C", "VH_ROOT": str(self.root), **more}

    def job(self, script, number, index=None, **variables):
        """command line with which the queue runs the script"""
        e = self.environment(USER=self.case["user"], PBS_O_WORKDIR=str(self.work), **variables)
        e["PBS_JOBID"] = f"{number}{'' if index is None else f'[{index}]'}.{self.case['server']}"
        e["VH_JOB"] = variables.get("node", e["PBS_JOBID"])
        if index is not None:
            e["PBS_ARRAY_INDEX"] = str(index)
        words = ["env", "-i", "-C", str(self.home), *(f"{k}={v}" for k, v in e.items()),
                 *self.interpreter(script), str(self.work / "scripts" / script)]
        return shlex.join(words), e["PBS_JOBID"]

    def interpreter(self, script):
        first = (self.work / "scripts" / script).read_text().split("\n")[0]
        return shlex.split(first[2:]) if first.startswith("#!") else ["/bin/sh"]

    def own(self):
        for d, names, files in os.walk(self.root):
            for f in (d, *(os.path.join(d, f) for f in files)):
                os.chown(f, NOBODY, NOBODY, follow_symlinks=False)

    def run(self, command, cwd=None):
        self.own()
        try:
            subprocess.run(["/bin/sh", "-c", command], cwd=cwd or self.home, env=self.environment(),
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60, start_new_session=True,
                           user=NOBODY, group=NOBODY, extra_groups=[])
        except subprocess.TimeoutExpired:
            raise Violated("the script does not end")
        with contextlib.suppress(FileNotFoundError):
            need(False, "removes " + (self.root / "outside").read_text())

    def recorded(self, what):
        """lists of words, in order"""
        try:
            lines = (self.root / what).read_text().split("\n")[:-1]
        except FileNotFoundError:
            return []
        return [line.split("\x1f")[:-1] for line in lines]

    def outputs(self):
        d = self.work / "output"
        need(d.is_dir(), "there is no output directory")
        return {f.name: f.read_text() for f in d.iterdir() if f.is_file()}

    def check_outputs(self, want):
        got = self.outputs()
        for f in self.case.get("old", []):
            want = {f: "old", **want}
        need(got == want, f"the output directory contains {got} instead of {want}")
        left = {d.name for d in self.scratch.iterdir()}
        need(left == set(self.case.get("others", [])),
             f"of the scratch directories are left {sorted(left)}, those of others are "
             f"{sorted(self.case.get('others', []))}")
        for f in left:
            theirs = self.scratch / f / "output"
            need([x.name for x in theirs.iterdir()] == ["theirs.json"], f"{f} is changed")


def content(words):
    return "".join(w + "\x1f" for w in words)


@contextlib.contextmanager
def world(case):
    root = tempfile.mkdtemp(prefix="vh-jobs-")
    try:
        os.chmod(root, 0o755)
        yield World(root, case)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------- local
def check_local(case):
    lines = case["lines"]
    with world(case) as w:
        w.lines("density", lines, case["ended"])
        want = {}
        for i, files in enumerate(case["files"], 1):
            (w.root / "files" / str(i)).write_text(" ".join(files))
        for i in case["failing"]:
            (w.root / "codes" / str(i)).write_text("1")
        script = "exe_density_local.bash"
        w.run(shlex.join([*w.interpreter(script), f"scripts/{script}"]), cwd=w.work)
        calls = [c[1:] for c in w.recorded("calls")]
        need(sorted(calls) == sorted(["density", *x] for x in lines),
             f"the runs are {calls} for the parameters {lines}")
        for call, files in zip(calls, case["files"]):
            want.update({f: content(call) for f in files})
        w.check_outputs(want)
    return len(lines) >= 2, {"1 line": len(lines) == 1, "no newline at the end": not case["ended"],
                             "older output": bool(case["old"]), "a run fails": bool(case["failing"])}


# ------------------------------------------------------------------------------- queue
def check_jobs(case, task):
    """case: jobs (indices into lines), each of which runs before or during the last one"""
    lines, number = case["lines"], case["number"]
    script = f"exe_{task}_hpc.bash"
    with world(case) as w:
        w.lines(task, lines, case["ended"])
        jobs = []
        for k, j in enumerate(case["jobs"]):
            if task == "density":
                command, id = w.job(script, number, j["index"])
                words = ["density", *lines[j["index"] - 1]]
            else:
                command, id = w.job(script, number + k)
                words = ["node", *lines[0]]
            jobs.append((command, id, words, j))
        # the k-th call of the program is that of the k-th job, as jobs start one after another
        start, k = [], 0
        want = {}
        for k, (command, id, words, j) in enumerate(jobs, 1):
            (w.root / "files" / str(k)).write_text(" ".join(j["files"]))
            want.update({f: content(words) for f in j["files"]})
            if k > 1 and j["during"]:
                (w.root / "during" / str(k - 1)).write_text(command)
            else:
                start.append(command)
        w.run("; ".join(start))
        calls = w.recorded("calls")
        need(calls == [[id, *words] for _, id, words, _ in jobs],
             f"the runs are {calls} instead of {[[id, *words] for _, id, words, _ in jobs]}")
        w.check_outputs(want)
    nested = any(j["during"] for j in case["jobs"][1:])
    return len(jobs) >= 2, {"1 job": len(jobs) == 1, "at the same time": nested,
                            "scratch directories of others": bool(case["others"]),
                            "older output": bool(case["old"]), "space in a name": " " in case["dir"]}


# ------------------------------------------------------------------------------- hardware
def check_hardware(case):
    with world(case) as w:
        loop = "loop_hardware_info_hpc.bash"
        w.run(shlex.join([*w.interpreter(loop), f"scripts/{loop}"]), cwd=w.work)
        jobs, nodes = [], []
        for call in w.recorded("submitted"):
            opts, rest = {}, list(call)
            while rest and rest[0].startswith("-"):
                opts[rest[0]], rest = rest[1], rest[2:]
            need(len(rest) == 1 and (w.work / rest[0]).is_file(), f"submits {call}")
            variables = dict(v.split("=", 1) for v in opts.get("-v", "").split(","))
            node = variables.get("node", "")
            need(node and opts.get("-l") == f"nodes=hpcnode{node}", f"submits {call}")
            nodes.append(node)
            jobs.append((Path(rest[0]).name, variables))
        need(nodes and len(set(nodes)) == len(nodes), f"submits jobs for the nodes {nodes}")
        some = {1 + i % len(jobs) for i in case["some"]}
        start = [w.job(*[jobs[i - 1][0], case["number"] + i], **jobs[i - 1][1])[0] for i in sorted(some)]
        w.run("; ".join(start))
        w.check_outputs({f"hardware_info_hpcnode_{nodes[i - 1]}.txt": f"processor of {nodes[i - 1]}\n"
                         for i in some})
    return len(some) >= 2, {"older output": bool(case["old"])}


# ------------------------------------------------------------------------------- program
@functools.cache
def directives(script):
    """of the queue: only those before the first command count"""
    res = {}
    for line in (REPO / "scripts" / script).read_text().splitlines():
        if line.strip() and not line.startswith("#"):
            break
        if line.startswith("#PBS "):
            words = shlex.split(line[5:])
            for k, v in zip(words[::2], words[1::2]):
                for x in v.split(",") if k == "-l" else [v]:
                    name, _, value = x.partition("=")
                    res[f"{k} {name}" if k == "-l" else k] = value if k == "-l" else v
    return res


def hours(text):
    seconds = 0
    for x in text.split(":"):
        seconds = seconds * 60 + int(x)
    return seconds / 3600


@functools.cache
def committed(task):
    return [line.split() for line in (REPO / "parameters" / f"{task}.dat").read_text().splitlines()]


def produced(task, words, key):
    """name and content of what the program writes for a line of the parameter file"""
    if task == "density":
        mode = {"Density": {"nodes": 20, "multiplier": 1.0}}
    else:
        mode = {"Node": {"edge": ["Root", 0.5], "correction": ["Root", 0.5]}}
    with tempfile.TemporaryDirectory(prefix="vh-jobs-") as d:
        doc = {"mode": mode, "key": key, "missing": 0, "range": 20}
        (Path(d) / "case.json").write_text(json.dumps(doc))
        (Path(d) / "output").mkdir()
        r = subprocess.run([str(PROGRAM), task, *words], cwd=d, stdin=subprocess.DEVNULL,
                           env={**os.environ, "VH_RESULTS_CHILD": "1"}, timeout=200,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        files = sorted((Path(d) / "output").iterdir())
        need(r.returncode == 0 and files, f"the program ends with {r.returncode} for {task} {words}")
        need(len(files) == 1, f"the program writes {files}")
        return files[0].name, json.loads(files[0].read_text())


def check_program(case):
    task, key = case["task"], case["key"]
    lines = committed(task)
    array = directives(f"exe_{task}_hpc.bash")
    if task == "density":
        m = re.fullmatch(r"(\d+)-(\d+)", array.get("-J", ""))
        need(m and (int(m[1]), int(m[2])) == (1, len(lines)),
             f"the jobs {array.get('-J')} are not those of the {len(lines)} lines of parameters")
    need(len({tuple(x) for x in lines}) == len(lines), "some parameters are listed twice")
    words = lines[case["line"] % len(lines)]
    name, doc = produced(task, words, key)
    need(hours(array.get("-l walltime", "0")) >= doc["walltime"],
         f"{task}: the program counts on {doc['walltime']} h, its job gets {array.get('-l walltime')}")
    need(int(array.get("-l ncpus", "1")) >= doc["ncpus"],
         f"{task}: the program counts on {doc['ncpus']} processors, its job gets {array.get('-l ncpus')}")
    # another line does not replace its output
    if case["other"] is not None and case["other"] != words and len(case["other"]) == len(words):
        if [float(x) if x[0].isdigit() else x for x in case["other"]] != \
                [float(x) if x[0].isdigit() else x for x in words]:
            other, _ = produced(task, case["other"], key)
            need(name != other, f"the runs {words} and {case['other']} write both to {name}")
            return True, {task: True, "two runs": True}
    return True, {task: True}


# ------------------------------------------------------------------------------- generators
def tools():
    from hypothesis import strategies as st

    class T:
        pass

    t = T()
    t.st = st
    number = st.one_of(st.integers(0, 40).map(str), st.floats(0, 50).map(lambda x: f"{x:.3f}"))
    t.density = st.tuples(st.integers(1, 60).map(str), number).map(list)
    kind = st.sampled_from(["constant", "reziprocal_linear", "reziprocal_square_root"])
    t.node = st.tuples(number, number, kind, kind).map(list)
    t.dir = st.sampled_from(["work", "my work", "a b  c", "mbqc-scheduling_1.0"])
    name = st.from_regex(r"[a-z][a-z0-9_:.\-]{0,8}", fullmatch=True)
    t.names = lambda n: st.lists(name, min_size=n, max_size=n, unique=True)
    t.user = st.sampled_from(["u", "jruh", "user_1"])
    t.server = st.sampled_from(["pbs", "hpcnode0", "pbs1", "1"])
    return t


def split(names, sizes):
    res, at = [], 0
    for s in sizes:
        res.append(names[at:at + s])
        at += s
    return res, names[at:]


def local():
    t = tools()
    st = t.st

    @st.composite
    def cases(draw):
        lines = draw(st.lists(t.density, min_size=1, max_size=6))
        sizes = [draw(st.integers(0, 3)) for _ in lines]
        old = draw(st.integers(0, 2))
        files, rest = split(draw(t.names(sum(sizes) + old)), sizes)
        return {"dir": draw(t.dir), "lines": lines, "ended": draw(st.booleans()), "files": files,
                "old": rest, "failing": draw(st.lists(st.integers(1, len(lines)), max_size=1))}

    return cases()


def queue(task):
    t = tools()
    st = t.st

    @st.composite
    def cases(draw):
        least = draw(st.sampled_from([1, 2, 3, 4])) if task == "density" else 1
        lines = draw(st.lists(getattr(t, task), min_size=least,
                              max_size=12 if task == "density" else 3))
        number = draw(st.one_of(st.integers(1, 99), st.integers(1, 10**7)))
        if task == "density":
            order = draw(st.permutations(range(1, len(lines) + 1)))
            order = order[:draw(st.integers(min(least, len(lines)), min(len(lines), 5)))]
        else:
            order = [1] * draw(st.integers(1, 2))
        sizes = [draw(st.integers(1, 3)) for _ in order]
        old = draw(st.integers(0, 2))
        files, rest = split(draw(t.names(sum(sizes) + old)), sizes)
        user = draw(t.user)
        others = {f"{user}_{number}x", f"{user}_{number}{order[0]}", f"{user}_", user, "someone",
                  f"{user}_{number}[{len(lines) + 1}]", f"{user}x_{number}"}
        others = draw(st.sets(st.sampled_from(sorted(others)), max_size=3))
        ids = {f"{user}_{number + k}" for k in range(len(order))} if task == "node" else set()
        return {"dir": draw(t.dir), "lines": lines, "ended": draw(st.booleans()), "old": rest,
                "user": user, "server": draw(t.server), "number": number,
                "others": sorted(others - ids),
                "jobs": [{"index": i, "files": f, "during": draw(st.booleans())}
                         for i, f in zip(order, files)]}

    return cases()


def hardware():
    t = tools()
    st = t.st
    return st.fixed_dictionaries({
        "dir": t.dir, "user": t.user, "server": t.server, "number": st.integers(1, 10**6),
        "old": t.names(1), "some": st.lists(st.integers(0, 30), min_size=1, max_size=3)})


def program():
    t = tools()
    st = t.st

    @st.composite
    def cases(draw):
        task = draw(st.sampled_from(["density", "density", "density", "node"]))
        line = draw(st.integers(0, len(committed(task)) - 1))
        other = None
        if draw(st.booleans()):
            # a line that differs in one word
            other = list(committed(task)[line])
            i = draw(st.integers(0, len(other) - 1))
            kinds = ["constant", "reziprocal_linear", "reziprocal_square_root"]
            if other[i] in kinds:
                other[i] = draw(st.sampled_from(kinds))
            elif task == "density":
                near = [-1, 1] if i == 0 else [-1, 1, 0.5, -0.25, 0.001]
                other[i] = f"{max(float(other[i]) + draw(st.sampled_from(near)), 1):g}"
            else:
                other[i] = draw(st.sampled_from(["0.25", "0.05", "0.5001", "1"]))
        return {"task": task, "line": line, "key": draw(st.integers(0, 2**32)), "other": other}

    return cases()


if __name__ == "__main__":
    main([
        Part("local", 300, 6_000, local, check_local),
        Part("array", 400, 10_000, lambda: queue("density"), lambda c: check_jobs(c, "density")),
        Part("single", 150, 3_000, lambda: queue("node"), lambda c: check_jobs(c, "node")),
        Part("hardware", 60, 1_200, hardware, check_hardware),
        Part("program", 12, 240, program, check_program),
    ])
