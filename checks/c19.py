"""C19: concurrent runs: every run produces what it produces alone and touches no file of another run."""
import os
import random
import shutil
import threading
import time

import anydb
import build
import c16
import c18
import fw
import iomon
import tool
from db1cd import Field, Table

TMPOPS = ("open", "mkdir", "unlink", "rmdir", "rename", "write", "read", "trunc", "link")


class Source:
    """a database and the commands that read it; {name: arguments with %o for the output directory}"""

    def __init__(self, rng, d, kind, big):
        os.makedirs(d)
        if kind == "depot":
            for _ in range(12):      # packed objects go through temporary files
                shutil.rmtree(d)
                os.makedirs(d)
                p, dep = anydb.repository(rng, d)
                if any(n.endswith(".ind") and len(x) > 12 for n, x in dep.files.items()):
                    break
            self.p = p[0] if isinstance(p, tuple) else p
            v = dep.versions
            self.commands = [["-drc", str(rng.choice([0, v[0], v[-1]])), "%o"], ["-drc", "0", "%o/x.cf"],
                             ["-dpc", "%d:%d" % (v[0], v[-1]), "%o/p"], ["-dpc", str(v[-1]), "%o/p"], ["-eax", "%o"]]
        else:
            self.p = os.path.join(d, "1Cv8.1CD")
            db = anydb.infobase(rng, rng.choice(["8.2.14", "8.3.8", "8.1.0"]), small=True)
            t = Table("_Blobs", [Field("_K", "NVC", 10), Field("_I", "I")])
            sizes = [0, 1, 300, 5000] + ([(10 << 20) + rng.randint(1, 5000)] * 2 if big else [])
            t.rows = [{"_K": "k%d" % i, "_I": c18.storage_value(rng, n)[0] or b"x" if n else b""} for i, n in enumerate(sizes)]
            db.add(t)
            tool.write(self.p, db.build())
            self.commands = [["-ex", "%o", "_blobs", "-bf", "yes"], ["-ex", "%o", "_blobs", "-bf", "yes", "-pb", "no"]]
            if not big:
                self.commands += [["-eax", "%o"], ["-ddc", "%o"], ["-dac", "%o"], ["-dc", "%o"], ["-dvc", "%o"], ["-eb", "%o", "*"],
                                  ["-slo", "%o"], ["-sts", "%o/s.txt"], ["-eax", "%o", "-l", "%o/log.txt"]]
        self.data = tool.read(self.p)


class Job:
    def __init__(self, d, n, src, args):
        self.n, self.src = n, src
        self.d = os.path.join(d, "job%d" % n)
        os.mkdir(self.d)
        self.o = os.path.join(self.d, "o")
        self.log = os.path.join(self.d, "events.txt")
        self.args = [src.p] + [a.replace("%o", self.o) for a in args] + ["-q"]

    def run(self, tmp, **kw):
        shutil.rmtree(self.o, ignore_errors=True)
        os.mkdir(self.o)
        if os.path.exists(self.log):
            os.unlink(self.log)
        self.r = tool.invoke(self.args, self.d, timeout=100, env=iomon.env(self.log, **kw), tmp=tmp)
        self.s = c16.state(self.o)

    def start(self, tmp, **kw):
        self.t = threading.Thread(target=self.run, args=(tmp,), kwargs=kw)
        self.t.start()

    def solo(self, tmp):
        """two runs alone: what they have in common is what a run produces"""
        self.run(tmp)
        self.r0, self.s0, self.ev0 = self.r, self.s, iomon.events(self.log)
        shutil.rmtree(tmp, ignore_errors=True)
        self.run(tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        self.stable = c16.stable_of(self.s0, self.s)


def judge(jobs, tmp, out, key, files):
    for j in jobs:
        if not tool.must_be_clean(j.r, out, key, files):
            return False
        what = "run %d (%s)" % (j.n, " ".join(j.args[1:]))
        if j.r.rc != j.r0.rc:
            out.violation(key + ":exit", "%s: exit code %d, alone %d\n%s" % (what, j.r.rc, j.r0.rc, tool.describe(j.r)), files)
            return False
        diff = c16.same(j.s0, j.s, j.stable)
        if diff:
            out.violation(key + ":output", "%s: the output differs from that of the run alone: %s\n%s" % (what, diff, tool.describe(j.r)), files)
            return False
        if tool.read(j.src.p) != j.src.data:
            out.violation(key + ":database", "%s: the database was changed" % what, files)
            return False
    # who made what, who changed or removed it
    maker = {}
    for j in jobs:
        for e in iomon.events(j.log):
            if e.res >= 0 and (e.op == "mkdir" or e.op == "open" and "c" in e.detail):
                maker.setdefault(os.path.normpath(e.path), set()).add(j.n)
    for j in jobs:
        for e in iomon.events(j.log):
            p = os.path.normpath(e.path)
            if e.res < 0:
                continue
            changing = e.op in ("unlink", "rmdir", "rename", "trunc", "write") or e.op == "open" and e.detail.startswith("w")
            if not changing or e.op == "open" and p == j.src.p and "t" not in e.detail:
                continue
            out.count("changing events checked")
            if p.startswith(tmp + os.sep):
                out.count("events on temporary files")
            m = maker.get(p)
            if m is None:
                if p != j.o and not p.startswith(j.o + os.sep):
                    out.violation(key + ":foreign", "run %d changed a file no run created: %s %s" % (j.n, e.op, p), files)
                    return False
            elif m != {j.n}:
                out.violation(key + ":foreign", "run %d: %s of %s, which was created by run %s" % (j.n, e.op, p, sorted(m - {j.n}) or sorted(m)), files)
                return False
    return True


def sentinels(tmp):
    """files of other programs in the directory for temporary files"""
    os.makedirs(tmp)
    names = ["t1cd.other/x.tmp", "other-run", "1cd/a/b", "tmp0001"]
    for n in names:
        p = os.path.join(tmp, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tool.write(p, n.encode())
    return names


def check_sentinels(tmp, names, out, key, files):
    for n in names:
        if tool.read(os.path.join(tmp, n)) != n.encode():
            out.violation(key + ":sentinel", "a file of another program in the directory for temporary files was changed: %s" % n, files)
            return False
    return True


def fresh(tmp):
    shutil.rmtree(tmp, ignore_errors=True)
    return sentinels(tmp)


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    big = case["kind"] == "big"
    n = 2 if big else rng.choice([2, 2, 3, 4])
    kind = "base" if big else "depot"
    srcs = [Source(rng, os.path.join(d, "s0"), kind, big)]
    if rng.random() < .5:
        srcs.append(Source(rng, os.path.join(d, "s1"), rng.choice(["depot", "base"]) if not big else "base", big))
    tmp = os.path.join(d, "T")
    jobs = []
    first = rng.choice(srcs)
    for i in range(n):
        s = rng.choice(srcs)
        jobs.append(Job(d, i, s, rng.choice(s.commands)))
    files = {"case.txt": repr(case), "commands.txt": "\n".join(" ".join(j.args) for j in jobs)}
    for i, s in enumerate(srcs):
        if len(s.data) < 30 << 20:
            files["base%d.1CD" % i] = s.data
    for j in jobs:
        j.solo(tmp)
        if not tool.must_be_clean(j.r0, out, "conc:alone", files):
            return
        if j.r0.rc:
            out.violation("conc:alone:exit", "exit code %d alone\n%s" % (j.r0.rc, tool.describe(j.r0)), files)
            return
    # 1. one run is stopped at one of its operations on temporary or database files, all the others run from start to end
    a = jobs[0]
    hits, points = {}, []
    for e in a.ev0:
        sub = "/T/" if e.path.startswith(tmp + os.sep) else a.src.p if e.path == a.src.p else a.o + "/" if e.path.startswith(a.o) else None
        if e.op in TMPOPS and sub:
            hits[(e.op, sub)] = hits.get((e.op, sub), 0) + 1
            points.append((e.op, sub, hits[(e.op, sub)]))
    tp = [p for p in points if p[1] == "/T/"]
    out.count("operations on temporary files in runs alone", len(tp))
    pick = rng.sample(tp, min(len(tp), case["points"])) + rng.sample(points, min(len(points), max(1, case["points"] // 4)))
    for op, sub, k in pick:
        names = fresh(tmp)
        bar = os.path.join(d, "bar")
        shutil.rmtree(bar, ignore_errors=True)
        os.mkdir(bar)
        a.start(tmp, barrier="%s:%s:%d:%s:2" % (op, sub, k, bar))
        t0 = time.time()
        while a.t.is_alive() and not os.listdir(bar) and time.time() - t0 < 60:
            time.sleep(.002)
        reached = bool(os.listdir(bar))
        for j in jobs[1:]:
            j.start(tmp)
            if rng.random() < .5:
                j.t.join()
        for j in jobs[1:]:
            j.t.join()
        tool.write(os.path.join(bar, "go"), b"")
        a.t.join()
        out.count("runs stopped at an operation" if reached else "stop not reached")
        out.seen(("stop", op, sub == "/T/", tuple(j.args[1] for j in jobs)), {"stopped at": "%s of %s no. %d" % (op, sub, k), "others": [" ".join(j.args[1:3]) for j in jobs[1:]]})
        f = dict(files, **{"schedule.txt": "run 0 stopped before %s of %s no. %d while the others run" % (op, sub, k)})
        if not judge(jobs, tmp, out, "conc:stop", f) or not check_sentinels(tmp, names, out, "conc:stop", f):
            return
    # 2. all runs meet at the same operation, then race
    for op in rng.sample(["mkdir", "open", "open", "unlink", "rmdir"], case["races"]):
        names = fresh(tmp)
        bar = os.path.join(d, "bar")
        shutil.rmtree(bar, ignore_errors=True)
        os.mkdir(bar)
        k = rng.choice([1, 1, 1, 2])
        for j in jobs:
            j.start(tmp, barrier="%s:/T/:%d:%s:%d" % (op, k, bar, len(jobs)), jitter="%d:%d" % (rng.randrange(1 << 30), rng.choice([1, 100, 2000]) if not big else 5))
        t0 = time.time()
        while any(j.t.is_alive() for j in jobs):    # runs that never come to the operation must not hold up the others
            time.sleep(.005)
            if sum(not j.t.is_alive() for j in jobs) + len(os.listdir(bar)) >= len(jobs) or time.time() - t0 > 20:
                for x in range(len(jobs)):
                    tool.write(os.path.join(bar, "go%d" % x), b"")
                break
        for j in jobs:
            j.t.join()
        met = len([x for x in os.listdir(bar) if x.isdigit()])
        out.count("races of %s runs" % met)
        out.seen(("race", op, k, met, tuple(j.args[1] for j in jobs)), {"met at": "%s no. %d" % (op, k), "runs": met})
        f = dict(files, **{"schedule.txt": "%d runs meet before %s of a temporary file no. %d" % (met, op, k)})
        if not judge(jobs, tmp, out, "conc:race", f) or not check_sentinels(tmp, names, out, "conc:race", f):
            return
    # 3. random delays
    for _ in range(case["delays"]):
        names = fresh(tmp)
        for j in jobs:
            j.start(tmp, jitter="%d:%d" % (rng.randrange(1 << 30), rng.choice([20, 300, 1500]) if not big else 5))
            time.sleep(rng.choice([0, 0, .01, .05]))
        for j in jobs:
            j.t.join()
        out.seen(("delays", len(jobs), tuple(j.args[1] for j in jobs)))
        if not judge(jobs, tmp, out, "conc:delays", files) or not check_sentinels(tmp, names, out, "conc:delays", files):
            return


def main():
    c = fw.Check("C19", rule="a case is two to four runs of reading commands on one or two databases sharing one directory for temporary files; one "
                 "evaluation is one schedule: a run stopped at one of its file operations while the others run, all runs meeting at one operation, "
                 "or random delays; distinct by kind of schedule, operation and commands",
                 assumptions=["runs use different output directories; importing runs are not part of the property",
                              "schedules are made at system call boundaries (the program shares nothing but files)"])
    tool.cli()
    build.preload()
    base = c.seed * 1000003
    cases = [{"seed": base + i, "kind": "depot", "points": c.n(8, 40), "races": c.n(3, 5), "delays": c.n(1, 6)} for i in range(c.n(24, 200))]
    cases += [{"seed": base + 900000 + i, "kind": "big", "points": c.n(3, 20), "races": c.n(1, 3), "delays": 1} for i in range(c.n(2, 16))]
    c.map(run_case, cases)
    return c.finish(min_evals=150, require=["runs stopped at an operation", "events on temporary files", "races of 2 runs"])
