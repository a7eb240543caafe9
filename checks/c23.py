"""C23: results depend only on the inputs: memcheck over the other checks' workloads, and pairs of runs of two builds under different surroundings."""
import gzip
import importlib
import os
import random
import re
import shutil
import signal
import stat

import anydb
import build
import cf
import cmds
import damage
import depot
import fw
import gen
import run as _run
import tool

OTHERS = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21"]
DRIVERS = ["confdrv", "contdrv", "treedrv", "convdrv", "hostdrv"]
CASE = 120       # s for one case under memcheck; a longer one is given up
VALGRIND = "/usr/bin/valgrind"


# ---------------------------------------------------------------------------------------------- memcheck
class Collected(Exception):
    pass


class Recorder:
    """stands in for fw.Check: notes the cases of a check instead of running them"""
    made = None

    def __init__(self, pid, **kw):
        self.pid, self.seed, self.thorough, self.tier = pid, Recorder.seed, False, "quick"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.cases, self.extra = [], {}
        Recorder.made = self
        self.scratch = None

    def n(self, quick, thorough):
        return quick

    def map(self, fn, cases):
        self.cases += [(fn.__name__, c) for c in cases]

    def finish(self, *a, **kw):
        raise Collected()


def collect(name, seed):
    """the cases another check would run"""
    mod = importlib.import_module(name)
    Recorder.seed = seed
    real, fw.Check = fw.Check, Recorder
    keep = (build.cli, build.driver, build.gui, build.preload)
    build.cli = build.driver = build.gui = build.preload = lambda *a, **kw: "/nonexistent"
    try:
        mod.main()
    except Collected:
        pass
    finally:
        fw.Check = real
        build.cli, build.driver, build.gui, build.preload = keep
        tool._cli = None
    return Recorder.made.cases


SOURCES = None


def project():
    global SOURCES
    if SOURCES is None:
        SOURCES = {os.path.basename(p) for p in build.lib_sources() + build.cli_sources() + build.headers()}
    return SOURCES


KINDS = [("Conditional jump or move depends on uninitialised", "unset value decides"), ("Use of uninitialised value", "unset value used"),
         ("points to uninitialised byte", "unset bytes given to the system"), ("contains uninitialised byte", "unset bytes given to the system"),
         ("Invalid read", "invalid read"), ("Invalid write", "invalid write"), ("Invalid free", "invalid free"), ("Mismatched free", "mismatched free"),
         ("Source and destination overlap", "overlapping copy"), ("fishy", "impossible size")]


def reports(text):
    """[(kind, function, text of the report)] of a memcheck log; reports without a frame of the project's are not the project's"""
    text = re.sub(r"(?m)^(==|--)\d+(==|--) ?", "", text)
    out = []
    for part in re.split(r"\n\s*\n", text):
        kind = next((k for mark, k in KINDS if mark in part), None)
        if not kind:
            continue
        m = None
        for f in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (.*?) \(([\w.\-+]+):\d+\)", part.split("Uninitialised value was created")[0]):
            if f.group(2) in project():
                m = f
                break
        if m is None:
            continue
        fn = re.sub(r"\(.*|<.*", "", m.group(1)).strip()
        out.append((kind, fn, part))
    return out


def script(path, log, binary):
    with open(path, "w") as f:
        f.write("#!/bin/sh\nexec %s -q --track-origins=yes --num-callers=25 --error-limit=no --vgdb=no --child-silent-after-fork=yes "
                "--log-file='%s/vg.%%p' '%s' \"$@\"\n" % (VALGRIND, log, binary))
    os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR)


class TooLong(Exception):
    pass


def alarm(*a):
    raise TooLong()


def run_memcheck(case, d, out):
    mod = importlib.import_module(case["module"])
    vg = d + ".vg"
    os.makedirs(vg)
    made = {}

    def wrapper(name, binary):
        p = os.path.join(vg, name + ".sh")
        if p not in made:
            script(p, vg, binary)
            made[p] = 1
        return p
    keep = (build.cli, build.driver, _run.run, tool._cli)
    realrun = _run.run

    def slow(cmd, cwd=None, timeout=60, env=None, tmp=None, stdin=None, retry_timeout=True):
        out.count("runs under memcheck")
        if env and "LD_PRELOAD" in env:
            env = dict(env, IOMON_ONLY="ctool1cd")
        return realrun(cmd, cwd, CASE, env, tmp, stdin, False)
    build.cli = lambda *a, **kw: wrapper("cli", case["cli"])
    build.driver = lambda name, *a, **kw: wrapper(name, case["drivers"][name])
    _run.run = slow
    tool._cli = None
    inner = fw.Out()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE)
    try:
        getattr(mod, case["fn"])(case["case"], d, inner)
    except TooLong:
        out.count("cases given up for their length")
    except Exception:      # the other check's oracle is not asked here
        out.count("cases with another oracle's exception")
    finally:
        signal.alarm(0)
        build.cli, build.driver, _run.run, tool._cli = keep
        endall()
    try:
        out.count("cases under memcheck")
        out.count("cases under memcheck: " + case["module"].upper())
        if case["module"] == "c16":
            out.count("failing system calls under memcheck", sum(n for k, n in inner.counts.items() if k.startswith("failures injected")))
        for f in sorted(os.listdir(vg)):
            if not f.startswith("vg."):
                continue
            text = tool.read(os.path.join(vg, f)).decode("utf-8", "replace")
            found = reports(text)
            if not found:
                continue
            sigs = {}
            for kind, fn, part in found:
                sigs.setdefault((kind, fn), part)
            for (kind, fn), part in sigs.items():
                out.violation("memcheck:%s@%s" % (kind, fn), "while %s's case %r runs:\n%s" % (case["module"].upper(), case["case"], part[:6000]),
                              {"memcheck.txt": text[:100000], "case.txt": repr(case["case"])})
        out.seen((case["module"], case["fn"], repr(case["case"])[:300]), {"check": case["module"].upper(), "case": repr(case["case"])[:300]})
    finally:
        shutil.rmtree(vg, ignore_errors=True)


def endall():
    """ends the processes this worker started and did not wait for"""
    mine = os.getpid()
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    if int(f.read().rsplit(")", 1)[1].split()[1]) == mine:
                        os.killpg(int(p), signal.SIGKILL)
                        os.waitpid(int(p), 0)
            except (OSError, ValueError, IndexError):
                pass


# ---------------------------------------------------------------------------------------------- pairs of runs
def make(rng, case, b):
    """writes the database below b; -> (relative path, names of the tables, version, description)"""
    os.mkdir(b)
    note = "intact"
    if case["kind"] == "depot":
        dep = depot.make(rng, version=case.get("version"), ps=case.get("ps"), nobj=rng.choice([2, 4, 9]), nver=rng.choice([1, 3]))
        db = dep.db
        if case["how"] == "descr":
            note = "; ".join(damage.descriptions(rng, db))
        elif case["how"] == "logic":
            note = damage.logical(rng, db)
        p = depot.save(dep, b)
        p = p[0] if isinstance(p, tuple) else p
        data = tool.read(p)
    else:
        db = anydb.infobase(rng, case.get("version"), case.get("ps"), small=True)
        if case["how"] == "descr":
            note = "; ".join(damage.descriptions(rng, db))
        elif case["how"] == "logic":
            note = damage.logical(rng, db)
        data = db.build()
        p = os.path.join(b, "1Cv8.1CD")
    if case["how"] == "bytes":
        data, note = damage.damage(rng, data, db.version, db.ps, None)
    tool.write(p, data)
    return os.path.relpath(p, os.path.dirname(b)), [t.name for t in db.tables], db.version, note


SURROUNDINGS = ["locale", "directory", "temporary directory", "environment", "input", "umask", "home"]


def surround(rng, root, which):
    """-> (env, cwd, stdin, umask) of the second run"""
    env, cwd, stdin, um = {}, root, None, 0o022
    if "locale" in which:
        env["LC_ALL"] = env["LANG"] = rng.choice(["C", "POSIX", "C.utf8"])
    if "directory" in which:
        cwd = rng.choice([os.path.join(root, "cwd"), os.path.join(root, "базы данных")])
    if "temporary directory" in which:
        env["TMPDIR"] = os.path.join(root, rng.choice(["другое место", "t" * 100, "t/./../t", "t t"]))
    if "environment" in which:
        for i in range(rng.choice([1, 30])):
            env["X%d" % i] = "я" * rng.choice([1, 100, 1000])
    if "input" in which:
        stdin = rng.choice([b"", b"y\nn\nyes\n", rng.randbytes(1000)])
    if "umask" in which:
        um = 0o077
    if "home" in which:
        env["HOME"] = rng.choice(["", "/", root])
    return env, cwd, stdin, um


GUID = re.compile(r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}")


def normal(text, root, cwd, rel):
    """messages with the places replaced"""
    if rel:
        text = text.replace(cwd + "/" + rel + "/", "").replace(rel + "/", "")
    return text.replace(root + "/", "").replace(root, "")


def content(x, name):
    """what a file must hold in both runs; new identifiers and times of a dumped repository configuration differ"""
    if not name.startswith("drc"):
        return x
    try:
        c = cf.Container(x).as_dict()
        if "versions" in c:
            c["versions"] = GUID.sub("?", cf.inflate(c["versions"]).decode("utf-8", "replace"))
        if "metadata" in c:     # old format: a container of its own, with the times of its making
            c["metadata"] = cf.Container(cf.inflate(c["metadata"])).as_dict()
    except Exception:       # damaged repositories give damaged files
        return x
    return c


def run_pair(case, d, out):
    rng = random.Random(case["seed"])
    a, b = os.path.join(d, "a"), os.path.join(d, "b-" + "x" * rng.choice([0, 1, 7, 60]))
    os.mkdir(a)
    try:
        path, names, version, note = make(rng, case, os.path.join(a, "db"))
    except (AssertionError, KeyError):
        out.count("not buildable")
        return
    shutil.copytree(a, b)
    imp = None
    if rng.random() < .15:
        imp = "imp"
        for root in (a, b):
            os.mkdir(os.path.join(root, imp))
        tool.invoke([os.path.join(a, path), "-eb", os.path.join(a, imp), "*"], a, binary=case["plain"])
        for f in os.listdir(os.path.join(a, imp)):
            shutil.copytree(os.path.join(a, imp, f), os.path.join(b, imp, f))
    kinds = ["eax", "ex", "eb", "slo", "sts"] + (["drc", "dpc"] * 2 if case["kind"] == "depot" else ["ddc", "dc", "dvc", "dac"])
    if imp:
        kinds = ["ib", "eax", "eb"]
    st = rng.getstate()
    which = [s for s in SURROUNDINGS if rng.random() < .4]
    srng = random.Random(case["seed"] + 1)
    results = []
    for i, root in enumerate((a, b)):
        o = os.path.join(root, "o")
        os.mkdir(o)
        env, cwd, stdin, um = ({}, root, None, 0o022) if i == 0 else surround(srng, root, which)
        os.makedirs(cwd, exist_ok=True)
        tmp = env.get("TMPDIR", os.path.join(root, "tmp"))
        os.makedirs(tmp.split("/.")[0] if "/." in tmp else tmp, exist_ok=True)
        rng.setstate(st)
        relative = i == 1 and "directory" in which
        base = os.path.relpath(root, cwd) if relative else root
        if relative:
            here = os.getcwd()
            os.chdir(cwd)
        try:
            cl = cmds.random_commands(rng, os.path.join(base, "o"), names, rng.choice([1, 2, 4, 6]), kinds=kinds,
                                      importdir=os.path.join(base, imp) if imp else None)
        finally:
            if relative:
                os.chdir(here)
        opts = (["-q"] if rng.random() < .2 else []) + (["-ne"] if rng.random() < .2 and not imp else []) + (["-nv"] if rng.random() < .4 else [])
        log = rng.random() < .4
        args = [os.path.join(base, path)] + sum(cl, []) + opts + (["-l", os.path.join(base, "log.txt")] if log else [])
        env["MALLOC_PERTURB_"] = "0" if i == 0 else str(srng.choice([1, 85, 170, 254, 255]))
        old = os.umask(um)
        try:
            r = tool.invoke(args, cwd, timeout=60, env=env, tmp=tmp, binary=case["plain"] if i == 0 else case["pattern"])
        finally:
            os.umask(old)
        if r.crash and r.crash != "timeout":
            out.violation("pair:" + r.crash, "%s\n%s" % (note, tool.describe(r)), {"base.1CD.gz": gzip.compress(tool.read(os.path.join(root, path)))})
            return
        if r.crash:
            out.count("ended for their time")
            return
        results.append((r, cl, (cwd, base if relative else "")))
        if [f for f in os.listdir(tmp) if True]:
            out.violation("pair:left", "temporary files left: %r\n%s" % (os.listdir(tmp), tool.describe(r)))
        shutil.rmtree(tmp, ignore_errors=True)
    (r1, cl, _), (r2, _, rel) = results
    t1, t2 = {k: v for k, v in tool.tree(a).items()}, {k: v for k, v in tool.tree(b).items()}
    log1, log2 = (t.pop("log.txt", b"").decode("utf-8", "replace") for t in (t1, t2))
    info = "%s %s, %s: %s; second run differs in: %s" % (case["kind"], version, note[:300], " ".join(c[0] for c in cl), ", ".join(which) or "contents of unset memory")
    files = {"base.1CD.gz": gzip.compress(t1.get(path) or b""), "case.txt": repr(case) + "\n" + info + "\n" + " ".join(r1.cmd) + "\n" + " ".join(r2.cmd),
             "first.txt": r1.out + r1.err + log1, "second.txt": r2.out + r2.err + log2}

    def differ(what, msg):
        out.violation("pair:" + what, "%s\n%s" % (info, msg), files)
    if r1.rc != r2.rc:
        differ("exit code", "exit codes %s and %s\n%s" % (r1.rc, r2.rc, tool.describe(r2)))
    for what, x, y in (("output", r1.out, r2.out), ("messages", r1.err, r2.err), ("log", log1, log2)):
        x, y = normal(x, a, "", ""), normal(y, b, *rel)
        out.count("lines of messages compared", x.count("\n"))
        if x != y:
            xs, ys = x.split("\n"), y.split("\n")
            k = next((k for k in range(min(len(xs), len(ys))) if xs[k] != ys[k]), min(len(xs), len(ys)))
            differ(what, "%s: %d and %d lines, first difference at %d:\n%s\n---\n%s" % (
                what, len(xs), len(ys), k, "\n".join(xs[max(0, k - 2):k + 3]), "\n".join(ys[max(0, k - 2):k + 3])))
    if sorted(t1) != sorted(t2):
        differ("files", "only in the first: %r; only in the second: %r" % (sorted(set(t1) - set(t2))[:5], sorted(set(t2) - set(t1))[:5]))
    for k in sorted(set(t1) & set(t2)):
        out.count("files compared")
        x, y = t1[k], t2[k]
        if x != y and content(x, k[2:]) != content(y, k[2:]):
            pos = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            kind = re.sub(r"\d.*", "", k.split("/")[1]) if k.startswith("o/") else "database"
            differ("contents of " + kind, "%s: %d and %d bytes, first difference at %d: %r and %r" % (
                k, len(x), len(y), pos, x[max(0, pos - 20):pos + 40], y[max(0, pos - 20):pos + 40]))
    out.count("pairs")
    out.count("pairs: " + case["how"])
    for s in which:
        out.count("pairs with another " + s)
    if r1.rc:
        out.count("pairs with errors")
    out.seen((case["kind"], case["seed"], tuple(which)), {"pair": info})


def main():
    c = fw.Check("C23", rule="a case is one case of another check whose processes run under memcheck, or one database and command line run twice: by two builds that "
                 "fill automatic variables differently, with other heap filling and surroundings; exit codes, messages and all files are compared",
                 assumptions=["new identifiers of a configuration dumped from a repository (file versions) and the times in it may differ",
                              "a report of memcheck counts when a function of the project is in its stack"])
    plain, pattern = build.cli(san=False), build.cli_pattern()
    drivers = {n: build.driver(n, san=False) for n in DRIVERS}
    build.preload()
    pairs = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            pairs.append(dict(seed=base + k, plain=plain, pattern=pattern, **kw))
    for how, w in (("intact", 3), ("bytes", 2), ("logic", 2), ("descr", 1)):
        for v in gen.ALL_VERSIONS:
            add(c.n(15 * w, 200 * w), kind="infobase", version=v, how=how)
        for ps in gen.PAGESIZES:
            add(c.n(8 * w, 100 * w), kind="infobase", version="8.3.8", ps=ps, how=how)
        add(c.n(50 * w, 700 * w), kind="depot", how=how)
    c.map(run_pair, pairs)
    cases = []
    for name in OTHERS:
        got = collect(name, c.seed)
        c.rng.shuffle(got)
        for fn, x in got[:c.n(10, 150)]:
            cases.append(dict(module=name, fn=fn, case=x, cli=plain, drivers=drivers))
    c.rng.shuffle(cases)
    c.map(run_memcheck, cases)
    c.finish(min_evals=300, require=["pairs", "files compared", "pairs with errors", "runs under memcheck", "failing system calls under memcheck"] +
             ["cases under memcheck: " + x.upper() for x in OTHERS])
