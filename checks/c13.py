"""C13: damaged databases: no crash, no memory error, no undefined behaviour, bounded time and memory."""
import gzip
import os
import random
import shutil

import anydb
import build
import cmds
import damage
import depot
import fw
import gen
import run as _run
import tool

LIMIT = 1500        # MB of memory (with the sanitizers' overhead) for databases of at most a few MB
TIME = 20           # s; a run on a database of this size takes less than one
ALL = ["eax", "ex", "ddc", "dc", "dvc", "dac", "drc", "dpc", "eb", "slo", "sts", "ib"]


def make(rng, case, d):
    """-> (path, bytes, names, version, ps, note)"""
    b = os.path.join(d, "db")
    os.mkdir(b)
    note = ""
    if case["kind"] == "fixture":
        src = case["file"]
        p = os.path.join(b, os.path.basename(src))
        if os.path.isdir(os.path.join(os.path.dirname(src), "data")):
            shutil.copytree(os.path.join(os.path.dirname(src), "data"), os.path.join(b, "data"))
        data = tool.read(src)
        return p, data, [], "8.3.8" if data[8:11] == bytes((8, 3, 8)) else "8.2.14", int.from_bytes(data[20:24], "little") if data[8:11] == bytes((8, 3, 8)) else 4096, "fixture"
    if case["kind"] == "depot":
        if case["how"] == "bytes":
            p, dep = anydb.repository(rng, b, case.get("version"), case.get("ps"))
            p = p[0] if isinstance(p, tuple) else p
        else:
            dep = depot.make(rng, version=case.get("version"), ps=case.get("ps"), nobj=rng.choice([2, 4]), nver=rng.choice([1, 3]))
            log = damage.descriptions(rng, dep.db) if case["how"] == "descr" else None
            note = "" if log is not None else damage.logical(rng, dep.db)
            p = depot.save(dep, b)
            p = p[0] if isinstance(p, tuple) else p
            if log is not None:
                note = "descriptions: " + "; ".join(log)
            elif rng.random() < .5:     # pack files and objects
                fs = [os.path.join(r, f) for r, _, ff in os.walk(b) for f in ff if os.path.join(r, f) != p]
                if fs:
                    f = rng.choice(sorted(fs))
                    x = tool.read(f)
                    tool.write(f, rng.choice([weird(rng, x), x[:len(x) // 2], b"", rng.randbytes(40)]) if rng.random() < .8 else flip(rng, x))
                    note += "; " + os.path.basename(f) + " damaged"
        db = dep.db
        return p, tool.read(p), [t.name for t in db.tables], db.version, db.ps, note
    db = anydb.infobase(rng, case.get("version"), case.get("ps"), small=True)
    if case["how"] == "descr":
        log = damage.descriptions(rng, db)
        data = db.build()
        note = "descriptions: " + "; ".join(log)
        return os.path.join(b, "1Cv8.1CD"), data, [t.name for t in db.tables], db.version, db.ps, note
    if case["how"] != "bytes":
        note = damage.logical(rng, db)
    data = db.build()
    return os.path.join(b, "1Cv8.1CD"), data, [t.name for t in db.tables], db.version, db.ps, note


def weird(rng, x):
    y = damage.weird_bytes(rng, x)
    return y if isinstance(y, (bytes, bytearray)) else x[:-1]


def flip(rng, x):
    b = bytearray(x)
    for _ in range(4):
        if b:
            b[rng.randrange(len(b))] = rng.randrange(256)
    return bytes(b)


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    try:
        p, data, names, version, ps, note = make(rng, case, d)
    except (AssertionError, KeyError):
        out.count("not buildable")
        return
    if case["how"] not in ("logic", "descr") or note == "nothing":
        own = None
        if case["kind"] == "fixture":
            own = {}
        if case.get("random"):
            data, n2 = random_file(rng, data), "random bytes"
        else:
            data, n2 = damage.damage(rng, data, version, ps, own)
        note += "; " + n2
    tool.write(p, data)
    o = os.path.join(d, "o")
    os.mkdir(o)
    kinds = ["eax", "ex", "eb", "slo", "sts"] + (["drc", "dpc"] * 2 if case["kind"] == "depot" else ["ddc", "dc", "dvc", "dac"]) if rng.random() < .9 else None
    importdir = None
    if rng.random() < .08:
        importdir = os.path.join(d, "imp")
        os.mkdir(importdir)
        src = os.path.join(d, "src.1CD")
        tool.write(src, data)
        tool.invoke([src, "-eb", importdir, "*"], d, timeout=TIME)
        kinds = ["ib", "eax", "ib"]
    cl = cmds.random_commands(rng, o, names, rng.choice([1, 2, 2, 4]), kinds=kinds, importdir=importdir)
    args = [p] + sum(cl, []) + ["-q"]
    if rng.random() < .2:
        args.append("-ne")
    asan = _run.ASAN.replace("max_allocation_size_mb=3000", "max_allocation_size_mb=%d:hard_rss_limit_mb=%d" % (LIMIT // 2, LIMIT))
    r = tool.invoke(args, d, timeout=TIME, env={"ASAN_OPTIONS": asan})
    what = "+".join(sorted({c[0] for c in cl}))
    out.seen((what, note[:200]), {"damage": note[:200], "commands": what, "exit": r.rc, "version": version})
    for c in cl:
        out.count("runs with " + c[0])
    out.count("exit %s" % r.rc)
    out.count("databases opened" if r.rc not in (175, 174, 183, 185) else "databases refused")
    c = r.crash
    if c is None and "rss limit" in r.err:
        c = "memory"
    if c:
        size = sum(len(x or b"") for x in tool.tree(o).values())
        x = tool.read(p)
        out.violation("damaged:" + c, "%s (output so far: %d bytes)\n%s" % (note, size, tool.describe(r)), {
            "base.1CD.gz": gzip.compress(data), "case.txt": repr(case) + "\n" + note + "\n" + " ".join(args), "stderr.txt": r.err[-20000:]})


def random_file(rng, data):
    k = rng.random()
    if k < .3:
        return rng.randbytes(rng.choice([0, 1, 8, 24, 4096, 8192, 30000]))
    if k < .6:
        return data[:rng.choice([8, 12, 24])] + rng.randbytes(rng.choice([4096, 65536])) 
    n = rng.choice([1, 2, 3, 4]) * int.from_bytes(data[20:24], "little") if rng.random() < .5 else rng.choice([4096, 8192, 12288])
    return data[:min(n, len(data))] + bytes(rng.choice([0, 4096, 8192]))


def main():
    c = fw.Check("C13", rule="a case is one damaged database (bytes, page structures or table contents) under one random command line; sanitizers, exit status, "
                 "run time and memory of the tool are the oracle; distinct by damage and commands",
                 assumptions=["bounded time: %d s (and three times that on a second attempt) for databases of at most 2 MB; bounded memory: %d MB including the "
                              "sanitizers' overhead" % (TIME, LIMIT)])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for how in ("bytes", "logic", "both", "descr"):
        for v in gen.ALL_VERSIONS:
            add(c.n(150, 1500), kind="infobase", version=v, how=how)
        for ps in gen.PAGESIZES:
            add(c.n(80, 1000), kind="infobase", version="8.3.8", ps=ps, how=how)
        add(c.n(400, 5000), kind="depot", how=how)
    add(c.n(60, 1000), kind="infobase", how="bytes", random=True)
    fixtures = []
    for root, dirs, fs in os.walk(os.path.join(build.REPO, "tests")):
        fixtures += [os.path.join(root, f) for f in fs if f.lower().endswith(".1cd")]
    for f in sorted(fixtures):
        if os.path.getsize(f) < 3 << 20:
            add(c.n(12, 400), kind="fixture", file=f, how="bytes")
    c.map(run_case, cases)
    c.finish(min_evals=500, require=["databases opened", "databases refused"] + ["runs with -" + x for x in ALL])
