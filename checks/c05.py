"""C05: reading commands never modify the database."""
import hashlib
import os
import random

import anydb
import build
import cmds
import damage
import fw
import gen
import iomon
import tool

MODIFY = ("write", "trunc", "rename", "unlink", "link", "chmod")


def snapshot(path):
    st = os.stat(path)
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest(), st.st_size, st.st_mtime_ns, st.st_mode, st.st_ino


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    b = os.path.join(d, "db")
    os.mkdir(b)
    if case["kind"] == "depot":
        p, dep = anydb.repository(rng, b, case.get("version"), case.get("ps"))
        if isinstance(p, tuple):
            p = p[0]
        data = tool.read(p)
        names = [t.name for t in dep.db.tables]
        version, ps = dep.db.version, dep.db.ps
        db = dep.db
    else:
        db = anydb.infobase(rng, case.get("version"), case.get("ps"), small=True)
        data = db.build()
        p = os.path.join(b, "1Cv8.1CD")
        names = [t.name for t in db.tables]
        version, ps = db.version, db.ps
    note = "intact"
    ne = rng.random() < .5
    importdir = None
    if ne and rng.random() < .6:
        # something that could be imported: the same tables with other content
        importdir = os.path.join(d, "imp")
        os.mkdir(importdir)
        src = os.path.join(d, "src.1CD")
        tool.write(src, data)
        tool.invoke([src, "-eb", importdir, "*"], d, timeout=60)
        os.unlink(src)
        for t in os.listdir(importdir):
            for k in ("data", "blob"):
                q = os.path.join(importdir, t, k)
                if os.path.exists(q) and rng.random() < .5:
                    x = tool.read(q)
                    tool.write(q, rng.choice([x[::-1], x + x, x[:len(x) // 2], b""]))
    if case["damaged"]:
        data, note = damage.damage(rng, data, version, ps)
    tool.write(p, data)
    o = os.path.join(d, "o")
    os.mkdir(o)
    cl = cmds.random_commands(rng, o, names, importdir=importdir)
    if importdir and not any(c[0] == "-ib" for c in cl):
        cl.insert(rng.randint(0, len(cl)), ["-ib", importdir, "*"])
    args = [p] + sum(cl, []) + (["-q"] if rng.random() < .8 else [])
    if ne:
        if rng.random() < .5:
            args.insert(0, "-ne")
        else:
            args.append(rng.choice(["-ne", "-NotExclusively"]))
    if rng.random() < .2:
        args += ["-l", os.path.join(o, "log.txt")]
    log = os.path.join(d, "events.txt")
    before = snapshot(p)
    r = tool.invoke(args, d, timeout=10 if case["damaged"] else 60, env=iomon.env(log))
    after = snapshot(p)
    evs = iomon.events(log)
    files = {"base.1CD": data, "case.txt": repr(case) + "\n" + note, "events.txt": tool.read(log)}
    sig = "readonly"
    what = "+".join(sorted({c[0] for c in cl}))
    out.seen((what, note.split(" ")[0], ne, version), {"commands": what, "read only": ne, "database": note, "version": version})
    if not case["damaged"] and not tool.must_be_clean(r, out, sig, files):
        return
    out.count("runs")
    if r.crash:
        out.count("damaged databases ending a run early")
    out.count("system calls observed", len(evs))
    mine = [e for e in evs if e.path == p or os.path.realpath(e.path) == os.path.realpath(p)]
    opened = [e for e in mine if e.op == "open" and e.res >= 0]
    out.count("opens of the database observed", len(opened))
    out.count("reads of the database observed", sum(1 for e in mine if e.op == "read"))
    if importdir:
        out.count("imports refused by the read-only mode")
    bad = [e for e in mine if e.op in MODIFY and e.op != "chmod" or (e.op == "open" and "t" in e.detail[1:] and e.res >= 0)]
    if bad:
        out.violation(sig + ":write", "the database was modified by a reading run: %r\n%s\n%s" % (bad[:5], note, tool.describe(r)), files)
        return
    if before[0] != after[0] or before[1] != after[1]:
        out.violation(sig + ":digest", "the database differs after a reading run (%s)\n%s" % (note, tool.describe(r)),
                      dict(files, **{"after.1CD": tool.read(p)}))
        return
    if before[2:] != after[2:]:
        out.violation(sig + ":stat", "time, mode or inode of the database changed: %r, %r" % (before, after), files)
        return
    # nothing may appear beside the database either
    extra = [e for e in evs if e.op in ("write", "trunc", "unlink", "rename", "mkdir") and e.path.startswith(b + os.sep)]
    if extra:
        out.violation(sig + ":beside", "files of the database directory were changed: %r\n%s" % (extra[:5], tool.describe(r)), files)


def main():
    c = fw.Check("C05", rule="a case is one database (intact or damaged) and one random command line of reading commands; the system "
                 "calls of the run on the database file are the monitored events, the digest before and after the second oracle; "
                 "distinct by set of commands, kind of damage, mode and version",
                 assumptions=["a damaged database may end the run early (C13); only its modification is judged here"])
    tool.cli()
    build.preload()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for dmg in (False, True):
        for v in gen.ALL_VERSIONS:
            add(c.n(60, 900), kind="infobase", version=v, damaged=dmg)
        for ps in gen.PAGESIZES:
            add(c.n(60, 900), kind="infobase", version="8.3.8", ps=ps, damaged=dmg)
        add(c.n(120, 1500), kind="depot", damaged=dmg)
    c.map(run_case, cases)
    c.finish(min_evals=200, require=["reads of the database observed", "imports refused by the read-only mode", "runs"])
