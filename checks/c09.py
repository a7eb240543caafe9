"""C09: -dpc A:B writes what changed between the repository versions A and B, and nothing else."""
import os
import random

import cf
import depot
import fw
import tool
from db1cd import FormatError


def model(dep, a, b):
    """(must, may, deleted, may be listed as deleted): must/may are {name: stored bytes}"""
    before = [v for v in dep.versions if v < a]
    s0 = dep.state[before[-1]] if before else {}
    s1 = dep.state[b]
    rows = {}
    for o, v, where, data, removed in dep.hist:
        rows.setdefault(o, []).append((v, where, data, removed))
    must, may, free = {}, {}, set()
    deleted, maydel = set(), set()
    for o, rs in rows.items():
        n = depot.ms(o)
        inr = [r for r in rs if a <= r[0] <= b]
        pre = [r for r in rs if r[0] < a]
        if not inr:
            continue
        if o not in s1:
            if o in s0:
                deleted.add(n)
                for p in s0[o][2]:
                    maydel.add(p)
                for x in dep.extrows:
                    if x[0] == o and a <= x[1] <= b:
                        maydel.add(x[2])
            continue
        last, first = inr[-1], pre[-1] if pre else None
        if o not in s0 or s0[o][1] != s1[o][1]:
            must[n] = s1[o][1]
        elif first and {first[1], last[1]} == {"blob", "out"}:
            may[n] = s1[o][1]           # stored in two different ways, the tool need not recognise them as equal
        stored = {x[2:4] for x in dep.extrows if x[0] == o and a <= x[1] <= b and x[4]}
        for p, (vid, data) in s1[o][2].items():
            if o not in s0 or p not in s0[o][2] or s0[o][2][p][1] != data:
                must[p] = data
            elif (p, vid) in stored:
                may[p] = data
    return must, may, deleted, maydel


def unpacked(data):
    try:
        return cf.inflate(data)
    except Exception:
        return data


def as_files(prefix, data, out):
    """what a stored file looks like in the output directory"""
    if data:
        try:
            c = cf.Container(data).as_dict()
        except (cf.ContainerError, ValueError, IndexError):
            c = None
        if c is not None:
            for n, b in c.items():
                as_files(prefix + "/" + n, b, out)
            if not c:
                out[prefix + "/"] = None
            return
    out[prefix] = data


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    dep = depot.make(rng, unpacked_rows=False, containers=True, snapshots=False, **case["opts"])
    base = os.path.join(d, "rep")
    os.mkdir(base)
    p, data = depot.save(dep, base, case.get("gap", 0))
    files = {"1cv8ddb.1CD": data, "case.txt": repr(case)}
    for n, b in dep.files.items():
        files[n.replace("/", "__")] = b
    vs = dep.versions
    for k in range(3):
        i, j = sorted((rng.randrange(len(vs)), rng.randrange(len(vs))))
        if rng.random() < .25:
            i = j
        if rng.random() < .2:
            i, j = 0, len(vs) - 1
        a, b = vs[i], vs[j]

        def spell(i):
            return str(vs[i]) if rng.random() < .6 else str(i - (len(vs) - 1))
        arg = spell(i) if i == j and rng.random() < .7 else spell(i) + ":" + spell(j)
        if i < j and rng.random() < .1:
            arg = spell(j) + ":" + spell(i)
        o = os.path.join(d, "out%d" % k, rng.choice(["x", "Часть хранилища", "a b/c"]))
        os.makedirs(os.path.dirname(o))
        if rng.random() < .5:
            os.mkdir(o)
        r = tool.invoke(["-ne", p, "-q", "-dpc", arg, o], d)
        if not tool.must_be_clean(r, out, "part", files):
            return
        ctx = "range %s = %d..%d of %r (repository version %d, configuration %r)\n%s" % (
            arg, a, b, vs, dep.depotver, dep.cversion, tool.describe(r)[-1500:])
        if r.rc:
            out.violation("part:exit", "exit code on a valid repository\n" + ctx, files)
            return
        out.count("ranges dumped")
        must, may, deleted, maydel = model(dep, a, b)
        got = {n: tool.read(os.path.join(o, n)) for n in walk(o)}
        dl = got.pop("deleted", None)
        names = set()
        if dl is not None:
            t = dl.decode("utf-8", "replace").lstrip("\ufeff")
            names = {x for x in t.replace("\r", "\n").split("\n") if x}
        sub = "metadata/" if dep.cversion[0] < 100 else ""
        wm, wo = {}, {}
        for src, dst in ((must, wm), (may, wo)):
            for n, x in src.items():
                as_files(sub + n, unpacked(x), dst)
        wm = {n: x for n, x in wm.items() if x is not None}
        bad = None
        for n, x in wm.items():
            out.count("changed files compared")
            out.seen((dep.depotver, len(x), n[:9]), {"version": dep.depotver, "range": arg, "file": n, "bytes": len(x)})
            if n not in got:
                bad = ("missing", "changed file %r was not written" % n)
            elif got[n] != x:
                bad = ("content", "file %r: %d bytes, expected %d" % (n, len(got[n]), len(x)))
        for n in got:
            if n in wm:
                continue
            if n not in wo:
                bad = ("extra", "file %r did not change in the range" % n)
            elif got[n] != wo[n]:
                bad = ("content", "file %r: %d bytes, expected %d" % (n, len(got[n]), len(wo[n])))
        out.count("objects removed", len(deleted))
        if not deleted <= names:
            bad = ("deleted", "removed objects %r are not listed (list: %r)" % (sorted(deleted - names)[:3], sorted(names)[:5]))
        elif names - deleted - maydel:
            bad = ("deleted:extra", "%r are listed as removed" % sorted(names - deleted - maydel)[:3])
        if not wm and not deleted:
            out.count("ranges without changes")
        out.seen(("range", dep.depotver, len(vs), i, j, len(wm) > 0, len(deleted)))
        if bad:
            out.violation("part:" + bad[0], bad[1] + "\n" + ctx, files)
            return
    gaps = [x for x in range(1, vs[-1]) if x not in vs]
    bad = rng.choice([vs[-1] + 1, vs[-1] * 10, -len(vs), -len(vs) - 5] + gaps)
    arg = rng.choice(["%d" % bad, "%d:%d" % (vs[0], bad), "%d:%d" % (bad, vs[-1])])
    o = os.path.join(d, "none")
    r = tool.invoke(["-ne", p, "-q", "-dpc", arg, o], d)
    if not tool.must_be_clean(r, out, "part:absent", files):
        return
    out.count("absent versions asked for")
    if r.rc == 0:
        out.violation("part:absent", "range %s of %r does not exist, exit code 0\n%s" % (arg, vs, tool.describe(r)), files)
    if os.path.exists(o) and walk(o):
        out.violation("part:absent:file", "range %s of %r does not exist, but files were written" % (arg, vs), files)


def walk(o):
    res = []
    for x, dd, ff in os.walk(o):
        for n in ff:
            res.append(os.path.relpath(os.path.join(x, n), o))
    return res


def main():
    c = fw.Check("C09", rule="a case is one generated repository and three version ranges; each changed file compared and each range "
                 "is one evaluation",
                 assumptions=["every HISTORY record of an object that is present stores its content",
                              "an unchanged object re-stored in another place (database or pack) may be written again",
                              "an external file re-stored unchanged within the range may be written again",
                              "the list of deleted objects may name external files of deleted objects"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, gap=0, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, gap=gap, opts=kw))
    for v in (3, 5, 6, 7):
        add(c.n(70, 900), dver=v)
        add(c.n(8, 60), dver=v, big=True, nobj=8)
        add(c.n(10, 60), dver=v, nobj=30, nver=14)
    add(c.n(20, 200), dver=3, version="8.0.5")
    for v in (6, 7):                # pack files larger than 4 GB (sparse)
        add(c.n(5, 40), dver=v, gap=5 << 30)
    c.map(run_case, cases)
    c.finish(min_evals=500, require=["changed files compared", "ranges dumped", "objects removed", "absent versions asked for"])
