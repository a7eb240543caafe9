"""C08: -drc N writes the configuration as it was in version N of the repository."""
import os
import random
import re

import cf
import depot
import fw
import tool
from db1cd import FormatError, parse_bracket

GUID = re.compile("[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$")


def text_file(data, packed, who):
    b = cf.inflate(data) if packed else data
    if b[:3] != b"\xef\xbb\xbf":
        raise FormatError("%s: no byte order mark" % who)
    return parse_bracket(b[3:].decode("utf-8"))


def pairs(lst, who):
    if len(lst) % 2:
        raise FormatError("%s: odd number of values" % who)
    out = {}
    for i in range(0, len(lst), 2):
        if lst[i][0] != "s" or lst[i + 1][0] != "v" or not GUID.match(lst[i + 1][1]):
            raise FormatError("%s: bad pair %r %r" % (who, lst[i], lst[i + 1]))
        if lst[i][1] in out:
            raise FormatError("%s: %r twice" % (who, lst[i][1]))
        out[lst[i][1]] = lst[i + 1][1]
    return out


def verify(dep, ver, data, out, sample):
    """raises FormatError/ContainerError; returns nothing"""
    st = dep.state[ver]
    have = cf.Container(data).as_dict()
    if ver in dep.snapshot:
        if data != dep.snapshot[ver]:
            raise FormatError("differs from the snapshot")
        out.count("snapshots used")
        return
    if data == dep.maybe.get(ver):
        return
    want = depot.expected(dep, ver)
    vers = {}
    for o, (vid, _, ext) in st.items():
        vers[depot.ms(o)] = depot.ms(vid)
        for n, (v, _) in ext.items():
            vers[n] = depot.ms(v)
    old = dep.cversion[0] < 100
    v = text_file(have.pop("version", b""), True, "version")
    if v != [[("v", str(dep.cversion[0])), ("v", str(dep.cversion[1]))]]:
        raise FormatError("version file holds %r, not %r" % (v, dep.cversion))
    objs = {depot.ms(o): x for o, x in st.items()}
    if old:
        meta = have.pop("metadata", None)
        if meta is None:
            raise FormatError("no metadata")
        try:
            meta = cf.inflate(meta)
        except Exception:
            pass
        meta = cf.Container(meta).as_dict()
        root = text_file(meta.pop("root", b""), False, "root")
        if root[:2] != [("v", "1"), ("v", depot.ms(dep.rootobj))] or root[2] != ("v", str(len(objs))):
            raise FormatError("root starts with %r" % (root[:3],))
        p = pairs(root[3:], "root")
        if p != {n: depot.ms(x[0]) for n, x in objs.items()}:
            raise FormatError("root lists %r" % (p,))
        for n in sorted(set(meta) | set(objs)):
            w = cf.inflate(objs[n][1]) if n in objs else None
            one(n, meta.get(n), w, out, sample)
        for n in objs:
            del want[n]
            del vers[n]
    else:
        root = text_file(have.pop("root", b""), True, "root")
        if root != [("v", "2"), ("v", depot.ms(dep.rootobj))]:
            raise FormatError("root holds %r" % (root,))
    versions = text_file(have.pop("versions", b""), True, "versions")
    if versions[0] != ("v", "1"):
        raise FormatError("versions starts with %r" % (versions[:2],))
    p = pairs(versions[2:], "versions")
    if versions[1] != ("v", str(len(p))):
        raise FormatError("versions counts %r of %d" % (versions[1], len(p)))
    extra = {"", "version", "versions"} | (set() if old else {"root"})
    if {n: x for n, x in p.items() if n not in extra} != vers:
        diff = sorted(set(p.items()) ^ set(vers.items()))
        raise FormatError("versions differ: %r" % (diff[:6],))
    for n in sorted(set(have) | set(want)):
        one(n, have.get(n), want.get(n), out, sample)


def one(n, a, b, out, sample):
    out.seen((sample["version"], len(b or b""), n[:8]), dict(sample, file=n, bytes=len(b or b"")))
    out.count("files compared")
    if a is None or b is None:
        raise FormatError("file %r %s" % (n, "is missing" if a is None else "does not belong to the version"))
    if a != b:
        raise FormatError("file %r: %d bytes, expected %d" % (n, len(a), len(b)))


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    dep = depot.make(rng, **case["opts"])
    base = os.path.join(d, "rep")
    os.mkdir(base)
    p, data = depot.save(dep, base, case.get("gap", 0))
    files = {"1cv8ddb.1CD": data, "case.txt": repr(case)}
    for n, b in dep.files.items():
        files[n.replace("/", "__")] = b
    o = os.path.join(d, "out")
    os.mkdir(o)
    vs = dep.versions
    todo = list(vs) if len(vs) <= 6 else rng.sample(vs, 6)
    args, where = [], {}
    for v in todo:
        k = rng.random()
        if k < .4:
            arg = v - 0
        else:
            arg = vs.index(v) - (len(vs) - 1)      # 0 is the last, -1 the one before
        if rng.random() < .7:
            q = os.path.join(o, "v%d.cf" % v)
            cmd = ["-drc", str(arg), o]
        else:
            q = os.path.join(o, rng.choice(["cfg%d.cf", "Версия %d.CF"]) % v)
            cmd = ["-drc", str(arg), q]
        if rng.random() < .2:
            tool.write(q, rng.randbytes(70000) if rng.random() < .5 else cf.build([("old", b"x" * 5000)]))
        where[v] = q
        args += cmd
    r = tool.invoke(["-ne", p, "-q"] + args, d)
    if not tool.must_be_clean(r, out, "depot", files):
        return
    if r.rc:
        out.violation("depot:exit", "exit code on a valid repository\n" + tool.describe(r), files)
        return
    sample = {"version": dep.depotver, "format": dep.db.version}
    for v, q in where.items():
        got = tool.read(q)
        out.count("versions dumped")
        out.count("depot version %d" % dep.depotver)
        try:
            if got is None:
                raise FormatError("was not written")
            verify(dep, v, got, out, sample)
        except (FormatError, cf.ContainerError, ValueError, IndexError, KeyError, TypeError) as e:
            out.violation("depot:content", "version %d of %r (repository version %d, configuration %r): %s: %s\n%s" % (
                v, vs, dep.depotver, dep.cversion, type(e).__name__, e, tool.describe(r)[-1500:]),
                dict(files, **{"out.cf": got or b""}))
            return
    extra = set(os.listdir(o)) - {os.path.basename(q) for q in where.values()}
    if extra:
        out.violation("depot:extra", "unexpected files %r" % sorted(extra), files)
    # versions that do not exist
    o2 = os.path.join(d, "none")
    os.mkdir(o2)
    gaps = [x for x in range(1, vs[-1]) if x not in vs]
    bad = rng.choice([vs[-1] + 1, vs[-1] + 1000, -len(vs), -len(vs) - 5] + gaps)
    r = tool.invoke(["-ne", p, "-q", "-drc", str(bad), rng.choice([o2, os.path.join(o2, "x.cf")])], d)
    if not tool.must_be_clean(r, out, "depot:absent", files):
        return
    out.count("absent versions asked for")
    out.seen(("absent", bad, tuple(vs)))
    if r.rc == 0:
        out.violation("depot:absent", "version %d of %r does not exist, exit code 0\n%s" % (bad, vs, tool.describe(r)), files)
    if os.listdir(o2):
        out.violation("depot:absent:file", "version %d of %r does not exist, but a file was written" % (bad, vs), files)


def main():
    c = fw.Check("C08", rule="a case is one generated repository database with its object, pack and snapshot files; each file of "
                 "each dumped version is one evaluation",
                 assumptions=["the records of HISTORY without data and not marked removed leave the object as it was",
                              "an external file whose record has no data is the one stored before under the same name"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, gap=0, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, gap=gap, opts=kw))
    for v in (3, 5, 6, 7):
        add(c.n(60, 800), dver=v)
        add(c.n(8, 60), dver=v, big=True, nobj=8)
        add(c.n(6, 40), dver=v, nobj=30, nver=14)
    add(c.n(2, 10), dver=5, nobj=400, nver=5)
    add(c.n(2, 10), dver=7, nobj=300, nver=5)
    add(c.n(20, 200), dver=3, version="8.0.5")
    for v in (6, 7):                # pack files larger than 4 GB (sparse)
        add(c.n(5, 40), dver=v, gap=5 << 30)
    c.map(run_case, cases)
    c.finish(min_evals=500, require=["files compared", "versions dumped", "snapshots used", "absent versions asked for"])
