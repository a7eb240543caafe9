"""C24: the cost of a run grows in proportion to the data: instructions counted (cachegrind) for series of valid inputs of doubling size."""
import base64
import hashlib
import os
import random
import re
import shutil
import subprocess

import build
import c07
import cf
import cfggen
import depot
import fw
import gen
import iomon
import run as _run
import tool
from db1cd import Field, IndexDef, Table

VALGRIND = "/usr/bin/valgrind"


def words(rng, n):
    return "".join(rng.choice("абвгд <>&\"'\nxyz0123456789_,;{}") for _ in range(n))


def stub(version="8.3.8", ps=4096, rng=None):
    return gen.database(rng or random.Random(1), version, ps, layout="seq")


def data_table(rng, name, n, kinds=("NVC", "N", "B", "DT", "L")):
    fs = []
    for i, k in enumerate(kinds):
        fs.append({"NVC": Field("_F%d" % i, "NVC", 20), "N": Field("_F%d" % i, "N", 10, prec=2), "B": Field("_F%d" % i, "B", 16), "DT": Field("_F%d" % i, "DT"),
                   "L": Field("_F%d" % i, "L"), "NT": Field("_F%d" % i, "NT"), "I": Field("_F%d" % i, "I")}[k])
    t = Table(name, fs)
    t.rows = []
    for i in range(n):
        r = {}
        for f in fs:
            r[f.name] = gen.value(rng, f) if f.type not in ("NT", "I") else (words(rng, 30) if f.type == "NT" else rng.randbytes(30))
        t.rows.append(r)
    return t


def saved(db, d, name="1Cv8.1CD"):
    p = os.path.join(d, name)
    tool.write(p, db.build())
    return p


def rows(k, d, rng, o, **kw):
    db = stub(kw.get("version", "8.3.8"))
    t = data_table(rng, "_T", k * 300, kw.get("kinds", ("NVC", "N", "B", "DT", "L")))
    if kw.get("index"):
        gen.add_index(rng, t, "IX", True)
    db.add(t)
    return [[saved(db, d)] + kw.get("cmd", ["-eax", o])]


def value(k, d, rng, o, kind="NT", cmd=(), version="8.3.8"):
    db = stub(version)
    t = data_table(rng, "_T", 1, (kind,))
    t.rows[0]["_F0"] = words(rng, k * 8000) if kind == "NT" else rng.randbytes(k * 30000)
    db.add(t)
    return [[saved(db, d), "-eax", o] + list(cmd)]


def tables(k, d, rng, o, cmd=None, indexes=0):
    db = stub()
    for i in range(k * 20):
        t = data_table(rng, "_T%d" % i, 2, ("NVC", "NT"))
        for j in range(indexes):
            gen.add_index(rng, t, "IX%d" % j, j == 0)
        db.add(t)
    p = saved(db, d)
    if cmd == "ib":
        imp = os.path.join(d, "imp")
        os.mkdir(imp)
        tool.invoke([p, "-eb", imp, "*"], d, binary=PLAIN)
        return [[p, "-ib", imp, "*"]]
    return [[p] + [x.replace("%o", o) for x in cmd or ["-eax", "%o"]]]


def fields(k, d, rng, o):
    db = stub()
    t = Table("_T", [Field("_F%d" % i, "NVC", 3) for i in range(k * 25)])
    t.rows = [{f.name: "аб" for f in t.fields} for _ in range(3)]
    db.add(t)
    return [[saved(db, d), "-eax", o]]


def bigimport(k, d, rng, o, version="8.3.8", image=False):
    db = stub(version)
    t = data_table(rng, "_T", 1 if image else k * 300, ("NVC", "I") if image else ("NVC", "NT"))
    if image:
        t.rows[0]["_F1"] = rng.randbytes(k * 100000)
    db.add(t)
    p = saved(db, d)
    imp = os.path.join(d, "imp")
    os.mkdir(imp)
    tool.invoke([p, "-eb", imp, "*"], d, binary=PLAIN)
    return [[p, "-ib", imp, "*"]]


def infobase(files, save=None, extra=None):
    db = stub()
    for tname in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"):
        t = gen.config_table(tname, [])
        src = {"CONFIG": files, "CONFIGSAVE": save or {}}.get(tname) or {}
        t.rows = cfggen.rows_for(random.Random(3), src, True, part_max=None, deleted=0, shuffle=False)
        db.add(t)
    return db


def guids(rng, n):
    return [cfggen.guid(rng) for _ in range(n)]


def config_files(k, d, rng, o, cmd="-ddc", where="base"):
    names = guids(rng, k * 60)
    files = {n: cf.deflate(rng.randbytes(20)) for n in names}
    save = {}
    if where == "save":
        save, files = files, {n: cf.deflate(rng.randbytes(20)) for n in guids(rng, 2)}
    elif where == "deleted":
        save = {"deleted": cf.deflate(("\ufeff{1,%d%s}" % (len(names), "".join("," + n for n in names))).encode())}
    elif where == "dyn":
        u = guids(rng, 1)[0]
        files.update({n + "_dynupdate_" + u: cf.deflate(rng.randbytes(20)) for n in names})
        files["DynamicallyUpdated"] = ("\ufeff{1,1,%s}" % u).encode()
    elif where == "updates":
        us = guids(rng, k * 20)
        for u in us:
            files[names[0] + "_dynupdate_" + u] = cf.deflate(rng.randbytes(20))
        files = {n: v for i, (n, v) in enumerate(files.items()) if i < 1 or "_dyn" in n}
        files["DynamicallyUpdated"] = ("\ufeff{1,%d%s}" % (len(us), "".join("," + u for u in us))).encode()
    return [[saved(infobase(files, save), d), cmd, os.path.join(o, "x.cf")]]


def config_size(k, d, rng, o, cmd="-ddc", parts=1):
    n = cfggen.guid(rng)
    data = cf.deflate(rng.randbytes(k * 20000))
    db = infobase({n: data})
    if parts:
        t = next(t for t in db.tables if t.name == "CONFIG")
        m = max(1, k * parts)
        r = next(x for x in t.rows if isinstance(x, dict))
        cuts = [len(data) * i // m for i in range(m + 1)]
        t.rows = [dict(r, PARTNO=str(i), DATASIZE=str(cuts[i + 1] - cuts[i]), BINARYDATA=data[cuts[i]:cuts[i + 1]]) for i in range(m)]
    return [[saved(db, d), cmd, os.path.join(o, "x.cf")]]


def repo(k, d, rng, o, what="objects", cmd="-drc", dver=6):
    kw = {"objects": dict(nobj=k * 12, nver=2), "versions": dict(nobj=4, nver=k * 15), "packs": dict(nobj=k * 6, nver=2, others=k * 3000)}[what]
    jobs = []
    for i in range(1 if what == "packs" else 4):
        w = os.path.join(d, "r%d" % i)
        os.mkdir(w)
        dep = depot.make(rng, dver=dver, ps=4096, version="8.2.14" if dver < 6 else "8.3.8", snapshots=False, cversions=[(216, 0)], gaps=False,
                         maxext=2, plain=300, npack=2, **kw)
        p = depot.save(dep, w)[0]
        last = dep.versions[-1]
        jobs.append([p, "-drc", str(last), os.path.join(o, "x%d.cf" % i)] if cmd == "-drc" else [p, "-dpc", "%d:%d" % (dep.versions[0], last), os.path.join(o, "x%d" % i)])
    return jobs


def vendor(k, d, rng, o, what="files"):
    db = stub()
    rows_ = {}
    if what == "count":
        for i in range(k * 3):
            rows_[cfggen.guid(rng) + "." + cfggen.guid(rng)] = cf.deflate(cf.deflate(c07.vendor(random.Random(7), "П", "1.%d" % i)))
    else:
        fixed = random.Random(11)
        while True:
            v = c07.vendor(fixed, "П", "1")
            c = cf.Container(v).as_dict()
            if "root" in c:
                break
        c = [(n, x) for n, x in c.items()] + [(g, rng.randbytes(40 if what == "files" else 1)) for g in guids(rng, k * 60)]
        rows_[cfggen.guid(rng) + "." + cfggen.guid(rng)] = cf.deflate(cf.deflate(cf.build(c)))
    return [[saved(infobase(rows_), d), "-dvc", o]]


def lost(k, d, rng, o):
    db = stub()
    db.add(data_table(rng, "_T", 3))
    for _ in range(k * 40):
        db.lost.append((rng.randbytes(100), {}))
    return [[saved(db, d), "-slo", o]]


def free_pages(k, d, rng, o, cmd):
    db = stub()
    db.spare = k * 200
    t = data_table(rng, "_T", 300, ("NVC", "NT"))
    db.add(t)
    p = saved(db, d)
    if cmd != "ib":
        return [[p, cmd, o]]
    big = stub()
    t = data_table(rng, "_T", k * 300, ("NVC", "NT"))
    big.add(t)
    imp = os.path.join(d, "imp")
    os.mkdir(imp)
    tool.invoke([saved(big, d, "big.1CD"), "-eb", imp, "*"], d, binary=PLAIN)
    return [[p, "-ib", imp, "*"]]


def snapshots(k, d, rng, o):
    """several commands in one run"""
    db = stub()
    db.add(data_table(rng, "_T", 30))
    p = saved(db, d)
    a = [p]
    for i in range(k * 4):
        os.mkdir(os.path.join(o, "o%d" % i))
        a += ["-ex", os.path.join(o, "o%d" % i), "*"]
    return [a]


def lost_size(k, d, rng, o):
    db = stub()
    db.add(data_table(rng, "_T", 3))
    db.lost.append((rng.randbytes(k * 300000), {}))
    return [[saved(db, d), "-slo", o]]


def supplier(k, d, rng, o):
    db = stub("8.2.14")
    db.add(data_table(rng, "_T", k * 300))
    return [[saved(db, d), "-eax", o]]


class Session(str):
    """lines for a driver"""

    def __new__(cls, drv, text):
        s = super().__new__(cls, text if isinstance(text, str) else text.decode("latin-1"))
        s.drv, s.raw = drv, text.encode() if isinstance(text, str) else text
        return s


def hx(x):
    return x.encode().hex()


def container(k, d, rng, o, what="create", ext=".cf"):
    c = os.path.join(d, "c" + ext)
    one = os.path.join(d, "one")
    tool.write(one, rng.randbytes(30))
    n = k * 40
    names = ["name%07d" % i for i in range(n)]
    rng.shuffle(names)
    L = []
    if what == "create":
        L = ["open\t%s\tauto" % c] + ["write\t%s\t%s" % (hx(x), one) for x in names] + ["close"]
    elif what in ("read", "delete", "todir", "rename"):
        tool.write(c, cf.build([(x, cf.deflate(b"x" * 30)) for x in names]))
        L = ["open\t%s\tauto" % c]
        if what == "read":
            L += ["read\t%s\t%s" % (hx(x), one) for x in rng.sample(names, n)]
        elif what == "delete":
            L += ["delete\t%s" % hx(x) for x in rng.sample(names, n)]
        elif what == "rename":
            L += ["rename\t%s\t%s" % (hx(x), hx("n" + x)) for x in rng.sample(names, n)]
        else:
            L += ["todir\t-\t%s" % o]
        L += ["close"]
    elif what == "grow":            # one file of many small pieces
        L = ["open\t%s\tauto" % c, "write\t%s\t%s" % (hx("a"), one)]
        L += ["writeat\t%s\t%d\t%s" % (hx("a"), i * 30, one) for i in range(n)] + ["close"]
    elif what == "size":
        tool.write(one, rng.randbytes(k * 30000))
        L = ["open\t%s\tauto" % c, "write\t%s\t%s" % (hx("a"), one), "close", "open\t%s\tauto" % c,
             "read\t%s\t%s" % (hx("a"), os.path.join(o, "x")), "close"]
    elif what == "again":           # one file rewritten
        L = ["open\t%s\tauto" % c] + ["write\t%s\t%s" % (hx("a"), one)] * n + ["close"]
    elif what == "deep":            # catalogs in one another
        m = k * 3
        L = ["open\t%s\tauto" % c] + ["mkcat\t%s" % "/".join([hx("c")] * (i + 1)) for i in range(m)] + ["close"]
    return [Session("contdrv", "\n".join(L) + "\n")]


def tree(k, d, rng, o, shape="flat", cmd="roundtext"):
    n = k * 800
    if shape == "flat":
        b = b"{" + b",".join(b"%d" % (i % 1000) for i in range(n)) + b"}"
    elif shape == "strings":
        b = b"{" + b",".join(b'"a""b"' for i in range(n)) + b"}"
    elif shape == "groups":
        b = b"{" + b",\r\n".join(b"{1,{2}}" for i in range(n // 2)) + b"}"
    elif shape == "string":
        b = b'{"' + b'ab""' * n + b'"}'
    elif shape == "deep":
        b = b"{1," * (k * 30) + b"{0}" + b"}" * (k * 30)
    elif shape == "base64":
        b = b"{#base64:" + b"QUJD" * n + b"}"
    return [Session("treedrv", b"%s %d\n%s\n" % (cmd.encode(), len(b), b))]


def conv(k, d, rng, o, cmd="deflate"):
    data = (words(rng, k * 3000)).encode()
    head = cmd
    if cmd == "inflate":
        data = cf.deflate(data)
    elif cmd.startswith("b64dec"):
        data = base64.b64encode(data)
    elif cmd == "utf16":
        pass
    return [Session("convdrv", CONV(head, data))]


def directory(k, d, rng, o):
    """extensions: the storages of many files, each asked for by name"""
    c = os.path.join(d, "c.cf")
    n = k * 40
    names = ["name%07d" % i for i in range(n)]
    tool.write(c, cf.build([(x, cf.deflate(b"x" * 30)) for x in names]))
    L = ["cfg\tcf\t%s" % c] + ["read\t%s\t%s" % (x, os.path.join(o, "x")) for x in rng.sample(names, n)]
    return [Session("confdrv", "\n".join(L) + "\n")]


def storage(k, d, rng, o):
    names = guids(rng, k * 40)
    p = saved(infobase({n: cf.deflate(rng.randbytes(20)) for n in names}), d)
    L = ["open\t%s" % p, "cfg\tconfig"] + ["read\t%s\t%s" % (x, os.path.join(o, "x")) for x in rng.sample(names, len(names))]
    return [Session("confdrv", "\n".join(L) + "\n")]


def extension(k, d, rng, o, how="read"):
    names = guids(rng, k * 50)
    cas, entries = {}, []
    for n in names:
        x = cf.deflate(rng.randbytes(20))
        h = hashlib.sha1(x).digest()
        cas[h.hex()] = x
        entries.append(',"%s",%s' % (n, base64.b64encode(h).decode()))
    info = cf.deflate(b"\xef\xbb\xbf" + ("{0,\r\n{216,0,\r\n{80310,0}\r\n}\r\n},\r\n{2,%s,%s},\r\n{%d%s}" % (
        cfggen.guid(rng), base64.b64encode(rng.randbytes(20)).decode(), len(names), "".join(entries))).encode())
    ver = hashlib.sha1(info).hexdigest()
    cas[ver] = info
    db = infobase({})
    for name, src in (("CONFIGCAS", cas), ("CONFIGCASSAVE", {})):
        t = gen.config_table(name, [])
        t.rows = cfggen.rows_for(random.Random(3), src, True, part_max=None, deleted=0, shuffle=False)
        db.add(t)
    p = saved(db, d)
    L = ["open\t%s" % p]
    if how == "read":
        L += ["cfg\tcas\t%s" % ver] + ["read\t%s\t%s" % (x, os.path.join(o, "x")) for x in rng.sample(names, len(names))]
    else:
        L += ["extdb\t%s\t%s" % (os.path.join(o, "x.cfe"), ver)]
    return [Session("confdrv", "\n".join(L) + "\n")]


DIMS = {
    "files of an extension, by name": lambda *a: extension(*a),
    "files of an extension": lambda k, d, r, o: extension(k, d, r, o, "dump"),
    "rows": lambda *a: rows(*a),
    "rows 8.0": lambda *a: rows(*a, version="8.0.5"),
    "rows by index": lambda *a: rows(*a, index=True),
    "texts": lambda *a: rows(*a, kinds=("NT", "NVC")),
    "images": lambda *a: rows(*a, kinds=("I", "NVC")),
    "images to files": lambda k, d, r, o: rows(k, d, r, o, kinds=("I", "NVC"), cmd=["-eax", o, "-bf", "yes"]),
    "long text": lambda *a: value(*a, kind="NT"),
    "long image": lambda *a: value(*a, kind="I"),
    "long image to file": lambda k, d, r, o: value(k, d, r, o, "I", ["-bf", "yes"]),
    "tables": lambda *a: tables(*a),
    "tables by name": lambda k, d, r, o: tables(k, d, r, o, ["-ex", "%o", "*5*"]),
    "table sizes": lambda k, d, r, o: tables(k, d, r, o, ["-sts", "%o/sts.txt"]),
    "lost objects, tables": lambda k, d, r, o: tables(k, d, r, o, ["-slo", "%o"], 1),
    "storages of tables": lambda k, d, r, o: tables(k, d, r, o, ["-eb", "%o", "*"], 2),
    "import of tables": lambda k, d, r, o: tables(k, d, r, o, "ib", 1),
    "import of rows": lambda *a: bigimport(*a),
    "fields": lambda *a: fields(*a),
    "files of the database configuration": lambda *a: config_files(*a),
    "files of the main configuration": lambda k, d, r, o: config_files(k, d, r, o, "-dc"),
    "edited files": lambda k, d, r, o: config_files(k, d, r, o, "-dc", "save"),
    "deleted files": lambda k, d, r, o: config_files(k, d, r, o, "-dc", "deleted"),
    "updated files": lambda k, d, r, o: config_files(k, d, r, o, "-ddc", "dyn"),
    "updates": lambda k, d, r, o: config_files(k, d, r, o, "-ddc", "updates"),
    "length of a configuration file": lambda *a: config_size(*a),
    "parts of a configuration file": lambda k, d, r, o: config_size(k, d, r, o, "-dc", 4),
    "repository objects 5": lambda k, d, r, o: repo(k, d, r, o, "objects", "-drc", 5),
    "repository objects": lambda k, d, r, o: repo(k, d, r, o, "objects", "-drc", 6),
    "repository versions": lambda k, d, r, o: repo(k, d, r, o, "versions", "-drc", 6),
    "contents in the packs of a repository": lambda k, d, r, o: repo(k, d, r, o, "packs", "-drc", 7),
    "objects of a range": lambda k, d, r, o: repo(k, d, r, o, "objects", "-dpc", 6),
    "versions of a range": lambda k, d, r, o: repo(k, d, r, o, "versions", "-dpc", 6),
    "files of a vendor configuration": lambda *a: vendor(*a),
    "free pages, lost objects": lambda k, d, r, o: free_pages(k, d, r, o, "-slo"),
    "free pages, import": lambda k, d, r, o: free_pages(k, d, r, o, "ib"),
    "commands of a run": lambda *a: snapshots(*a),
    "import of rows, 8.2": lambda k, d, r, o: bigimport(k, d, r, o, "8.2.14"),
    "import of an image": lambda k, d, r, o: bigimport(k, d, r, o, "8.3.8", True),
    "long text, 8.2": lambda k, d, r, o: value(k, d, r, o, "NT", (), "8.2.14"),
    "lost objects": lambda *a: lost(*a),
    "length of a lost object": lambda *a: lost_size(*a),
    "rows 8.2": lambda *a: supplier(*a),
    "storage of a configuration, by name": lambda *a: storage(*a),
    "container, by name": lambda *a: directory(*a),
    "container: new files": lambda *a: container(*a),
    "container: files read": lambda k, d, r, o: container(k, d, r, o, "read"),
    "container: files renamed": lambda k, d, r, o: container(k, d, r, o, "rename"),
    "container: files to a directory": lambda k, d, r, o: container(k, d, r, o, "todir"),
    "container: a file growing": lambda k, d, r, o: container(k, d, r, o, "grow"),
    "container: length of a file": lambda k, d, r, o: container(k, d, r, o, "size"),
    "container: a file written again": lambda k, d, r, o: container(k, d, r, o, "again"),
    "text of values": lambda k, d, r, o: tree(k, d, r, o, "flat"),
    "text of values, as a stream": lambda k, d, r, o: tree(k, d, r, o, "flat", "stream"),
    "text of strings": lambda k, d, r, o: tree(k, d, r, o, "strings"),
    "text of groups": lambda k, d, r, o: tree(k, d, r, o, "groups"),
    "text of one string": lambda k, d, r, o: tree(k, d, r, o, "string"),
    "text of one string, as a stream": lambda k, d, r, o: tree(k, d, r, o, "string", "stream"),
    "text of one base64 value": lambda k, d, r, o: tree(k, d, r, o, "base64"),
    "text, nested": lambda k, d, r, o: tree(k, d, r, o, "deep", "stream"),
    "text, nested, written": lambda k, d, r, o: tree(k, d, r, o, "deep"),
    "compression": lambda k, d, r, o: conv(k, d, r, o, "deflate 0"),
    "decompression": lambda k, d, r, o: conv(k, d, r, o, "inflate 0"),
    "base64 written": lambda k, d, r, o: conv(k, d, r, o, "b64enc 76"),
    "base64 read": lambda k, d, r, o: conv(k, d, r, o, "b64dec text:0"),
    "base64 read from a stream": lambda k, d, r, o: conv(k, d, r, o, "b64dec stream:0"),
    "hex": lambda k, d, r, o: conv(k, d, r, o, "hex -"),
    "UTF-8": lambda k, d, r, o: conv(k, d, r, o, "utf8 0"),
    "UTF-16": lambda k, d, r, o: conv(k, d, r, o, "utf16 0"),
    "letter case": lambda k, d, r, o: conv(k, d, r, o, "case -"),
    "XML text": lambda k, d, r, o: conv(k, d, r, o, "xml -"),
    "vendor configurations": lambda k, d, r, o: vendor(k, d, r, o, "count"),
}
PLAIN = None
CONV = lambda head, data: head.encode() + b" %d\n" % len(data) + data + b"\n"
SIZES = (4, 8, 16)
LIMIT = 2.9
METRICS = ("instructions", "bytes read and written", "system calls", "peak memory in kilobytes")
FLOOR = (3000000, 400000, 200, 6000)      # a growth below this is noise


# how many times larger the inputs are whose peak memory is looked at
MEMORY = {"rows": 6, "texts": 6, "images": 6, "images to files": 6, "long text": 40, "long image": 40, "long image to file": 40, "import of rows": 6, "tables": 3,
          "storages of tables": 3, "files of the database configuration": 6, "files of the main configuration": 6,
          "length of a configuration file": 40, "length of a lost object": 10, "lost objects": 10, "container: length of a file": 20, "container: new files": 10,
          "container: files read": 10, "text of values": 20, "text of one string": 80, "decompression": 100, "base64 read": 100, "hex": 100, "UTF-8": 50,
          "files of a vendor configuration": 6}
SLOW = ("rows", "repository versions", "repository objects", "repository objects 5", "versions of a range", "objects of a range", "updated files", "rows by index",
        "texts", "images", "images to files")


def binary(job):
    return build.driver(job.drv, san=False) if isinstance(job, Session) else PLAIN


def measure(job, d, n):
    """runs the job twice: under cachegrind, and natively under the system call monitor; the second run gets a fresh output"""
    session = isinstance(job, Session)
    cmd = [binary(job)] + ([] if session else list(job) + ["-q"])
    cg = os.path.join(d, "cg.txt")
    r = _run.run([VALGRIND, "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--vgdb=no", "--log-file=" + cg] + cmd, cwd=d,
                 timeout=500, tmp=os.path.join(d, "tmp"), retry_timeout=False, stdin=job.raw if session else None)
    if r.timeout or r.rc:
        return None, r
    m = re.search(r"I\s+refs:\s+([\d,]+)", tool.read(cg).decode("utf-8", "replace"))
    return (int(m.group(1).replace(",", "")) if m else None), r


def native(job, d, tag):
    session = isinstance(job, Session)
    log = os.path.join(d, "io.txt")
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TMPDIR": os.path.join(d, "tmp")}
    e.update(iomon.env(log), IOMON_PEAK="1")
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    if session:
        tool.write(os.path.join(d, "in.txt"), job.raw)
    with open(os.path.join(d, "in.txt") if session else os.devnull, "rb") as fin, open(os.devnull, "wb") as null:
        p = subprocess.Popen([binary(job)] + ([] if session else list(job) + ["-q"]), cwd=d, env=e, stdin=fin, stdout=null, stderr=null)
        p.wait(500)
    ev = [x for x in iomon.events(log) if not x.path.endswith(("in.txt",))]
    return sum(x.res for x in ev if x.op in ("read", "write") and x.res > 0), len(ev), max([x.res for x in ev if x.op == "peak"] or [0]), p.returncode


def series(dim, seed, sizes, d, out, show=False):
    """the four costs at every size, None when a run failed (which is reported)"""
    got = [[], [], [], []]
    for k in sizes:
        totals = [0, 0, 0, 0]
        for way in (0, 1, 2):
            if way == 2 and dim not in MEMORY:
                continue
            size = k * MEMORY[dim] if way == 2 else k
            w = os.path.join(d, "k%d" % k)
            o = os.path.join(w, "o")
            os.makedirs(o)
            rng = random.Random("%s %s %d" % (dim, seed, k))
            for job in DIMS[dim](size, w, rng, o):
                if way == 0:
                    n, r = measure(job, w, 0)
                    if n is None:
                        out.violation("cost:run", "%s, %d: exit %s%s\n%s" % (dim, size, r.rc, " after 500 s" if r.timeout else "", tool.describe(r)))
                        return None
                    totals[0] += n
                    out.count("runs under cachegrind")
                else:
                    b, calls, rss, rc = native(job, w, size)
                    if rc:
                        out.violation("cost:run", "%s, %d: exit %s" % (dim, size, rc))
                        return None
                    if way == 1:
                        totals[1] += b
                        totals[2] += calls
                        out.count("native runs")
                    else:
                        totals[3] = max(totals[3], rss)
                        out.count("native runs, large")
            shutil.rmtree(w)
        for i in range(4):
            got[i].append(totals[i])
    return got


def ratios(got):
    """how many times the second growth exceeds the first; None where the growth is noise"""
    r = []
    for g, floor in zip(got, FLOOR):
        first, second = g[1] - g[0], g[2] - g[1]
        r.append(second / max(1, first, floor / 2) if second > floor else None)
    return r


def run_case(case, d, out):
    dim, sizes = case["dim"], case["sizes"]
    got = series(dim, case["seed"], sizes, d, out)
    if not got:
        return
    r = ratios(got)
    for m, x in zip(METRICS, r):
        if x is not None:
            out.count("judged: " + m)
    line = ["-" if x is None else "%.2f" % x for x in r]
    out.count("series")
    out.seen((dim, case["seed"], sizes), {"series": dim, "sizes": list(sizes), "instructions": got[0], "growth ratios (instructions, bytes, calls, memory)": line})
    if case.get("show"):
        print("%-40s %-30s %s" % (dim, " ".join("%d" % (g // 10**6) for g in got[0]), " ".join(line)), flush=True)
    bad = [i for i, x in enumerate(r) if x is not None and x > LIMIT]
    for more in (1, 2):          # the contents are random: only what other contents show too is the growth of the cost
        if not bad:
            return
        out.count("series repeated with other contents")
        again = series(dim, "%s+%d" % (case["seed"], more), sizes, d, out)
        if not again:
            return
        q = ratios(again)
        bad = [i for i in bad if q[i] is not None and q[i] > LIMIT]
    for i in bad:
        out.violation("cost:%s" % dim, "%s: %s are %d, %d and %d for sizes %s: the growth is multiplied by %.2f where 2 is proportional and 4 is "
                      "quadratic, and about the same with two other random contents" % (dim, METRICS[i], *got[i], "%d, %d and %d" % tuple(
                          s * (MEMORY[dim] if i == 3 else 1) for s in sizes), r[i]),
                      {"series.txt": ("dimension %s of checks/c24.py, seed %s, sizes %s\n%s\n" % (dim, case["seed"], sizes, got)).encode()})
        return


def main():
    global PLAIN
    c = fw.Check("C24", rule="a case is a series of three valid inputs, each twice the size of the one before in one respect (rows, length, tables, files, versions...); "
                 "instructions are counted by cachegrind, bytes and system calls by the system call monitor, peak memory by the kernel",
                 assumptions=["the cost may be a product where the input is two lists that have nothing to do with each other: tables and the list of names "
                              "given to -ex, -eb or -ib; names of externals one repository object ever had and its rows",
                              "deleting files of a container looks for all files of the name, and is not claimed",
                              "a growth that appears only beyond the sizes used here is not seen"])
    PLAIN = build.cli(san=False)
    build.preload()
    for x in ("contdrv", "treedrv", "convdrv", "confdrv"):
        build.driver(x, san=False)
    only = os.environ.get("DIM")
    cases = []
    for i in range(c.n(1, 6)):
        for x in DIMS:
            if not only or re.search(only, x):
                k = (1, 1, 2, 1, 3, 1)[i]
                cases.append(dict(dim=x, seed=c.seed + i, sizes=tuple(s * k for s in SIZES), show=os.environ.get("SHOW")))
    cases.sort(key=lambda x: x["dim"] not in SLOW)
    c.map(run_case, cases)
    c.finish(55, require=["judged: " + m for m in METRICS])
