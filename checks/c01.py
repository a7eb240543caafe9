"""C01: XML export fidelity."""
import os
import random

import fw
import gen
import tool
import sparse
import xmlm
from db1cd import Database, DELETED, Field, Table

TYPES = ["B", "L", "N", "NC", "NVC", "NT", "T", "I", "DT", "VB"]


def make(case):
    kind, seed = case["kind"], case["seed"]
    rng = random.Random(seed)
    db = gen.database(rng, case.get("version"), case.get("ps"), case.get("layout"))
    if kind == "mixed":
        for i in range(rng.randint(2, 5)):
            t = gen.table(rng, "_TAB%d" % i, big=case.get("big", 0))
            if rng.random() < 0.3:
                gen.add_index(rng, t, "IX", False)
            if rng.random() < 0.3:
                gen.add_index(rng, t, "PK", True)
            db.add(t)
    elif kind == "types":     # one table per field type, with and without null
        for i, ty in enumerate(TYPES):
            for null in (False, True):
                fs = [gen.field(rng, "_F%d_%d" % (i, k), ty, null) for k in range(rng.randint(1, 3))]
                t = Table("_T_%s_%d" % (ty, null), fs, recordlock=rng.random() < .3)
                n = rng.choice([1, 8, 20])
                t.rows = [DELETED] + [{f.name: gen.value(rng, f) for f in t.all_fields()} for _ in range(n)]
                db.add(t)
    elif kind == "versions":   # version columns in every place
        for i in range(6):
            fs = [gen.field(rng, "_A%d" % k) for k in range(3)]
            if i % 3:
                fs.insert(rng.randint(0, 3), Field("_VERSION", "RV"))
            t = Table("_V%d" % i, fs, recordlock=bool(i & 1) or i == 0)
            t.rows = [{f.name: gen.value(rng, f) for f in t.all_fields()} for _ in range(12)]
            db.add(t)
    elif kind == "numbers":   # every length x precision
        fs = []
        for ln in range(1, 39):
            fs.append(Field("_N%d" % ln, "N", ln, rng.randint(0, ln), rng.random() < .2))
        t = Table("_NUM", fs)
        t.rows = [{f.name: gen.value(rng, f) for f in fs} for _ in range(15)]
        db.add(t)
    elif kind == "many":      # many records, many pages
        fs = [Field("_K", "N", 9), Field("_S", "NVC", rng.randint(10, 60)), Field("_D", "DT", null=True)]
        t = Table("_BIG", fs)
        n = case.get("rows", 3000)
        t.rows = []
        for k in range(n):
            if rng.random() < .1:
                t.rows.append(DELETED)
            t.rows.append({f.name: gen.value(rng, f) for f in fs})
        db.add(t)
        db.add(gen.table(rng, "_SMALL"))
    elif kind == "huge":      # storages with a two-level page table, records that cross its borders
        fs = [Field("_K", "N", 9), Field("_S", "NC", rng.randint(1200, 1500)), Field("_D", "DT", null=True),
              Field("_I", "I", null=True)]
        t = Table("_HUGE", fs, recordlock=rng.random() < .5)
        t.rows = []
        for k in range(case["bytes"] // 2400 + 50):
            if rng.random() < .02:
                t.rows.append(DELETED)
            s = "".join(c for c in gen.text(rng, 20) if ord(c) < 0x10000) + str(k)
            t.rows.append({"_K": str(k), "_S": (s * 99)[:1190], "_D": gen.value(rng, fs[2]), "VERSION": (k, k),
                           "_I": rng.randbytes(rng.choice([0, 3, 900, 2500]))})
        db.add(t)
    elif kind == "bigblob":   # values of more than 65536 blocks
        t = Table("_BIGBLOB", [Field("_K", "N", 9), Field("_T", "T"), Field("_I", "I")])
        t.rows = [{"_K": str(k), "_T": "x" * (n // 9), "_I": rng.randbytes(n)}
                  for k, n in enumerate([0x10000 * 250 + rng.randint(1, 700), 77])]
        db.add(t)
    elif kind == "wide":      # records longer than a page
        fs = [gen.field(rng, "_W%d" % k, rng.choice(["NVC", "B", "NC", "N", "L"])) for k in range(40)]
        t = Table("_WIDE", fs)
        t.rows = [{f.name: gen.value(rng, f) for f in fs} for _ in range(25)]
        db.add(t)
    elif kind == "blobs":     # long blobs
        fs = [Field("_K", "N", 9), Field("_I", "I", null=True), Field("_T", "T"), Field("_M", "NT", null=True)]
        t = Table("_BLB", fs)
        t.blob_shuffle = random.Random(seed + 1) if rng.random() < .5 else None
        t.rows = [DELETED] + [{f.name: gen.value(rng, f, big=case.get("big", 60000)) for f in fs} for _ in range(20)]
        db.add(t)
    elif kind == "edge":      # edge tables: no rows, one byte rows, only deleted rows
        db.add(Table("_EMPTY", [Field("_A", "L")]))
        t = Table("_ONE", [Field("_A", "L")])
        t.rows = [DELETED, {"_A": True}, DELETED, {"_A": False}]
        db.add(t)
        t = Table("_ALLDEL", [Field("_A", "NVC", 5)])
        t.rows = [DELETED] * 5
        db.add(t)
        t = Table("_NULLS", [gen.field(rng, "_N%d" % k, ty, True) for k, ty in enumerate(TYPES)])
        t.rows = [{f.name: None for f in t.fields}] * 2 + [{f.name: gen.value(rng, f) for f in t.fields}]
        db.add(t)
        t = Table("_LOCKONLY", [Field("_A", "L")], recordlock=True)
        t.rows = [{"_A": True, "VERSION": (1, 2)}]
        db.add(t)
    return db, rng


def run_case(case, d, out):
    db, rng = make(case)
    data = db.build()
    p = os.path.join(d, "base.1CD")
    tool.write(p, data)
    o = os.path.join(d, "x")
    os.mkdir(o)
    if rng.random() < 0.7:
        args = ["-ne", p, "-q", "-eax", o]
    else:
        args = ["-ne", p, "-q", "-ex", o, ",".join(t.name for t in db.tables)]
    r = tool.invoke(args, d, timeout=case.get("timeout", 60))
    sig = "xml:%s" % case["kind"]
    files = {"base.1CD": data, "case.txt": repr(case)}
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc != 0:
        out.violation(sig + ":exit", "valid database, but exit code %s\n%s" % (r.rc, tool.describe(r)), files)
        return
    have = tool.tree(o)
    want = {t.name + ".xml" for t in db.tables}
    if set(have) != want:
        out.violation(sig + ":files", "files %r instead of %r" % (sorted(have), sorted(want)), files)
        return
    for t in db.tables:
        msg = xmlm.compare(t, have[t.name + ".xml"])
        nlive = len(t.live())
        out.seen((db.version, db.ps, db.layout, [(f.type, f.length, f.prec, f.null) for f in t.all_fields()], nlive),
                 {"version": db.version, "page": db.ps, "table": t.name, "fields": [f.descr() for f in t.fields][:4],
                  "records": nlive})
        out.count("records compared", nlive)
        out.count("field values compared", nlive * len(t.all_fields()))
        if msg:
            out.violation(sig, msg + "\ncase %r" % (case,), dict(files, **{t.name + ".xml": have[t.name + ".xml"]}))
            return


def run_sparse(case, d, out):
    """values beyond 2 and 4 GB of the BLOB storage; the rest of the storage is a hole"""
    rng = random.Random(case["seed"])
    db = gen.database(rng, "8.3.8", 65536, "seq")
    db.spare_pages = 0
    fs = [Field("_K", "N", 9), Field("_S", "NC", rng.randint(100, 900)), Field("_I", "I", null=True), Field("_T", "NT")]
    t = Table("_SPARSE", fs, recordlock=rng.random() < .5)
    for k in range(9):
        r = {f.name: gen.value(rng, f) for f in t.all_fields()}
        r["_I"] = rng.randbytes(rng.choice([1, 700, 3000]))
        t.rows.append(r)
    t.blob_base = (case["at"] + rng.choice([0, 256, 65536])) >> 8
    gen.add_index(rng, t, "PK", True)
    db.add(t)
    small = gen.table(rng, "_SMALL")
    db.add(small)
    data = db.build()
    sp = sparse.Sparse(db, data)
    obj = db.table_obj["_SPARSE"]
    sp.grow(obj[1], t.blob_base * 256 + len(t.blob), t.blob_base * 256, t.blob)
    p = os.path.join(d, "base.1CD")
    sp.save(p)
    o = os.path.join(d, "x")
    os.mkdir(o)
    r = tool.invoke(["-ne", p, "-q", "-eax", o], d, timeout=100)
    files = {"case.txt": repr(case)}
    if not tool.must_be_clean(r, out, "xml:sparse", files):
        return
    for x in (t, small):
        f = tool.read(os.path.join(o, x.name + ".xml"))
        msg = "no file\n" + tool.describe(r) if f is None or r.rc else xmlm.compare(x, f)
        out.seen((x.name, case["at"], case["seed"]), {"BLOB offset": case["at"], "records": len(x.live())})
        out.count("records with values beyond 2 GB" if x is t else "records compared", len(x.live()))
        if msg:
            out.violation("xml:sparse", msg + "\ncase %r" % (case,), files)
            return


def main():
    c = fw.Check("C01", rule="a case is one generated database (version x page size x page placement x schema x rows); "
                 "each table exported is one evaluation, distinct by schema, record count, version and layout; "
                 "deleted records, nulls and empty values are always mixed in",
                 assumptions=["XML 1.0 cannot represent control characters, so generated texts contain none",
                              "years are compared as numbers (zero padding is not specified)"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(kind, cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(kind=kind, seed=base + k, **kw))
    m = c.n(4, 60)
    for v in gen.ALL_VERSIONS:
        for kind in ("mixed", "types", "versions", "edge", "numbers"):
            if v != "8.3.8":
                add(kind, 1 * m, version=v)
    for ps in gen.PAGESIZES:
        for kind in ("mixed", "types", "versions", "edge", "numbers", "wide", "blobs"):
            add(kind, 1 * m, version="8.3.8", ps=ps)
    add("wide", 2 * m, version="8.2.14")
    add("blobs", 3 * m, version="8.2.14")
    add("mixed", 25 * m)
    add("many", 1 * m, rows=2500, version="8.2.14")
    add("many", 1 * m, rows=2500, version="8.3.8", ps=4096)
    add("bigblob", 1, version="8.3.8", ps=8192, timeout=200)
    add("huge", 1, bytes=4300000, version="8.2.14", timeout=200)
    add("huge", 1, bytes=4300000, version="8.3.8", ps=4096, timeout=200)
    if c.thorough:
        add("huge", 4, bytes=12000000, version="8.2.14", timeout=600)
        add("huge", 4, bytes=12000000, version="8.3.8", ps=4096, timeout=600)
        add("huge", 1, bytes=18000000, version="8.3.8", ps=8192, timeout=600)
        add("many", 4, rows=40000)
        add("blobs", 4, big=2000000, timeout=300)
    c.map(run_case, cases)
    c.map(run_sparse, [{"seed": base + 800001 + i, "at": a} for i, a in enumerate(
        [0x7ffff000, 0x80000000, 0xfffff000, 0x100000000, 0x1c0000000] * c.n(1, 6))])
    c.finish(min_evals=100, require=["records compared"])
