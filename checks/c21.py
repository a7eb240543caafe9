"""C21: the table size report is exact."""
import os
import random

import fw
import gen
import sparse
import tool
from db1cd import DELETED, Field, IndexDef, Table


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"), case.get("ps"))
    nt = case.get("tables", rng.randint(1, 12))
    for i in range(nt):
        name = rng.choice(["_T%d", "Reference%d", "_DocumentJournal%d", "_Таблица%d", "x%d"]) % i
        t = gen.table(rng, name)
        r = rng.random()
        if r < .15:
            t = Table(name, [Field("_A", "B", 7)])
            n = rng.choice([0, 1, db.ps // 8, db.ps // 8 + 1, 5 * db.ps // 8, rng.randint(0, 4000)]) * 8
            raw = bytearray(rng.randbytes(n))
            for k in range(0, n, 8):
                raw[k] &= 1
            t.raw_data = bytes(raw)
            t.rows = [DELETED] * (n // 8)
            if rng.random() < .5:
                t.raw_blob = rng.randbytes(256 * rng.choice([0, 1, 16, 17, 300]))
            if rng.random() < .5:
                t.indexes = [IndexDef("IX", False, [("_A", 7)], [])]
                t.index_tail = rng.randbytes(db.ps * rng.randint(0, 9))
        elif r < .6:
            for k in range(rng.randint(1, 3)):
                gen.add_index(rng, t, "IX%d" % k, k == 0 and rng.random() < .5)
        db.add(t)
    data = db.build()
    p = os.path.join(d, "base.1CD")
    tool.write(p, data)
    f = os.path.join(d, rng.choice(["report.txt", "отчёт", "a b.csv"]))
    if rng.random() < .3:
        tool.write(f, b"old content that is longer than the header of the report, so that it must be replaced\r\n" * 30)
    args = ["-ne", p, "-q"]
    if rng.random() < .3:
        o = os.path.join(d, "x")
        os.mkdir(o)
        args += ["-eax", o]
    args += ["-sts", f]
    r = tool.invoke(args, d)
    files = {"base.1CD": data, "case.txt": repr(case)}
    if not tool.must_be_clean(r, out, "sizes", files):
        return
    if r.rc:
        out.violation("sizes:exit", "exit code on a valid database\n" + tool.describe(r), files)
        return
    got = tool.read(f)
    lines = ["table_name|records_count|data_size|blob_size|index_size"]
    for t in db.tables:
        nums = db.table_obj[t.name]
        sz = [len(getattr(t, k)) if n else 0 for k, n in zip(("data", "blob", "index"), nums)]
        lines.append("%s|%d|%d|%d|%d" % (t.name, len(t.rows), *sz))
        out.seen((t.name, len(t.rows), sz, db.version, db.ps), {"line": lines[-1], "version": db.version})
        out.count("absent storages" if 0 in nums else "tables with all storages")
    want = b"\xef\xbb\xbf" + "".join(x + "\r\n" for x in lines).encode()
    if got != want:
        out.violation("sizes", "report differs\ngot:\n%s\nwant:\n%s\ncase %r" % (
            (got or b"(none)").decode("utf-8", "replace"), want.decode(), case), dict(files, report=got))


def run_huge(case, d, out):
    """storages over 2 and 4 GB (the pages are holes of a sparse file)"""
    rng = random.Random(case["seed"])
    ps = 65536
    db = gen.database(rng, "8.3.8", ps, "seq")
    db.spare_pages = 0
    t = Table("_HUGE", [Field("_A", "I")])
    t.rows = [DELETED]
    t.raw_blob = b"\0" * 256
    which = case["which"]
    if which == 2:
        t.fields.append(Field("_K", "B", 4))
        t.indexes = [IndexDef("IX", False, [("_K", 4)], [])]
    db.add(t)
    db.add(Table("_SMALL", [Field("_A", "L")]))
    data = db.build()
    size = case["size"]
    if which == 0:
        size += -size % len(t.data)
    sp = sparse.Sparse(db, data)
    sp.grow(db.table_obj["_HUGE"][which], size, 0, (t.data, t.blob, t.index)[which])
    p = os.path.join(d, "base.1CD")
    sp.save(p)
    f = os.path.join(d, "report")
    r = tool.invoke(["-ne", p, "-q", "-sts", f], d)
    files = {"first-pages.1CD": bytes(sp.head), "case.txt": repr(case)}
    if not tool.must_be_clean(r, out, "sizes:huge", files):
        return
    out.seen(("huge", which, size), {"storage": ("data", "blob", "index")[which], "bytes": size})
    out.count("storages over 2 GB")
    sizes = [len(t.data), 256, len(t.index) if t.indexes else 0]
    sizes[which] = size
    want = "_HUGE|%d|%d|%d|%d\r\n" % (sizes[0] // len(t.data), *sizes)
    got = (tool.read(f) or b"").decode("utf-8", "replace")
    if r.rc or want not in got:
        out.violation("sizes:huge", "report\n%s\nlacks %s\n%s" % (got, want, tool.describe(r)[:800]), files)


def main():
    c = fw.Check("C21", rule="a case is one generated database; each table (one line of the report) is one evaluation, "
                 "distinct by name, record count, sizes, version and page size",
                 assumptions=["records_count is the number of record slots of the data storage (deleted ones included)"])
    tool.cli()
    base = c.seed * 1000003
    cases = []
    k = 0
    for v in gen.ALL_VERSIONS:
        for _ in range(c.n(12, 120)):
            k += 1
            cases.append({"seed": base + k, "version": v})
    for ps in gen.PAGESIZES:
        for _ in range(c.n(8, 80)):
            k += 1
            cases.append({"seed": base + k, "version": "8.3.8", "ps": ps})
    for _ in range(c.n(1, 5)):
        k += 1
        cases.append({"seed": base + k, "tables": 150})
    c.map(run_case, cases)
    c.map(run_huge, [{"seed": base + 900001 + i, "size": s, "which": w} for w in (0, 1, 2) for i, s in enumerate(
        [0x7ffe0000, 0x80000000, 0xffff0000, 0x100000000, 0x140000000])])
    c.finish(min_evals=300, require=["absent storages", "tables with all storages", "storages over 2 GB"])
