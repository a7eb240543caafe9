"""C03: binary export writes exactly the stored bytes, whatever the size and placement of the storage."""
import os
import random
import struct

import fw
import gen
import tool
from db1cd import Field, IndexDef, Table


def sizes(db, kind, rng, big):
    """storage lengths around page and allocation boundaries"""
    ps = db.ps
    unit = {"data": 8, "blob": 256, "index": ps}[kind]
    per = 1023 if db.version != "8.3.8" else ps // 4
    direct = ps // 4 - 6
    cands = [0, 1, unit, ps - 1, ps, ps + 1, 2 * ps - 1, 2 * ps, 3 * ps + 7, 17 * ps, rng.randint(1, 20) * ps + rng.randint(0, ps)]
    if big:
        edge = per if db.version != "8.3.8" else direct
        cands = [(edge - 1) * ps, edge * ps - 1, edge * ps, edge * ps + 1, (edge + 1) * ps, per * ps, per * ps + 1,
                 (per + 1) * ps, (2 * per) * ps, 2 * per * ps + 1]
    n = rng.choice(cands) if big != "all" else cands
    return n // unit * unit


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"), case.get("ps"), case.get("layout"))
    big = case.get("big")
    for i in range(case.get("tables", 6)):
        fs = [Field("_A", "B", 7)]
        if rng.random() < .7:
            fs = [Field("_A", "B", 3), Field("_B", "B", 4)]
        t = Table(("_T%d" if rng.random() < .8 else "Reference%d") % i, fs)
        b = big if (i == 0) else None
        n = sizes(db, "data", rng, b)
        raw = bytearray(rng.randbytes(n))
        for k in range(0, n, 8):
            raw[k] &= 1
        t.raw_data = bytes(raw)
        if rng.random() < .7:
            t.raw_blob = rng.randbytes(sizes(db, "blob", rng, big if i == 1 else None))
        if rng.random() < .6:
            t.indexes = [IndexDef("IX", False, [("_A", 3)], [])]
            t.index_tail = rng.randbytes(sizes(db, "index", rng, big if i == 2 else None))
        if db.version == "8.3.8" and n and rng.random() < .3:
            t.obj_opts["data"] = {"fatlevel": 1}
        db.add(t)
    if rng.random() < .6:
        t = gen.table(rng, "_REAL")
        if rng.random() < .5:
            gen.add_index(rng, t, "PK", True)
        db.add(t)
    data = db.build()
    p = os.path.join(d, "base.1CD")
    tool.write(p, data)
    o = os.path.join(d, "x")
    os.mkdir(o)
    args = ["-ne", p, "-q"]
    if rng.random() < .3:       # reads many pages before
        os.mkdir(os.path.join(d, "y"))
        args += ["-eb", os.path.join(d, "y"), "*"]
    names = [t.name for t in db.tables]
    if rng.random() < .5:
        args += ["-eb", o, "*"]
    else:
        rng.shuffle(names)
        args += ["-eb", o, " ".join(names)]
    r = tool.invoke(args, d, timeout=case.get("timeout", 90))
    sig = "binary"
    files = {"base.1CD": data if len(data) < 30 << 20 else b"", "case.txt": repr(case)}
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc:
        out.violation(sig + ":exit", "exit code on a valid database\n" + tool.describe(r), files)
        return
    have = tool.tree(o)
    want = {}
    for t in db.tables:
        nums = db.table_obj[t.name]
        vers = []
        for kind, num in zip(("data", "blob", "index"), nums):
            if num:
                want["%s/%s" % (t.name, kind)] = getattr(t, kind)
                vers.append(db.obj_version[num][:2])
            else:
                vers.append(None)
        if db.version != "8.3.8":
            want["%s/descr" % t.name] = t.descr_text.encode("utf-16-le")
            vers.append(db.obj_version[db.table_ids[db.tables.index(t)]][:2])
        else:
            vers.append(None)
        root = have.pop(t.name + "/root", None)
        if root is None or len(root) != 36:
            out.violation(sig + ":root", "%s/root is missing or has a wrong size" % t.name, files)
            return
        for k, v in enumerate(vers):
            if root[k] != (v is not None) or (v is not None and struct.unpack_from("<2i", root, 4 + 8 * k) != tuple(v)):
                out.violation(sig + ":root", "%s/root entry %d: present %d version %r, stored %r" % (
                    t.name, k, root[k], struct.unpack_from("<2i", root, 4 + 8 * k), v), files)
                return
        out.count("root files compared")
    for n in sorted(set(have) | set(want)):
        out.seen((db.version, db.ps, db.layout, n.split("/")[1], len(want.get(n, b""))),
                 {"version": db.version, "page": db.ps, "file": n, "bytes": len(want.get(n, b""))})
        a, b = have.get(n), want.get(n)
        out.count("bytes compared", len(b or b""))
        if a != b:
            if a is None or b is None:
                msg = "file %s %s" % (n, "is missing" if a is None else "should not exist")
            else:
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                msg = "file %s: %d bytes exported, %d stored, first difference at %d" % (n, len(a), len(b), k)
            out.violation(sig + ":bytes", msg + "\ncase %r\n%s" % (case, tool.describe(r)[:600]), files)
            return


def main():
    c = fw.Check("C03", rule="a case is one database whose tables hold storages with lengths around page and allocation-"
                 "table boundaries; each exported file is one evaluation, distinct by version, page size, page placement, "
                 "kind and length",
                 assumptions=["in format 8.3.8 a table description is not a stored object of its own, so no descr file is expected"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for lay in ("seq", "reverse", "shuffle"):
        for v in gen.ALL_VERSIONS:
            if v != "8.3.8":
                add(c.n(3, 40), version=v, layout=lay)
        for ps in gen.PAGESIZES:
            add(c.n(3, 40), version="8.3.8", ps=ps, layout=lay)
    add(c.n(4, 40), version="8.2.14", big=True)
    add(c.n(1, 10), version="8.0.5", big=True)
    add(c.n(5, 40), version="8.3.8", ps=4096, big=True)
    add(c.n(1, 10), version="8.3.8", ps=8192, big=True, tables=3)
    if c.thorough:
        add(4, version="8.3.8", ps=16384, big=True, timeout=600, tables=2)
        add(2, version="8.3.8", ps=32768, big=True, timeout=900, tables=1)
    c.map(run_case, cases)
    c.finish(min_evals=300, require=["bytes compared", "root files compared"])
