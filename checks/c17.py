"""C17: the search for lost objects (-slo) saves every unreferenced object exactly, and nothing else."""
import os
import random
import struct

import fw
import gen
import tool
from db1cd import SIG_OBJ, Field, IndexDef, Reader, Table


def head(rng, db, sane=None):
    """beginning of a page that looks like the header of an object"""
    n = rng.choice([0, 1, 100, db.ps, 3 * db.ps, 2000 * db.ps, 1 << 31, (1 << 32) - 1])
    pages = [rng.randrange(0, 60) for _ in range(rng.randint(0, 8))]
    if db.version == "8.3.8":
        return b"\x1c\xfd" + struct.pack("<h3IQ%dI" % len(pages), rng.choice([0, 0, 1, 1, 2, -1]), 1, 2, 3, n, *pages)
    return SIG_OBJ + struct.pack("<I3I%dI" % len(pages), n, 1, 2, 3, *pages)


def content(rng, db, n):
    """n bytes, some of whose pages look like headers of objects"""
    x = bytearray(rng.randbytes(n))
    k = rng.random()
    if k < .3:
        for p in range(0, n, db.ps):
            if rng.random() < .5:
                h = head(rng, db)
                x[p:p + len(h)] = h
        del x[n:]
    elif k < .45 and n > 4 * db.ps:
        # a copy of another database in the file
        o = gen.database(rng, db.version, db.ps, "seq")
        o.lost = [(rng.randbytes(rng.randint(0, 3 * db.ps)), {})]
        o.add(gen.table(rng, "_IN", types=["B", "N", "NVC"]))
        d = o.build()[:n]
        x[:len(d)] = d
    elif k < .5:
        x = bytearray(n)
    return bytes(x)


def size(rng, db, big):
    ps = db.ps
    c = [0, 1, 2, ps - 1, ps, ps + 1, 2 * ps, 3 * ps + 5, 9 * ps, rng.randint(1, 12) * ps + rng.randint(0, ps)]
    if big:
        per = 1023 if db.version != "8.3.8" else ps // 4
        edge = per if db.version != "8.3.8" else ps // 4 - 6
        c = [(edge - 1) * ps, edge * ps, edge * ps + 1, (edge + 1) * ps, per * ps, per * ps + 1, 2 * per * ps + 7]
    return rng.choice(c)


def make(rng, case):
    db = gen.database(rng, case.get("version"), case.get("ps"), case.get("layout"))
    if case.get("big"):
        db.lost = [(content(rng, db, size(rng, db, True)), {})]
    n = rng.choice([0, 1, 1, 2, 5, 20, rng.randint(0, 60)]) if not case.get("big") else rng.randint(0, 2)
    one = content(rng, db, size(rng, db, False))
    for _ in range(n):
        d = one if rng.random() < .1 else content(rng, db, size(rng, db, False))
        o = {}
        if db.version == "8.3.8" and rng.random() < .3:
            o = {"fatlevel": 1}
        db.lost.append((d, o))
    for i in range(rng.choice([0, 1, 2, 6])):
        t = gen.table(rng, ["_T%d", "Ref%d"][i % 2] % i)
        if rng.random() < .5:
            gen.add_index(rng, t, "PK", True)
        db.add(t)
    for i in range(rng.choice([0, 1, 3])):
        # storages whose pages look like objects
        t = Table("_RAW%d" % i, [Field("_A", "B", 7)])
        raw = bytearray(content(rng, db, rng.randint(0, 6) * db.ps))
        t.raw_blob = bytes(raw[:len(raw) // 256 * 256])
        raw = bytearray(content(rng, db, rng.randint(0, 3) * db.ps))
        t.raw_data = bytes(raw)
        if rng.random() < .5:
            t.indexes = [IndexDef("IX", False, [("_A", 7)], [])]
            t.index_tail = content(rng, db, rng.randint(0, 3) * db.ps)
        db.add(t)
    if rng.random() < .2:
        gen.infobase_stub(db)
    data = bytearray(db.build())
    maybe = 0
    for p in db.free:
        if rng.random() < case.get("stale", .3):
            h = head(rng, db)
            data[p * db.ps:p * db.ps + len(h)] = h
            maybe += 1
    return db, bytes(data), maybe


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    db, data, maybe = make(rng, case)
    rd = Reader(data)
    if case.get("garbage"):
        # pages nobody owns that are no objects
        x = bytearray(data)
        lostpages = {h for h, _ in db.lost_pages}
        k = rng.randint(1, 4)
        ps = db.ps
        for _ in range(k):
            h = head(rng, db).ljust(ps, b"\0")
            bad = rng.choice(["len", "page", "same"])
            if db.version == "8.3.8":
                ln, refs = {"len": (1 << 40, [3]), "page": (ps, [1 << 30]), "same": (2 * ps, [3, 3])}[bad]
                h = b"\x1c\xfd" + struct.pack("<h3IQ%dI" % len(refs), 0, 1, 1, 1, ln, *refs)
            else:
                ln, refs = {"len": (0xfffffff0, [3]), "page": (ps, [1 << 30]), "same": (1024 * ps, [3])}[bad]
                h = SIG_OBJ + struct.pack("<I3I%dI" % len(refs), ln, 1, 1, 1, *refs)
            x += h.ljust(ps, b"\0")
            maybe += 1
        struct.pack_into("<I", x, 12, len(x) // ps)
        data = bytes(x)
    # a page of a lost object that names the header of a lost object as its own: who owns whom cannot be told
    lostheads = {h for h, _ in db.lost_pages}
    inside = 0
    cycle = False
    for h in lostheads:
        rd.read_object(h, "lost%d" % h)
    for n, who in rd.owner.items():
        if who.startswith("lost") and n not in lostheads:
            pg = data[n * db.ps:(n + 1) * db.ps]
            if pg[:8] == SIG_OBJ if db.version != "8.3.8" else pg[:2] == b"\x1c\xfd":
                inside += 1
                refs = struct.unpack_from("<%dI" % (db.ps // 4 - 6), pg, 24)
                for f in refs[:40]:
                    cycle = cycle or f in lostheads
                    if 2 < f < len(data) // db.ps:       # a table of pages
                        cycle = cycle or bool(lostheads & set(struct.unpack_from("<200I", data, f * db.ps)))
    if cycle:
        maybe += inside
        out.count("undecidable look-alikes", inside)
    p = os.path.join(d, "b.1CD")
    tool.write(p, data)
    o = os.path.join(d, "lost dir")
    os.mkdir(o)
    args = [p, "-q"]
    changed = False
    r = rng.random()
    if r < .3:
        args.append("-ne")
    elif r < .5 and db.version not in ("8.0.3", "8.0.5") and db.tables and not case.get("garbage"):
        e = os.path.join(d, "e")
        os.mkdir(e)
        args += ["-eb", e, "*", "-ib", e, rng.choice(db.tables).name]
        changed = True
    if rng.random() < .3:
        e = os.path.join(d, "f")
        os.mkdir(e)
        args += ["-eb", e, "*"]
    if rng.random() < .2:
        args += ["-sts", os.path.join(d, "s.txt")]
    args += [rng.choice(["-slo", "-SaveLostObjects"]), o]
    r = tool.invoke(args, d, timeout=120)
    sig = "lost"
    files = {"b.1CD": data if len(data) < 30 << 20 else b"", "case.txt": repr(case)}
    if not tool.must_be_clean(r, out, sig, files):
        return
    ctx = "\n%r\n%s" % (case, tool.describe(r)[:1500])
    if r.rc and not case.get("garbage"):
        return out.violation(sig + ":exit", "exit code %d on a valid database" % r.rc + ctx, files)
    got = tool.tree(o)
    if any(os.sep in n for n in got):
        return out.violation(sig + ":dirs", "directories below the output directory" + ctx, files)
    have = list(got.values())
    kind = (db.version, db.ps, db.layout, bool(case.get("garbage")))
    out.seen(("run",) + kind + (len(db.lost_pages), maybe), {"version": db.version, "lost": len(db.lost_pages), "files": len(got)})
    for h, want in db.lost_pages:
        if want in have:
            have.remove(want)
        else:
            near = [len(x) for x in have][:10]
            return out.violation(sig + ":missing", "the lost object on page %d (%d bytes) has no file with its content (%d files, sizes of the rest %r)" % (
                h, len(want), len(got), near) + ctx, files)
        out.count("lost objects compared")
        out.seen(kind + (len(want), bool(want) and want[:2] in (b"\x1c\xfd", b"1C")), {"page": h, "bytes": len(want), "version": db.version})
    if len(have) > maybe:
        return out.violation(sig + ":extra", "%d files for %d lost objects: objects in use were reported: %r" % (
            len(got), len(db.lost_pages), sorted(got)[:5]) + ctx, files)
    look = inside
    ps = db.ps
    for n, who in rd.owner.items():
        if who.startswith("lost"):
            continue
        pg = data[n * ps:n * ps + 8]
        if pg == SIG_OBJ if db.version != "8.3.8" else pg[:2] == b"\x1c\xfd":
            look += 1
    out.count("used pages that look like objects", look)
    out.count("pages with remains of objects", maybe)
    if not changed and tool.read(p) != data:
        return out.violation(sig + ":changed", "the database was changed" + ctx, files)
    rest = set(os.listdir(d)) - {"b.1CD", "lost dir", "e", "f", "s.txt", ".tmp"}
    if rest:
        return out.violation(sig + ":elsewhere", "files %r were written" % sorted(rest) + ctx, files)


def main():
    c = fw.Check("C17", rule="a case is one database with unreferenced objects of many sizes and placements, tables and lost objects whose "
                 "pages look like headers of objects, and free pages with remains of headers; each lost object is one evaluation, "
                 "distinct by format, page size, placement and length",
                 assumptions=["remains of deleted objects on free pages may be saved or not",
                              "pages with the signature of an object that cannot be one may be reported, but must not disturb the search"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for lay in ("seq", "reverse", "shuffle"):
        for v in gen.ALL_VERSIONS:
            if v != "8.3.8":
                add(c.n(20, 250), version=v, layout=lay)
                add(c.n(4, 50), version=v, layout=lay, garbage=True)
        for ps in gen.PAGESIZES:
            add(c.n(20, 250), version="8.3.8", ps=ps, layout=lay)
            add(c.n(4, 50), version="8.3.8", ps=ps, layout=lay, garbage=True)
    add(c.n(3, 30), version="8.2.14", big=True)
    add(c.n(3, 30), version="8.3.8", ps=4096, big=True)
    add(c.n(1, 10), version="8.3.8", ps=8192, big=True)
    c.map(run_case, cases)
    return c.finish(min_evals=2000, require=["lost objects compared", "used pages that look like objects", "pages with remains of objects"])
