"""C04: binary import restores a table exactly and harms nothing else."""
import os
import random
import struct

import fw
import gen
import run as _run
import tool
from db1cd import DELETED, Field, FormatError, IndexDef, Reader, Table, parse_bracket

KINDS = ("data", "blob", "index")
REPORT = "table_name|records_count|data_size|blob_size|index_size"


def rows_again(rng, t, n):
    rows = [DELETED] if rng.random() < .8 else []
    for _ in range(n):
        if rng.random() < .2:
            rows.append(DELETED)
        rows.append({f.name: gen.value(rng, f) for f in t.all_fields()})
    return rows


def variant(rng, t, big=False):
    """a table of the same structure with other content"""
    u = Table(t.name, t.fields, recordlock=t.recordlock)
    u.rows = rows_again(rng, t, rng.choice([0, 1, 3, 20, 150 if big else 40]))
    u.indexes = [IndexDef(i.name, i.primary, i.parts, gen.order_perm(rng, u.live()), i.keylen) for i in t.indexes]
    if rng.random() < .4:
        u.blob_shuffle = random.Random(rng.random())
    return u


def size(rng, version, ps, unit, huge):
    """a length around a boundary of the pages and of the levels of allocation"""
    if huge and ps == 4096:
        near = [1022, 1023, 1024, 2046, 2047] if version != "8.3.8" else [1017, 1018, 1019, 1023, 1024, 1025, 2048]
    elif huge:
        near = [ps // 4 - 7, ps // 4 - 6, ps // 4 - 5, ps // 4, ps // 4 + 1]
    else:
        near = [0, 0, 1, 2, 3, 5, 17, 40]
    n = max(0, rng.choice(near) * ps // unit + rng.choice([0, 0, -1, 1, -2, rng.randint(0, 9)]))
    return n * unit


def noise(rng, n):
    b = rng.randbytes(min(n, 65536 + 17))
    return (b * (n // len(b) + 1))[:n] if b else b""


def raw_table(rng, name, index):
    t = Table(name, [Field("_A", "B", 7)])
    t.is_raw = True
    if index:
        t.indexes = [IndexDef("IX", False, [("_A", 7)], [])]
    return t


def raw_records(rng, n):
    b = bytearray(noise(rng, n))
    for k in range(0, n, 8):
        b[k] &= 1
    return bytes(b)


def raw_content(rng, t, version, ps, huge):
    """(data, blob or None, index or None) for a raw table"""
    data = raw_records(rng, size(rng, version, ps, 8, huge and rng.random() < .6))
    blob = None if rng.random() < .2 else noise(rng, size(rng, version, ps, 256, huge and rng.random() < .4))
    index = None
    if t.indexes:       # first page: offsets; then the page describing the (empty) index, then its (empty) root leaf
        o = (lambda p: p) if version == "8.3.8" else (lambda p: p * ps)
        pages = [struct.pack("<II", 0, o(1)), struct.pack("<IH", o(2), 4),
                 struct.pack("<HHIIHIHHHHHH", 3, 0, 0xffffffff, 0xffffffff, ps - 30, 255, 3, 3, 8, 2, 2, 2)]
        index = b"".join(p.ljust(ps, b"\0") for p in pages)
        index += noise(rng, size(rng, version, ps, ps, huge and rng.random() < .2))
    return data, blob, index


def put(directory, name, content, versions, descr=b""):
    d = os.path.join(directory, name)
    os.makedirs(d, exist_ok=True)
    root = bytes([c is not None for c in content]) + b"\1" + struct.pack("<8i", *versions)
    tool.write(os.path.join(d, "root"), root)
    for k, c in zip(KINDS, content):
        if c is not None:
            tool.write(os.path.join(d, k), c)
    tool.write(os.path.join(d, "descr"), descr)


def storages(tab):
    return tuple(tab[k] for k in KINDS)


def logical(tab):
    """description without the numbers of the files"""
    return tab["tree"][:5]


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    version = case["version"]
    ps = case["ps"]
    huge = case.get("huge", False)
    db = gen.database(rng, version, ps)
    ps = db.ps
    db.spare_pages = 0
    db.spare = rng.choice([0, 0, 3, 40, ps // 4 - 3, ps // 4 + 2] if ps == 4096 else [0, 5, 40])
    gen.infobase_stub(db)
    tables, raws = [], []
    for i in range(rng.choice([1, 2])):
        t = gen.table(rng, "_REFERENCE%d" % i)
        for k in range(rng.choice([0, 0, 1, 2])):
            gen.add_index(rng, t, "IX%d" % k, k == 0)
        tables.append(t)
        db.add(t)
    model = {}
    for i in range(rng.choice([1, 2, 3])):
        t = raw_table(rng, "_INFORG%d" % i, rng.random() < .4)
        t.raw_data, t.raw_blob, ix = raw_content(rng, t, version, ps, huge and rng.random() < .5)
        if ix is not None:
            t.index = ix
        raws.append(t)
        db.add(t)
    rng.shuffle(db.tables)
    data = db.build()
    path = os.path.join(d, "target.1CD")
    tool.write(path, data)
    r0 = Reader(data)
    names = [t.name for t in db.tables]
    for n in names:
        model[n] = storages(r0.tables[n])
    descr = {n: logical(r0.tables[n]) for n in names}
    leaked = set(r0.unowned())
    rootver = {}

    # sources
    sources = []        # (directory, {name: storages}, {name: xml or None})
    for s in range(rng.choice([1, 2, 3])):
        e = os.path.join(d, "e%d" % s)
        os.mkdir(e)
        content, xml = {}, {}
        if tables and rng.random() < .8:
            src = gen.database(rng, version, ps if version == "8.3.8" else None)
            src.ps = db.ps
            gen.infobase_stub(src)
            for t in tables:
                src.add(variant(rng, t, huge))
            sdata = src.build()
            sp = os.path.join(d, "s%d.1CD" % s)
            tool.write(sp, sdata)
            x = os.path.join(d, "x%d" % s)
            os.mkdir(x)
            r = tool.invoke([sp, "-eb", e, "*", "-eax", x, "-q", "-ne"], d)
            if not tool.must_be_clean(r, out, "export", {"source.1CD": sdata}):
                return
            rs = Reader(sdata)
            for n, tab in rs.tables.items():
                files = tool.tree(os.path.join(e, n))
                for k in KINDS:
                    if files.get(k) != tab[k]:
                        out.violation("export:" + k, "exported %s of %s differs from the storage of the table (%s bytes, expected %s)\n%s" % (
                            k, n, len(files.get(k) or b""), len(tab[k] or b""), tool.describe(r)), {"source.1CD": sdata, "case.txt": repr(case)})
                        return
                content[n] = storages(tab)
                xml[n] = tool.read(os.path.join(x, n + ".xml"))
            rootver.update({(s, n): tool.read(os.path.join(e, n, "root")) for n in content})
        for t in raws:
            if rng.random() < .9:
                c = raw_content(rng, t, version, ps, huge)
                v = [rng.randrange(1, 1000) for _ in range(8)]
                put(e, t.name, c, v, descr=db_descr(t, version))
                content[t.name] = c
                rootver[(s, t.name)] = tool.read(os.path.join(e, t.name, "root"))
        sources.append((e, content, xml))

    history = []
    shown = {}          # imported versions
    for step in range(case["steps"]):
        args = [path, "-q"]
        expect = []     # (directory, "eb" / "eax", names, snapshot of the model)
        imports = 0
        missing = False     # a table that the source does not have is reported
        now_xml = {}
        for k in range(rng.choice([1, 1, 2, 3])):
            what = rng.choice(["ib", "ib", "ib", "eb", "eax", "sts"])
            if what == "ib":
                s = rng.randrange(len(sources))
                e, content, xml = sources[s]
                some = rng.sample(names, rng.randint(1, min(3, len(names))))
                flt = rng.choice(["*", ",".join(some), "_*", " ".join(x.lower() for x in some)])
                hit = names if flt == "*" else [n for n in names if n[0] == "_"] if flt == "_*" else some
                args += [rng.choice(["-ib", "-importfrombinary"]), e, flt]
                missing = missing or any(n not in content for n in hit)
                for n in hit:
                    if n in content:
                        model[n] = tuple(a if a is not None else b for a, b in zip(content[n], model[n]))
                        shown[n] = rootver[(s, n)]
                        now_xml[n] = xml.get(n) if n in [t.name for t in tables] else None
                        imports += 1
                        sizes = [len(x) // ps if x is not None else -1 for x in content[n]]
                        out.seen((version, ps, sizes, step), {"table": n, "pages of data, blob, index": sizes, "version": version, "page": ps})
                history.append("ib %d %s" % (s, flt))
            elif what == "eb":
                o = os.path.join(d, "eb%d_%d" % (step, k))
                os.mkdir(o)
                args += ["-eb", o, "*"]
                expect.append((o, "eb", dict(model), dict(shown), None))
            elif what == "eax":
                o = os.path.join(d, "ea%d_%d" % (step, k))
                os.mkdir(o)
                flt = [t.name for t in tables]
                args += ["-ex", o, ",".join(flt)]
                expect.append((o, "ex", None, None, dict(now_xml)))
            else:
                o = os.path.join(d, "st%d_%d.txt" % (step, k))
                args += ["-sts", o]
                expect.append((o, "sts", dict(model), None, None))
        before = tool.read(path)
        r = tool.invoke(args, d, timeout=120)
        after = tool.read(path)
        files = {"before.1CD": before if len(before) < 3 << 20 else None, "case.txt": repr(case) + "\n" + "\n".join(history)}
        if not tool.must_be_clean(r, out, "import", files):
            return
        if (r.rc != 0) != missing:
            out.violation("import:exit", "exit code %s, %s\n%s" % (r.rc, "although a table to import is missing" if missing else "on a valid import", tool.describe(r)), files)
            return
        out.count("imported tables", imports)
        out.count("runs")
        if not judge(after, model, descr, leaked, out, files, r, history):
            return
        for o, kind, m, shown_now, xml_now in expect:
            if kind == "eb":
                for n in names:
                    got = tool.tree(os.path.join(o, n))
                    for i, k in enumerate(KINDS):
                        if got.get(k) != m[n][i]:
                            out.violation("reexport:" + k, "table %s exported in the same run: %s differs: %s bytes, expected %s\n%s\n%s" % (
                                n, k, None if got.get(k) is None else len(got[k]), None if m[n][i] is None else len(m[n][i]),
                                "\n".join(history), tool.describe(r)), files)
                            return
                    if n in shown_now:
                        a, b = got["root"], shown_now[n]
                        for i, k in enumerate(KINDS):
                            if b[i] and a[4 + 8 * i:12 + 8 * i] != b[4 + 8 * i:12 + 8 * i]:
                                out.violation("reexport:version", "table %s: version of %s not as imported\n%s" % (n, k, tool.describe(r)), files)
                                return
                out.count("exports after an import")
            elif kind == "ex":
                for n, x in xml_now.items():
                    if x is not None:
                        got = tool.read(os.path.join(o, n + ".xml"))
                        if got != x:
                            out.violation("reexport:xml", "XML of %s after the import differs from that of the source\n%s\n%s" % (
                                n, "\n".join(history), tool.describe(r)), dict(files, **{"got.xml": got, "want.xml": x}))
                            return
                        out.count("XML exports after an import")
            else:
                got = tool.read(o).decode("utf-8-sig").split("\r\n")
                for t in db.tables:
                    reclen = t.layout()[1]
                    line = "%s|%d|%d|%d|%d" % (t.name, len(m[t.name][0]) // reclen, *[len(x or b"") for x in m[t.name]])
                    if line not in got:
                        out.violation("reexport:sizes", "line %s not in the report\n%s\n%s" % (line, got, tool.describe(r)), files)
                        return
        if case["steps"] > 1 and rng.random() < .3 and sources[-1][1]:
            # what cannot be imported is refused and changes nothing
            if not refused(rng, path, after, sources, d, version, out, model, history, case, step):
                return
    # finally: everything the tool says about the database, in a new process
    o = os.path.join(d, "final")
    os.mkdir(o)
    r = tool.invoke([path, "-eb", o, "*", "-q"] + (["-ne"] if rng.random() < .5 else []), d, timeout=120)
    if not tool.must_be_clean(r, out, "final", {"case.txt": repr(case)}):
        return
    for n in names:
        got = tool.tree(os.path.join(o, n))
        for i, k in enumerate(KINDS):
            if got.get(k) != model[n][i]:
                out.violation("final:" + k, "table %s at the end: %s differs: %s bytes, expected %s\n%s" % (
                    n, k, None if got.get(k) is None else len(got[k]), None if model[n][i] is None else len(model[n][i]), "\n".join(history)),
                    {"case.txt": repr(case), "after.1CD": after if len(after) < 3 << 20 else None})
                return
        if n in shown:
            a, b = got["root"], shown[n]
            for i, k in enumerate(KINDS):
                if b[i] and a[4 + 8 * i:12 + 8 * i] != b[4 + 8 * i:12 + 8 * i]:
                    out.violation("final:version", "table %s at the end: version of %s not as imported: %s, %s\n%s" % (
                        n, k, a.hex(), b.hex(), "\n".join(history)), {"case.txt": repr(case)})
                    return


def db_descr(t, version):
    x = '{"%s",0,{"Fields",%s},{"Indexes"},{"Recordlock","0"},{"Files",9,9,9}}' % (t.name, ",".join(f.descr() for f in t.fields))
    return x.encode("utf-8" if version == "8.3.8" else "utf-16-le")


def judge(after, model, descr, leaked, out, files, r, history):
    try:
        rd = Reader(after)
    except (FormatError, struct.error, UnicodeDecodeError) as e:
        out.violation("structure", "the database is not sound after the import: %s\n%s\n%s" % (e, "\n".join(history), tool.describe(r)), files)
        return False
    if list(rd.tables) != list(rd.table_order) or set(rd.tables) != set(model):
        out.violation("structure", "other tables than before: %s\n%s" % (list(rd.tables), tool.describe(r)), files)
        return False
    new = [p for p in rd.unowned() if p not in leaked]
    if new:
        out.violation("structure:lost", "%d pages belong to no object and are not free: %s\n%s\n%s" % (len(new), new[:10], "\n".join(history), tool.describe(r)), files)
        return False
    for n, c in model.items():
        tab = rd.tables[n]
        if logical(tab) != descr[n]:
            out.violation("description", "description of %s changed\n%s\n%s" % (n, tab["descr"], tool.describe(r)), files)
            return False
        for k, want in zip(KINDS, c):
            if tab[k] != want:
                out.violation("content:" + k, "%s of table %s is not as expected: %s bytes instead of %s\n%s\n%s" % (
                    k, n, None if tab[k] is None else len(tab[k]), None if want is None else len(want), "\n".join(history), tool.describe(r)), files)
                return False
    out.count("free pages seen", len(rd.free))
    return True


def refused(rng, path, before, sources, d, version, out, model, history, case, step):
    e = os.path.join(d, "bad%d" % step)
    src, content, _ = sources[-1]
    n = rng.choice(sorted(content))
    import shutil
    shutil.copytree(os.path.join(src, n), os.path.join(e, n))
    how = rng.choice(["missing", "root", "noroot", "length", "readonly"])
    t = os.path.join(e, n)
    if how == "missing":
        os.remove(os.path.join(t, "data"))
    elif how == "root":
        tool.write(os.path.join(t, "root"), tool.read(os.path.join(t, "root"))[:rng.randint(0, 35)])
    elif how == "noroot":
        os.remove(os.path.join(t, "root"))
    elif how == "length":
        if content[n][0] is None:
            return True
        tool.write(os.path.join(t, "data"), content[n][0] + b"\0")
    r = tool.invoke([path, "-q", "-ib", e, n] + (["-ne"] if how == "readonly" else []), d, timeout=120)
    files = {"case.txt": repr(case) + "\n" + how}
    if not tool.must_be_clean(r, out, "refused:" + how, files):
        return False
    if r.rc == 0:
        out.violation("refused:" + how, "an import that cannot be done is reported as done (%s)\n%s" % (how, tool.describe(r)), files)
        return False
    if tool.read(path) != before:
        out.violation("refused:" + how, "an import that was refused changed the database (%s)\n%s" % (how, tool.describe(r)), files)
        return False
    out.count("refused imports: " + how)
    return True


def run_readonly(case, d, out):
    """formats the tool only reads"""
    rng = random.Random(case["seed"])
    db = gen.database(rng, case["version"])
    gen.infobase_stub(db)
    t = gen.table(rng, "_REFERENCE1", nrows=12)
    db.add(t)
    data = db.build()
    p = os.path.join(d, "t.1CD")
    tool.write(p, data)
    e = os.path.join(d, "e")
    os.mkdir(e)
    r = tool.invoke([p, "-eb", e, "*", "-ib", e, "*", "-q"], d)
    if not tool.must_be_clean(r, out, "readonly", {"case.txt": repr(case)}):
        return
    out.seen((case["version"], "read only", case["seed"]))
    out.count("formats only read")
    if r.rc == 0 or tool.read(p) != data:
        out.violation("readonly", "import into a format that is only read: exit %s, database %s\n%s" % (
            r.rc, "changed" if tool.read(p) != data else "unchanged", tool.describe(r)), {"base.1CD": data, "case.txt": repr(case)})


def main():
    c = fw.Check("C04", rule="a case is one history of imports (-ib) mixed with exports into one database; after every run an independent reader checks ownership of "
                 "every page, the free list, the header and all storages of all tables against a model; distinct by format, page size and sizes of the imported storages",
                 assumptions=["the imported table has the structure of the target's table and comes from a database of the same format and page size",
                              "a storage the import does not have leaves the target's as it is (no record refers to it)"])
    tool.cli()
    cases = []
    k = c.seed * 1000003
    for version, ps, cnt in [("8.1.0", 4096, c.n(20, 400)), ("8.2.0", 4096, c.n(20, 400)), ("8.2.14", 4096, c.n(45, 1200)), ("8.3.8", 4096, c.n(45, 1200))] + \
            [("8.3.8", p, c.n(22, 500)) for p in gen.PAGESIZES[1:]]:
        for i in range(cnt):
            k += 1
            cases.append(dict(seed=k, version=version, ps=ps, steps=[1, 2, 3, 5][i % 4]))
    for version, ps, cnt in [("8.1.0", 4096, c.n(3, 40)), ("8.2.0", 4096, c.n(3, 40)), ("8.2.14", 4096, c.n(12, 200)), ("8.3.8", 4096, c.n(16, 300)), ("8.3.8", 8192, c.n(2, 40))]:
        for i in range(cnt):
            k += 1
            cases.append(dict(seed=k, version=version, ps=ps, steps=[2, 4][i % 2] if ps == 4096 else 2, huge=True))
    # the long ones first
    cases.sort(key=lambda x: not x.get("huge"))
    c.map(run_case, cases)
    ro = []
    for v in ("8.0.3", "8.0.5"):
        for i in range(c.n(3, 50)):
            k += 1
            ro.append(dict(seed=k, version=v))
    c.map(run_readonly, ro)
    c.finish(min_evals=200, require=["imported tables", "exports after an import", "XML exports after an import", "formats only read", "free pages seen"])
