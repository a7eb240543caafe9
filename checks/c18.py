"""C18: BLOB values exported to files (-bf): exact content, unpacked when asked, one file per value, referred to by the XML."""
import os
import random
import struct
import zlib

import cf
import fw
import gen
import tool
import xmlm
from db1cd import DELETED, Field, IndexDef, Table

SIG_ZIP = bytes.fromhex("534b6ff4888dc14ea0d5ebb6bda0a70d")
SYSTEM = ["CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA", "V8USERS", "_SYSTEMSETTINGS", "_COMMONSETTINGS", "_REPSETTINGS",
          "_REPVARSETTINGS", "_FRMDTSETTINGS", "_SCHEDULEDJOBS", "_ConfigStorage", "_DYNLISTSETTINGSSTORAGE", "Reference1",
          "Params", "v8users", "ConfigCAS"]
OTHER = ["_Reference%d", "_DOCUMENT%d", "_InfoRg%d", "_Const%d", "_STORAGE%d", "_SYSTEMSETTINGS%d"]


def is_system(name):
    u = name.upper()
    return name[0] != "_" or u.endswith("STORAGE") or u in ("_SYSTEMSETTINGS", "_COMMONSETTINGS", "_REPSETTINGS", "_REPVARSETTINGS",
                                                            "_FRMDTSETTINGS", "_SCHEDULEDJOBS")


def looks_packed(data):
    """does it begin with a complete deflate stream?"""
    d = zlib.decompressobj(-15)
    try:
        d.decompress(data)
    except zlib.error:
        return False
    return d.eof


def inflated(data):
    if not data:
        return None
    try:
        return cf.inflate(data)
    except (cf.ContainerError, zlib.error):
        return None


def plain(rng, big=0):
    """content that is neither packed nor a container"""
    while True:
        n = rng.choice([1, 2, 3, 15, 16, 17, 18, 26, 27, 249, 250, 251, 500, rng.randint(1, 3000), rng.randint(1, 40)])
        if big:
            n = big
        r = rng.random()
        if r < .4:
            x = rng.randbytes(n)
        elif r < .7:
            x = b"\xef\xbb\xbf" + gen.text(rng, n, True).encode("utf-8")
        elif r < .8:
            x = b"\0" * n
        elif r < .9:
            x = (b"\xff\xff\xff\x7f\x00\x02\x00\x00" + rng.randbytes(n))      # beginning of a container
        else:
            x = gen.text(rng, n, True).encode("utf-16-le") or b"z"
        # neither a complete deflate stream at the beginning nor anything that looks like a container
        if not looks_packed(x) and x[:2] not in (b"\1\1", b"\2\1") and (len(x) < 47 or x[16:18] != b"\r\n"):
            return x


NICE = ["root", "version", "versions", "text", "module", "info", "a" * 60, "форма", "50a2d4b2-5a9d-4e8c-b2a5-8c2f8a0a3f11.0"]
NASTY = ["../x", "/tmp/verif-c18-escape", "..", ".", "a/b", "a/../../b", "x\ty", "x\ny", "back\\slash", "ROOT", "root", "text", "text_2"]


def container(rng, depth=0, packed=False):
    names = rng.sample(NICE, rng.randint(1, 5))
    if rng.random() < .25:
        names += [rng.choice(NASTY) for _ in range(rng.randint(1, 4))]
    files = []
    tree = []
    for n in names:
        r = rng.random()
        if r < .15 and depth < 2:
            data, sub = container(rng, depth + 1)
            tree.append((n, sub))
        elif r < .22:
            data = cf.build([])[:16]
            tree.append((n, {}))
        else:
            data = plain(rng) if r < .9 else b""
            tree.append((n, [data]))
            if packed and rng.random() < .5 and data:
                alt = cf.deflate(data)
                tree[-1] = (n, [data, alt])
                data = alt
        files.append((n, data))
    sub = {}
    for n, v in tree:
        sub.setdefault(n, []).append(v)
    return cf.build(files, rng, split=rng.random() < .3), sub


def sysvalue(rng, twice, big=0, how=None):
    """(stored, alternatives); an alternative is bytes or a dict of container entries"""
    r = how or rng.random()
    k = rng.random() if not big else .5
    if k < .3:
        inner, alts = container(rng, packed=False)
        alts = [alts]
    elif k < .36:
        inner, alts = b"", [b""]
    elif k < .4:
        inner = cf.build([])[:16]
        alts = [inner, {}]
    else:
        inner = plain(rng, big)
        alts = [inner]
    if r < .2:
        return (inner, alts) if inner else (None, None)
    one = cf.deflate(inner, rng.choice([0, 1, 6, 9]))
    if r < .65:
        return one, alts
    two = cf.deflate(one, rng.choice([0, 9]))
    if not twice:
        return two, [one]
    if isinstance(alts[0], dict) and alts[0] and rng.random() < .5:
        # elements of a container packed twice may be packed themselves
        inner, tree = container(rng, packed=True)
        two = cf.deflate(cf.deflate(inner))
        return two, [tree]
    return two, alts


def users(rng):
    r = rng.random()
    data = rng.choice([gen.text(rng, 300, True).encode("utf-8"), rng.randbytes(rng.randint(0, 500)), b""])
    if r < .7:
        n = rng.choice([1, 2, 16, 127, 128, 200, 255])
        mask = rng.randbytes(n)
        x = bytes([n]) + mask + bytes(b ^ mask[i % n] for i, b in enumerate(data))
        return x, [data] if data else [data, x]
    if r < .85:
        x = b"\0" + data
        return x, [x, data]
    x = bytes([rng.randint(1, 255)])
    x += rng.randbytes(rng.randint(0, x[0] - 1))
    return x, [x]


def storage_value(rng, big=0, how=None):
    """value storage of a data base table: (stored, alternatives)"""
    r = how or rng.random()
    data = plain(rng, big)
    if rng.random() < .1:
        data = b""
    if r < .15:
        return (data, [data]) if data else (None, None)
    body = struct.pack("<q", len(data)) + data
    alts = [data]
    k = rng.random()
    if k < .3:
        extra = plain(rng)
        if rng.random() < .1:
            extra = b""
        tail = rng.randbytes(4) + struct.pack("<q", len(extra)) + extra
        if rng.random() < .4:
            tail += rng.randbytes(rng.randint(1, 30))
        body += tail
        alts = [extra] if extra else [extra, data, data + tail]
    elif k < .4:
        # something behind the data that is not a complete record
        tail = rng.choice([rng.randbytes(rng.randint(1, 11)),
                           rng.randbytes(4) + struct.pack("<q", 1 << 40) + rng.randbytes(5),
                           rng.randbytes(4) + struct.pack("<q", -1 - rng.randrange(1 << 40)) + rng.randbytes(5)])
        body += tail
        alts = [data + tail, data]
    elif k < .45:
        body = struct.pack("<q", len(data) + rng.randint(1, 1 << 34)) + data
        alts = [data, None]
    if r < .45:
        stored = b"\1\1" + body
    else:
        stored = b"\2\1" + SIG_ZIP + cf.deflate(body, rng.choice([0, 1, 9]))
    if .45 <= k < .55:
        # look-alikes stay as they are
        bad = rng.choice(["neg", "short", "sig", "zip", "only"])
        if bad == "neg":
            stored = stored[:2] + struct.pack("<q", -rng.randint(1, 1 << 62)) + data if stored[0] == 1 else \
                b"\2\1" + SIG_ZIP + cf.deflate(struct.pack("<q", -rng.randint(1, 1 << 62)) + data)
        elif bad == "short":
            stored = b"\1\1" + rng.randbytes(rng.randint(1, 7)) if stored[0] == 1 else b"\2\1" + SIG_ZIP + cf.deflate(rng.randbytes(rng.randint(0, 7)))
        elif bad == "sig":
            s = bytearray(b"\2\1" + SIG_ZIP + cf.deflate(body))
            s[2 + rng.randrange(16)] ^= 1 << rng.randrange(8)
            stored = bytes(s)
        elif bad == "zip":
            stored = b"\2\1" + SIG_ZIP + (cf.deflate(body)[:-1] if rng.random() < .5 else b"\6" + rng.randbytes(20))
        else:
            stored = rng.choice([b"\1\1", b"\2\1", b"\2\1" + SIG_ZIP[:rng.randint(0, 16)], b"\1", b"\2", b"\2\1" + SIG_ZIP])
        alts = [stored]
    return stored, [stored if a is None else a for a in alts]


KEYS = ["a", "a_2", "A", "a/b", "../a", "..", ".", "", "", "x" * 100, "ключ", "a\\b", "a\tb", "a<b>&\"'", "a b", "/abs", "a.b", "CON", "users.usr",
        "a__IMG0", "~", "-x", "*", "a:b", "x" * 100, " a", "a "]


def make_table(rng, name, case):
    system = is_system(name)
    up = name.upper()
    nimg = rng.choice([1, 1, 1, 2, 3]) if not case.get("big") else 1
    fs = [Field("FILENAME", "NVC", 128)]
    multi = rng.random()
    if multi < .3:
        fs.append(Field("_PART", rng.choice(["NVC", "N", "DT", "B"]), 5, 0, rng.random() < .3))
        if fs[-1].type == "DT":
            fs[-1].length = 0
    images = []
    for k in range(nimg):
        f = Field("_IMG%d" % k, "I", 0, 0, rng.random() < .5)
        images.append(f)
        fs.insert(rng.randint(1, len(fs)), f)
    if rng.random() < .4:
        fs.append(Field("_TXT", rng.choice(["T", "NT"]), 0, 0, rng.random() < .5))
    for k in range(rng.randint(0, 2)):
        fs.append(gen.field(rng, "_X%d" % k, rng.choice(["B", "N", "NVC", "L", "DT", "T", "NT"])))
    t = Table(name, fs, recordlock=rng.random() < .2)
    n = rng.choice([0, 1, 3, 8, 20, 30]) if not case.get("big") else 2
    rows = [DELETED] if rng.random() < .8 else []
    want = {}
    pool = [rng.choice(KEYS) for _ in range(rng.choice([1, 3, 30]))]
    for _ in range(n):
        if rng.random() < .2:
            rows.append(DELETED)
        row = {f.name: gen.value(rng, f) for f in t.all_fields() if f.type != "I"}
        r = rng.random()
        if r < .5:
            row["FILENAME"] = rng.choice(pool)
        elif r < .6:
            row["FILENAME"] = gen.text(rng, 40)
        elif r < .7 and up == "PARAMS":
            row["FILENAME"] = rng.choice(["users.usr", "Users.USR"])
        elif r < .8:
            row["FILENAME"] = "50a2d4b2-5a9d-4e8c-b2a5-8c2f8a0a3f11." * rng.choice([1, 2, 3])
        else:
            row["FILENAME"] = "k%d" % len(rows)
        for f in images:
            v = alts = None
            r = rng.random()
            if f.null and r < .15:
                row[f.name], want[len(rows), f.name] = None, None
                continue
            if r < .25:
                row[f.name], want[len(rows), f.name] = b"", None
                continue
            if not case.get("unpack"):
                v = rng.choice([lambda: sysvalue(rng, True), lambda: storage_value(rng), lambda: users(rng), lambda: (plain(rng), 0)])()[0]
                alts = [v]
            elif not system:
                v, alts = storage_value(rng, case.get("big", 0), case.get("how"))
            elif up == "V8USERS" or up == "PARAMS" and row["FILENAME"].lower() == "users.usr":
                v, alts = users(rng)
            else:
                twice = not (up in ("CONFIG", "CONFIGSAVE") and len(row["FILENAME"].encode()) <= 72)
                v, alts = sysvalue(rng, twice, case.get("big", 0), case.get("how"))
            if v is None:
                v, alts = b"", None
            row[f.name], want[len(rows), f.name] = v, alts
        rows.append(row)
    t.rows = rows
    if rng.random() < .4:
        t.blob_shuffle = random.Random(rng.random())
    r = rng.random()
    if r < .6:
        if rng.random() < .2:
            t.indexes.append(IndexDef("IXB", False, [("FILENAME", fs[0].size())], gen.order_perm(rng, t.live()), 260))
        parts = [("FILENAME", fs[0].size())]
        if multi < .3:
            parts.insert(rng.randint(0, 1), ("_PART", next(f for f in fs if f.name == "_PART").size()))
        t.indexes.append(IndexDef("IXP", rng.random() < .7, parts, gen.order_perm(rng, t.live()), min(400, sum(p[1] for p in parts) + 2)))
    return t, images, want


def files_of(tree):
    """contents of a container without its directory structure"""
    for n, vs in tree.items():
        for v in vs:
            if isinstance(v, dict):
                yield from files_of(v)
            else:
                yield v


def plain_name(n):
    return n not in ("", ".", "..") and "/" not in n and "\\" not in n and all(c >= " " for c in n) and len(n.encode()) <= 200


def same_tree(path, tree):
    """None or what is wrong with the directory"""
    if not os.path.isdir(path):
        return "no directory %s" % os.path.basename(path)
    have = os.listdir(path)
    total = sum(len(v) for v in tree.values())
    if len(have) != total:
        return "%d files in %s instead of %d" % (len(have), os.path.basename(path), total)
    if all(len(v) == 1 and plain_name(n) for n, v in tree.items()):
        for n, (v,) in tree.items():
            q = os.path.join(path, n)
            if isinstance(v, dict):
                e = same_tree(q, v)
                if e:
                    return e
            elif tool.read(q) not in v:
                return "%s has other contents" % n
        return None
    got = []
    for base, _, names in os.walk(path):
        got += [tool.read(os.path.join(base, n)) for n in names]
    for alts in sorted(files_of(tree), key=len):
        for g in got:
            if g in alts:
                got.remove(g)
                break
        else:
            return "no file with the contents of an element of %d bytes" % len(alts[0])
    return "%d unknown files" % len(got) if got else None


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"))
    pool = rng.sample(SYSTEM, 3) + [rng.choice(OTHER) % rng.randint(1, 99) for _ in range(3)]
    tables = []
    used = set()
    for n in case.get("tables") or (pool if not case.get("big") else [pool[0], pool[4]]):
        if n.upper() in used:
            continue
        used.add(n.upper())
        tables.append(make_table(rng, n, case))
        db.add(tables[-1][0])
    gen.infobase_stub(db, skip=[n for n in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA") if n in used])
    data = db.build()
    p = os.path.join(d, "base.1CD")
    tool.write(p, data)
    o = os.path.join(d, "o")
    os.mkdir(o)
    bf = case.get("bf", True)
    args = [p, "-q", "-ne", "-bf", "yes" if bf else "no"]
    if not case.get("unpack") or rng.random() < .5:
        args += ["-pb", "yes" if case.get("unpack") else "no"]
    else:
        args += rng.choice([[], ["-ParseBlob", "1"], ["-pb", "ДА"]])
    args += ["-eax", o] if rng.random() < .3 else ["-ex", o, "*"]
    files = {"base.1CD": data if len(data) < 30 << 20 else b"", "case.txt": repr(case)}
    sig = "blobfile"
    for again in range(2 if rng.random() < .2 else 1):
        r = tool.invoke(args, d, timeout=120, tmp=os.path.join(d, ".tmp"))
        if not tool.must_be_clean(r, out, sig, files):
            return
    ctx = "\n%s\n%s" % (case, tool.describe(r)[:900])
    if r.rc:
        return out.violation(sig + ":exit", "exit code %d on a valid database" % r.rc + ctx, files)
    out.count("runs")
    for t, images, want in tables:
        x = tool.read(os.path.join(o, t.name + ".xml"))
        if x is None:
            return out.violation(sig + ":noxml", "no XML file of table %s" % t.name + ctx, files)
        e = xmlm.compare(t, x, skip_types=("I",) if bf else ())
        if e:
            return out.violation(sig + ":xml", e + ctx, files)
        blobs = os.path.join(o, t.name + ".xml.blob")
        if not bf:
            if os.path.lexists(blobs):
                return out.violation(sig + ":dir", "files of values were written although not asked for" + ctx, files)
            for recno in t.live():
                for f in images:
                    out.count("values embedded", 1)
                    out.seen(("embedded", len(t.rows[recno][f.name] or b"")))
            continue
        _, _, records = xmlm.parse(x)
        refs = {}
        for recno, rec in zip(xmlm.expected_order(t), records):
            for n, text in rec:
                if not any(f.name == n for f in images):
                    continue
                w = want[recno, n]
                who = "table %s record %d field %s" % (t.name, recno, n)
                if w is None:
                    if text is not None and (t.rows[recno][n] is None or text.strip()):
                        return out.violation(sig + ":null", "%s is %s, exported as %r" % (
                            who, "null" if t.rows[recno][n] is None else "empty", text) + ctx, files)
                    out.count("null and empty values")
                    continue
                if text is None or not text:
                    return out.violation(sig + ":missing", "%s (%d bytes) has no reference to a file" % (who, len(t.rows[recno][n])) + ctx, files)
                q = os.path.join(blobs, text)
                real = os.path.realpath(q)
                if os.path.dirname(real) != os.path.realpath(blobs):
                    return out.violation(sig + ":outside", "%s refers to %r" % (who, text) + ctx, files)
                if not os.path.lexists(q):
                    return out.violation(sig + ":nofile", "%s: no file %r" % (who, text) + ctx, files)
                if real in refs:
                    return out.violation(sig + ":shared", "%s and %s share the file %r" % (who, refs[real], text) + ctx, files)
                refs[real] = who
                err = None
                for a in w:
                    if isinstance(a, dict):
                        err = same_tree(q, a)
                    elif os.path.isdir(q):
                        err = "a directory instead of a file"
                    else:
                        g = tool.read(q)
                        err = None if g == a else "%d bytes %s instead of %d bytes %s" % (len(g), g[:40].hex(), len(a), a[:40].hex())
                    if err is None:
                        break
                if err:
                    return out.violation(sig + ":content", "%s: file %r: %s\nstored %d bytes: %s" % (
                        who, text, err, len(t.rows[recno][n]), t.rows[recno][n][:80].hex()) + ctx, files)
                out.count("containers compared" if isinstance(a, dict) else "values compared")
                out.seen((is_system(t.name), case.get("unpack"), isinstance(a, dict), len(t.rows[recno][n]), text[:12]),
                         {"table": t.name, "bytes": len(t.rows[recno][n]), "file": text[:40], "unpack": bool(case.get("unpack"))})
        extra = set(os.listdir(blobs)) - {os.path.basename(q) for q in refs} if os.path.isdir(blobs) else set()
        if extra:
            return out.violation(sig + ":extra", "files without a record: %r" % sorted(extra)[:4] + ctx, files)
    beside = {n for n in os.listdir(d)} - {"base.1CD", "o", ".tmp"}
    other = {n for n in os.listdir(o) if n not in {t.name + s for t in db.tables for s in (".xml", ".xml.blob")}}
    if beside or other or os.path.lexists("/tmp/verif-c18-escape"):
        return out.violation(sig + ":elsewhere", "files %r were written" % sorted(beside | other)[:4] + ctx, files)


def main():
    c = fw.Check("C18", rule="a case is one export (-ex/-eax) of a generated database with IMAGE columns, as files (-bf yes, with and without "
                 "-pb) or embedded; each value is one evaluation, compared with what the generator packed into it, distinct by kind of "
                 "table, unpacking, stored length and file name",
                 assumptions=["names of the files are free as long as the record refers to its own",
                              "an element of a container packed twice may be written as it is or unpacked"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for v in gen.ALL_VERSIONS:
        add(c.n(45, 500), version=v, unpack=True)
        add(c.n(15, 150), version=v, unpack=False)
        add(c.n(10, 80), version=v, unpack=True, bf=False)
    for r in (.1, .3, .9):        # as it is, not packed, packed
        for kind in ("_T", "MYTABLE", "CONFIG"):
            add(c.n(1, 6), unpack=True, big=(10 << 20) + 1 + 2 * c.rng.randrange(1 << 18), how=r, tables=[kind])
    add(c.n(1, 6), unpack=False, big=(11 << 20) + 3)
    c.map(run_case, cases)
    return c.finish(min_evals=2000, require=["values compared", "containers compared", "values embedded", "null and empty values"])
