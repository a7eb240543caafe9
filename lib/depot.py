"""Generated configuration repositories (depots) and the model of their versions."""
import hashlib
import random
import struct
import uuid
import zlib

import cf
import cfggen
import gen
from db1cd import DELETED, Field, IndexDef, Table

SNAP1 = uuid.UUID("9eca213772a26b49a093206ea7629574")
SNAP2 = uuid.UUID("78dfdf6f2a06bb46840262145ae55764")
ZERO = b"\0" * 16


def ms(raw):
    """the presentation of 16 stored bytes used in configuration files"""
    return str(uuid.UUID(bytes_le=raw))


class Depot:
    """versions: {vernum: state}, state: {raw object id: (verid raw, stored bytes, {external name: (verid raw, stored bytes)})}"""

    def __init__(self):
        self.db = None
        self.files = {}        # files beside the database: relative path -> bytes
        self.versions = []     # existing version numbers in order
        self.state = {}
        self.snapshot = {}     # version -> bytes of the container a valid snapshot gives
        self.maybe = {}        # the same for snapshots of a maker this model does not know (may or may not be used)
        self.rootobj = None
        self.cversion = (216, 0)
        self.depotver = 7
        self.events = {}
        self.hist = []         # (object, version, "blob" | "out" | None, stored bytes, removed)
        self.extrows = []      # (object, version, name, verid, data stored in this row)


def config_file(rng, big):
    c = cfggen.content(rng, cfggen.size(rng, big))
    return cf.deflate(c, rng.choice([0, 1, 6, 9]))


def tweak(rng, stored):
    """a content that differs from another in a single byte, often a late one"""
    c = bytearray(cf.inflate(stored))
    if not c:
        return stored
    k = len(c) - 1 if rng.random() < .5 else rng.randrange(len(c))
    c[k] ^= 1 << rng.randrange(8)
    return cf.deflate(bytes(c), 0 if len(stored) > len(c) else rng.choice([1, 6, 9]))


def make(rng, dver=None, nobj=None, nver=None, big=False, unpacked_rows=True, ps=None, version=None, gaps=True,
         containers=False, snapshots=True, cversions=None, maxext=None, plain=None, npack=None, others=0):
    d = Depot()
    d.depotver = dver = dver or rng.choice([3, 5, 6, 7])
    version = version or {3: rng.choice(["8.0.5", "8.1.0", "8.2.0", "8.2.14"]), 5: rng.choice(["8.1.0", "8.2.14"]),
                          6: rng.choice(["8.2.14", "8.3.8"]), 7: rng.choice(["8.2.14", "8.3.8"])}[dver]
    db = d.db = gen.database(rng, version, ps)
    d.rootobj = rng.randbytes(16)
    if dver == 3:
        d.cversion = {"8.0.5": (6, 0), "8.0.3": (6, 0), "8.1.0": (106, 0)}.get(version, (216, 0))
    else:
        d.cversion = rng.choice(cversions or [(216, 0), (216, 0), (106, 3), (216, 300)])
    old = d.cversion[0] < 100
    hashed = dver >= 6
    nver = nver if nver is not None else rng.choice([1, 2, 3, 6, rng.randint(1, 12)])
    nobj = nobj if nobj is not None else rng.choice([1, 2, 5, 12, rng.randint(1, 25)])
    objs = []
    while len(objs) < nobj:
        o = rng.randbytes(16)
        if rng.random() < .3 and objs:      # ids that differ late
            o = objs[-1][:15] + bytes([rng.randrange(256)])
        if o not in objs and o != ZERO and ms(o) not in ("root", "version"):
            objs.append(o)
    store = {}                              # hash -> data kept outside the database
    hist, exts = [], []
    cur = {}
    vnums = []
    num = 0
    names_used = set()

    def put(data):
        """(value of the data field, value of the hash field)"""
        h = hashlib.sha1(struct.pack("<q", len(data)) + data).digest()
        if not hashed or rng.random() < .15:
            return data, (h if rng.random() < .5 else None)
        store[h] = data
        return (None if rng.random() < .7 else b""), h

    def extname(o):
        while True:
            k = rng.random()
            n = ms(o) + rng.choice(["", ".0", ".1", ".2", ".a5"]) if k < .6 else \
                ms(rng.randbytes(16)) if k < .8 else cfggen.guid(rng) + ".7"
            if n.lower() not in names_used and n not in [ms(x) for x in objs]:
                names_used.add(n.lower())
                return n

    def ext_content():
        if plain:
            return cf.deflate(rng.randbytes(plain))
        if rng.random() < .06:
            return cf.deflate(b"")
        if containers and rng.random() < .3:
            files = [(n, cfggen.content(rng, rng.choice([1, 40, 511, 600, 5000]))) for n in
                     rng.sample(["text", "info", "module", "form"], rng.randint(1, 3))]
            if rng.random() < .3:
                files.append(("sub", cf.build([("a", rng.randbytes(rng.choice([1, 500, 512, 900]))), ("Имя", b"x")])))
            k = rng.random()
            return cf.deflate(cf.build(files)) if k < .8 else cf.build(files)
        if containers and rng.random() < .15:
            if rng.random() < .5:
                x = cf.deflate(rng.randbytes(rng.choice([40, 3000, 40000])))
                return x[:len(x) * 2 // 3]
            return b"plain text \xff\xff\xff" + rng.randbytes(rng.choice([1, 100, 20000]))
        return config_file(rng, big)
    for _ in range(nver):
        num += 1 if not gaps or rng.random() < .8 else rng.randint(2, 5)
        if num == 1 and nver > 3 and rng.random() < .1:
            num = rng.randint(95, 998)      # crosses 100 / 1000
        vnums.append(num)
        ev = d.events[num] = {"changed": set(), "removed": set(), "touched": set()}
        for o in objs:
            r = rng.random()
            here = cur.get(o)
            if here is None:
                if r < .45:
                    act = "add"
                else:
                    continue
            else:
                act = "change" if r < .3 else "ext" if r < .45 else "remove" if r < .55 else "same" if r < .6 else \
                    "note" if r < .65 and unpacked_rows else None
            if act is None:
                continue
            row = {"OBJID": o, "VERNUM": str(num), "SELFVERNUM": str(num), "OBJVERID": rng.randbytes(16),
                   "PARENTID": rng.randbytes(16), "OWNERID": None if rng.random() < .5 else rng.randbytes(16),
                   "OBJNAME": gen.text(rng, 20), "OBJPOS": str(rng.randint(0, 99)), "REMOVED": False, "DATAPACKED": True,
                   "OBJDATA": None}
            if hashed:
                row["DATAHASH"] = None
            if act == "remove":
                row["REMOVED"] = True
                row["DATAPACKED"] = rng.choice([None, False])
                ev["removed"].add(o)
                hist.append(row)
                d.hist.append((o, num, None, b"", True))
                if rng.random() < .5:           # the externals may be listed with the removal
                    for n, (vid, edata) in cur[o][2].items():
                        e = {"OBJID": o, "VERNUM": str(num), "EXTNAME": n, "EXTVERID": vid, "DATAPACKED": False, "EXTDATA": b""}
                        if hashed:
                            e["DATAHASH"] = None
                        exts.append(e)
                        d.extrows.append((o, num, n, vid, False))
                del cur[o]
                continue
            if act == "note":               # a row without data: the object stays as it was
                row["DATAPACKED"] = rng.choice([None, False])
                hist.append(row)
                continue
            if here is None or act == "change":
                data = cf.deflate(rng.randbytes(plain)) if plain else tweak(rng, here[1]) if here and rng.random() < .4 else config_file(rng, big)
            else:
                data = here[1]
            ev["touched" if act == "same" else "changed"].add(o)
            row["OBJDATA"], h = put(data)
            if hashed:
                row["DATAHASH"] = h
            hist.append(row)
            d.hist.append((o, num, "blob" if row["OBJDATA"] else "out", data, False))
            ext = dict(here[2]) if here else {}
            for n in list(ext):
                r = rng.random()
                if act == "ext" and r < .15:
                    del ext[n]
                elif act == "ext" and r < .6:
                    ext[n] = (rng.randbytes(16), ext_content())
            if (act in ("add", "ext") and rng.random() < .6) or (act == "change" and rng.random() < .2):
                for _ in range(rng.randint(1, 3)):
                    if maxext is not None and len(ext) >= maxext:
                        break
                    ext[extname(o) if maxext is None else "%s.%d" % (ms(o), [i for i in range(maxext) if "%s.%d" % (ms(o), i) not in ext][0])] = (
                        rng.randbytes(16), ext_content())
            er = []
            for n, (vid, edata) in ext.items():
                e = {"OBJID": o, "VERNUM": str(num), "EXTNAME": n, "EXTVERID": vid, "DATAPACKED": True, "EXTDATA": b""}
                if hashed:
                    e["DATAHASH"] = None
                same = here and n in here[2] and here[2][n] == (vid, edata)
                if same and rng.random() < .7:
                    e["DATAPACKED"] = False
                else:
                    v, h = put(edata)
                    e["EXTDATA"] = v or b""
                    if hashed:
                        e["DATAHASH"] = h
                er.append(e)
                d.extrows.append((o, num, n, vid, e["DATAPACKED"]))
            rng.shuffle(er)
            exts += er
            cur[o] = (row["OBJVERID"], data, ext)
        d.state[num] = {o: (a, b, dict(c)) for o, (a, b, c) in cur.items()}
    d.versions = vnums
    # where the outside data live
    if hashed:
        items = list(store.items())
        rng.shuffle(items)
        npack = rng.choice([0, 1, 1, 2, 3, rng.randint(4, 9)]) if npack is None else npack
        packs = [[] for _ in range(npack)]
        for h, data in items:
            if npack and rng.random() < .6:
                rng.choice(packs).append((h, data))
            else:
                x = h.hex()
                d.files["data/objects/%s/%s" % (x[:2], x[2:])] = data
        for i, p in enumerate(packs):
            pck = bytearray(rng.randbytes(8))
            ind = []
            for h, data in p:
                ind.append(h + struct.pack("<q", len(pck)))
                pck += struct.pack("<q", len(data)) + data
            nm = "data/pack/pack-%s" % rng.randbytes(10).hex()
            for _ in range(others):         # contents nothing in this database refers to
                ind.append(rng.randbytes(20) + struct.pack("<q", 8))
            ind.sort()
            d.files[nm + ".ind"] = rng.randbytes(8) + struct.pack("<I", len(ind)) + b"".join(ind)
            d.files[nm + ".pck"] = bytes(pck)
        d.files.setdefault("data/pack/readme", b"x")
    # tables
    T = []
    f = [Field("DEPOTID", "B", 16), Field("ROOTOBJID", "B", 16), Field("CREATEDATE", "DT"), Field("DEPOTVER", "B", 8)]
    drow = {"DEPOTID": rng.randbytes(16), "ROOTOBJID": d.rootobj, "CREATEDATE": (2017, 6, 1, 12, 6, 13),
            "DEPOTVER": bytes([dver]) + b"\0" * 7}
    if dver >= 6:
        f.append(Field("COMPATIBILITYMODE", "N", 10))
        drow["COMPATIBILITYMODE"] = "80303"
    t = Table("DEPOT", f)
    t.rows = ([DELETED] if rng.random() < .6 else []) + [drow]
    T.append(t)
    for n, fs in (("USERS", [Field("USERID", "B", 16), Field("NAME", "NVC", 256, cs=False)]),
                  ("OBJECTS", [Field("OBJID", "B", 16), Field("CLASSID", "B", 16)]),
                  ("LABELS", [Field("VERNUM", "N", 10), Field("NAME", "NVC", 256, cs=False)]),
                  ("LASTESTVERSIONS", [Field("OBJID", "B", 16), Field("VERNUM", "N", 10)]),
                  ("SELFREFS", [Field("OBJID", "B", 16), Field("VERNUM", "N", 10), Field("OBJREF", "B", 16)]),
                  ("OUTREFS", [Field("OBJID", "B", 16), Field("VERNUM", "N", 10), Field("OBJREF", "B", 16)])):
        t = Table(n, fs)
        t.rows = [DELETED]
        T.append(t)
    vf = [Field("VERNUM", "N", 10), Field("USERID", "B", 16), Field("VERDATE", "DT"), Field("PVERSION", "B", 8)]
    if dver >= 5:
        vf.append(Field("CVERSION", "B", 4))
    vf += [Field("CODE", "NVC", 256, null=True), Field("COMMENT", "NT", null=True, cs=False),
           Field("SNAPSHOTMAKER", "B", 16, null=True), Field("SNAPSHOTCRC", "B", 4, null=True)]
    if dver >= 6:
        vf.append(Field("VERSIONID", "B", 16))
    vt = Table("VERSIONS", vf)
    for n in vnums:
        row = {"VERNUM": str(n), "USERID": rng.randbytes(16), "VERDATE": (2017, 6, 1, 12, 6, 13),
               "PVERSION": rng.randbytes(8), "CODE": None, "COMMENT": gen.text(rng, 30), "SNAPSHOTMAKER": ZERO,
               "SNAPSHOTCRC": None}
        if dver >= 5:
            row["CVERSION"] = struct.pack(">HH", *d.cversion)
        if dver >= 6:
            row["VERSIONID"] = rng.randbytes(16)
        if snapshots and rng.random() < .3 and not old:
            kind = rng.choice(["ok1", "ok2", "okroot", "badcrc", "absent", "broken", "unknown"])
            cont = cf.build([(k, v) for k, v in sorted(expected(d, n).items())] + [("snapshot", b"1")])
            maker = {"ok2": SNAP2.bytes, "okroot": d.rootobj, "unknown": rng.randbytes(16)}.get(kind, SNAP1.bytes)
            fn = "cache/ddb%05d.snp" % n
            crc = zlib.crc32(cont)
            if kind == "badcrc":
                crc ^= 1 << rng.randrange(32)
            body = cont if kind == "ok2" else cf.deflate(cont)
            if kind == "broken":
                body = rng.choice([b"", b"\xff" * 100, body[:len(body) // 2]])
            if kind != "absent":
                d.files[fn] = body
            if kind in ("ok1", "ok2", "okroot"):
                d.snapshot[n] = cont
            if kind == "unknown":
                d.maybe[n] = cont
            row["SNAPSHOTMAKER"] = maker
            row["SNAPSHOTCRC"] = struct.pack("<I", crc)
        vt.rows.append(row)
    hf = [Field("OBJID", "B", 16), Field("VERNUM", "N", 10), Field("SELFVERNUM", "N", 10), Field("OBJVERID", "B", 16),
          Field("PARENTID", "B", 16), Field("OWNERID", "B", 16, null=True), Field("OBJNAME", "NVC", 256, cs=False),
          Field("OBJPOS", "N", 6), Field("REMOVED", "L"), Field("DATAPACKED", "L", null=True), Field("OBJDATA", "I", null=True)]
    ef = [Field("OBJID", "B", 16), Field("VERNUM", "N", 10), Field("EXTNAME", "NVC", 128, cs=False), Field("EXTVERID", "B", 16),
          Field("DATAPACKED", "L"), Field("EXTDATA", "I")]
    if hashed:
        hf.append(Field("DATAHASH", "B", 20, null=True))
        ef.append(Field("DATAHASH", "B", 20, null=True))
    ht, et = Table("HISTORY", hf), Table("EXTERNALS", ef)
    ht.rows, et.rows = hist, exts
    for t, key in ((vt, lambda r: int(r["VERNUM"])), (ht, lambda r: (r["OBJID"], int(r["VERNUM"]))),
                   (et, lambda r: (r["OBJID"], int(r["VERNUM"])))):
        rng.shuffle(t.rows)
        rows = [DELETED] if rng.random() < .7 else []
        for r in t.rows:
            if rng.random() < .15:
                rows.append(DELETED)
            rows.append(r)
        t.rows = rows
        order = sorted(t.live(), key=lambda i: key(t.rows[i]))
        parts = [("VERNUM", 6)] if t is vt else [("OBJID", 16), ("VERNUM", 6)]
        if rng.random() < .5:
            t.indexes.append(IndexDef("VER", False, [("VERNUM", 6)], gen.order_perm(rng, t.live()), 8))
        t.indexes.append(IndexDef("PK", rng.random() < .3, parts, order, sum(p[1] for p in parts)))
        if rng.random() < .5:
            t.blob_shuffle = random.Random(rng.random())
        T.append(t)
    rng.shuffle(T)
    for t in T:
        db.add(t)
    return d


def expected(d, ver):
    """{name: stored bytes} of the configuration files of a version (without root, version, versions)"""
    out = {}
    for o, (vid, data, ext) in d.state[ver].items():
        out[ms(o)] = data
        for n, (v, b) in ext.items():
            out[n] = b
    return out


def save(d, directory, gap=0):
    """gap: bytes of a hole put in front of the data of every pack file"""
    import os
    p = os.path.join(directory, "1cv8ddb.1CD")
    data = d.db.build()
    with open(p, "wb") as f:
        f.write(data)
    for n, b in d.files.items():
        q = os.path.join(directory, n)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if gap and n.endswith(".ind"):
            b = b[:12] + b"".join(b[i:i + 20] + struct.pack("<q", struct.unpack_from("<q", b, i + 20)[0] + gap)
                                  for i in range(12, len(b), 28))
        with open(q, "wb") as f:
            if gap and n.endswith(".pck"):
                f.seek(gap)
            f.write(b)
    return p, data
