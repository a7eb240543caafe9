"""Random logical databases."""
from db1cd import DELETED, Database, Field, IndexDef, Table

CHARS = "abcXYZ019 _-.,:;!?&<>'\"()[]{}=/\\\t" + "абвЯЩё№«»—" + "ß€漢字" + "\u2028\ufffd\ufeff" + "😀𝄞𐍈"
PLAIN = "abcdefgXYZ0123456789абвгд"


def text(rng, maxunits, newlines=False, exact=False):
    n = maxunits if exact else rng.choice([0, 1, maxunits, max(0, maxunits - 1), rng.randint(0, maxunits),
                                           rng.randint(0, maxunits)])
    out = []
    units = 0
    if n and rng.random() < 0.05:
        out, units = ["\ufeff"], 1      # begins like a byte order mark
    pool = CHARS + ("\r\n" if newlines else "")
    while units < n:
        c = rng.choice(pool) if rng.random() < 0.4 else rng.choice(PLAIN)
        u = 2 if ord(c) > 0xffff else 1
        if units + u > n:
            c, u = "z", 1
        out.append(c)
        units += u
    return "".join(out)


def blob_len(rng, big=0):
    r = rng.random()
    if big and r < 0.08:
        return rng.randint(1000, big)
    return rng.choice([0, 1, 2, 3, 52, 53, 54, 55, 249, 250, 251, 499, 500, 501, 750, rng.randint(1, 1200)])


def value(rng, f, big=0):
    if f.null and rng.random() < 0.25:
        return None
    t = f.type
    if t == "B" or t == "VB":
        n = f.length
        if t == "VB":
            n = rng.choice([0, 1, f.length, rng.randint(0, f.length)]) if f.length else 0
        return bytes(rng.choice([0, 255, 0x80, rng.randrange(256)]) for _ in range(n))
    if t == "L":
        return rng.random() < 0.5
    if t == "N":
        ipl = f.length - f.prec
        nd = rng.choice([0, 1, ipl, rng.randint(0, ipl)])
        ip = "".join(rng.choice("0123456789") for _ in range(nd)).lstrip("0")[:ipl]
        nf = rng.choice([0, f.prec, rng.randint(0, f.prec)])
        fp = "".join(rng.choice("0001239") for _ in range(nf))
        v = (ip or "0") + ("." + fp if fp else "")
        nonzero = any(c in "123456789" for c in v)
        if nonzero and rng.random() < 0.4:
            v = "-" + v
        return v if (ipl or not ip) else "0." + fp
    if t == "NC":
        return text(rng, f.length)
    if t == "NVC":
        return text(rng, f.length)
    if t == "RV":
        return tuple(rng.choice([0, 1, 2 ** 31 - 1, rng.randrange(2 ** 20)]) for _ in range(4))
    if t == "V8":
        return tuple(rng.choice([0, 1, 2 ** 31 - 1, rng.randrange(2 ** 20)]) for _ in range(2))
    if t == "NT":
        return text(rng, blob_len(rng, big) // 2, True, True)
    if t == "T":
        return text(rng, blob_len(rng, big), True, True)
    if t == "I":
        return rng.randbytes(blob_len(rng, big))
    if t == "DT":
        return (rng.choice([1, 1980, 2000, 2024, 3999, 9999, rng.randint(1, 9999)]), rng.randint(1, 12),
                rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    raise ValueError(t)


def field(rng, name, type=None, null=None):
    t = type or rng.choice(["B", "L", "N", "NC", "NVC", "NT", "T", "I", "DT", "VB", "B", "N", "NVC"])
    null = (rng.random() < 0.4) if null is None else null
    ln = pr = 0
    if t in ("B", "VB"):
        ln = rng.choice([1, 2, 4, 15, 16, 17, 20, 32, rng.randint(1, 200)])
    elif t == "N":
        ln = rng.choice([1, 2, 3, 5, 9, 10, 15, 18, 19, 31, 32, rng.randint(1, 38)])
        pr = rng.choice([0, 0, 1, 2, ln, ln - 1, rng.randint(0, ln)])
        pr = max(0, min(pr, ln))
    elif t in ("NC", "NVC"):
        ln = rng.choice([1, 2, 3, 8, 40, 128, 150, rng.randint(1, 300)])
    if t == "RV":
        null = False
    return Field(name, t, ln, pr, null, rng.random() < 0.7)


def field_name(rng, i):
    base = "_" + rng.choice(["FLD", "CODE", "DESCRIPTION", "IDR", "REFX", "N", "PERIOD", "Имя"]) + str(i)
    return base


def table(rng, name, nrows=None, nfields=None, big=0, deleted=0.2, types=None, with_rv=None, recordlock=None):
    nf = nfields or rng.randint(1, 9)
    fields = []
    for i in range(nf):
        n = field_name(rng, i)
        t = rng.choice(types) if types else None
        f = field(rng, n, t)
        if f.type == "B" and f.length == 16 and rng.random() < 0.6:
            f.name = "_" + rng.choice(["IDRREF", "OWNERID", "TREF", "xId"]) + str(i) + rng.choice(["REF", "ID", "id", "Ref"])
        fields.append(f)
    if with_rv if with_rv is not None else rng.random() < 0.3:
        fields.insert(rng.randint(0, len(fields)), Field("_VERSION", "RV"))
    lock = recordlock if recordlock is not None else rng.random() < 0.3
    t = Table(name, fields, recordlock=lock)
    n = rng.choice([0, 1, 2, 5, 17, rng.randint(0, 60)]) if nrows is None else nrows
    rows = [DELETED] if rng.random() < 0.8 else []
    fs = t.all_fields()
    for _ in range(n):
        if rng.random() < deleted:
            rows.append(DELETED)
        rows.append({f.name: value(rng, f, big) for f in fs})
    t.rows = rows
    if rng.random() < 0.4:
        import random as _r
        t.blob_shuffle = _r.Random(rng.random())
    return t


def order_perm(rng, live, kind=None):
    o = list(live)
    k = kind or rng.choice(["same", "rev", "shuf", "shuf"])
    if k == "rev":
        o.reverse()
    elif k == "shuf":
        rng.shuffle(o)
    return o


def add_index(rng, t, name, primary, order=None, **opts):
    cand = [f for f in t.fields if f.type in ("B", "L", "N", "NC", "NVC", "DT")]
    if not cand:
        cand = t.fields
    parts = [(f.name, f.size()) for f in rng.sample(cand, min(len(cand), rng.randint(1, 3)))]
    keylen = opts.pop("keylen", None) or max(4, min(400, sum(p[1] for p in parts) + rng.randint(0, 8)))
    ix = IndexDef(name, primary, parts, order if order is not None else order_perm(rng, t.live()), keylen, opts)
    t.indexes.append(ix)
    return ix


ALL_VERSIONS = ["8.0.3", "8.0.5", "8.1.0", "8.2.0", "8.2.14", "8.3.8"]
PAGESIZES = [4096, 8192, 16384, 32768, 65536]


def database(rng, version=None, ps=None, layout=None):
    v = version or rng.choice(["8.2.14", "8.3.8", "8.3.8"] + ALL_VERSIONS)
    p = ps or rng.choice(PAGESIZES)
    return Database(v, p, lang=rng.choice(["ru_RU", "en", "ru"]), layout=layout or rng.choice(["seq", "reverse", "shuffle"]),
                    seed=rng.randrange(1 << 30), spare_pages=rng.choice([0, 0, 3]))


def infobase_stub(db, skip=()):
    """the tables every infobase must have, empty"""
    for n in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"):
        if n not in skip:
            db.add(config_table(n, []))


def config_fields(multipart):
    fs = [Field("FILENAME", "NVC", 128), Field("CREATION", "DT"), Field("MODIFIED", "DT"), Field("ATTRIBUTES", "N", 5),
          Field("DATASIZE", "N", 20), Field("BINARYDATA", "I")]
    if multipart:
        fs.append(Field("PARTNO", "N", 9))
    return fs


def config_table(name, rows, multipart=True):
    t = Table(name, config_fields(multipart))
    t.rows = rows
    return t
