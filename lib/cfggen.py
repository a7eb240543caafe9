"""Configuration tables (CONFIG, CONFIGSAVE, ...) for generated infobases."""
import datetime
import uuid

import cf
import gen
from db1cd import DELETED

NOT_PACKED = ("DynamicallyUpdated", "SprScndInfo", "DBNamesVersion", "siVersions")


def guid(rng):
    return str(uuid.UUID(int=rng.getrandbits(128)))


def is_packed(name):
    low = name.lower()
    if low in [n.lower() for n in NOT_PACKED] or name.startswith("{") or "fo_version" in low:
        return False
    ext = low.rsplit(".", 1)[1] if "." in low else ""
    return ext not in ("inf", "pf")


def rand_time(rng):
    return (rng.choice([1, 1600, 1969, 3999, 9999]) if rng.random() < .05 else rng.randint(1990, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
            rng.randint(0, 59))


class Stored(bytes):
    """a content that remembers the times of the row that stores it"""
    times = None


def ticks(t):
    """in the unit of the containers, 1/10000 s since year 1"""
    d = datetime.datetime(*t) - datetime.datetime(1, 1, 1)
    return (d.days * 86400 + d.seconds) * 10000


def rows_for(rng, files, multipart=True, part_max=None, deleted=0.15, shuffle=True):
    """files: {name: stored bytes}; returns rows of a config table"""
    rows = []
    for name, data in files.items():
        parts = [data]
        if multipart and len(data) > 3 and rng.random() < (0.35 if part_max is None else 1):
            k = rng.randint(2, 4) if rng.random() < .9 else rng.randint(9, 30)
            cuts = sorted(rng.sample(range(1, len(data)), min(k - 1, len(data) - 1)))
            parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        t1, t2 = rand_time(rng), rand_time(rng)
        same = rng.random() < .5
        if isinstance(data, Stored):
            data.times = (ticks(t1), ticks(t2))
        for i, p in enumerate(parts):
            # the times of the file are those of its first part
            r = {"FILENAME": name, "CREATION": t1 if not i or same else rand_time(rng),
                 "MODIFIED": t2 if not i or same else rand_time(rng), "ATTRIBUTES": "0", "DATASIZE": str(len(p)),
                 "BINARYDATA": p}
            if multipart:
                r["PARTNO"] = str(i)
            rows.append(r)
    if shuffle:
        rng.shuffle(rows)
    out = [DELETED] if rng.random() < .7 else []
    for r in rows:
        if rng.random() < deleted:
            out.append(DELETED)
        out.append(r)
    return out


def content(rng, size):
    k = rng.random()
    if k < .4:
        return rng.randbytes(size)
    if k < .5:
        return b"\0" * size
    base = bytes(rng.randrange(32, 127) for _ in range(40))
    return (base * (size // 40 + 1))[:size]


def size(rng, big=False):
    if big and rng.random() < .5:
        return rng.choice([65535, 65536, 100000, rng.randint(100000, 900000)])
    return rng.choice([1, 2, 3, 31, 249, 250, 251, 255, 256, 257, 499, 500, 501, 511, 512, 513, 1023, 1024, 4095, 4096, 4097,
                       8192, 16383, 16384, 16385, rng.randint(1, 5000), rng.randint(1, 40000)])


def name(rng):
    k = rng.random()
    g = guid(rng)
    if k < .35:
        return g
    if k < .6:
        return g + "." + rng.choice(["0", "1", "2", "5", "7", "a", "b", "c1"])
    if k < .68:
        return rng.choice(["root", "version", "versions", "siVersions", "DBNamesVersion", "SprScndInfo", "Info.INF", "x.pf",
                           "fo_version", "DBNames", "commonModules.cat", "имя файла", "Конфигурация.Модуль", "a b.c d"])
    if k < .72:
        return "{" + g + "}"
    if k < .76:
        return g + ".a.b.0"
    if k < .8:
        return g.upper()
    if k < .84:
        return g + ".INF"
    return gen.text(rng, rng.choice([5, 20, 127, 128]), exact=True).replace("\t", "x").replace("/", "-").replace("\\", "-") \
        .strip() or "n"


def unique_names(rng, n, ok=lambda s: True, used=None):
    used = set() if used is None else used
    out = []
    while len(out) < n:
        s = name(rng)
        if fold(s) in used or s.lower() in ("dynamicallyupdated", "deleted") or "_dynupdate_" in s.lower() \
                or s.lower().endswith(".new") or len(s) == 73 or not ok(s) or s.strip(".") != s or "\0" in s:
            continue
        if len(s.encode("utf-16-le")) > 256:
            continue
        used.add(fold(s))
        out.append(s)
    return out


def fold(s):
    return s.lower()
