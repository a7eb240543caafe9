"""C02: records in primary index order, completely, whatever the shape of the index tree."""
import os
import random

import fw
import gen
import tool
import xmlm
from db1cd import DELETED, Field, Table

KEYLENS = [4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 380]


def one_table(rng, name, n, ps, small=False):
    fs = [Field("_K", "N", 9), Field("_S", "NVC", rng.randint(1, 20)), Field("_B", "B", rng.choice([1, 4, 16]))]
    if small:
        fs = fs[:1]
    t = Table(name, fs, recordlock=rng.random() < .3)
    rows = [DELETED] if rng.random() < .8 else []
    pdel = rng.choice([0, .1, .5])
    for k in range(n):
        while rng.random() < pdel:
            rows.append(DELETED)
        r = {f.name: gen.value(rng, f) for f in t.all_fields()}
        r["_K"] = str(k)
        rows.append(r)
    t.rows = rows
    return t


def index(rng, t, name, primary, shape):
    live = t.live()
    order = gen.order_perm(rng, live, shape.get("perm"))
    kl = shape.get("keylen") or rng.choice(KEYLENS)
    o = {}
    if shape.get("leaf_max"):
        o["leaf_max"] = shape["leaf_max"]
    if shape.get("branch_max"):
        o["branch_max"] = shape["branch_max"]
    need = max(1, max(live + [1]).bit_length())
    if shape.get("wide"):
        o["numrec_bits"] = min(32, need + rng.randint(0, 12))
        o["lr_bits"] = max(1, kl.bit_length()) + rng.randint(0, 2)
        tot = o["numrec_bits"] + 2 * o["lr_bits"]
        o["recbytes"] = min(8, (tot + 7) // 8 + rng.randint(0, 2))
    return gen.add_index(rng, t, name, primary, order, keylen=kl, **o)


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"), case.get("ps"))
    shape = case["shape"]
    nt = case.get("tables", 3)
    for i in range(nt):
        t = one_table(rng, "_T%d" % i, case["n"] if i == 0 else rng.randint(0, 40), db.ps, case.get("small"))
        r = rng.random()
        if i and r < .2:
            pass                                   # no index: physical order
        elif i and r < .35:
            index(rng, t, "SEC", False, shape)     # secondary only: physical order
        else:
            k = rng.randint(0, 2) if i == 0 or rng.random() < .6 else 0
            for j in range(k):
                index(rng, t, "SEC%d" % j, False, {})
            index(rng, t, "PK", True, shape)
            for j in range(rng.randint(0, 1)):
                index(rng, t, "SECX%d" % j, False, {"leaf_max": 3})
        if rng.random() < .5:
            t.index_shuffle = random.Random(rng.random())
        db.add(t)
    data = db.build()
    p = os.path.join(d, "base.1CD")
    tool.write(p, data)
    o = os.path.join(d, "x")
    os.mkdir(o)
    how = rng.choice(["all", "list", "twice"])
    if how == "list":
        args = ["-ne", p, "-q", "-ex", o, "*"]
    else:
        args = ["-ne", p, "-q", "-eax", o]
    if how == "twice":       # the index is read once and reused
        os.mkdir(os.path.join(d, "y"))
        args = ["-ne", p, "-q", "-eax", os.path.join(d, "y"), "-eax", o]
    r = tool.invoke(args, d, timeout=case.get("timeout", 60))
    sig = "order"
    files = {"base.1CD": data, "case.txt": repr(case)}
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc:
        out.violation(sig + ":exit", "exit code on a valid database\n" + tool.describe(r), files)
        return
    for t in db.tables:
        f = tool.read(os.path.join(o, t.name + ".xml"))
        if f is None:
            out.violation(sig + ":missing", "no file for table %s\n%s" % (t.name, tool.describe(r)), files)
            return
        msg = xmlm.compare(t, f)
        prim = [i for i in t.indexes if i.primary]
        key = (db.version, db.ps, len(t.rows), len(t.live()), [(i.primary, i.keylen, repr(i.opts)) for i in t.indexes],
               hash(tuple(prim[0].order)) if prim and prim[0].order is not None else 0)
        out.seen(key, {"version": db.version, "page": db.ps, "records": len(t.live()),
                       "indexes": [(i.primary, i.keylen, i.opts) for i in t.indexes]})
        out.count("records in index order" if prim else "records in physical order", len(t.live()))
        if prim:
            out.count("index pages", len(t.index) // db.ps)
        if msg:
            out.violation(sig + (":indexed" if prim else ":physical"), msg + "\ncase %r" % (case,),
                          dict(files, **{t.name + ".xml": f}))
            return


def main():
    c = fw.Check("C02", rule="a case is one database with generated index trees (key length, leaf and branch fan-out, bit "
                 "widths of the packed entries, page order, permutation of the records, secondary indexes, deleted "
                 "records); each table exported is one evaluation, distinct by index shape and order")
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(shape, n, cnt=1, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, shape=shape, n=n, **kw))
    m = c.n(2, 25)
    for v in gen.ALL_VERSIONS:
        for perm in ("rev", "shuf"):
            add({"perm": perm}, 60, m, version=v)
            add({"perm": perm, "leaf_max": 7}, 100, m, version=v)                       # two levels
            add({"perm": perm, "leaf_max": 2, "branch_max": 3}, 150, m, version=v)      # many levels
            add({"perm": perm, "leaf_max": 1, "branch_max": 2}, 33, m, version=v)
            add({"perm": perm, "wide": True, "leaf_max": 20}, 120, m, version=v)
    for ps in gen.PAGESIZES:
        add({"leaf_max": 5, "branch_max": 4}, 200, m, version="8.3.8", ps=ps)
        add({"wide": True}, 300, m, version="8.3.8", ps=ps)
    for kl in KEYLENS:
        add({"keylen": kl, "perm": "shuf"}, 120, c.n(1, 8))
        add({"keylen": kl, "perm": "shuf", "leaf_max": 9}, 120, c.n(1, 8))
    add({"perm": "shuf"}, 0, 3 * m)
    add({"perm": "shuf"}, 1, 3 * m)
    add({"perm": "shuf"}, 4000, c.n(2, 8), version="8.2.14", tables=1)      # filled pages, several levels
    add({"perm": "shuf", "keylen": 200}, 4000, c.n(2, 8), version="8.3.8", ps=4096, tables=1)
    add({"perm": "shuf", "keylen": 100, "leaf_max": 1, "branch_max": 2}, 300, c.n(1, 8), tables=1)
    add({"perm": "shuf"}, 66200, 1, tables=1, timeout=300, version="8.3.8", ps=8192, small=True)  # more than 16 bits of record number
    if c.thorough:
        add({"perm": "shuf"}, 70000, 2, tables=1, timeout=300)              # more than 16 bits of record number
        add({"perm": "rev", "keylen": 64}, 70000, 2, tables=1, timeout=300)
    cases.sort(key=lambda x: -x["n"])
    c.map(run_case, cases)
    c.finish(min_evals=100, require=["records in index order", "records in physical order", "index pages"])


