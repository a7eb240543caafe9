"""Databases with a bit of everything: data tables, configurations, vendor configurations, extensions, repositories."""
import os
import random

import c06
import c07
import cf
import cfggen
import depot
import gen


def infobase(rng, version=None, ps=None, vendors=True, tables=None, small=False):
    """Database object (build() gives the bytes)"""
    case = {"seed": rng.randrange(1 << 40), "version": version, "ps": ps}
    if small:
        case["n"] = rng.choice([1, 3, 6])
    db, ddc, dc, info = c06.make(case)
    if info["vendor"]:
        return infobase(rng, version, ps, vendors, tables, small)
    for i in range(rng.choice([1, 2, 4]) if tables is None else tables):
        t = gen.table(rng, "_%s%d" % (rng.choice(["REFERENCE", "DOCUMENT", "INFORG", "CONST"]), i),
                      nrows=rng.choice([0, 3, 12]) if small else None)
        for k in range(rng.choice([0, 1, 2])):
            if t.live():
                gen.add_index(rng, t, "IX%d" % k, k == 0)
        db.add(t)
    by = {t.name.upper(): t for t in db.tables}
    multipart = any(f.name == "PARTNO" for f in by["CONFIG"].fields)
    if vendors and rng.random() < .7:
        data = c07.vendor(rng, "Поставщик", "1.%d" % rng.randint(0, 99))
        row = {cfggen.guid(rng) + "." + cfggen.guid(rng): cf.deflate(cf.deflate(data))}
        by["CONFIG"].rows += cfggen.rows_for(rng, row, multipart)
        for ix in by["CONFIG"].indexes:      # the order lists record numbers; new rows would be missing
            ix.order = by["CONFIG"].live()
    if version == "8.3.8" or rng.random() < .3:
        cas, save, shared = {}, {}, []
        c07.extension(rng, cas, shared)
        for name, src in (("CONFIGCAS", cas), ("CONFIGCASSAVE", save)):
            t = gen.config_table(name, [], multipart)
            t.rows = cfggen.rows_for(rng, src, multipart)
            db.add(t)
    return db


def repository(rng, directory, version=None, ps=None):
    """writes a repository into directory; returns (path of the database, Depot)"""
    d = depot.make(rng, version=version, ps=ps, nobj=rng.choice([2, 4]), nver=rng.choice([1, 3]))
    return depot.save(d, directory), d
