"""C15: the command line: options in every spelling and order, lists of tables, names of outputs, errors and exit codes."""
import os
import random
import shutil

import c06
import c07
import c08
import c09
import cf
import cfggen
import db1cd
import depot
import fw
import gen
import tool

LONG = {"h": ["h", "help", "?"], "nv": ["nv", "noverbose"], "q": ["q", "quit"], "eax": ["eax", "ExportAllToXML"],
        "bf": ["bf", "BlobToFile"], "pb": ["pb", "ParseBlob"], "ex": ["ex", "ExportToXML"], "ne": ["ne", "NotExclusively"],
        "ddc": ["ddc", "DumpDBConfig"], "dc": ["dc", "DumpConfig"], "dvc": ["dvc", "DumpVendorsConfigs"],
        "dac": ["dac", "DumpAllConfigs"], "drc": ["drc", "DumpDepotConfig"], "dpc": ["dpc", "DumpPartDepotConfig"],
        "l": ["l", "logfile"], "eb": ["eb", "ExportToBinary"], "ib": ["ib", "ImportFromBinary"],
        "slo": ["slo", "SaveLostObjects"], "sts": ["sts", "SaveTablesSize"]}
YES = ["yes", "YES", "Yes", "1", "y", "Y", "да", "Да", "д"]
NO = ["no", "NO", "0", "n", "нет", "Н"]


def key(rng, k):
    s = rng.choice(LONG[k])
    m = rng.random()
    if m < .25:
        s = s.upper()
    elif m < .5:
        s = s.lower()
    elif m < .6:
        s = "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)
    return "-" + s


def quoted(rng, s):
    k = rng.random()
    if k < .6 or not s:
        return s
    if k < .8:
        return '"%s"' % s
    if k < .9:
        return s + '"'
    return '"%s"%s' % (s, '"' * rng.randint(1, 3))


def low(s):
    return "".join(c.lower() if "A" <= c <= "Z" or "А" <= c <= "Я" else c for c in s)


def matches(name, mask):
    """wildcards * and ?, any letter case"""
    name, mask = low(name), low(mask)
    row = [True] + [False] * len(name)
    for m in mask:
        if m == "*":
            for i in range(1, len(row)):
                row[i] = row[i] or row[i - 1]
        else:
            row = [False] + [row[i] and (m == "?" or m == name[i]) for i in range(len(name))]
    return row[-1]


def items_of(filt):
    for c in "\t,; ":
        filt = filt.replace(c, "\n")
    return [x for x in filt.split("\n") if x]


def item(rng, names):
    n = rng.choice(names)
    k = rng.random()
    if k < .3:
        pass
    elif k < .5:
        i = rng.randrange(len(n))
        j = rng.randrange(i, len(n) + 1)
        n = n[:i] + "*" + n[j:]
        if rng.random() < .3:
            n = n[:len(n) // 2] + "*" + n[len(n) // 2:]
    elif k < .7:
        n = "".join("?" if rng.random() < .3 else c for c in n)
        if rng.random() < .2:
            n += "?"
    elif k < .78:
        i = rng.randrange(len(n))
        n = n[:i] + rng.choice([".", "[%s]" % n[i], n[i] + "+", "(%s)" % n[i], "\\w", n[i] + "|", "^" + n[i], "$", n[i] + "{1}",
                                "[", ")", "\\", "%s[" % n[i]]) + n[i + 1:]
    elif k < .84:
        n = n[:-1]
    elif k < .9:
        n = n + rng.choice("0X_я")
    elif k < .93:
        n = "*"
    else:
        n = rng.choice(["Nothing", "НетТаблицы", "***", "?" * len(n), "CONF*", "_*"])
    m = rng.random()
    return n if m < .4 else n.lower() if m < .7 else "".join(c.upper() if rng.random() < .5 else c.lower() for c in n)


def table_list(rng, names):
    its = [item(rng, names) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    s = ""
    for i, x in enumerate(its):
        if i:
            s += rng.choice([",", ";", " ", "\t", ", ", " ;", ",,", " \t "])
        s += x
    if rng.random() < .15:
        s = rng.choice([" ", ",", ";"]) + s
    if rng.random() < .15:
        s += rng.choice([" ", ",", "; "])
    return s


class Action:
    def __init__(self, kind, params, out, **kw):
        self.kind, self.params, self.out = kind, params, out
        self.__dict__.update(kw)


def infobase(case):
    db, ddc, dc, info = c06.make(dict(case, n=case.get("n") or 5))
    if info["vendor"]:
        return infobase(dict(case, seed=case["seed"] + 7777777))
    rng = random.Random(case["seed"] + 5)
    by = {t.name.upper(): t for t in db.tables}
    vendors = {}
    if rng.random() < .6:
        multipart = any(f.name == "PARTNO" for f in by["CONFIG"].fields)
        rows = {}
        for i in range(rng.choice([1, 2])):
            v = "1.%d.%d" % (i, rng.randint(0, 99))
            inner = c07.vendor(rng, "Поставщик", v)
            vendors["Поставщик %s.cf" % v] = inner
            rows[cfggen.guid(rng) + "." + cfggen.guid(rng)] = cf.deflate(cf.deflate(inner))
        by["CONFIG"].rows += cfggen.rows_for(rng, rows, multipart)
        for ix in by["CONFIG"].indexes:
            ix.order = by["CONFIG"].live()
        for n, b in rows.items():
            ddc[n] = dc[n] = b
    for i in range(rng.choice([1, 2, 4])):
        nm = rng.choice(["_REFERENCE%d", "_DOCUMENT%d_VT%d" % (i, rng.randint(1, 99)), "_Таблица%d", "_INFORG%dX1", "T%d", "CONST%d"])
        t = gen.table(rng, nm % i if "%" in nm else nm, nrows=rng.choice([0, 1, 3, 12]))
        for k in range(rng.choice([0, 1, 2])):
            if t.live():
                gen.add_index(rng, t, "IX%d" % k, k == 0)
        db.add(t)
    return db, ddc, dc, vendors


def sibling(rng, db, base, d):
    """directory as -eb writes it, of the same tables with two records exchanged; {table: data storage}"""
    for t in db.tables:
        live = t.live()
        if len(live) > 1:
            i, j = rng.sample(live, 2)
            t.rows[i], t.rows[j] = t.rows[j], t.rows[i]
    r = db1cd.Reader(db.build())
    want = Sibling()
    for n, t in r.tables.items():
        q = os.path.join(d, n)
        os.makedirs(q)
        kinds = [t["data"], t["blob"], t["index"]]
        orig = base.tables[n]
        if any((a is None) != (b is None) for a, b in zip(kinds, (orig["data"], orig["blob"], orig["index"]))):
            shutil.rmtree(q)
            continue
        import struct
        tool.write(os.path.join(q, "root"), struct.pack("<4B8i", *[int(x is not None) for x in kinds], 1, 1, 2, 1, 2, 1, 2, 1, 2))
        for kn, x in zip(("data", "blob", "index"), kinds):
            if x is not None:
                tool.write(os.path.join(q, kn), x)
        tool.write(os.path.join(q, "descr"), t["descr"].encode("utf-16-le"))
        want[n] = t["data"]
        want.tables[n] = t
    return want


class Sibling(dict):
    def __init__(self):
        dict.__init__(self)
        self.tables = {}


def top(text):
    return {x for x in text.split("\n") if x.strip() and not x.startswith("\t") and not x.startswith(" ")}


ALWAYS = {"Создан объект"}


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    rep = case["kind"] == "depot"
    files = {"case.txt": repr(case)}
    dep = ddc = dc = vendors = None
    home = os.path.join(d, "b")
    os.mkdir(home)
    if rep:
        dep = depot.make(rng, version=case.get("version"), nobj=rng.choice([2, 3]), nver=rng.choice([1, 2, 4]), unpacked_rows=False,
                         containers=True, snapshots=False)
        p, data = depot.save(dep, home)
    else:
        db, ddc, dc, vendors = infobase(case)
        data = db.build()
        p = os.path.join(home, rng.choice(["1Cv8.1CD", "База данных.1CD", "x"]))
        tool.write(p, data)
    files["base.1CD"] = data
    base = db1cd.Reader(data)
    names = list(base.table_order)
    lens = {t_.name: t_.layout()[1] for t_ in (dep.db if rep else db).tables}
    writable = base.version not in ("8.0.3", "8.0.5")
    o = os.path.join(d, "o" if rng.random() < .7 else "Выгрузка из базы")
    os.mkdir(o)
    tool.write(os.path.join(d, "afile"), b"x")
    imp = os.path.join(d, "imp")
    os.mkdir(imp)
    sib = None

    def path(q, nonempty=True):
        if rng.random() < .4:
            q = os.path.relpath(q, d)
            if rng.random() < .3:
                q = "./" + q
        return q

    # -- the plan ------------------------------------------------------------------------------------------
    bf = rng.choice([None, None, None, True, False])
    pb = rng.choice([None, None, True, False])
    ne = rng.random() < .5
    kinds = (["drc", "dpc"] * 3 if rep else ["ddc", "dc", "dvc", "dac"] * 2 + (["ib", "ib"] if writable and not ne else [])) + \
        ["eax", "ex", "ex", "ex", "eb", "eb", "slo", "sts"]
    plan = []
    dirs = []

    def outdir(i, k):
        q = os.path.join(o, "%s %d" % (k, i) if rng.random() < .3 else "%s%d" % (k, i))
        dirs.append(q)
        return q

    for i in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(kinds)
        if k in ("eax", "dvc", "dac", "slo"):
            q = outdir(i, k)
            plan.append(Action(k, [path(q)], q))
        elif k in ("ex", "eb"):
            q = outdir(i, k)
            f = table_list(rng, names)
            if not items_of(f):
                continue
            plan.append(Action(k, [path(q), f], q, filt=f))
        elif k in ("ddc", "dc"):
            q = outdir(i, k)
            if rng.random() < .5:
                q2 = os.path.join(q, rng.choice(["a.cf", "Конфигурация.CF", "x.y.Cf"]))
                plan.append(Action(k, [path(q2)], q, file=os.path.basename(q2)))
            else:
                plan.append(Action(k, [path(q)], q, file={"ddc": "dbcf.cf", "dc": "cf.cf"}[k]))
        elif k == "drc":
            q = outdir(i, k)
            v = rng.choice(dep.versions)
            a = v if rng.random() < .5 else dep.versions.index(v) - (len(dep.versions) - 1)
            if rng.random() < .5:
                q2 = os.path.join(q, rng.choice(["a.cf", "Конфигурация.CF"]))
                plan.append(Action(k, [str(a), path(q2)], q, file=os.path.basename(q2), ver=v))
            else:
                plan.append(Action(k, [str(a), path(q)], q, file="v%d.cf" % v, ver=v))
        elif k == "dpc":
            q = outdir(i, k)
            ia, ib = sorted(rng.choices(range(len(dep.versions)), k=2))
            sp = [str(dep.versions[x]) if rng.random() < .5 else str(x - (len(dep.versions) - 1)) for x in (ia, ib)]
            if rng.random() < .5:
                arg, ia = sp[1], ib
            else:
                arg = ":".join(sp)
            if rng.random() < .5:
                dirs.pop()         # the directory is made by the command
            plan.append(Action(k, [arg, path(q)], q, ref="%d:%d" % (dep.versions[ia], dep.versions[ib]),
                               rng=(dep.versions[ia], dep.versions[ib])))
        elif k == "sts":
            q = os.path.join(o, "размеры %d.txt" % i)
            if rng.random() < .3:
                q += ".d"
            plan.append(Action(k, [path(q)], q))
        elif k == "ib":
            if sib is None:
                sib = sibling(rng, infobase(case)[0], base, imp)
            f = table_list(rng, list(sib))
            f = ",".join(x for x in items_of(f) if all(n in sib for n in names if matches(n, x)))
            if f:
                plan.append(Action(k, [path(imp), f], None, filt=f))
    if not plan:
        return
    for a in plan:
        a.bad = None
    # -- things that have to fail --------------------------------------------------------------------------
    nv = rng.random() < .2
    log = os.path.join(d, rng.choice(["log.txt", "Журнал 1.log"])) if rng.random() < .4 else None
    # reason -> where it is in the order of commands; None: known from the arguments
    trouble = []
    extra = []          # options: lists of arguments that may stand anywhere
    tail = []           # must be last
    fatal = t = None
    if rng.random() < .5:
        t = rng.choice(["nodir", "nodir", "isfile", "number", "absent", "emptylist", "wrongbase", "bool", "unknown", "twice",
                        "missing", "badlog", "noimport", "readonly", "nobase", "nofile", "dirbase", "garbage", "utf8", "shortbase"])
        q = os.path.join(d, "absent", "deep")
        pos = rng.randrange(len(plan) + 1)
        act = None
        if t == "nodir":
            k = rng.choice(["eax", "ex", "eb", "slo", "ib"] + (["drc", "dpc"] if rep else ["ddc", "dc", "dvc", "dac"]))
            act = Action(k, (["0"] if k in ("drc", "dpc") else []) + [path(q)] + (["*"] if k in ("ex", "eb", "ib") else []), None)
        elif t == "isfile":
            q = os.path.join(d, "afile")
            k = rng.choice(["eax", "ex", "eb", "slo", "ib"] + (["drc", "dpc"] if rep else ["ddc", "dc", "dvc", "dac"]))
            act = Action(k, (["0"] if k in ("drc", "dpc") else []) + [path(q)] + (["*"] if k in ("ex", "eb", "ib") else []), None)
        elif t == "number" and rep:
            b = rng.choice(["abc", "1x", "", "x1", "--1", "1.0", "99999999999", "1,2"])
            k = rng.choice(["drc", "dpc"])
            if k == "dpc" and rng.random() < .5:
                b = rng.choice(["1:", ":1", "0:x", "x:0", ":", "0:0:0", "1:1:"])
            q = os.path.join(o, "bad%d" % pos)
            dirs.append(q)
            act = Action(k, [b, path(q)], None, trash=q)
        elif t == "absent" and rep:
            v = rng.choice([dep.versions[-1] + 1, 2147483647, -2147483648, -len(dep.versions), -1000])
            k = rng.choice(["drc", "dpc"])
            q = os.path.join(o, "bad%d" % pos)
            dirs.append(q)
            act = Action(k, [str(v) if k == "drc" or rng.random() < .5 else rng.choice(["%d:0", "0:%d", "%d:%d"]).replace("%d", str(v)),
                             path(q)], None, trash=q)
        elif t == "emptylist":
            q = os.path.join(o, "bad%d" % pos)
            dirs.append(q)
            act = Action(rng.choice(["ex", "eb", "ib"]), [path(q), rng.choice([" ", ",", "; ,", "", "\t"])], None, trash=q)
        elif t == "wrongbase":
            q = os.path.join(o, "bad%d" % pos)
            dirs.append(q)
            k = rng.choice(["ddc", "dc", "dvc", "dac"] if rep else ["drc", "dpc"])
            act = Action(k, ([] if rep else ["0"]) + [path(q)], None, trash=q)
        elif t == "bool":
            extra.append([key(rng, rng.choice(["bf", "pb"])), rng.choice(["maybe", "2", "", "yess", "-1", "on"])])
            bf, pb = None, None
            trouble.append(None)
            fatal = "options"
        elif t == "unknown":
            extra.append([rng.choice(["-x", "--help", "-", "-eaxx", "-ExportAll", "-ключ", "-ddc=", "-h2"])])
            trouble.append(None)
        elif t == "utf8":
            extra.append([rng.choice([b"-\xff", b"-ea\x80x", b"-\xc3"])])
            trouble.append(None)
            fatal = "options"
        elif t == "twice":
            extra.append([rng.choice([path(p), "other.1CD", path(p) + "x"])])
            trouble.append(None)
            fatal = "options"
        elif t == "missing":
            k = rng.choice(["eax", "ex", "eb", "ib", "slo", "sts", "ddc", "dc", "dvc", "dac", "drc", "dpc", "bf", "pb", "l"])
            one = {"ex": path(o), "eb": path(o), "ib": path(imp), "drc": "0", "dpc": "0"}
            tail = [key(rng, k)] + ([one[k]] if k in one and rng.random() < .6 else [])
            trouble.append(None)
            if k == "l" and log:
                fatal = "options"
        elif t == "badlog":
            log = rng.choice([os.path.join(d, "absent", "log.txt"), home, os.path.join(d, "afile", "log")])
            trouble.append(None)
        elif t == "noimport" and not rep and writable:
            if sib is None:
                sib = sibling(rng, infobase(case)[0], base, imp)
            victim = rng.choice(list(sib))
            if not any(a.kind == "ib" for a in plan):
                shutil.rmtree(os.path.join(imp, victim))
                act = Action("ib", [path(imp), victim], None)
        elif t == "readonly":
            if not rep and sib is None:
                sib = sibling(rng, infobase(case)[0], base, imp)
            if sib:
                ne = True
                plan = [a for a in plan if a.kind != "ib"]
                pos = rng.randrange(len(plan) + 1)
                act = Action("ib", [path(imp), rng.choice(list(sib))], None)
        elif t == "nobase":
            fatal = "base"
            p2 = None
            trouble.append(None)
        elif t == "nofile":
            fatal = "base"
            p2 = p + rng.choice(["x", "/x", ".bak"])
            trouble.append(None)
        elif t == "dirbase":
            fatal = "base"
            p2 = d
            trouble.append(None)
        elif t in ("garbage", "shortbase"):
            fatal = "base"
            p2 = os.path.join(d, "damaged.1CD")
            tool.write(p2, (rng.randbytes(rng.choice([0, 1, 16, 4096, 20000])) if t == "garbage" else
                            data[:rng.choice([8, 16, 24, 4096, 8192])]))
            trouble.append(None)
        if act:
            act.bad = t
            plan.insert(pos, act)
            trouble.append(t)
        if trouble:
            out.count("runs that have to fail: " + t)
    for q in dirs:
        os.makedirs(q, exist_ok=True)
    # -- the command line ----------------------------------------------------------------------------------
    groups = [[key(rng, a.kind)] + [quoted(rng, x) if os.sep in x or rng.random() < .3 else x for x in a.params] for a in plan]
    opts = list(extra)
    if bf is not None:
        opts.append([key(rng, "bf"), rng.choice(YES if bf else NO)])
    if pb is not None:
        opts.append([key(rng, "pb"), rng.choice(YES if pb else NO)])
    if ne:
        opts.append([key(rng, "ne")])
    if nv:
        opts.append([key(rng, "nv")])
    if rng.random() < .4:
        opts.append([key(rng, "q")])
    if log:
        if t != "badlog" and rng.random() < .5:
            tool.write(log, b"OLD LOG " * 50)
        opts.append([key(rng, "l"), quoted(rng, path(log))])
    if not (fatal == "base" and p2 is None):
        opts.append([quoted(rng, path(p2 if fatal == "base" else p))])
    for g in opts:
        groups.insert(rng.randrange(len(groups) + 1), g)
    args = sum(groups, []) + tail
    before = {n for n in os.listdir(d)}
    r = tool.invoke(args, d, tmp=os.path.join(d, ".tmp"))
    files["args.txt"] = "\n".join(a if isinstance(a, str) else repr(a) for a in args)
    r.cmd = [x if isinstance(x, str) else repr(x) for x in r.cmd]
    sig = "cli"
    if not tool.must_be_clean(r, out, sig, files):
        return
    ctx = "\n" + tool.describe(r)
    out.count("command lines")

    def bad(s, msg):
        out.violation(sig + ":" + s, msg + ctx, files)

    logtext = (tool.read(log) or b"").decode("utf-8", "replace") if log else ""
    # -- exit code and messages ----------------------------------------------------------------------------
    if trouble:
        if r.rc == 0:
            return bad("exit0:" + (t), "%s was not reflected in the exit code" % t)
    elif r.rc:
        return bad("exit", "exit code %d, although nothing was wrong" % r.rc)
    if nv and not log and (r.out.strip() or r.err.strip()):
        return bad("nv", "output in spite of -nv")
    if nv and log and r.out.strip():
        return bad("nv", "output in spite of -nv")
    if "OLD LOG" in logtext:
        return bad("log:old", "the log file was not replaced")
    if log and t != "badlog" and not fatal and not os.path.isfile(log):
        return bad("log:none", "no log file was written")
    # -- outputs -------------------------------------------------------------------------------------------
    new = {n for n in os.listdir(d)} - before - {".tmp", os.path.basename(log or "log.txt")}
    if new:
        return bad("elsewhere", "unexpected files %r in the working directory" % sorted(new))
    made = os.path.join(d, "made")
    os.rename(o, made)
    after = tool.read(p)
    if not any(a.kind == "ib" and not a.bad for a in plan) or fatal == "base":
        if after != data:
            return bad("changed", "the database was changed")
    os.mkdir(o)
    for q in dirs:
        os.makedirs(q, exist_ok=True)
    tool.write(p, data)
    said = set(ALWAYS)
    failed = False
    if fatal:
        if fatal == "base":
            rest = [n for n in tool.tree(made)]
            if rest:
                return bad("nobase:output", "files %r were written without a database" % rest[:3])
        reported = top(logtext if log else r.err + r.out)
        if not (nv and not log) and not reported - said:
            return bad("silent:" + t, "%s was not reported" % t)
        out.seen((case["kind"], t, bool(log), nv), {"arguments": len(args), "error": t})
        return
    expect = {}
    cur = {n: x["data"] for n, x in base.tables.items()}
    now = dict(base.tables)
    for a in plan:
        opt = (["-bf", "yes"] if bf else []) + ([] if pb is None else ["-pb", "1" if pb else "0"]) + (["-ne"] if ne else [])
        if a.bad:
            failed = True
            if getattr(a, "trash", None) and a.bad in ("number", "emptylist", "wrongbase", "absent"):
                rel = os.path.relpath(a.trash, o)
                if a.bad != "absent" and os.path.isdir(os.path.join(made, rel)) and tool.tree(os.path.join(made, rel)):
                    return bad("bad:output", "a command that cannot be executed wrote files")
            continue
        if a.kind == "ib":
            sel = [n for n in names if any(matches(n, m) for m in items_of(a.filt))]
            for n in sel:
                if failed:
                    cur[n] = (cur[n], sib[n])
                else:
                    cur[n] = sib[n]
                    now[n] = sib.tables[n]
            ra = tool.invoke([p] + opt + ["-ib"] + [imp, a.filt], d)
            said |= top(ra.out + ra.err)
            out.seen(("ib", len(a.filt), len(sel)))
            continue
        params = list(a.params)
        if a.kind == "dpc":
            params[0] = a.ref
        ra = tool.invoke([p] + opt + ["-" + a.kind] + params, d)
        if ra.crash or ra.rc:
            return bad("alone", "-%s %r alone ended with %r\n%s" % (a.kind, params, ra.rc, tool.describe(ra)))
        said |= top(ra.out + ra.err)
        rel = os.path.relpath(a.out, o)
        got = os.path.join(made, rel)
        if failed and not os.path.exists(got):
            continue
        if a.kind == "sts":
            if failed and not os.path.isfile(got):
                continue
            want = "\ufefftable_name|records_count|data_size|blob_size|index_size\r\n"
            for n in names:
                t_ = now[n]
                want += "%s|%d|%s\r\n" % (n, len(t_["data"]) // lens[n], "|".join(
                    str(len(t_[x] or b"")) for x in ("data", "blob", "index")))
            have = tool.read(got)
            if failed and any(b.kind == "ib" for b in plan):
                continue        # which of the imports were done is not known
            if have is None or have.decode("utf-8", "replace") != want:
                files["sts.txt"] = have or b""
                return bad("sts", "-sts wrote other sizes; expected:\n%s" % want)
            out.count("size lists compared")
            out.seen(("sts", len(names)))
            continue
        gt = tool.tree(got)
        if failed and not gt:
            continue
        rt = tool.tree(a.out)
        out.count("command outputs compared")
        # names, from the documentation
        if a.kind in ("eax", "ex", "eb"):
            sel = [n for n in names if a.kind == "eax" or any(matches(n, m) for m in items_of(a.filt))]
            out.seen((a.kind, getattr(a, "filt", "")[:6], len(sel)), {"list": getattr(a, "filt", "all"), "tables": len(sel)})
            if a.kind == "eb":
                have = {n.split(os.sep)[0] for n in gt}
                wnt = set(sel)
                for n in sel:
                    if gt.get(n + "/data") != (cur[n] if isinstance(cur[n], bytes) else gt.get(n + "/data")):
                        return bad("eb:data", "-eb: data of %s differ" % n)
            else:
                have = {n for n in gt if os.sep not in n}
                wnt = {n + ".xml" for n in sel}
                below = {n.split(os.sep)[0] for n in gt if os.sep in n}
                if not bf and below:
                    return bad("bf", "-%s: BLOBs in files %r without -bf yes" % (a.kind, sorted(below)[:3]))
                if bf and "CONFIG" in {n.upper() for n in sel} and not rep and ddc and not below:
                    return bad("bf", "-%s: no BLOBs in files in spite of -bf yes" % a.kind)
            if have != wnt:
                return bad("tables", "-%s %r: written %r, selected are %r" % (a.kind, getattr(a, "filt", ""), sorted(have), sorted(wnt)))
        elif a.kind in ("ddc", "dc", "drc"):
            if set(gt) != {a.file}:
                return bad("name", "-%s: written %r, documented is %r" % (a.kind, sorted(gt), a.file))
        elif a.kind == "dvc":
            if gt != vendors:
                return bad("dvc", "-dvc: written %r, vendor configurations are %r" % (sorted(gt), sorted(vendors)))
        elif a.kind == "dac":
            if set(gt) != set(vendors) | {"cf.cf", "dbcf.cf"} or any(gt[n] != b for n, b in vendors.items()):
                return bad("dac", "-dac: written %r, vendor configurations are %r" % (sorted(gt), sorted(vendors)))
        # contents
        if a.kind in ("ddc", "dc", "dac"):
            for fn, w in ((getattr(a, "file", "dbcf.cf"), ddc), (getattr(a, "file", "cf.cf"), dc)):
                if a.kind == "ddc" and w is not ddc or a.kind == "dc" and w is not dc:
                    continue
                if not c06.compare(out, sig + ":" + a.kind, os.path.join(got, fn), w, files, r, "-" + a.kind + " " + fn):
                    return
        elif a.kind == "drc":
            try:
                c08.verify(dep, a.ver, gt[a.file], out, {"version": a.ver})
            except (db1cd.FormatError, cf.ContainerError, ValueError) as e:
                return bad("drc", "-drc version %d: %s" % (a.ver, e))
        elif a.kind == "dpc":
            if set(gt) != set(rt):
                return bad("dpc", "-dpc %s and -dpc %s write other files: %r" % (a.params[0], a.ref, sorted(set(gt) ^ set(rt))[:6]))
            must = c09.model(dep, *a.rng)[0]
            if any(x is not None for x in must.values()) and not gt:
                return bad("dpc:empty", "-dpc %s wrote nothing" % a.params[0])
        elif not any(b.kind == "ib" for b in plan) or a.kind == "slo":
            if gt != rt:
                dif = sorted(n for n in set(gt) | set(rt) if gt.get(n) != rt.get(n))
                return bad("alone:" + a.kind, "-%s writes %d files alone, %d in this run; differing: %r" % (a.kind, len(rt), len(gt), dif[:4]))
    # nothing else below the output directory
    known = {os.path.relpath(a.out, o) for a in plan if a.out} | {os.path.relpath(a.trash, o) for a in plan if getattr(a, "trash", None)}
    other = [n for n in tool.tree(made) if not any(n == k or n.startswith(k + os.sep) for k in known)]
    if other:
        return bad("extra", "unexpected files %r" % other[:4])
    if any(a.kind == "ib" and not a.bad for a in plan):
        rd = db1cd.Reader(after)
        for n in names:
            h = rd.tables[n]["data"]
            out.count("tables compared after an import")
            w = cur[n]
            if h != w if isinstance(w, bytes) or w is None else h not in flat(w):
                return bad("ib", "after -ib %s table %s holds %s" % (
                    [a.filt for a in plan if a.kind == "ib"], n, "the old data" if h == base.tables[n]["data"] else "other data"))
    if trouble and not (nv and not log) and not (nv and trouble == [None] and t == "badlog"):
        reported = top((logtext if log and t != "badlog" else "") + ("" if log and t != "badlog" else r.err + r.out))
        if not reported - said:
            return bad("silent:" + t, "%s was not reported%s" % (t, " in the log" if log else ""))
        out.count("errors found reported")
    out.seen((case["kind"], tuple(sorted({a.kind for a in plan}))[:3], bool(log), nv, trouble and t),
             {"arguments": args[:12] if all(isinstance(x, str) for x in args) else len(args), "exit": r.rc})


def flat(w):
    return flat(w[0]) + flat(w[1]) if isinstance(w, tuple) else (w,)


def helpcase(case, d, out):
    rng = random.Random(case["seed"])
    args = [key(rng, "h")]
    if rng.random() < .5:
        args.insert(rng.randrange(2), rng.choice(["none.1CD", "-q", "-ne"]))
    r = tool.invoke(args, d)
    if not tool.must_be_clean(r, out, "help", {}):
        return
    out.seen(("help", args[0]))
    if r.rc:
        out.violation("help:exit", "exit code of the help\n" + tool.describe(r))
    keys = {w.strip(" ,<[") for line in r.out.replace("\r", "\n").split("\n") if line.strip().startswith("-") for w in line.split() if w.startswith("-")}
    keys = {k.lower().strip(",") for k in keys}
    miss = [k for v in LONG.values() for k in v if "-" + k.lower() not in keys]
    if miss:
        out.violation("help:text", "the help does not show the options %r\n%s" % (miss, tool.describe(r)))
    r = tool.invoke([], d)
    if not tool.must_be_clean(r, out, "empty", {}):
        return
    if r.rc or "-h" not in r.out:
        out.violation("empty", "no arguments: no hint, or an exit code\n" + tool.describe(r))


def quotes(case, d, out):
    """arguments made of quotes and blanks in every position: they may be refused, but the program must end"""
    rng = random.Random(case["seed"])
    db = gen.database(rng, ps=4096)
    gen.infobase_stub(db)
    p = os.path.join(d, "x.1CD")
    data = db.build()
    tool.write(p, data)
    os.mkdir(os.path.join(d, "o"))
    w = ['"', '""', '"""', 'a"', '"a""', '"a', "", " ", '" "', '"o"', "-", '-"', '"-q"', "o", p, "-ne", "-l", "-ex", "-eb", "-ddc", "-sts",
         "log", "*", "-bf", "-pb", "-drc", "-dpc", "-slo", "-dac", "-dvc", "-eax", "-nv"]
    for _ in range(4):
        args = ["-ne"] + [rng.choice(w) for _ in range(rng.randint(1, 7))]
        # outputs only below the scratch directory: every path is relative to it
        r = tool.invoke(args, d)
        if not tool.must_be_clean(r, out, "quotes", {"args.txt": repr(args)}):
            return
        out.count("odd argument lists")
        out.seen(("quotes", tuple(args)[:4]), {"arguments": args, "exit": r.rc})


def case_any(case, d, out):
    {"help": helpcase, "quotes": quotes}.get(case["kind"], run_case)(case, d, out)


def main():
    c = fw.Check("C15", rule="a case is one generated database and a random command line: commands, options, letter case, order, quoting, "
                 "lists of tables and, in half of them, something that has to fail; each command's output is compared with the names and "
                 "contents the documentation gives and with the same command run alone",
                 assumptions=["an option given twice, and a value that starts with a minus where a parameter is expected, have no documented meaning",
                              "commands after a failed one may be left out, but not done in part"])
    tool.cli()
    base = c.seed * 1000003
    cases = []
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    add(c.n(3, 20), kind="help")
    add(c.n(60, 800), kind="quotes")
    add(c.n(420, 8000), kind="base")
    add(c.n(130, 2500), kind="depot")
    c.map(case_any, cases)
    c.finish(min_evals=300, require=["command lines", "command outputs compared", "errors found reported", "tables compared after an import",
                                     "size lists compared", "odd argument lists"])


if __name__ == "__main__":
    main()
