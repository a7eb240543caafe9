"""C07: vendor configurations (-dvc, -dac) and extension configurations (library) come out exactly."""
import base64
import hashlib
import os
import random
import uuid

import build
import c06
import cf
import cfggen
import fw
import gen
import run as _run
import tool

GENERAL = "9cd510cd-abfc-11d4-9434-004095e12fc7"


def q(s):
    return '"' + s.replace('"', '""') + '"'


def label(rng, allow_empty=False):
    """a name or version that may stand in a file name"""
    k = rng.random()
    if k < .3:
        return rng.choice(["1.0", "2.0.1.15", "3", "10.10", "8.3.10 (a)"])
    s = gen.text(rng, rng.choice([1, 5, 20, 60]), exact=True)
    s = "".join(c for c in s if c not in "/\\\t\0\u2028").strip(" .") or "К"
    while len(s.encode()) > 90:
        s = s[:-1]
    return s


def vendor(rng, name, version):
    """bytes of a vendor configuration container"""
    old = rng.random() < .25
    meta_name = cfggen.guid(rng)
    code = rng.choice([15, 22, 32, 34, 36, 37, 38, 16, 45])
    head = "{1,{3,{1,0,%s},%s,{1,\"ru\",\"Синоним\"},\"\"}}" % (cfggen.guid(rng), q(name))
    fields = ["0"] * (rng.choice([0, 1, 5]) + 16)
    fields[0] = head
    if code == 15:
        fields[10], fields[11] = q("Фирма"), q(version)
    else:
        fields[10], fields[11] = q("no"), q("wrong")
        fields[13], fields[14] = q("Фирма"), q(version)
    confinfo = "{%d,%s}" % (code, ",".join(fields))
    other = ["{%s,{1,{0}}}" % cfggen.guid(rng) for _ in range(rng.choice([0, 1, 4]))]
    nodes = list(other)
    nodes.insert(rng.randint(0, len(nodes)), "{%s,{1,%s}}" % (GENERAL if rng.random() < .8 else GENERAL.upper(), confinfo))
    sep = rng.choice([",", ",\r\n", ",\n"])
    meta = "{2,{%s},%d%s%s}" % (meta_name, len(nodes), sep, sep.join(nodes))
    root = "{2,%s,%s}" % (meta_name, rng.choice(["", "AAECAw=="]) or q(""))
    ver = rng.choice([106, 216, 200]) if not old else rng.choice([20, 99, 1])
    bom = b"\xef\xbb\xbf"
    special = [("root", bom + root.encode()), (meta_name, bom + meta.encode())]
    vers = ("version", bom + ("{\r\n{%d,0,\r\n{80310,0}\r\n}\r\n}" % ver).encode())
    rest = [(n, cfggen.content(rng, cfggen.size(rng, rng.random() < .2))) for n in cfggen.unique_names(
        rng, rng.choice([0, 1, 3, 12, 60]), ok=lambda s: s.lower() not in ("root", "version", "metadata"))]
    lvl = rng.choice([1, 6, 9])

    def pack(fs):
        fs = [(n, cf.deflate(d, lvl)) for n, d in fs]
        rng.shuffle(fs)
        return cf.build(fs, rng, split=rng.random() < .4)
    if old:
        inner = rest[:len(rest) // 2]
        rest = rest[len(rest) // 2:]
        mc = [(n, d) for n, d in special + inner]
        rng.shuffle(mc)
        return pack([("metadata", cf.build(mc, rng))] + [vers] + rest)
    return pack(special + [vers] + rest)


def flat_digest(x):
    return hashlib.sha1(x).hexdigest()


def extension(rng, cas, shared):
    """adds one extension's rows to cas; returns (hash of configinfo, {name: stored bytes}, configinfo text bytes)"""
    files = {}
    entries = []
    names = cfggen.unique_names(rng, rng.choice([0, 1, 4, 25]), ok=lambda s: s.lower() != "configinfo" and len(s) < 80
                                and cfggen.is_packed(s))
    for n in names:
        if shared and rng.random() < .3:
            d = rng.choice(shared)
        else:
            d = cf.deflate(cfggen.content(rng, cfggen.size(rng)))
            shared.append(d)
        h = hashlib.sha1(d).digest()
        cas[h.hex()] = d
        files[n] = d
        entries.append('%s,#base64:%s' % (q(n), base64.b64encode(h).decode()) if rng.random() < 0 else
                       '%s,%s' % (q(n), base64.b64encode(h).decode()))
    text = "{0,\r\n{216,0,\r\n{80310,0}\r\n}\r\n},\r\n{2,%s,%s},\r\n{%d%s}" % (
        cfggen.guid(rng), base64.b64encode(rng.randbytes(20)).decode(), len(entries),
        "".join("," + e for e in entries))
    info = cf.deflate(b"\xef\xbb\xbf" + text.encode())
    ver = hashlib.sha1(info).hexdigest()
    cas[ver] = info
    want = dict(files)
    want["configinfo"] = info
    return ver, want


def make_vendor(case):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"), case.get("ps"))
    multipart = rng.random() < .8
    vendors = {}
    tables = {"CONFIG": {}, "CONFIGSAVE": {}}
    used = set()
    for n in cfggen.unique_names(rng, rng.choice([0, 2, 10]), used=used):
        tables["CONFIG"][n] = cf.deflate(b"x" * rng.randint(1, 3000)) if cfggen.is_packed(n) else b"abc"
    for n in cfggen.unique_names(rng, rng.choice([0, 0, 3]), used=used):
        tables["CONFIGSAVE"][n] = cf.deflate(b"y" * rng.randint(1, 3000)) if cfggen.is_packed(n) else b"abc"
    files = {}
    same = label(rng)
    for _ in range(case.get("n") if case.get("n") is not None else rng.choice([0, 1, 1, 2, 3, 6])):
        nm = same if rng.random() < .3 else label(rng)
        v = label(rng)
        fn = "%s %s.cf" % (nm, v)
        if fn in files or len(fn.encode()) > 240:
            continue
        data = vendor(rng, nm, v)
        files[fn] = data
        row = cfggen.guid(rng) + "." + cfggen.guid(rng)
        tables["CONFIG" if rng.random() < .7 else "CONFIGSAVE"][row] = cf.deflate(cf.deflate(data, rng.choice([1, 6, 9])))
    for tname in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"):
        t = gen.config_table(tname, [], multipart)
        t.rows = cfggen.rows_for(rng, tables.get(tname) or {}, multipart, deleted=rng.choice([0, .2]))
        if rng.random() < .5:
            t.blob_shuffle = random.Random(rng.random())
        db.add(t)
    rng.shuffle(db.tables)
    return db, tables, files


def vendor_case(case, d, out):
    db, tables, want = make_vendor(case)
    data = db.build()
    p = os.path.join(d, "1Cv8.1CD")
    tool.write(p, data)
    rng = random.Random(case["seed"] + 1)
    o = os.path.join(d, "o")
    os.mkdir(o)
    mode = rng.choice(["-dvc", "-dac", "-dumpvendorsconfigs"])
    for fn in want:
        if rng.random() < .15:     # an older file of the same name
            tool.write(os.path.join(o, fn), rng.randbytes(rng.choice([3, 400000])))
    r = tool.invoke(["-ne", p, mode, o, "-q"], d)
    files = {"base.1CD": data, "case.txt": repr(case)}
    sig = "vendor"
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc:
        out.violation(sig + ":exit", "exit code %r on a valid infobase\n%s" % (r.rc, tool.describe(r)), files)
        return
    have = tool.tree(o)
    out.count("databases")
    if mode == "-dac":
        ddc = dict(tables["CONFIG"])
        dc = dict(tables["CONFIG"])
        dc.update(tables["CONFIGSAVE"])
        if not c06.compare(out, sig + ":dac:ddc", os.path.join(o, "dbcf.cf"), ddc, files, r, "-dac dbcf.cf") or \
                not c06.compare(out, sig + ":dac:dc", os.path.join(o, "cf.cf"), dc, files, r, "-dac cf.cf"):
            return
        have.pop("dbcf.cf", None)
        have.pop("cf.cf", None)
    for fn in sorted(set(want) | set(have)):
        a, b = want.get(fn), have.get(fn)
        out.seen(("vendor", len(a or b""), fn[:20]), {"file": fn, "bytes": len(a or b""), "command": mode})
        out.count("vendor configurations compared")
        if a != b:
            m = ("unexpected file %r" % fn if a is None else "vendor configuration %r was not written" % fn if b is None
                 else "%r has %d bytes, stored are %d, or they differ" % (fn, len(b), len(a)))
            out.violation(sig + ":content", m + "\n" + tool.describe(r), files)
            return


def session(lines, d, timeout=60):
    return _run.run([build.driver("confdrv")], cwd=d, timeout=timeout, tmp=os.path.join(d, ".tmp"),
                    stdin=("\n".join("\t".join(x) for x in lines) + "\n").encode())


def answers(r):
    return [ln.split("\t") for ln in r.out.splitlines() if ln.split("\t")[0] in
            ("ok", "no", "none", "yes", "error", "exception", "bad")]


def ext_case(case, d, out):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version", "8.3.8"), case.get("ps"))
    cas, save, shared = {}, {}, []
    exts = []
    for _ in range(rng.choice([1, 2, 4])):
        uid = cfggen.guid(rng)
        if exts and rng.random() < .4:      # identifiers that begin alike
            k = rng.randint(8, 35)
            uid = exts[-1][0][:k] + uid[k:]
        if uid in [x[0] for x in exts]:
            continue
        ver, want = extension(rng, cas, shared)
        edited = dict(want)
        if rng.random() < .6:
            # saved state: its own configinfo, listing kept files by hash and changed ones
            if rng.random() < .5 and len(want) > 1:
                ver2, want2 = ver, dict(want)
                info = want["configinfo"]
            else:
                tmpcas = {}
                ver2, want2 = extension(rng, tmpcas, shared)
                info = tmpcas.pop(ver2)
                cas.update(tmpcas)
            edited = dict(want2)
            pre = uid + "__"
            save[pre + ("configinfo" if rng.random() < .7 else "ConfigInfo")] = info
            edited.pop("configinfo")
            edited[[k for k in save if k.startswith(pre)][0][len(pre):]] = info
            for n in rng.sample(sorted(want2), min(len(want2), 3)):
                if n == "configinfo":
                    continue
                v = cf.deflate(cfggen.content(rng, cfggen.size(rng)))
                save[pre + n] = v
                edited[n] = v
        exts.append((uid, ver, want, edited))
    # rows that belong to nobody
    for _ in range(rng.choice([0, 2])):
        x = rng.randbytes(30)
        cas[flat_digest(x)] = x
        save[cfggen.guid(rng) + "__" + cfggen.guid(rng)] = x
        save[exts[0][0][:30] + cfggen.guid(rng)[30:] + "__" + rng.choice([cfggen.guid(rng)] + sorted(exts[0][2]))] = x
    multipart = rng.random() < .8
    tables = {"CONFIGCAS": cas, "CONFIGCASSAVE": save}
    # plain configuration, read file by file
    cfg = {}
    plain = {}
    for n in cfggen.unique_names(rng, rng.choice([1, 5, 15]), ok=lambda s: "\\" not in s and "/" not in s):
        c = cfggen.content(rng, cfggen.size(rng))
        cfg[n] = cf.deflate(c) if cfggen.is_packed(n) else c
        plain[n] = c
    # a file that is itself a container (a form, a module, an 8.0 metadata catalog)
    nested = {}
    for _ in range(rng.choice([0, 1, 2])):
        n = cfggen.guid(rng) + rng.choice(["", ".0"])
        sub = {"text": cfggen.content(rng, cfggen.size(rng)), "info": b"\xef\xbb\xbf{3,1}", "Имя": b"z"}
        deep = {"form": cfggen.content(rng, 700), "module": b"m" * rng.randint(1, 900)}
        if rng.random() < .5:      # the same name on both levels
            deep["text"] = cfggen.content(rng, cfggen.size(rng))
        if rng.random() < .3:
            deeper = {"text": cfggen.content(rng, 600), "form": b"f%d" % rng.randint(0, 999)}
            deep["deeper"] = cf.build(sorted(deeper.items()), rng)
        else:
            deeper = {}
        sub2 = dict(sub)
        if rng.random() < .6:
            sub2["deep"] = cf.build(sorted(deep.items()), rng)
            for k, v in deep.items():
                nested["%s/deep/%s" % (n, k)] = v
            for k, v in deeper.items():
                nested["%s/deep/deeper/%s" % (n, k)] = v
        for k, v in sub2.items():
            nested["%s/%s" % (n, k)] = v
        c = cf.build(sorted(sub2.items()), rng, split=rng.random() < .5)
        cfg[n] = cf.deflate(c)
        plain[n] = c
    savecfg = {}
    plainsave = dict(plain)
    for n in rng.sample(sorted(plain), min(2, len(plain))):
        if any(k.startswith(n + "/") for k in nested):
            continue
        c = cfggen.content(rng, 500)
        savecfg[n] = cf.deflate(c) if cfggen.is_packed(n) else c
        plainsave[n] = c
    tables["CONFIG"] = cfg
    tables["CONFIGSAVE"] = savecfg
    for tname in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA", "CONFIGCAS", "CONFIGCASSAVE"):
        t = gen.config_table(tname, [], multipart)
        t.rows = cfggen.rows_for(rng, tables.get(tname) or {}, multipart, deleted=rng.choice([0, .2]))
        if rng.random() < .5:
            t.blob_shuffle = random.Random(rng.random())
        db.add(t)
    rng.shuffle(db.tables)
    data = db.build()
    p = os.path.join(d, "1Cv8.1CD")
    tool.write(p, data)
    files = {"base.1CD": data, "case.txt": repr(case)}
    lines = [["open", p]]
    plan = [None]

    def add(line, what):
        lines.append(line)
        plan.append(what)
    order = list(range(len(exts)))
    rng.shuffle(order)
    for i in order:
        uid, ver, want, edited = exts[i]
        u = uid.upper() if rng.random() < .2 else uid
        v = ver.upper() if rng.random() < .1 else ver
        for w in rng.sample(["db", "save"], 2):
            path = os.path.join(d, "ext%d-%s.cfe" % (i, w))
            if w == "db":
                add(["extdb", path, v], ("container", path, want, "extension in the database"))
            else:
                add(["ext", path, u, v], ("container", path, edited, "edited extension"))
    # an extension that does not exist is an error and not somebody else's content
    bad = flat_digest(rng.randbytes(9))
    add(["extdb", os.path.join(d, "bad.cfe"), bad], ("error",))
    k = 0

    def reads(kind, content, nest):
        nonlocal k
        add(["cfg"] + kind, ("answer", "ok"))
        todo = [(n, c) for n, c in content.items()] + list(nest.items())
        rng.shuffle(todo)
        for n, c in (todo + todo)[:len(todo) + 4]:        # some of them twice
            k += 1
            path = os.path.join(d, "f%d" % k)
            nn = n.replace("/", "\\") if rng.random() < .5 else n
            if rng.random() < .2:
                nn = nn.upper() if nn.upper().lower() == nn.lower() and "/" not in n else nn
            add(["read", nn, path], ("file", path, c, "%s of %s" % (n, kind[0])))
            add(["exists", nn], ("answer", "yes"))
        g = cfggen.guid(rng)
        add(["exists", g], ("answer", "no"))
        add(["read", g, os.path.join(d, "none")], ("answer", "none"))
        for n in list(nest)[:1]:
            add(["read", n + "x", os.path.join(d, "none")], ("answer", "none"))
            add(["read", n.rsplit("/", 1)[0] + "/nowhere/x", os.path.join(d, "none")], ("answer", "none"))
        add(["done"], ("answer", "ok"))
    reads(["config"], plain, nested)
    reads(["save"], plainsave, nested)
    uid, ver, want, edited = exts[0]
    reads(["cas", ver], {n: cf.inflate(c) for n, c in want.items()}, {})
    reads(["cassave", ver, uid], {n: cf.inflate(c) for n, c in edited.items()}, {})
    r = session(lines, d)
    files["commands.txt"] = "\n".join("\t".join(x) for x in lines)
    sig = "library"
    if not tool.must_be_clean(r, out, sig, files):
        return
    ans = answers(r)
    if len(ans) != len(lines) or r.rc:
        out.violation(sig + ":answers", "%d answers to %d commands, exit %r\n%s" % (len(ans), len(lines), r.rc,
                                                                                 tool.describe(r)), files)
        return
    out.count("library sessions")
    for line, what, a in zip(lines, plan, ans):
        if what is None:
            ok = a[0] == "ok"
        elif what[0] == "container":
            if a[0] != "ok":
                out.violation(sig + ":ext", "%s: %s\ncommand %r" % (what[3], a, line), files)
                return
            if not c06.compare(out, sig + ":ext", what[1], what[2], files, r, what[3]):
                return
            out.count("extensions compared")
            continue
        elif what[0] == "error":
            ok = a[0] in ("error", "no")
        elif what[0] == "answer":
            ok = a[0] == what[1]
        else:
            c = tool.read(what[1])
            out.seen(("file", len(what[2])))
            out.count("single files compared")
            ok = a[0] == "ok" and c == what[2]
            if not ok:
                out.violation(sig + ":file", "reading %s gave %r, %s bytes instead of %d" % (
                    what[3], a, None if c is None else len(c), len(what[2])), files)
                return
        if not ok:
            out.violation(sig + ":answer", "command %r: answer %r, expected %r" % (line, a, what), files)
            return


def run_case(case, d, out):
    (ext_case if case["kind"] == "ext" else vendor_case)(case, d, out)


def main():
    c = fw.Check("C07", rule="a case is one generated infobase: vendor configurations in CONFIG and CONFIGSAVE dumped by -dvc or -dac; "
                 "or extensions in CONFIGCAS and CONFIGCASSAVE and single configuration files read through the library; every "
                 "container entry, vendor container or file compared is one evaluation",
                 assumptions=["vendor configurations of one database differ in name or version",
                              "names and versions that are no legal file names are the subject of C20"])
    tool.cli()
    build.driver("confdrv")
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for v in gen.ALL_VERSIONS:
        if v != "8.3.8":
            add(c.n(80, 900), kind="vendor", version=v)
            add(c.n(10, 100), kind="ext", version=v)
    for ps in gen.PAGESIZES:
        add(c.n(80, 900), kind="vendor", version="8.3.8", ps=ps)
        add(c.n(80, 900), kind="ext", version="8.3.8", ps=ps)
    c.map(run_case, cases)
    c.finish(min_evals=500, require=["vendor configurations compared", "extensions compared", "single files compared"])
