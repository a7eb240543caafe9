"""C06: -ddc and -dc write containers with exactly the effective configuration files."""
import os
import random

import cf
import cfggen
import fw
import gen
import tool


def make(case):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"), case.get("ps"))
    multipart = rng.random() < .8
    nf = case.get("n") or rng.choice([0, 1, 2, 5, 12, rng.randint(3, 60)])
    used = set()
    names = cfggen.unique_names(rng, nf, used=used)
    base = {}

    def content(nm):
        c = cfggen.content(rng, cfggen.size(rng, case.get("big")))
        if cfggen.is_packed(nm) and rng.random() < .7:
            c = cf.deflate(c)
        return cfggen.Stored(c)
    rows = {}        # name in the table -> stored bytes
    for nm in names:
        base[nm] = content(nm)
        rows[nm] = base[nm]
    ddc = dict(base)
    dc = dict(base)
    # dynamic updates
    ups = [cfggen.guid(rng) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    listed = list(ups)
    stray = cfggen.guid(rng)
    simple = [n for n in names if n.count(".") <= 1 and not n.startswith("{") and len(n) < 70]
    if ups or rng.random() < .3:
        for nm in rng.sample(simple, min(len(simple), rng.randint(0, 6))):
            best = -1
            for k, u in enumerate(ups + ([stray] if rng.random() < .5 else [])):
                if rng.random() < .6:
                    b, _, e = nm.partition(".")
                    v = content(nm)
                    uu = u.upper() if rng.random() < .2 else u
                    rows[b + "_dynupdate_" + uu + ("." + e if e else "")] = v
                    if u != stray and k > best:
                        best = k
                        ddc[nm] = dc[nm] = v
        # files that exist only as an update
        for _ in range(rng.choice([0, 0, 1])):
            if ups:
                nm = cfggen.guid(rng)
                v = content(nm)
                rows[nm + "_dynupdate_" + ups[-1]] = v
                ddc[nm] = dc[nm] = v
        text = "{1,%d%s}" % (len(listed), "".join("," + u for u in listed))
        if rng.random() < .3:
            text = text.replace(",", ",\r\n")
        if ups:
            rows["DynamicallyUpdated"] = b"\xef\xbb\xbf" + text.encode()
    # edits not applied yet
    tolerated = set()
    if rng.random() < .5:
        for nm in rng.sample(simple, min(len(simple), 3)):
            if "." in nm:
                continue
            v = content(nm)
            rows[nm + ".new"] = v
            dc[nm] = v
    save = {}
    removed = []
    if rng.random() < .6:
        for nm in rng.sample(names, min(len(names), rng.randint(0, 6))):
            nm2 = nm.upper() if rng.random() < .1 and nm.upper().lower() == nm.lower() else nm
            save[nm2] = content(nm)
            dc.pop(nm, None)
            dc[nm2] = save[nm2]
        for nm in cfggen.unique_names(rng, rng.choice([0, 1, 3]), used=used):
            save[nm] = dc[nm] = content(nm)
        if rng.random() < .5:
            plain = [n for n in base if len(n) >= 36 and n.count("-") == 4 and n == n.lower() and n in dc and n not in save]
            removed = rng.sample(plain, min(len(plain), rng.randint(0, 6)))
            removed = [n for n in removed if not any(r.startswith(n.partition(".")[0] + "_dynupdate_") or r == n + ".new" for r in rows)]
            for n in removed:
                dc.pop(n)
                if rng.random() < .2 and n.upper() not in rows:
                    for m in (rows, ddc):
                        m[n.upper()] = m.pop(n)
            listed = [u.upper() if rng.random() < .3 else u for u in removed]      # names are not case sensitive
            text = "{1,%d%s}" % (len(removed), "".join("," + (u if len(u) == 36 else '"%s"' % u) for u in listed))
            save["deleted"] = cf.deflate(b"\xef\xbb\xbf" + text.encode())
    for tname in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"):
        src = {"CONFIG": rows, "CONFIGSAVE": save}.get(tname) or {}
        t = gen.config_table(tname if rng.random() < .7 else tname.capitalize(), [], multipart)
        t.rows = cfggen.rows_for(rng, src, multipart, deleted=rng.choice([0, .2]))
        if rng.random() < .5:
            t.blob_shuffle = random.Random(rng.random())
        if rng.random() < .4 and t.live():
            gen.add_index(rng, t, "PK", True)
        db.add(t)
    rng.shuffle(db.tables)
    # a name of 73 characters is taken for a vendor configuration
    vendor = any(73 in (len(n), len(n.encode())) for n in list(rows) + list(save))
    return db, ddc, dc, {"vendor": vendor, "files": len(base), "updates": len(ups), "saved": len(save), "removed": len(removed)}


def compare(out, sig, path, want, files, r, who):
    data = tool.read(path)
    if data is None:
        out.violation(sig + ":missing", "%s: no container was written\n%s" % (who, tool.describe(r)), files)
        return False
    try:
        cont = cf.Container(data)
        have = cont.as_dict()
        times = {e.name: (e.ctime, e.mtime) for e in cont.entries}
    except (cf.ContainerError, ValueError) as e:
        out.violation(sig + ":invalid", "%s: not a valid container: %s\n%s" % (who, e, tool.describe(r)),
                      dict(files, **{"out.cf": data}))
        return False
    for n in sorted(set(want) | set(have)):
        a, b = want.get(n), have.get(n)
        out.seen((who, len(a or b""), n[:12]), {"command": who, "file": n, "bytes": len(a or b"")})
        out.count("container entries compared")
        if a != b:
            if a is None:
                m = "%s holds %r (%d bytes), which is not part of the configuration" % (who, n, len(b))
            elif b is None:
                m = "%s lacks %r (%d bytes)" % (who, n, len(a))
            else:
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                m = "%s: %r has %d bytes, expected %d, first difference at %d" % (who, n, len(b), len(a), k)
            out.violation(sig + ":content", m + "\n" + tool.describe(r)[:800], dict(files, **{"out.cf": data}))
            return False
        if hasattr(a, "times") and a.times != times[n]:
            out.violation(sig + ":times", "%s: %r has the times %r, expected %r\n%s" % (who, n, times[n], a.times, tool.describe(r)[:800]),
                          dict(files, **{"out.cf": data}))
            return False
        out.count("entry times compared")
    return True


def run_case(case, d, out):
    db, ddc, dc, info = make(case)
    data = db.build()
    p = os.path.join(d, "1Cv8.1CD")
    tool.write(p, data)
    rng = random.Random(case["seed"] + 1)
    o = os.path.join(d, "o")
    os.mkdir(o)
    args = ["-ne", p] if rng.random() < .7 else [p]
    paths = {}
    cmds = []
    for cmd, want, dflt in (("-ddc", ddc, "dbcf.cf"), ("-dc", dc, "cf.cf")):
        if rng.random() < .5:
            cmds.append([cmd, o])
            paths[cmd] = os.path.join(o, dflt)
        else:
            q = os.path.join(o, rng.choice(["x%s.cf", "Имя%s.CF"]) % cmd)
            cmds.append([cmd, q])
            paths[cmd] = q
        if rng.random() < .2:      # an older, larger file is there already
            tool.write(paths[cmd], rng.randbytes(rng.choice([10, 100000])) if rng.random() < .5 else
                       cf.build([("old", b"x" * 1000), ("old2", b"y" * 70000)]))
    rng.shuffle(cmds)
    if all(os.path.dirname(q) == o and not os.path.exists(q) for q in paths.values()) and rng.random() < .3 \
            and not info["vendor"]:
        cmds = [["-dac", o]]
        paths = {"-ddc": os.path.join(o, "dbcf.cf"), "-dc": os.path.join(o, "cf.cf")}
    r = tool.invoke(args + sum(cmds, []) + ["-q"], d, env={"TZ": rng.choice(["UTC", "UTC", "LOC-3", "LOC+5"])})
    files = {"base.1CD": data, "case.txt": repr(case) + repr(info)}
    sig = "config"
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc:
        out.violation(sig + ":exit", "exit code %r on a valid infobase\n%s" % (r.rc, tool.describe(r)), files)
        return
    out.count("databases")
    out.count("dynamic updates", info["updates"])
    out.count("removed files", info["removed"])
    ok = compare(out, sig + ":ddc", paths["-ddc"], ddc, files, r, "-ddc")
    ok = ok and compare(out, sig + ":dc", paths["-dc"], dc, files, r, "-dc")
    extra = set(os.listdir(o)) - {os.path.basename(x) for x in paths.values()}
    if ok and extra:
        out.violation(sig + ":extra", "unexpected files %r" % sorted(extra), files)


def main():
    c = fw.Check("C06", rule="a case is one generated infobase whose CONFIG and CONFIGSAVE tables hold a random set of files, "
                 "updates, edits and removals; each entry of the produced containers is one evaluation",
                 assumptions=["files without content are not stored (a record with an empty BLOB)",
                              "a list of removed files names them by GUID"])
    tool.cli()
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for v in gen.ALL_VERSIONS:
        if v != "8.3.8":
            add(c.n(90, 900), version=v)
    for ps in gen.PAGESIZES:
        add(c.n(70, 800), version="8.3.8", ps=ps)
    add(c.n(20, 150), version="8.2.14", big=True, n=20)
    add(c.n(20, 150), version="8.3.8", ps=8192, big=True, n=20)
    add(c.n(3, 12), version="8.3.8", ps=4096, n=600)
    c.map(run_case, cases)
    c.finish(min_evals=500, require=["container entries compared", "dynamic updates", "removed files"])
