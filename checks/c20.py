"""C20: whatever names the database contains, files are made, changed and removed inside the output paths only."""
import os
import random
import shutil

import build
import c07
import c16
import c19
import cf
import cfggen
import depot
import fw
import gen
import iomon
import tool
from db1cd import DELETED, Field, IndexDef, Table

CHANGING = ("unlink", "rmdir", "rename", "trunc", "write", "mkdir", "link", "chmod", "symlink")
KINDS = ["tables", "vendors", "externals", "keys", "elements", "all", "import"]


def hostile_names(rng, d, n, maxlen=110):
    """n distinct names that lead outside or are otherwise special"""
    out = os.path.join(d, "outside")
    up = ["../", "../../", "../../../", "..\\", "./../", "a/../../", "../o/../", "x/../../../"]
    ends = ["victim", "victim.xml", "outside/victim", "new", "outside/new", "outside", "nodir/new", "o2", "keep"]
    special = [".", "..", "...", "/", "//", "a/b", "a/", "/a", "a//b", "\\", "a\\b", "..\\victim", "C:\\victim", "C:victim", "con", "NUL", "com1.txt", "aux",
               " ", "a ", "a.", ".hidden", "-rf", "--", "~", "~/x", "$HOME", "`id`", "$(id)", "*", "?", "a:b", "a|b", "a>b", "a'b", "%2e%2e%2fvictim",
               "..%2fvictim", "a\tb", "\u202e", "／victim", "․․/victim", "x" * maxlen, "я" * min(maxlen, 100), "A", "a", "a_b", "a b",
               "../" * 3 + "outside/" + "y" * 40, "o/../../victim", "proc/self/cwd/x", "root", "data", "deleted", "metadata", "T", "../T/sentinel"]
    res, seen = [], set()
    while len(res) < n:
        r = rng.random()
        if r < .3:
            x = rng.choice(up) + rng.choice(ends)
        elif r < .5:
            x = rng.choice([out, d, os.path.join(d, "w", "o"), os.path.join(d, "w")]) + rng.choice(["/victim", "/new", "/sub/x", "", "/../victim"])
        elif r < .6:
            x = rng.choice(["x/", "../o/", "./"]) + rng.choice(special)
        else:
            x = rng.choice(special)
        x = x[:maxlen]
        if x and x.lower() not in seen and x.rstrip() == x or x == " " and x not in seen:
            seen.add(x.lower())
            res.append(x)
    return res


def plain_names(n):
    return ["Имя%d" % i for i in range(n)]


class World:
    """the same database, built with hostile or with plain names"""

    def __init__(self, case, d, base, hostile):
        rng = random.Random(case["seed"])
        hr = random.Random(case["seed"] + 1)
        kind = case["kind"]

        def names(n, maxlen=110):
            h = hostile_names(hr, d, n, maxlen)
            return h if hostile else plain_names(n)
        self.dir = os.path.join(d, base)
        os.makedirs(self.dir)
        o = "%o"
        if kind == "externals":
            dep = depot.make(rng, nobj=rng.choice([2, 4, 6]), nver=rng.choice([2, 4]), containers=True)
            et = [t for t in dep.db.tables if t.name == "EXTERNALS"][0]
            old = sorted({r["EXTNAME"].lower() for r in et.rows if r is not DELETED})
            new = dict(zip(old, names(len(old))))
            for r in et.rows:
                if r is not DELETED:
                    r["EXTNAME"] = new[r["EXTNAME"].lower()]
            p = depot.save(dep, self.dir)
            self.p = p[0] if isinstance(p, tuple) else p
            v = dep.versions
            self.commands = [["-dpc", "%d:%d" % (v[0], v[-1]), o + "/p"], ["-dpc", "0:0", o + "/p"], ["-drc", "0", o], ["-dpc", str(v[-1]), o]]
            self.names = list(new.values())
            return
        db = gen.database(rng, rng.choice(["8.1.0", "8.2.14", "8.3.8"]))
        self.p = os.path.join(self.dir, "1Cv8.1CD")
        self.names = []
        if kind in ("vendors", "all"):
            k = rng.choice([1, 2, 4])
            nn, vv = names(k, 60), names(k, 30)
            self.names += nn + vv
            cfg = {}
            for i in range(k):
                # either the name or the version leads outside
                data = c07.vendor(random.Random(case["seed"] * 100 + i), nn[i] if rng.random() < .7 else "Поставщик", vv[i])
                cfg[cfggen.guid(rng) + "." + cfggen.guid(rng)] = cf.deflate(cf.deflate(data))
            for tn in ("CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"):
                t = gen.config_table(tn, [], kind != "all")
                t.rows = cfggen.rows_for(random.Random(case["seed"]), cfg if tn == "CONFIG" else {}, kind != "all")
                db.add(t)
            self.commands = [["-dvc", o], ["-dac", o]]
        else:
            gen.infobase_stub(db, ())
        if kind in ("tables", "import", "all"):
            tn = names(rng.choice([1, 3, 6]))
            self.names += tn
            for n in tn:
                t = gen.table(rng, "_T", nrows=rng.choice([0, 2, 5]))
                if not any(f.type == "I" for f in t.fields) and rng.random() < .5:
                    t = Table("_T", [Field("_K", "NVC", 10), Field("_I", "I")])
                    t.rows = [{"_K": "k%d" % i, "_I": rng.randbytes(rng.choice([1, 40, 300]))} for i in range(rng.choice([0, 2]))]
                t.name = n
                if t.live() and rng.random() < .5:
                    gen.add_index(rng, t, "IX", True)
                db.add(t)
            self.commands = [["-eax", o], ["-ex", o, "*"], ["-eb", o, "*"], ["-eax", o, "-bf", "yes"], ["-eax", o, "-bf", "yes", "-pb", "no"]]
        if kind in ("keys", "elements", "all"):
            n = rng.choice([2, 6, 12])
            t = Table(rng.choice(["_Store", "Params", "_ConfigStorage"]) if kind != "all" else "_Store",
                      [Field("_K", "NVC", 128)] + [Field("_I%d" % i, "I") for i in range(rng.choice([1, 2]))])
            if t.name == "Params":
                db.tables = [x for x in db.tables if x.name.upper() != "PARAMS"]
            keys = names(n) if kind != "elements" else plain_names(n)
            self.names += keys
            for k in keys:
                row = {"_K": k}
                for f in t.fields[1:]:
                    x = rng.randbytes(rng.choice([1, 30, 700]))
                    if kind != "keys":
                        elems = names(rng.choice([1, 3]))
                        self.names += elems
                        fs = [(e, rng.randbytes(rng.choice([1, 600]))) for e in elems]
                        if rng.random() < .4:
                            fs.append((names(1)[0] if case["seed"] % 2 else "sub", cf.build([(e, b"inner" + rng.randbytes(9)) for e in names(2)])))
                        x = cf.deflate(cf.build(fs)) if t.name != "_Store" else b"\1\1" + len(cf.build(fs)).to_bytes(8, "little") + cf.build(fs)
                    row[f.name] = x
                t.rows.append(row)
            if rng.random() < .5:
                t.indexes.append(IndexDef("PK", True, [("_K", 256)], t.live(), 256))
            db.add(t)
            self.commands = [["-ex", o, t.name, "-bf", "yes"], ["-eax", o, "-bf", "yes", "-pb", "no"]] + (
                [["-dvc", o], ["-dac", o], ["-eax", o, "-bf", "yes"], ["-eb", o, "*"], ["-slo", o], ["-sts", o + "/s.txt"]] if kind == "all" else [])
        tool.write(self.p, db.build())


def run_tool(w, args, d, tmp, log, out_dir):
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    shutil.rmtree(tmp, ignore_errors=True)
    names = c19.sentinels(tmp)
    if os.path.exists(log):
        os.unlink(log)
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd, exist_ok=True)
    r = tool.invoke([w.p] + [a.replace("%o", out_dir) for a in args] + ["-q"], cwd, env=iomon.env(log), tmp=tmp)
    return r, names


def scene(d):
    """everything around the output directory"""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d) + "/"] = None
        for n in files:
            p = os.path.join(root, n)
            if n != "events.txt":
                out[os.path.relpath(p, d)] = tool.read(p)
    return {k: v for k, v in out.items() if not k.startswith(("w/o/", "T/", "w/T/"))}


def contents(o, skip_xml):
    """the contents of all files, without what carries names"""
    res = []
    for p, x in tool.tree(o).items():
        b = os.path.basename(p)
        if skip_xml and (b.endswith(".xml") and not ".xml.blob" in p or b == "descr"):
            res.append(b"<text>")
        elif b.endswith(".cf"):
            x = c16.norm(x)
            res.append(b"cf %d" % len(x) if isinstance(x, dict) else b"damaged")
        else:
            res.append(x)
    return sorted(res)


def outside_events(log, allowed, db, importing):
    bad = []
    made = set()
    n = 0
    for e in iomon.events(log):
        if e.res < 0:
            continue
        if not (e.op in CHANGING or e.op == "open" and e.detail.startswith("w")):
            continue
        n += 1
        p = os.path.normpath(e.path)
        if e.op == "mkdir":
            made.add(p)
        if p == db and (importing or e.op == "open" and "t" not in e.detail and "c" not in e.detail):
            continue
        if any(p == a or p.startswith(a + os.sep) for a in allowed):
            continue
        # the own directory for temporary files
        q = p
        while len(q) > 1 and q not in made:
            q = os.path.dirname(q)
        if q in made and "/T/" in p + "/" and p != os.path.join(os.path.dirname(q)):
            continue
        bad.append(e)
    return bad, n


def run_case(case, d, out):
    kind = case["kind"]
    rng = random.Random(case["seed"] + 2)
    w = World(case, d, "w/in", True)
    o = os.path.join(d, "w", "o")
    tmp = os.path.join(d, "T")
    log = os.path.join(d, "events.txt")
    os.makedirs(os.path.join(d, "outside"))
    for v in ("outside/victim", "outside/victim.xml", "victim", "w/victim", "w/victim.xml", "victim.xml", "w/keep", "w/keep.xml", "w/o2.xml"):
        tool.write(os.path.join(d, v), v.encode())
    os.makedirs(os.path.join(d, "w", "o2"))
    plain = World(case, d, "plain", False)
    files = {"base.1CD": tool.read(w.p), "case.txt": repr(case), "names.txt": "\n".join(w.names)}
    cmds = list(range(len(w.commands)))
    if kind == "import":
        cmds = [2]
    elif len(cmds) > case["commands"]:
        cmds = rng.sample(cmds, case["commands"])
    for i in cmds:
        args = w.commands[i]
        before = scene(d)
        r, sent = run_tool(w, args, d, tmp, log, o)
        key = "names:%s:%s" % (kind, args[0])
        f = dict(files, **{"command.txt": " ".join(args)})
        if not tool.must_be_clean(r, out, key, f):
            return
        if not judge(w, d, o, tmp, log, before, sent, out, key, f, r, False):
            return
        have = contents(o, True)
        ents = len(have)
        out.seen((kind, args[0], len(w.names)) + tuple(sorted({n[:6] for n in w.names}))[:8], {"command": " ".join(args), "names": w.names[:4], "exit": r.rc})
        if kind == "import":
            if r.rc:
                out.count("refused")
                continue
            # the exported directories go back in
            imp = os.path.join(d, "w", "imp")
            shutil.rmtree(imp, ignore_errors=True)
            shutil.move(o, imp)
            before = scene(d)
            os.makedirs(o)
            r, sent = run_tool(w, ["-ib", imp, "*"], d, tmp, log, o)
            if not tool.must_be_clean(r, out, key + ":ib", f):
                return
            before.pop(os.path.relpath(w.p, d), None)
            if not judge(w, d, o, tmp, log, before, sent, out, key + ":ib", f, r, True):
                return
            out.count("imports" if not r.rc else "refused imports")
            if not r.rc:
                r, sent = run_tool(w, ["-eb", "%o", "*"], d, tmp, log, o)
                a, b = tool.tree(imp), tool.tree(o)
                if r.rc or {n: x for n, x in a.items() if not n.endswith("root")} != {n: x for n, x in b.items() if not n.endswith("root")}:
                    out.violation(key + ":ib:lost", "tables exported and imported again differ\n%s" % tool.describe(r), f)
                    return
            out.seen((kind, "-ib", len(w.names)) + tuple(sorted({n[:6] for n in w.names}))[:8], {"command": "-ib", "names": w.names[:4], "exit": r.rc})
            continue
        po = os.path.join(d, "plain", "o")
        r2, _ = run_tool(plain, args, d, tmp, log, po)
        if r2.rc:
            out.violation("names:plain:exit", "exit code with ordinary names\n" + tool.describe(r2), dict(files, **{"plain.1CD": tool.read(plain.p)}))
            return
        want = contents(po, True)
        shutil.rmtree(po)
        if r.rc:
            out.count("refused")
            continue
        out.count("made harmless")
        out.count("files written", ents)
        if args[0] in ("-dpc", "-drc", "-sts") or kind == "all" or kind == "elements" and ("-pb" in args or "_Store" in args):
            have, want = len(have), len(want)     # contents carry names
        if have != want:
            out.violation(key + ":lost", "the outputs do not hold what the outputs with ordinary names hold (%d files, %d expected)\n%s\n%s" % (
                ents, want if isinstance(want, int) else len(want), sorted(tool.tree(o)), tool.describe(r)), f)
            return


def judge(w, d, o, tmp, log, before, sent, out, key, files, r, importing):
    bad, n = outside_events(log, [o], w.p, importing)
    out.count("changing events checked", n)
    if bad:
        out.violation(key + ":outside", "changed outside the output directory: %r\n%s" % (bad[0], tool.describe(r)), files)
        return False
    after = scene(d)
    if importing:
        after.pop(os.path.relpath(w.p, d), None)
    after.setdefault("cwd/", None)
    before.setdefault("cwd/", None)
    for s in (before, after):
        for k in ("w/o/", "T/"):
            s.pop(k, None)
    if before != after:
        diff = [k for k in sorted(set(before) | set(after)) if before.get(k, 0) != after.get(k, 0)]
        out.violation(key + ":outside", "files outside the output directory changed: %r\n%s" % (diff[:5], tool.describe(r)), files)
        return False
    return c19.check_sentinels(tmp, sent, out, key, files)


def main():
    c = fw.Check("C20", rule="a case is a database whose table names, vendor names and versions, external names, record keys or container elements lead "
                 "outside (.., absolute paths, separators) or are special; one evaluation is one command; all changing system calls are checked "
                 "and the surroundings compared; distinct by kind, command and names",
                 assumptions=["a name may be changed into a harmless one or refused with an error", "symbolic links placed in the output directory by "
                              "the user are not followed up"])
    tool.cli()
    build.preload()
    base = c.seed * 1000003
    cases = [{"seed": base + i, "kind": KINDS[i % len(KINDS)], "commands": c.n(3, 9)} for i in range(c.n(140, 2500))]
    c.map(run_case, cases)
    return c.finish(min_evals=200, require=["changing events checked", "made harmless", "files written", "imports"])
