"""C16: injected failures of system calls: a failed read or write is reported, a run reporting success has complete outputs."""
import os
import random
import re
import shutil

import anydb
import build
import cf
import fw
import gen
import iomon
import tool
from db1cd import Field, Table

ERR = {"open": ["EACCES", "EMFILE", "ENOSPC", "EIO"], "read": ["EIO"], "write": ["EIO", "ENOSPC", "EDQUOT", "short"],
       "seek": ["EIO", "22"], "mkdir": ["EACCES", "ENOSPC"], "trunc": ["EIO", "ENOSPC", "27"]}
KINDS = ["eax", "ex", "exbf", "eb", "slo", "sts", "ddc", "ddcf", "dc", "dcf", "dvc", "dac", "ib", "log", "big", "drc", "drcf", "dpc"]


def norm(data):
    if data is not None and data[:4] == b"\xff\xff\xff\x7f":
        try:
            return cf.Container(data).as_dict()
        except cf.ContainerError:
            pass
    return data


def state(o):
    """{path: content} of the outputs; directories too"""
    out = {}
    for root, dirs, files in os.walk(o):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), o) + os.sep] = b""
        for n in files:
            out[os.path.relpath(os.path.join(root, n), o)] = norm(tool.read(os.path.join(root, n)))
    return out


def same(a, b, stable):
    """None or the first difference; stable: entries that are the same in every run"""
    if set(a) != set(b):
        return "files %r" % sorted(set(a) ^ set(b))[:4]
    for n in a:
        if n not in stable:
            if isinstance(a[n], dict) != isinstance(b[n], dict):
                return "%s is damaged" % n
            if isinstance(a[n], dict):
                if len(a[n]) != len(b[n]):
                    return "%s holds %d files instead of %d" % (n, len(b[n]), len(a[n]))
                for k in a[n]:
                    if (n, k) in stable and a[n][k] != b[n].get(k):
                        return "%s, file %s" % (n, k)
            elif len(a[n]) != len(b[n]) and (n, "len") in stable:
                return "length of %s" % n
            continue
        if a[n] != b[n]:
            return "content of %s" % n
    return None


def stable_of(a, b):
    s = set()
    for n in a:
        if n in b and a[n] == b[n]:
            s.add(n)
        elif n in b and isinstance(a[n], dict) and isinstance(b[n], dict):
            s.update((n, k) for k in a[n] if a[n][k] == b[n].get(k))
        elif n in b and len(a[n]) == len(b[n]):
            s.add((n, "len"))
    return s


class World:
    """a database and the command to run"""

    def __init__(self, rng, kind, d):
        self.d = d
        self.kind = kind
        self.b = os.path.join(d, "db")
        os.mkdir(self.b)
        self.imp = os.path.join(d, "imp")
        self.o = os.path.join(d, "o")
        o = self.o
        if kind in ("drc", "drcf", "dpc"):
            p, dep = anydb.repository(rng, self.b)
            self.p = p[0] if isinstance(p, tuple) else p
            db = dep.db
            vers = dep.versions
        else:
            self.p = os.path.join(self.b, "1Cv8.1CD")
            db = anydb.infobase(rng, rng.choice(["8.2.14", "8.3.8", "8.1.0"]), small=True)
            if kind in ("exbf", "big"):
                t = Table("_Blobs", [Field("_K", "NVC", 10), Field("_I", "I")])
                sizes = [0, 1, 300, 5000] if kind == "exbf" else [10, (10 << 20) + 77]
                import c18
                t.rows = [{"_K": "k%d" % i, "_I": c18.storage_value(rng, n)[0] or b"x" if n else b""} for i, n in enumerate(sizes)]
                db.add(t)
            if kind == "slo":
                db.lost = [(rng.randbytes(n), {}) for n in (0, 10, 3 * db.ps + 1)]
            tool.write(self.p, db.build())
        self.data = tool.read(self.p)
        if kind not in ("drc", "drcf", "dpc"):
            vers = [0]
        names = [t.name for t in db.tables]
        some = ",".join(rng.sample(names, min(3, len(names))))
        self.args = {"eax": ["-eax", o], "ex": ["-ex", o, some], "exbf": ["-ex", o, "_*,config*", "-bf", "yes"] + rng.choice([[], ["-pb", "no"]]),
                     "eb": ["-eb", o, some], "slo": ["-slo", o], "sts": ["-sts", o + "/s.txt"], "ddc": ["-ddc", o], "ddcf": ["-ddc", o + "/x.cf"],
                     "dc": ["-dc", o], "dcf": ["-dc", o + "/x.cf"], "dvc": ["-dvc", o], "dac": ["-dac", o], "ib": ["-ib", self.imp, some],
                     "log": ["-eb", o, some, "-l", o + "/log.txt"], "big": ["-ex", o, "_blobs", "-bf", "yes"],
                     "drc": ["-drc", str(rng.choice([0, vers[-1], vers[0]])), o], "drcf": ["-drc", "0", o + "/x.cf"], "dpc": ["-dpc", "%d:%d" % (vers[0], vers[-1]), o + "/p"]}[kind]
        if kind == "dpc" and rng.random() < .5:
            self.args[1] = str(rng.choice(vers))
        if rng.random() < .3 and kind != "ib":
            self.args = ["-ne"] + self.args
        if kind == "ib":
            os.mkdir(self.imp)
            tool.invoke([self.p, "-eb", self.imp, "*"], d)
            for t in os.listdir(self.imp):
                for k in ("data", "blob"):
                    q = os.path.join(self.imp, t, k)
                    if os.path.exists(q) and rng.random() < .7:
                        x = tool.read(q)
                        unit = 256 if k == "blob" else max(1, len(x))
                        tool.write(q, x + x[:len(x) // unit * unit])

    def run(self, fail=None, log=None):
        shutil.rmtree(self.o, ignore_errors=True)
        os.mkdir(self.o)
        tool.write(self.p, self.data)
        tmp = os.path.join(self.d, "tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        os.mkdir(tmp)
        if log and os.path.exists(log):
            os.unlink(log)
        r = tool.invoke([self.p] + self.args + ["-q"], self.d, timeout=60, env=iomon.env(log, fail), tmp=tmp)
        s = state(self.o)
        s["<database>"] = tool.read(self.p)
        return r, s


def area(w, path):
    for a, p in (("base", w.p), ("repository", w.b + os.sep), ("import", w.imp + os.sep), ("output", w.o), ("temp", os.path.join(w.d, "tmp"))):
        if path == p or path.startswith(p):
            return a, p
    return None, None


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    w = World(rng, case["kind"], d)
    log = os.path.join(d, "events.txt")
    r0, s0 = w.run(log=log)
    files = {"base.1CD": w.data if len(w.data) < 30 << 20 else b"", "case.txt": repr(case)}
    if not tool.must_be_clean(r0, out, "io:baseline", files):
        return
    if r0.rc:
        return out.violation("io:baseline:exit", "exit code without any failure\n" + tool.describe(r0), files)
    evs = iomon.events(log)
    _, s1 = w.run()
    stable = stable_of(s0, s1)
    if not set(s0) == set(s1):
        return out.violation("io:baseline:unstable", "two runs wrote other files: %r" % sorted(set(s0) ^ set(s1))[:5], files)
    ok_lines = set((r0.out + r0.err).split("\n"))
    groups = {}
    count = {}
    for e in evs:
        a, p = area(w, e.path)
        if a is None or e.op not in ERR:
            continue
        k = (e.op, p)
        count[k] = count.get(k, 0) + 1
        g = (e.op, a, re.sub(r"[0-9]+", "#", os.path.basename(e.path))[:20])
        groups.setdefault(g, []).append((p, count[k]))
    plans = []
    for g, hits in sorted(groups.items()):
        pick = {0, len(hits) - 1} | {rng.randrange(len(hits)) for _ in range(case["depth"])}
        for i in sorted(pick):
            p, n = hits[i]
            plans.append((g, "%s:%s:%d%s:%s" % (g[0], p, n, "+" if rng.random() < .25 else "", rng.choice(ERR[g[0]]))))
    for a, p in (("base", w.p), ("output", w.o), ("import", w.imp)):
        n = count.get(("read", p), 0) + count.get(("write", p), 0)
        if n:
            for _ in range(2 + case["depth"]):
                plans.append((("seek", a, ""), "seek:%s:%d%s:%s" % (p, rng.randint(1, 2 * n + 2), "+" if rng.random() < .3 else "", rng.choice(ERR["seek"]))))
    # a full disk from some moment on
    n = count.get(("write", w.o), 0)
    if n:
        k = rng.randint(1, n)
        plans.append((("full", "output", ""), "write:%s:%d+:ENOSPC" % (w.o, k)))
    rng.shuffle(plans)
    for g, fail in plans[:case["max"]]:
        r, s = w.run(fail, log)
        ev = iomon.events(log)
        fired = [e for e in ev if e.op == "INJECT"]
        if not fired:
            out.count("failures not reached")
            continue
        out.count("failures injected: " + g[0])
        what = "%s of %s (%s) failing with %s" % (g[0], os.path.relpath(fired[0].path, w.d), g[1], fail.rsplit(":", 1)[1])
        key = "io:%s:%s:%s" % (case["kind"], g[0], g[1])
        out.seen((case["kind"],) + g + (fail.rsplit(":", 1)[1], "+" in fail), {"command": w.args[0], "failure": what, "exit": r.rc})
        f = dict(files, **{"fail.txt": fail})
        if not tool.must_be_clean(r, out, key, f):
            continue
        diff = same(s0, s, stable)
        if r.rc == 0:
            if diff:
                out.violation(key + ":success", "%s: the run reported success, but its outputs are not complete: %s\n%s" % (what, diff, tool.describe(r)), f)
                continue
            if fail.endswith(":short"):
                out.count("transparent short reads and writes")
            elif g[0] == "write" or g[0] == "read":
                out.violation(key + ":ignored", "%s was ignored\n%s" % (what, tool.describe(r)), f)
                continue
            else:
                out.count("failures without consequences")
        else:
            if not set((r.out + r.err).split("\n")) - ok_lines:
                lg = s.get("log.txt")
                if not (case["kind"] == "log" and lg):
                    out.violation(key + ":silent", "%s: exit code %d without a message\n%s" % (what, r.rc, tool.describe(r)), f)
                    continue
            out.count("failures reported")
        if case["kind"] != "ib" and s["<database>"] != w.data:
            out.violation(key + ":database", "%s: the database was changed" % what, f)


def main():
    c = fw.Check("C16", rule="a case is one database and one command; the system calls of an undisturbed run are recorded, then single calls (first, "
                 "last and random ones of every kind and file) fail in repeated runs; each failure is one evaluation, distinct by command, "
                 "call, file and error",
                 assumptions=["a failing open or seek without any consequence for the outputs may pass",
                              "outputs differing between two undisturbed runs (new identifiers of a repository configuration) are compared by structure"])
    tool.cli()
    build.preload()
    cases = []
    base = c.seed * 1000003
    for i in range(c.n(4, 40)):
        for k, kind in enumerate(KINDS):
            if kind == "big" and i > c.n(0, 5):
                continue
            cases.append({"seed": base + 1 + i * 100 + k, "kind": kind, "depth": c.n(2, 12), "max": c.n(25, 200) if kind != "big" else c.n(12, 60)})
    c.map(run_case, cases)
    return c.finish(min_evals=300, require=["failures injected: open", "failures injected: read", "failures injected: write", "failures injected: seek",
                                            "failures injected: mkdir", "failures reported"])
