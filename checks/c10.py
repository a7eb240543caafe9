"""C10: containers edited through the library behave as a persistent map from names to bytes."""
import os
import random
import time

import build
import cf
import cfggen
import fw
import gen
import run as _run
import tool

EMPTY = b"\xff\xff\xff\x7f\0\x02" + b"\0" * 10
EPOCH = 504911232000000          # 1601 in the unit of the container, 1/10000 s since year 1
UNIX = 116444736000000000


class File:
    def __init__(self):
        self.data = b""
        self.times = None        # (create, modify) FILETIME when set explicitly, None: made by the library
        self.ctime = None


class Cat:
    def __init__(self):
        self.items = {}          # folded name -> [name, File or Cat]
        self.times = None
        self.ctime = None


def hx(name):
    return name.encode().hex()


def path(p):
    return "/".join(hx(n) for n in p) if p else "-"


def deflated_or_plain(data, zipped, who):
    if not zipped:
        return data
    if data == b"":
        return b""
    return cf.inflate(data)


def to_file_time(ticks, tz=0):
    """containers store the local time"""
    return (ticks - EPOCH) * 1000 - tz * 36000000000


class Session:
    """drives one container, keeps the reference map"""

    def __init__(self, rng, d, ext, mode, out):
        self.rng, self.d, self.mode, self.out = rng, d, mode, out
        self.file = os.path.join(d, "c" + ext)
        self.zipped = mode in ("zip", "memzip") or (mode == "auto" and ext in (".cf", ".epf", ".erf", ".cfe"))
        self.cfu = mode == "auto" and ext == ".cfu"
        self.root = Cat()
        self.tz = 0              # hours east of Greenwich
        self.lines = []
        self.plan = []
        self.n = 0
        self.streams = {}
        self.snapshots = []
        self.opened = False

    def tmp(self, data=None):
        self.n += 1
        p = os.path.join(self.d, "t%d" % self.n)
        if data is not None:
            tool.write(p, data)
        return p

    def do(self, line, expect="ok", check=None, who=None):
        self.lines.append(line)
        self.plan.append((expect, check, who))

    # ---- choice
    def walk(self, cat=None, p=()):
        cat = self.root if cat is None else cat
        for k in sorted(cat.items):
            name, node = cat.items[k]
            yield p + (name,), node
            if isinstance(node, Cat):
                yield from self.walk(node, p + (name,))

    def files(self):
        return [(p, n) for p, n in self.walk() if isinstance(n, File)]

    def cats(self):
        return [((), self.root)] + [(p, n) for p, n in self.walk() if isinstance(n, Cat)]

    def name(self):
        rng = self.rng
        k = rng.random()
        if k < .5:
            return cfggen.guid(rng) + rng.choice(["", ".0", ".1"])
        if k < .7:
            return rng.choice(["root", "version", "a", "B", "имя файла", "Ж", "x.y.z", "text", "module", "form", "info"])
        return "".join(c for c in gen.text(rng, rng.choice([1, 3, 10, 60, 200]), exact=True) if c not in "\t\0\u2028").strip() or "n"

    def new_name(self, cat):
        for _ in range(50):
            n = self.name()
            if n.lower() not in cat.items:
                return n
        return cfggen.guid(self.rng)

    def spell(self, p):
        """names are not case sensitive"""
        if self.rng.random() < .1 and p and p[-1].isascii():
            return p[:-1] + (p[-1].swapcase(),)
        return p

    def data(self):
        rng = self.rng
        s = rng.choice([0, 0, 1, 2, 11, 15, 16, 17, 100, 480, 481, 511, 512, 513, 543, 1000, 1024, 2000, rng.randint(0, 3000),
                        rng.randint(0, 60000)])
        b = cfggen.content(rng, s)
        if rng.random() < .03:
            return EMPTY[:4] + bytes(rng.randint(1, 255) for _ in range(12))   # as long as an empty container and begins like one
        return b + b"!" if b[:4] == EMPTY[:4] else b

    # ---- operations
    def open(self):
        self.do(["open", self.file, self.mode])
        self.opened = True

    def close(self):
        for s in list(self.streams):
            self.do(["sclose", s])
        self.streams = {}
        self.do(["close"])
        self.opened = False
        snap = self.tmp()
        self.do(["!copy", self.file, snap])
        self.expect_file(snap)

    def expect_file(self, snap):
        self.snapshots.append((len(self.lines) - 1, snap, self.freeze(self.root)))

    def freeze(self, cat):
        return {n: (x.data if isinstance(x, File) else self.freeze(x), x.times) for n, x in cat.items.values()}

    def written(self, node):
        """the library updates the time of modification"""
        if node.times:
            node.times = (node.times[0], None)

    def modified_above(self, p):
        pass

    def step(self):
        rng = self.rng
        fs, cs = self.files(), self.cats()
        op = rng.choices(["create", "write", "writes", "writeclose", "writeat", "writevec", "writesat", "read", "readat", "tofile", "tostream",
                          "len", "exists", "delete", "delmissing", "rename", "mkcat", "fclose", "fflush", "settimes", "list", "todir",
                          "stream", "flush", "half", "reopen", "recreate", "iscat", "fullname"],
                         [12, 14, 6, 6, 6, 2, 3, 6, 3, 2, 2, 2, 3, 9, 1, 5, 4, 4, 2, 4, 3, 1, 5, 2, 2, 8, 3, 1, 1])[0]
        if op == "create" or (not fs and op not in ("mkcat", "reopen", "flush", "list", "half")):
            p, cat = rng.choice(cs)
            n = self.new_name(cat)
            cat.items[n.lower()] = [n, File()]
            self.do(["create", path(p + (n,))])
            if rng.random() < .85:
                b = self.data()
                cat.items[n.lower()][1].data = b
                self.do([rng.choice(["write", "writes", "writeclose"]) if b else "write", path(p + (n,)), self.tmp(b)])
        elif op == "recreate":
            p, f = rng.choice(fs)
            self.do(["create", path(self.spell(p))])
        elif op in ("write", "writes", "writeclose"):
            p, f = rng.choice(fs)
            if op == "writeclose" and self.has_stream(p):
                return
            b = self.data()
            if any(v[1] is f and v[2] > len(b) for v in self.streams.values()):
                return                   # a stream would stand behind the end
            f.data = b
            if op != "writeclose":
                self.written(f)
            self.do([op, path(self.spell(p)), self.tmp(f.data)])
        elif op in ("writeat", "writevec", "writesat"):
            p, f = rng.choice(fs)
            b = self.data()
            if not b:
                return
            at = rng.choice([0, len(f.data), rng.randint(0, len(f.data))])
            f.data = f.data[:at] + b + f.data[at + len(b):]
            self.written(f)
            self.do([op, path(p), str(at), self.tmp(b)])
        elif op in ("read", "tofile", "tostream"):
            p, f = rng.choice(fs)
            if op == "tofile" and rng.random() < .5:
                op = "read"
            o = self.tmp()
            self.do([op, path(self.spell(p)), o], "ok", ("content", o, f.data), p)
        elif op == "readat":
            p, f = rng.choice(fs)
            at = rng.randint(0, len(f.data))
            n = rng.choice([0, 1, 100, 70000])
            o = self.tmp()
            self.do(["readvec" if n and rng.random() < .3 else "readat", path(p), str(at), str(n), o], "ok", ("content", o, f.data[at:at + n]), p)
        elif op == "len":
            p, f = rng.choice(fs)
            self.do(["len", path(p)], "ok", ("detail", str(len(f.data))), p)
        elif op == "exists":
            p, cat = rng.choice(cs)
            if cat.items and rng.random() < .5:
                n = rng.choice(sorted(cat.items.values(), key=lambda x: x[0]))[0]
                self.do(["exists", path(self.spell(p + (n,)))], "yes")
            else:
                self.do(["exists", path(p + (self.new_name(cat),))], "no")
        elif op == "delete":
            nodes = list(self.walk())
            p, f = rng.choice(nodes)
            if isinstance(f, Cat) and rng.random() < .5:
                return
            if any(x[0][:len(p)] == p for x in self.stream_paths()):
                return
            self.parent(p).items.pop(p[-1].lower())
            self.do(["delete", path(self.spell(p))])
            self.do(["exists", path(p)], "no")
        elif op == "delmissing":
            p, cat = rng.choice(cs)
            self.do(["delete", path(p + (self.new_name(cat),))])
        elif op == "rename":
            nodes = list(self.walk())
            p, f = rng.choice(nodes)
            if any(x[0][:len(p)] == p for x in self.stream_paths()):
                return
            cat = self.parent(p)
            n = self.new_name(cat)
            del cat.items[p[-1].lower()]
            cat.items[n.lower()] = [n, f]
            self.do(["rename", path(p), hx(n)])
            self.do(["exists", path(p)], "no")
            self.do(["exists", path(p[:-1] + (n,))], "yes")
        elif op == "mkcat":
            p, cat = rng.choice(cs)
            if len(p) > 3:
                return
            n = self.new_name(cat)
            cat.items[n.lower()] = [n, Cat()]
            self.do(["mkcat", path(p + (n,))])
        elif op in ("fclose", "fflush"):
            nodes = list(self.walk())
            p, f = rng.choice(nodes)
            if any(x[0][:len(p)] == p for x in self.stream_paths()) and op == "fclose":
                return
            self.do([op, path(p)])
        elif op == "settimes":
            p, f = rng.choice(fs)
            new = tuple(UNIX + rng.randint(0, 1900000000) * 10000000 for _ in range(2))
            which = rng.choice(["both", "both", "create", "modify"])
            v = rng.choice(["", "v"])
            old = f.times or (None, None)
            f.times = (old[0] if which == "modify" else new[0], old[1] if which == "create" else new[1])
            self.do(["settimes", path(p), "-" if which == "modify" else v + str(new[0]), "-" if which == "create" else v + str(new[1])])
            if all(f.times):
                self.do(["times", path(p)], "ok", ("detail", "%d %d" % f.times), p)
        elif op == "list":
            p, cat = rng.choice(cs)
            self.do(["list", path(p)], "ok", ("names", sorted(x[0] for x in cat.items.values())), p)
        elif op == "todir":
            p, cat = rng.choice(cs)
            if self.streams or not self.safe(cat):
                return
            o = self.tmp()
            self.do(["todir", path(p), o], "ok", ("dir", o, self.flat(cat), self.flat_times(cat)), p)
        elif op == "stream":
            p, f = rng.choice(fs)
            self.stream(p, f)
        elif op == "flush":
            self.do(["flush"])
        elif op == "half":
            if self.mode.startswith("mem") or self.streams:
                return
            self.do(["halfclose"])
            snap = self.tmp()
            self.do(["!copy", self.file, snap])
            self.expect_file(snap)
            self.do(["halfopen", self.file])
        elif op == "reopen":
            self.close()
            self.open()
            self.read_all()
        elif op == "iscat":
            p, f = rng.choice(list(self.walk()))
            if isinstance(f, Cat) or len(f.data) < 16:
                self.do(["iscat", path(p)], "yes" if isinstance(f, Cat) else "no", None, p)
        elif op == "fullname":
            p, f = rng.choice(fs)
            self.do(["fullname", path(p)], "ok", ("detail", hx("\\".join(p))), p)

    def safe(self, cat):
        """names that may become file names, and no two that differ in case only"""
        for n, x in cat.items.values():
            if "/" in n or n in (".", "..") or len(n.encode()) > 200 or "\\" in n:
                return False
            if isinstance(x, Cat) and not self.safe(x):
                return False
        return True

    def flat(self, cat, p=""):
        out = {}
        for n, x in cat.items.values():
            if isinstance(x, Cat):
                out.update(self.flat(x, p + n + "/"))
            else:
                out[p + n] = x.data
        return out

    def flat_times(self, cat, p=""):
        """times of modification (seconds since 1970) of the files, where they are known"""
        out = {}
        for n, x in cat.items.values():
            if isinstance(x, Cat):
                out.update(self.flat_times(x, p + n + "/"))
            elif x.times and x.times[1]:
                out[p + n] = (x.times[1] - UNIX) // 10000000
        return out

    def parent(self, p):
        c = self.root
        for n in p[:-1]:
            c = c.items[n.lower()][1]
        return c

    def stream_paths(self):
        return [(v[0], k) for k, v in self.streams.items()]

    def has_stream(self, p):
        return any(x[0] == p for x in self.stream_paths())

    def stream(self, p, f):
        rng = self.rng
        mine = [k for k, v in self.streams.items()]
        if not mine or rng.random() < .4:
            self.n += 1
            s = "s%d" % self.n
            self.streams[s] = [p, f, 0]
            self.do(["sopen", s, path(p)])
        else:
            s = rng.choice(mine)
        v = self.streams[s]
        for _ in range(rng.randint(1, 4)):
            f = v[1]
            k = rng.random()
            if k < .3:
                n = rng.choice([1, 10, 600, 5000])
                o = self.tmp()
                at = rng.choice([-1, 0, 1, 7, 3000])
                self.do(["sread", s, str(n), o] if at < 0 else ["sreadv", s, str(n), str(at), o], "ok", ("content", o, f.data[v[2]:v[2] + n]), v[0])
                v[2] += len(f.data[v[2]:v[2] + n])
            elif k < .6:
                b = self.data()
                if not b:
                    continue
                f.data = f.data[:v[2]] + b + f.data[v[2] + len(b):]
                v[2] += len(b)
                self.written(f)
                at = rng.choice([-1, 0, 1, 5])
                self.do(["swrite", s, self.tmp(b)] if at < 0 else ["swritev", s, str(at), self.tmp(b)])
            elif k < .8:
                at = rng.choice([0, len(f.data), rng.randint(0, len(f.data))])
                v[2] = at
                self.do(["sseek", s, "b", str(at)], "ok", ("detail", str(at)), v[0])
            elif k < .9:
                back = rng.choice([0, len(f.data), rng.randint(0, len(f.data))])
                v[2] = len(f.data) - back
                self.do(["sseek", s, "e", str(-back)], "ok", ("detail", str(v[2])), v[0])
                self.do(["ssize", s], "ok", ("detail", str(len(f.data))), v[0])
            else:
                at = rng.randint(0, len(f.data))
                self.do(["sseek", s, "c", str(at - v[2])], "ok", ("detail", str(at)), v[0])
                v[2] = at
        if rng.random() < .6:
            self.do(["sclose", s])
            del self.streams[s]

    def read_all(self):
        for p, cat in self.cats():
            self.do(["list", path(p)], "ok", ("names", sorted(x[0] for x in cat.items.values())), p)
        for p, f in self.files():
            o = self.tmp()
            self.do(["read", path(p), o], "ok", ("content", o, f.data), p)
            if f.times and all(f.times):
                self.do(["times", path(p)], "ok", ("detail", "%d %d" % f.times), p)


def verify_file(s, snap, want, out, who):
    """the saved file, read by the independent reader"""
    data = tool.read(snap)
    if s.cfu:
        data = cf.inflate(data)

    def one(data, zipped, want, where):
        c = cf.Container(data)
        seen = {}
        for e in c.entries:
            if e.name in seen:
                raise cf.ContainerError("%s: %r twice" % (where, e.name))
            seen[e.name] = e
        if c.odd_sizes:
            raise cf.ContainerError("%s: %d blocks that continue others have a data size" % (where, c.odd_sizes))
        out.count("free blocks in saved containers", c.free_blocks)
        out.count("blocks checked for overlap", len(c.spans))
        if set(seen) != set(want):
            raise cf.ContainerError("%s: holds %r, expected %r" % (where, sorted(seen), sorted(want)))
        for n, e in seen.items():
            w, times = want[n]
            b = deflated_or_plain(e.data, zipped, n)
            if isinstance(w, dict):
                one(b, False, w, where + "/" + n)
            elif b != w:
                raise cf.ContainerError("%s: %r has %d bytes, expected %d" % (where, n, len(b), len(w)))
            now = (UNIX + int(time.time()) * 10000000)
            for t, x in zip((e.ctime, e.mtime), times or (None, None)):
                if x is not None and to_file_time(t, s.tz) != x:
                    raise cf.ContainerError("%s: %r: time %d, expected %d" % (where, n, to_file_time(t, s.tz), x))
                if x is None and abs(to_file_time(t, s.tz) - now) > 1800 * 10000000:
                    raise cf.ContainerError("%s: %r: time %d is not near the present" % (where, n, to_file_time(t, s.tz)))
            out.count("entries of saved containers compared")
    one(data, s.zipped, want, "")


def execute(lines, d, out, tz=0, timeout=120):
    """runs the driver; copies of the container are made between its commands"""
    import subprocess
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "ASAN_OPTIONS": _run.ASAN, "UBSAN_OPTIONS": _run.UBSAN, "TZ": "LOC%+d" % -tz,
         "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18", "TMPDIR": d, "HOME": "/nonexistent"}
    errf = open(os.path.join(d, "stderr.txt"), "w+b")
    p = subprocess.Popen([build.driver("contdrv")], cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf,
                         start_new_session=True)
    ans = []
    t0 = time.time()
    killed = []
    import threading

    def kill():
        killed.append(1)
        p.kill()
    tm = threading.Timer(timeout, kill)
    tm.start()
    try:
        import shutil
        for line in lines:
            if line[0] == "!copy":
                shutil.copyfile(line[1], line[2])
                ans.append(["ok", ""])
                continue
            try:
                p.stdin.write(("\t".join(line) + "\n").encode())
                p.stdin.flush()
            except BrokenPipeError:
                break
            while True:
                a = p.stdout.readline().decode("utf-8", "replace")
                if not a:
                    break
                a = a.rstrip("\n").split("\t")
                if a[0] in ("ok", "no", "yes", "none", "missing", "error", "exception", "bad"):
                    break
            if not a:
                break
            ans.append(a)
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
        p.stdout.read()
        p.wait()
    finally:
        tm.cancel()
        p.stdout.close()
    errf.seek(0)
    err = errf.read().decode("utf-8", "replace")
    errf.close()
    return ans, _run.Result(p.returncode, "", err, bool(killed), time.time() - t0, ["contdrv"])


def run_case(case, d, out):
    if case.get("kind") == "adapter":
        return adapter_case(case, d, out)
    rng = random.Random(case["seed"])
    ext, mode = rng.choice([(".cf", "auto"), (".epf", "auto"), (".cfe", "auto"), (".erf", "auto"), (".cf", "plain"), (".bin", "auto"),
                            (".bin", "zip"), (".cfu", "auto"), ("", "memory"), ("", "memzip"), (".CF", "auto")])
    s = Session(rng, d, ext.lower() if ext != ".CF" else ".CF", mode, out)
    if ext == ".CF":
        s.zipped = True
    s.tz = rng.choice([0, 0, 3, 12, -5])
    initial = rng.random() < .5
    if initial and not (mode == "auto" and ext == ".cfu"):
        fs = [(n, s.data()) for n in cfggen.unique_names(rng, rng.choice([0, 1, 3, 8]))]
        secs = [(UNIX + rng.randint(0, 1900000000) * 10000000, UNIX + rng.randint(0, 1900000000) * 10000000) for _ in fs]
        ents = []
        for (n, b), (t1, t2) in zip(fs, secs):
            f = File()
            f.data = b
            f.times = (t1, t2)
            s.root.items[n.lower()] = [n, f]
            ents.append((n, cf.deflate(b) if s.zipped else b, EPOCH + t1 // 1000 + s.tz * 36000000, EPOCH + t2 // 1000 + s.tz * 36000000))
        tool.write(s.file, cf.build(ents, rng, split=rng.random() < .5))
    elif mode.startswith("mem"):
        tool.write(s.file, b"")
    s.open()
    s.read_all()
    for _ in range(rng.choice([3, 10, 25, 60])):
        s.step()
    s.close()
    s.open()
    s.read_all()
    s.close()
    ans, r = execute(s.lines, d, out, s.tz)
    files = {"commands.txt": "\n".join("\t".join(x) for x in s.lines), "case.txt": repr(case)}
    sig = "container"
    hist = "\n".join("%s -> %s" % (" ".join(l), " ".join(a)) for l, a in list(zip(s.lines, ans))[-12:])
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc or len(ans) != len(s.lines):
        out.violation(sig + ":answers", "%d answers to %d commands, exit %r\n%s" % (len(ans), len(s.lines), r.rc, hist), files)
        return
    snaps = {i: (snap, want) for i, snap, want in s.snapshots}
    ops = []
    for i, (line, (expect, check, who), a) in enumerate(zip(s.lines, s.plan, ans)):
        ctx = "command %d of %d (%s, %s): %s\nanswer %r\n%s" % (
            i + 1, len(s.lines), mode, os.path.basename(s.file), " ".join(line), a,
            "\n".join("%s -> %s" % (" ".join(l)[:300], " ".join(b)[:100]) for l, b in list(zip(s.lines, ans))[max(0, i - 12):i + 1]))
        out.count("operations")
        ops.append(line[0])
        if a[0] != expect:
            out.violation(sig + ":" + line[0], "expected %r\n%s" % (expect, ctx), files)
            return
        if check:
            if check[0] == "content":
                b = tool.read(check[1])
                out.count("contents compared")
                if b != check[2]:
                    out.violation(sig + ":content", "%r: read %s bytes, expected %d\n%s" % (
                        who, None if b is None else len(b), len(check[2]), ctx), files)
                    return
            elif check[0] == "detail":
                if a[1] != check[1]:
                    out.violation(sig + ":" + line[0], "%r: expected %r\n%s" % (who, check[1], ctx), files)
                    return
            elif check[0] == "names":
                have = sorted(bytes.fromhex(x).decode() for x in a[1].split())
                if have != check[1]:
                    out.violation(sig + ":list", "%r: holds %r, expected %r\n%s" % (who, have, check[1], ctx), files)
                    return
            elif check[0] == "dir":
                if tool.tree(check[1]) != check[2]:
                    out.violation(sig + ":todir", "directory holds %r, expected %r\n%s" % (
                        sorted(tool.tree(check[1])), sorted(check[2]), ctx), files)
                    return
                for n, t in check[3].items():
                    out.count("times of files written to directories")
                    if int(os.stat(os.path.join(check[1], n)).st_mtime) != t:
                        out.violation(sig + ":todirtime", "%r written to a directory has the time %d, its entry has %d\n%s" % (
                            n, int(os.stat(os.path.join(check[1], n)).st_mtime), t, ctx), files)
                        return
        if i in snaps:
            try:
                verify_file(s, snaps[i][0], snaps[i][1], out, sig)
                out.count("saved containers read")
            except (cf.ContainerError, ValueError, Exception) as e:
                if not isinstance(e, (cf.ContainerError, ValueError)) and type(e).__module__ != "zlib":
                    raise
                out.violation(sig + ":saved", "%s: %s\n%s" % (type(e).__name__, e, ctx),
                              dict(files, **{"saved.bin": tool.read(snaps[i][0])}))
                return
    out.seen((mode, ext, tuple(ops)), {"container": os.path.basename(s.file), "mode": mode, "operations": len(ops),
                                       "first": ops[:8]}, n=len(ops))


def adapter_case(case, d, out):
    """files written by path through ConfigStorageCFFile and ConfigStorageDirectory"""
    rng = random.Random(case["seed"])
    f = os.path.join(d, "c" + rng.choice([".cf", ".epf", ".cfu", ".cfe"]))
    s = Session(rng, d, os.path.splitext(f)[1], "auto", out)
    want = {}
    lines, plan = [], []

    def do(line, expect, check=None):
        lines.append(line)
        plan.append((expect, check))
    names = ["/".join(rng.choice(["a", "b", "имя", cfggen.guid(rng), "x.0"]) for _ in range(rng.choice([1, 1, 2, 3]))) for _ in range(8)]
    names = [n for n in names if not any(m != n and m.lower().startswith(n.lower() + "/") for m in names)]
    for _ in range(rng.choice([1, 2, 3])):
        do(["cfopen", f], "ok")
        for _ in range(rng.choice([1, 4, 8])):
            n = rng.choice(names)
            if rng.random() < .6:
                b = s.data()
                do(["cfwrite", hx(n.replace("/", rng.choice("/\\"))), s.tmp(b)], "ok")
                want[n] = b
            elif n in want:
                o = s.tmp()
                do(["cfread", hx(n.replace("/", rng.choice("/\\"))), o], "ok", (o, want[n]))
                do(["cfexists", hx(n)], "yes")
            else:
                do(["cfread", hx(n), s.tmp()], "none")
        do(["cfclose"], "ok")
        snap = s.tmp()
        do(["!copy", f, snap], "ok", ("snap", snap, dict(want)))
    dd = os.path.join(d, "dir")
    os.mkdir(dd)
    old = s.data()
    for b in (old, s.data(), old[:10]):
        do(["dirwrite", dd, hx("имя.txt"), s.tmp(b)], "ok")
        o = s.tmp()
        do(["dirread", dd, hx("имя.txt"), o], "ok", (o, b))
    ans, r = execute(lines, d, out)
    files = {"commands.txt": "\n".join("\t".join(x) for x in lines), "case.txt": repr(case)}
    sig = "adapter"
    if not tool.must_be_clean(r, out, sig, files):
        return
    if r.rc or len(ans) != len(lines):
        out.violation(sig + ":answers", "%d answers to %d commands, exit %r" % (len(ans), len(lines), r.rc), files)
        return
    for i, (line, (expect, check), a) in enumerate(zip(lines, plan, ans)):
        out.count("adapter operations")
        ctx = "command %d: %r answer %r" % (i, line, a)
        if a[0] != expect:
            out.violation(sig + ":" + line[0], "expected %r\n%s" % (expect, ctx), files)
            return
        if check and check[0] == "snap":
            tree = {}
            for n, b in check[2].items():
                t = tree
                ps = n.split("/")
                for x in ps[:-1]:
                    t = t.setdefault(x, ({}, None))[0]
                t[ps[-1]] = (b, None)
            try:
                verify_file(s, check[1], tree, out, sig)
            except (cf.ContainerError, ValueError) as e:
                out.violation(sig + ":saved", "%s\n%s" % (e, ctx), dict(files, **{"saved.bin": tool.read(check[1])}))
                return
        elif check:
            b = tool.read(check[0])
            if b != check[1]:
                out.violation(sig + ":content", "read %s bytes, expected %d\n%s" % (None if b is None else len(b), len(check[1]), ctx),
                              files)
                return
    out.seen(("adapter", tuple(l[0] for l in lines)), n=len(lines))


def main():
    c = fw.Check("C10", rule="a case is one history of operations on one container driven through the library (random kind of container, "
                 "initial content and operations); every operation's answer is compared with the reference map, every saved file is read "
                 "by an independent parser; distinct by sequence of operations",
                 assumptions=["no file is renamed to the name of another one", "a file made with its own compression flag is no part of the map"])
    build.driver("contdrv")
    base = c.seed * 1000003
    n = c.n(2200, 20000)
    cases = [dict(seed=base + k) for k in range(n)]
    cases += [dict(seed=base + 500000 + k, kind="adapter") for k in range(c.n(300, 3000))]
    c.map(run_case, cases)
    c.finish(min_evals=500, require=["saved containers read", "contents compared", "blocks checked for overlap"])
