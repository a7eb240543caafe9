"""C14: damaged containers, compressed streams, texts and packs: an error or partial data, never a crash, never taken for complete."""
import os
import random
import re
import struct
import zlib

import build
import cf
import cfggen
import damage
import depot
import fw
import run as _run
import tool

TIME = 40
LIMIT = 1500


def crc(b):
    return "%d:%d" % (len(b), zlib.crc32(b))


def complete(data):
    """decompressed content, or None when the raw deflate stream is damaged or ends early"""
    d = zlib.decompressobj(-15)
    try:
        out = d.decompress(data) + d.flush()
    except zlib.error:
        return None
    return out if d.eof else None


# ---------------------------------------------------------------- input

def content(rng, big=True):
    k = rng.random()
    n = rng.choice([0, 1, 20, 40, 511, 512, 513, 700, 3000] + ([16384, 20000, 70000] if big else []))
    if k < .5:
        return cfggen.content(rng, n)
    if k < .7:
        return rng.randbytes(n)
    if k < .85:
        return bytes([rng.randrange(256)]) * n
    return ("\ufeff" + rng.choice(["{1,{2,3},\"x\"}", "{", "{1,2", "{0,\"a\"\"b\"}", "{{{}}}"])).encode("utf-8")


def stream(rng, data=None):
    """a raw deflate stream, often damaged"""
    data = content(rng) if data is None else data
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, rng.choice([8, 9]), rng.choice([0, 0, 0, 2, 3, 4]))
    s = c.compress(data)
    if rng.random() < .2:
        s += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
    s += c.flush()
    return s


def spoil(rng, s):
    k = rng.random()
    if k < .4 and s:                      # cut, with a liking for the boundaries of the chunks
        n = rng.choice([len(s) - 1, len(s) - 2, len(s) // 2, rng.randrange(len(s)), 1, 16384, 32768, 16383, 16385])
        return s[:max(0, n)] if n < len(s) else s[:-1]
    if k < .7 and s:
        b = bytearray(s)
        for _ in range(rng.choice([1, 1, 2, 8])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if k < .8:
        i = rng.randrange(len(s) + 1)
        return s[:i] + rng.randbytes(rng.choice([1, 4, 40])) + s[i:]
    if k < .87:
        return s + rng.randbytes(rng.choice([1, 20, 17000]))
    if k < .94:
        i = rng.randrange(len(s) + 1)
        return s[:i] + s[i + rng.choice([1, 2, 16]):]
    return rng.randbytes(rng.choice([0, 1, 2, 5, 30, 16384, 20000]))


NAMES = ["root", "version", "versions", "копия", "a", "Text.txt", "info", "6b7c", "long" * 20, "", "x y", "ab"]


def container(rng, depth=0, zipped=False):
    n = rng.choice([0, 1, 1, 2, 3, 5, 50 if depth == 0 else 2])
    files = []
    for i in range(n):
        if depth < 3 and rng.random() < .25:
            x = container(rng, depth + 1)
        else:
            x = content(rng, depth == 0)
        if zipped:
            x = stream(rng, x)
            if rng.random() < .25:
                x = spoil(rng, x)
        nm = rng.choice(NAMES)
        files.append((nm + (str(i) if n > 12 or rng.random() < .8 else ""), x))
    b = bytearray(cf.build(files, rng, page=rng.choice([512, 512, 16, 1, 4096]) if files else 512, split=rng.random() < .6))
    if rng.random() < .4:                 # free blocks
        k = rng.randint(1, 4)
        ps = [rng.choice([0, 1, 30, 512, 2000]) for _ in range(k)]
        pos = [len(b)]
        for p in ps:
            pos.append(pos[-1] + 31 + p)
        order = list(range(k))
        rng.shuffle(order)
        nxt = {order[i]: (pos[order[i + 1]] if i + 1 < k else cf.LAST) for i in range(k)}
        for i in range(k):
            b += cf.block_header(cf.LAST, ps[i], nxt[i]) + rng.randbytes(ps[i])
        struct.pack_into("<I", b, 0, pos[order[0]])
    return bytes(b)


def loops(rng, b):
    """damage aimed at chains: cycles, ends before the data, lengths beyond the container"""
    b = bytearray(b)
    heads = [m.start() for m in re.finditer(rb"\r\n[0-9a-f]{8} [0-9a-f]{8} [0-9a-f]{8} \r\n", bytes(b))]
    if not heads:
        return bytes(b)
    for _ in range(rng.choice([1, 1, 2, 3])):
        h = rng.choice(heads)
        k = rng.randrange(7)
        if k == 0:                        # cycle that never delivers the announced length
            g = rng.choice(heads)
            b[h + 2:h + 10] = b"%08x" % rng.choice([len(b), 0x7ffffffe, 0x7fffffff, 100000])
            b[h + 11:h + 19] = b"%08x" % rng.choice([0, 1, 512])
            b[h + 20:h + 28] = b"%08x" % rng.choice([h, g])
        elif k == 1:
            b[h + 20:h + 28] = b"%08x" % rng.choice(heads + [h])
        elif k == 2:
            b[h + 2:h + 10] = rng.choice([b"7fffffff", b"7ffffffe", b"80000000", b"ffffffff", b"%08x" % len(b), b"%08x" % (len(b) - h)])
        elif k == 3:
            b[h + 11:h + 19] = rng.choice([b"00000000", b"7fffffff", b"ffffffff", b"80000000", b"%08x" % len(b)])
        elif k == 4:
            o = rng.choice([2, 11, 20])
            b[h + o:h + o + 8] = rng.choice([b"zzzzzzzz", b"        ", b"+0000010", b"-0000010", b"0x000010", b"        ", b"\0" * 8,
                                             b"10000000", b"0000000g", b"\xff" * 8])
        elif k == 5:
            struct.pack_into("<I", b, 0, rng.choice(heads + [len(b) - 31 if len(b) > 31 else 0, 0, 1, 16, len(b), 0xffffffff, 0x80000000]))
        else:                             # addresses in the table of contents
            o = 47 + 4 * rng.randrange(6)
            if o + 4 <= len(b):
                struct.pack_into("<I", b, o, rng.choice(heads + [0, 1, 15, 16, len(b), len(b) - 1, len(b) - 30, 0x7ffffffe, 0x80000000, 0xffffffff]))
    return bytes(b)


def hostile_container(rng, zipped):
    b = container(rng, zipped=zipped)
    k = rng.random()
    if k < .2:
        return b                          # sound, or with damaged streams only
    if k < .55:
        return loops(rng, b)
    if k < .9:
        return damage.mutate_container(rng, b)
    if k < .95:
        return b[:rng.randrange(len(b) + 1)]
    return rng.randbytes(rng.choice([0, 1, 4, 15, 16, 17, 46, 47, 48, 100]))


TEXTS = ['{1,2,3}', '{"a","b""c",{},{1,{2}}}', '{#base64:AAAA,#data:QQ==}', '{1.5e10,-7,00000000-0000-0000-0000-000000000000}']


def text(rng, deep):
    k = rng.random()
    if k < .35:
        n = rng.choice([100, 5000, deep])
        u = rng.choice(["{", "{1,", '{"x",{', "{{},", "{\r\n"])
        s = u * n
        if rng.random() < .6:
            s += ("1" if rng.random() < .8 else "") + "}" * (s.count("{") + rng.choice([0, 0, 0, -1, 1]))
    elif k < .5:
        n = rng.choice([1000, 30000])
        s = "{" + ",".join(rng.choice(["1", '"a"', "{}", "", '"' + "x" * 20 + '"']) for _ in range(n)) + rng.choice(["}", "", ",", "}}"])
    elif k < .6:
        s = '{"' + rng.choice(['""', "x", "я", "\r\n", '"","']) * rng.choice([10, 20000]) + rng.choice(['"}', '"', ""])
    elif k < .7:
        s = "{" + rng.choice(["#base64:", "#data:", "", "1" * 10, "-", "1e", "a-", "{#base64:"]) + rng.choice(["A", "9", "=", "\n", "f-"]) * rng.choice([10, 20000]) + \
            rng.choice(["}", "", "!"])
    elif k < .78:          # a value on its own, brackets too many
        s = rng.choice(['""', '"a"', "1", "", "{}", "{1}", "00000000-0000-0000-0000-000000000000", "#base64:AAAA", '"a""']) + \
            "".join(rng.choice(["}", "}", "}", "{", ",", '"', " ", "1"]) for _ in range(rng.randint(1, 6)))
    else:
        s = rng.choice(TEXTS)
        for _ in range(rng.choice([1, 2, 5])):
            s = damage.mutate_text(rng, s)
    b = s.encode("utf-8", "replace")
    if rng.random() < .3:
        b = b"\xef\xbb\xbf" + b
    if rng.random() < .1:
        b = rng.choice([s.encode("utf-16"), b"\xff\xfe" + b, b"\xfe\xff" + b, b + b"\xff\xfe\x80", b"\xef\xbb", b"\xef\xbb\xbf"])
    if rng.random() < .1 and b:
        x = bytearray(b)
        x[rng.randrange(len(x))] = rng.randrange(256)
        b = bytes(x)
    return b


# ---------------------------------------------------------------- library

def jobs(rng, kind, deep):
    if kind == "inflate":
        s = stream(rng)
        if rng.random() < .75:
            s = spoil(rng, s)
        return rng.choice(["inflate", "inflate", "inflatefile"]), s
    if kind == "text":
        return rng.choice(["text", "stream"]), text(rng, deep)
    z = rng.random() < .4
    k = rng.choice(["walk", "walk", "save", "edit", "edit", "file", "file", "conf", "trees"])
    if k == "file":
        e = rng.choice(["cf", "cfe", "epf", "hbk", "cfu", "erf", "CF", "txt"])
        z = e.lower() in ("cf", "cfe", "epf", "erf")
        b = hostile_container(rng, z)
        if e == "cfu":
            b = stream(rng, b)
            if rng.random() < .3:
                b = spoil(rng, b)
        return "file." + e, b
    if k in ("conf",):
        return k, hostile_container(rng, True)
    if k == "trees":
        return k, hostile_container(rng, False)
    return k + ("1" if z else "0"), hostile_container(rng, z)


def strict_entries(data, zipped):
    """[(name, content or None when its stream is not complete)] of a container without any damage, else None"""
    try:
        c = cf.Container(data)
    except (cf.ContainerError, ValueError, struct.error):
        return None
    if len(data) == 16 and data[4:] != b"\0\2" + bytes(10):
        return None                       # an empty container has exactly one form
    out = []
    for e in c.entries:
        x = e.data
        if zipped and x:
            x = complete(x)
        out.append((e.name, x))
    return out


def judge(cmd, data, ans, out):
    """-> None or (signature, message)"""
    a = ans.split("\t")[0]
    errors = ans.rsplit("\t", 1)[-1]
    if a == "memory":
        return "memory", "more memory than the input can need"
    if cmd.startswith("inflate"):
        want = complete(data) if data else b""
        if want is None:
            out.count("damaged streams")
            if not a.startswith(("error", "exception")):
                return "stream", "damaged or truncated stream taken for a complete one: %s" % a[:80]
        else:
            out.count("complete streams")
            if a != "ok " + crc(want):
                return "stream", "complete stream of %s gives %s" % (crc(want), a[:80])
        return None
    if cmd in ("text", "stream"):
        out.count("texts")
        return None
    if cmd == "file.cfu" and data:
        x = complete(data)
        if x is None:
            out.count("damaged update containers")
            if not a.startswith(("error", "exception")):
                return "stream", "container with a damaged stream opened: %s" % a[:80]
            return None
        zipped, data = False, x
    else:
        zipped = cmd.endswith("1") or cmd in ("file.cf", "file.cfe", "file.epf", "file.erf", "file.CF", "conf")
    ent = strict_entries(data, zipped)
    if ent is None:
        out.count("damaged containers")
        out.count("damaged containers " + ("refused" if a == "no" or a.startswith(("error", "exception")) else "read"))
        return None
    if a.startswith(("error", "exception")) or a == "no":
        return "sound container", "container without damage refused: %s" % a[:80]
    out.count("sound containers")
    if cmd == "trees" or len(ent) > 1000:
        return None
    body = a.split(" ")[1] if " " in a else ""
    if cmd == "conf":
        names = [n.lower() for n, x in ent]
        return None
    have = [x for x in body.split(";") if x and "/" not in x.split(",")[0]]
    want = []
    for n, x in ent:
        h = n.encode("utf-8").hex()
        want.append(h + ",error" if x is None else h + "," + crc(x) + ",f")
        out.count("files with a damaged stream" if x is None else "files compared")
    if have != want:
        for h, w in zip(have + ["-"] * len(want), want):
            if h != w:
                return ("stream" if w.endswith("error") else "content"), "entry %s, expected %s" % (h[:200], w[:200])
        return "content", "%d entries, expected %d" % (len(have), len(want))
    return None


def run_lib(case, d, out):
    rng = random.Random(case["seed"])
    todo = [jobs(rng, case["kind"], case.get("deep", 3000)) for _ in range(case["n"])]
    asan = _run.ASAN.replace("max_allocation_size_mb=3000", "max_allocation_size_mb=%d:hard_rss_limit_mb=%d" % (LIMIT // 2, LIMIT))
    i = 0
    while i < len(todo):
        part = todo[i:]
        inp = b"".join(b"%s %d\n%s\n" % (c.encode(), len(b), b) for c, b in part)
        w = os.path.join(d, "w%d" % i)
        os.mkdir(w)
        r = _run.run([build.driver("hostdrv")], cwd=w, timeout=TIME, stdin=inp, env={"ASAN_OPTIONS": asan})
        lines = r.out.split("\n")[:-1]
        for j, (c, b) in enumerate(part[:len(lines)]):
            out.seen((c, len(b), zlib.crc32(b)), {"command": c, "bytes": len(b), "answer": lines[j][:80]})
            if lines[j].startswith("exception"):
                out.count("other exceptions")
            v = judge(c, b, lines[j], out)
            if v:
                out.violation(v[0] + " " + c.rstrip("01"), v[1], {"input.bin": b, "command.txt": c, "case.txt": repr(case)})
        i += len(lines)
        if len(lines) < len(part):
            c, b = part[len(lines)]
            out.violation((r.crash or "no answer") + " " + c.rstrip("01"), "%s on %d bytes: %s\n%s" % (c, len(b), r.crash, r.err[-3000:]),
                          {"input.bin": b, "command.txt": c, "stderr.txt": r.err, "case.txt": repr(case)})
            i += 1
            if len(out.viol) > 4:
                return
        elif r.crash:
            out.violation(r.crash + " at the end", r.err[-3000:], {"input.bin": inp, "stderr.txt": r.err, "case.txt": repr(case)})


# ---------------------------------------------------------------- tool

def run_tool(case, d, out):
    rng = random.Random(case["seed"])
    dep = depot.make(rng, **case["opts"])
    base = os.path.join(d, "rep")
    os.mkdir(base)
    by = {t.name: t for t in dep.db.tables}
    # spoil one or more stored streams so that they are incomplete
    bad = {}                    # stored bytes before -> after
    for t, col in (("HISTORY", "OBJDATA"), ("EXTERNALS", "EXTDATA")):
        for r in by[t].rows:
            if isinstance(r, dict) and r.get(col) and complete(r[col]) is not None and rng.random() < .4:
                x = spoil(rng, r[col])
                if x and complete(x) is None and x not in bad and not cf.is_container(x):
                    bad[r[col]] = x
                    r[col] = x
    pack = case["opts"].get("dver", 0) >= 6 and rng.random() < .6
    if pack:
        fs = sorted(n for n in dep.files if n.startswith("data/") and not n.endswith("readme"))
        for n in rng.sample(fs, min(len(fs), rng.choice([1, 1, 2]))):
            x = dep.files[n]
            k = rng.random()
            if n.endswith(".ind") and k < .6 and len(x) >= 12:
                b = bytearray(x)
                o = rng.choice([8] + [12 + 28 * i + 20 for i in range((len(b) - 12) // 28)])
                w = rng.choice([0, 1, 7, 8, 0x7fffffff, 0xffffffff, 0xfffffff0, rng.getrandbits(32)])
                struct.pack_into("<I", b, o, w)
                if rng.random() < .3 and o > 8:
                    struct.pack_into("<I", b, o + 4, rng.choice([1, 0x7fffffff, 0xffffffff, 0x80000000]))
                dep.files[n] = bytes(b)
            elif n.endswith(".pck") and k < .6 and len(x) > 16:
                b = bytearray(x)
                struct.pack_into("<Q", b, 8, rng.choice([0, 1, len(b), len(b) - 16, len(b) + 1, 1 << 31, 1 << 40, 1 << 63, (1 << 64) - 1]))
                dep.files[n] = bytes(b)
            else:
                dep.files[n] = rng.choice([x[:rng.randrange(len(x) + 1)], b"", rng.randbytes(len(x)), x[:11], x[:12]])
    p, data = depot.save(dep, base)
    o = os.path.join(d, "out")
    os.mkdir(o)
    args = []
    which = rng.choice(["drc", "dpc"])
    ver = rng.choice(dep.versions)
    if which == "drc":
        args = ["-drc", str(ver), os.path.join(o, "x.cf")]
    else:
        args = ["-dpc", rng.choice(["%d:%d" % (dep.versions[0] - 1, dep.versions[-1]), "%d" % dep.versions[0], "0:%d" % ver]), os.path.join(o, "x")]
    asan = _run.ASAN.replace("max_allocation_size_mb=3000", "max_allocation_size_mb=%d:hard_rss_limit_mb=%d" % (LIMIT // 2, LIMIT))
    r = tool.invoke([p, "-q"] + args, d, timeout=TIME, env={"ASAN_OPTIONS": asan})
    files = {"1cv8ddb.1CD": data, "case.txt": repr(case) + "\n" + repr(args), "stderr.txt": r.err}
    for n, b in dep.files.items():
        files[n.replace("/", "__")] = b
    out.seen((which, dep.depotver, len(bad), r.rc, len(data)), {"command": which, "depot": dep.depotver, "streams spoiled": len(bad), "exit": r.rc})
    out.count("repository runs")
    out.count("repository runs with damaged packs" if pack else "repository runs with damaged streams" if bad else "repository runs without damage")
    if r.crash:
        out.violation(r.crash + " " + which, "%s: %s\n%s" % (" ".join(args), r.crash, r.err[-3000:]), files)
        return
    if r.rc != 0:
        out.count("repository runs refused")
        if not r.out.strip() and not r.err.strip():
            out.violation("silent " + which, "exit %d without a message" % r.rc, files)
        return
    # success: the content of a spoiled stream is either the stored bytes or not there at all
    raws = set(bad.values())
    partial = {}
    for x in raws:
        z = zlib.decompressobj(-15)
        y = b""
        try:
            for k in range(len(x)):
                y += z.decompress(x[k:k + 1])
        except zlib.error:
            pass
        if len(y) >= 4:
            partial[x] = y
    whole = set()         # versions of an object may begin alike: what another stream holds is not the beginning of a damaged one
    for g in list(bad) + [h[3] for h in dep.hist] + [e[4] for e in dep.extrows]:
        if isinstance(g, (bytes, bytearray)):
            whole |= {bytes(g), complete(g)}
    have = []
    for n, b in tool.tree(o).items():
        if b is None:
            continue
        have.append((n, b))
        if n.endswith(".cf"):
            try:
                c = cf.Container(b).as_dict()
                have = []
                for m, x in c.items():
                    if m == "metadata":
                        try:
                            x = complete(x) or x
                            have += [("metadata/" + k, v) for k, v in cf.Container(x).as_dict().items()]
                            continue
                        except (cf.ContainerError, ValueError, struct.error):
                            pass
                    have.append((m, x))
            except (cf.ContainerError, ValueError, struct.error) as e:
                out.violation("container " + which, "%s: %s" % (n, e), files)
                return
    for n, b in have:
        if b in raws:
            out.count("damaged streams passed on as they are stored")
            continue
        for x, y in partial.items():
            if b.startswith(y) and b not in whole and os.path.basename(n) in expected_names(dep, x, bad):
                out.violation("taken for complete " + which, "%s holds the %d bytes the damaged stream of %d bytes gave, and the run succeeded" %
                              (n, len(b), len(x)), files)
                return


def expected_names(dep, x, bad):
    """names of the files whose stored stream became x"""
    old = [k for k, v in bad.items() if v == x]
    names = set()
    for st in dep.state.values():
        for o, (vid, data, ext) in st.items():
            if data in old:
                names.add(depot.ms(o))
            names.update(n for n, (v, b) in ext.items() if b in old)
    return names


def main():
    c = fw.Check("C14", rule="random and aimed damage of containers, streams, texts and packs; sanitizers, an independent inflate and an "
                             "independent container reader judge every answer",
                 assumptions=["zlib of Python decides whether a stream is complete",
                              "a container without any damage (strict reader) must be read exactly; anything else may be refused or read in part"])
    build.driver("hostdrv")
    build.cli()
    n = c.n(1, 12)
    rnd = lambda: c.rng.randrange(1 << 30)
    c.map(run_lib, [{"seed": rnd(), "kind": "container", "n": 120} for _ in range(240 * n)] +
          [{"seed": rnd(), "kind": "inflate", "n": 150} for _ in range(40 * n)] +
          [{"seed": rnd(), "kind": "text", "n": 25, "deep": c.n(20000, 300000)} for _ in range(48 * n)] +
          [{"seed": rnd(), "kind": "text", "n": 1, "deep": c.n(400000, 3000000)} for _ in range(16)])
    c.map(run_tool, [{"seed": rnd(), "opts": {"dver": c.rng.choice([3, 3, 5, 6, 6, 7]), "nobj": c.rng.choice([1, 2, 4, 8]),
                                              "nver": c.rng.choice([1, 2, 4]), "snapshots": False}} for _ in range(220 * n)])
    c.finish(5000, ["damaged streams", "complete streams", "damaged containers", "sound containers", "files with a damaged stream", "texts",
                    "damaged update containers", "repository runs with damaged streams", "repository runs with damaged packs"])


if __name__ == "__main__":
    main()
