"""C22: the graphical tool shows exactly what the database or container holds."""
import os
import random
import re
import struct
import zlib

import build
import c06
import c07
import c11
import cf
import cfggen
import fw
import gen
import run as _run
import sparse
import tool
import xmlm
from db1cd import DELETED, Database, Field, FormatError, Reader, Table

NL = "\u2029"


class Problem(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig = sig


class Gui:
    """a scripted session with the real windows; the commands are sent in one batch"""

    def __init__(self, d):
        self.d = d
        self.cmds = []

    def add(self, *a):
        self.cmds.append("\t".join(str(x) for x in a))
        return len(self.cmds) - 1

    def run(self, files, out, timeout=120):
        home = os.path.join(self.d, "home")
        os.makedirs(home, exist_ok=True)
        opts = "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:detect_odr_violation=0"
        r = _run.run([build.gui("guidrv")], cwd=self.d, timeout=timeout, tmp=os.path.join(self.d, "tmp"), stdin=("\n".join(self.cmds) + "\n").encode(),
                     env={"QT_QPA_PLATFORM": "offscreen", "HOME": home, "XDG_RUNTIME_DIR": home, "ASAN_OPTIONS": opts,
                          "XDG_CACHE_HOME": home, "QT_LOGGING_RULES": ""})
        files["commands.txt"] = "\n".join(self.cmds)
        self.r = r
        if not tool.must_be_clean(r, out, "gui", files):
            return False
        self.ans = []
        cur = []
        for line in r.out.split("\n"):
            if line.startswith("end\t"):
                self.ans.append((line.split("\t")[1:], cur))
                cur = []
            elif line:
                cur.append(line.split("\t"))
        if len(self.ans) != len(self.cmds):
            out.violation("gui:end", "%d answers to %d commands, exit %r\n%s" % (len(self.ans), len(self.cmds), r.rc, tool.describe(r)), files)
            return False
        return True

    def get(self, i):
        """lines of the answer to command i; it has to be a normal one"""
        end, lines = self.ans[i]
        if end[0] != "ok":
            raise Problem("gui:answer", "%r was answered by %s %s" % (self.cmds[i], end[0], "".join(text(x) for x in end[1:2])))
        return lines

    def result(self, i):
        return self.ans[i][0][1:]


def text(h):
    return bytes.fromhex(h).decode("utf-8")


def bom(s):
    """a mark at the beginning of a text is not shown"""
    return s.lstrip("\ufeff")


def plain(s):
    return s.replace("\ufeff", "")


def shown(s):
    """as a text widget keeps it"""
    return re.sub("\r\n|\r|\n", NL, bom(s)).replace("\u00a0", " ")


def human_ok(s, n):
    m = re.fullmatch(r"(\d+\.\d\d) (B|KiB|MiB|GiB|TiB)", s)
    if not m:
        return False
    u = 1024 ** ["B", "KiB", "MiB", "GiB", "TiB"].index(m.group(2))
    return abs(float(m.group(1)) * u - n) <= .0101 * u


def display(f, v):
    """text of a cell; None = not judged"""
    if v is None:
        return "{NULL}"
    t = f.type
    if t in ("B", "VB"):
        return xmlm.guid_1c(v) if t == "B" and xmlm.is_guid_field(f) else v.hex()
    if t == "L":
        return "true" if v else "false"
    if t == "N":
        return xmlm.norm_number(v)
    if t == "NC":
        n = f.length - len(v.encode("utf-16-le")) // 2
        return v + " " * n
    if t == "NVC":
        return v
    if t in ("RV", "V8"):
        return ":".join(str(x) for x in v)
    if t == "DT":
        return "%02d.%02d.%04d %02d:%02d:%02d" % (v[2], v[1], v[0], v[3], v[4], v[5])
    return {"NT": "{MEMO}", "T": "{TEXT}", "I": "{IMAGE}"}[t]


def inflated(data, times=99):
    """what is left after unpacking as often as possible"""
    for _ in range(times):
        d = zlib.decompressobj(-15)
        try:
            x = d.decompress(data) + d.flush()
        except zlib.error:
            return data
        if not d.eof:
            return data
        data = x
    return data


def b64(s):
    """lenient, as in the viewer: bits of the alphabet's characters"""
    acc = n = 0
    out = bytearray()
    for c in s:
        k = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".find(bytes([c]))
        if k >= 0:
            acc = acc << 6 | k
            n += 6
            if n >= 8:
                n -= 8
                out.append(acc >> n)
                acc &= (1 << n) - 1
    return bytes(out)


# ---- what a viewer shows

class View:
    def __init__(self, lines):
        self.tabs = {}
        self.current = None
        self.text = self.hex = self.title = None
        self.nodes = []
        for x in lines:
            if x[0] == "title":
                self.title = text(x[1])
            elif x[0] == "tab":
                self.tabs[x[1]] = 1
                if len(x) > 2:
                    self.current = x[1]
            elif x[0] == "text":
                self.text = text(x[1])
            elif x[0] == "hex":
                self.hex = bytes.fromhex(x[1])
            elif x[0] == "node":
                self.nodes.append((int(x[1]), x[2:]))
            elif x[0] in ("badindex", "badparent"):
                raise Problem("gui:tree", "the tree contradicts itself: %r" % (x,))


def want_text(v, s, what):
    if "textDataTab" not in v.tabs:
        raise Problem("gui:text", "%s: no text is shown" % what)
    if bom(v.text).replace("\u00a0", " ") != shown(s):
        raise Problem("gui:text", "%s: the text shown is %r, stored is %r" % (what, v.text[:200], s[:200]))
    if not s.startswith("{"):
        return
    raw = s.encode()
    nodes, unspec = c11.oracle(raw, False)
    if unspec:
        return
    if nodes is None:
        # (an unknown value at the very end is reported by a message only)
        if "parsedDataTab" in v.tabs and s.rstrip().endswith("}"):
            raise Problem("gui:tree", "%s: a malformed text %r is shown as a tree" % (what, s[:200]))
        return
    want_tree(v, nodes, what)


def binaries(s):
    """[(rows, bytes)] of the binary values of a bracket text"""
    nodes, unspec = c11.oracle(s.encode(), False)
    out = []
    idx = []
    for d, k, val in (nodes or [])[1:] if not unspec else []:
        idx = idx[:d]
        if len(idx) < d:
            idx.append(0)
        else:
            idx[d - 1] += 1
        if k in (c11.BINARY, c11.BINARY2, c11.DATA):
            out.append((list(idx), b64(val if k == c11.BINARY2 else val.partition(b":")[2])))
    return out


def norm_out(k, val):
    if k == c11.STRING:
        return b'"' + val.replace(b'"', b'""') + b'"'
    return val


def want_tree(v, nodes, what):
    if "parsedDataTab" not in v.tabs:
        raise Problem("gui:tree", "%s: no tree is shown for a bracket text" % what)
    nodes = nodes[1:]
    if len(v.nodes) != len(nodes):
        raise Problem("gui:tree", "%s: the tree shown has %d values, the text %d" % (what, len(v.nodes), len(nodes)))
    idx = []
    count = [0] * len(nodes)
    last = {}
    for i, (d, k, _) in enumerate(nodes):
        if d - 1 in last:
            count[last[d - 1]] += 1
        last[d] = i
    for i, ((d, k, val), (depth, cells)) in enumerate(zip(nodes, v.nodes)):
        idx = idx[:d]
        if len(idx) < d:
            idx.append(0)
        else:
            idx[d - 1] += 1
        path = "".join(":%d" % x for x in idx)
        got = text(cells[0])
        if depth != d - 1 or got != path:
            raise Problem("gui:tree", "%s: value %d of the tree stands at %r (level %d), expected %r" % (what, i, got, depth, path))
        edit = cells[2][1:]
        if k == c11.LIST:
            n = re.fullmatch(r"\{\D*(\d+)\}", text(cells[1]))
            if not n or int(n.group(1)) != count[i]:
                raise Problem("gui:tree", "%s: the list %s of %d values is shown as %r" % (what, path, count[i], text(cells[1])))
            continue
        raw = norm_out(k, val)
        if k in (c11.BINARY, c11.BINARY2, c11.DATA):
            body = raw.partition(b":")[2] if k != c11.BINARY2 else raw
            if cells[2][:1] != "B" or bytes.fromhex(edit) != b64(body):
                raise Problem("gui:tree", "%s: the binary value %s is %r, expected %r" % (what, path, cells[2][:100], b64(body)[:50]))
        elif cells[2][:1] != "T" or bom(text(edit)) != bom(raw.decode()):
            raise Problem("gui:tree", "%s: value %s is %r, expected %r" % (what, path, text(edit)[:200] if cells[2][:1] == "T" else cells[2], raw[:200]))
        s = text(cells[1])
        full = bom(raw.decode())
        line = full.split("\n")[0].rstrip("\r")
        if s.endswith("...") and len(s.encode("utf-16-le")) == 80:
            s = s[:-3]
            if s[-1:] in "?\ufffd":         # cut within a surrogate pair
                s = s[:-1]
            ok = line.startswith(s)
        else:
            ok = line.startswith(s) and (len(s) >= len(line) - 1 if "\n" in full else s == line)
        if not ok:
            raise Problem("gui:tree", "%s: value %s is shown as %r, it is %r" % (what, path, s, raw[:100]))


def nodes_of(tree, name):
    out = [(0, name)]

    def walk(t, d):
        for k, x in t.items():
            out.append((d, k))
            if isinstance(x, dict):
                walk(x, d + 1)
    walk(tree, 1)
    return out


def want_container(v, tree, name, what):
    if "parsedDataTab" not in v.tabs:
        raise Problem("gui:container", "%s: a container is not shown as a tree" % what)

    def nest(flat):
        root = []
        stack = [(-1, root)]
        for d, n in flat:
            while stack[-1][0] >= d:
                stack.pop()
            kids = []
            stack[-1][1].append((n, kids))
            stack.append((d, kids))

        def norm(x):
            return sorted((n, norm(k)) for n, k in x)
        return norm(root)
    have = nest([(d, bom(text(c[0]))) for d, c in v.nodes])
    want = nest([(d, bom(n)) for d, n in nodes_of(tree, name)])
    if have != want:
        raise Problem("gui:container", "%s: the tree shown is %r, expected %r" % (what, str(have)[:600], str(want)[:600]))


def rows_of(v, name):
    """rows from the root to the element `name` (a path) of a shown container"""
    stack = []
    count = {}
    path = []
    for d, c in v.nodes:
        n = text(c[0])
        for k in [k for k in count if k > d]:
            del count[k]
        count[d] = count.get(d, -1) + 1
        path = path[:d] + [n]
        stack = stack[:d] + [count[d]]
        if [bom(x) for x in path[1:]] == [bom(x) for x in name]:
            return list(stack)
    return None


def text_of(data):
    """the text behind a byte order mark, or None"""
    if data[:3] == b"\xef\xbb\xbf":
        try:
            return data[3:].decode("utf-8")
        except UnicodeDecodeError:
            return False
    if data[:6] == b"MOXCEL":       # a spreadsheet: 13 bytes, then a text with its mark
        if data[13:16] == b"\xef\xbb\xbf":
            try:
                return data[16:].decode("utf-8")
            except UnicodeDecodeError:
                pass
        return False
    return None


def want_stream(v, data, tree, name, what):
    """a viewer opened on bytes; tree = what they hold as a container, or None"""
    if (v.hex or b"") != data:
        raise Problem("gui:hex", "%s: %s bytes are shown, %d are stored%s" % (what, "no" if v.hex is None else len(v.hex), len(data),
                      "" if v.hex is None else ", first difference at %d" % next((i for i, (x, y) in enumerate(zip(v.hex, data)) if x != y), -1)))
    if tree is not None:
        want_container(v, tree, name, what)
        return
    t = text_of(data)
    if t is None:
        if "textDataTab" in v.tabs:
            raise Problem("gui:text", "%s: bytes without a byte order mark are shown as a text" % what)
    elif t and "\0" not in t:
        want_text(v, t, what)


# ---- contents

def bracket(rng, size=30):
    while True:
        b = c11.text(rng, c11.tree(rng, rng.choice([3, size]), 6, 5), rng.random() < .5)
        try:
            s = b.decode()
        except UnicodeDecodeError:
            continue
        if "\0" in s:
            continue
        if rng.random() < .2:
            s2 = c11.mutate(rng, b)
            try:
                s = bytes(s2).decode()
            except UnicodeDecodeError:
                pass
        if "\0" not in s and not re.search("[\ud800-\udfff\ufdd0-\ufdef\ufffe\uffff\u00a0]", s):
            return s


def marked(rng, s):
    """a text as it is stored in a binary value"""
    head = b"MOXCEL\0" + bytes([rng.choice([7, 8]), 0, rng.randrange(3), 0, rng.randrange(1, 15), 0]) if rng.random() < .3 else b""
    return head + b"\xef\xbb\xbf" + s.encode()


def elements(rng, depth, n=None):
    """{name: bytes or dict}"""
    t = {}
    names = cfggen.unique_names(rng, rng.choice([1, 2, 5]) if n is None else n, ok=lambda s: "\ufeff" not in s and "\t" not in s)
    for k in names:
        x = rng.random()
        if depth and x < .35:
            t[k] = elements(rng, depth - 1)
        elif x < .6:
            t[k] = marked(rng, bracket(rng) if rng.random() < .6 else "text " + gen.text(rng, 40, True))
        else:
            t[k] = b"\x07" + cfggen.content(rng, rng.choice([1, 2, 50, 511, 512, 513, 1500])) if rng.random() < .9 else b""    # 07 begins no deflate stream
    return t


def packed(tree, rng, deflate):
    """bytes of a container, its elements deflated or not"""
    fs = []
    for k, x in tree.items():
        b = packed(x, rng, deflate) if isinstance(x, dict) else x
        fs.append((k, cf.deflate(b) if deflate else b))
    return cf.build(fs, rng, split=rng.random() < .3)


def outer(tree, deflate):
    """what the tree view shows without unpacking"""
    return {k: ({} if deflate else outer(x, False)) if isinstance(x, dict) else {} for k, x in tree.items()}


def image(rng):
    """(stored bytes, bytes after unpacking, tree or None)"""
    k = rng.random()
    tree = None
    if k < .25:
        d = cfggen.Stored(marked(rng, bracket(rng) if rng.random() < .6 else "t " + gen.text(rng, 200, True)))
    elif k < .55:
        tree = elements(rng, 2)
        defl = rng.random() < .4
        d = packed(tree, rng, defl)
        tree = (tree, defl)
    else:
        d = b"\x07" + cfggen.content(rng, rng.choice([1, 10, 248, 249, 250, 600, 5000])) if rng.random() < .85 else b""
    n = rng.choice([0, 0, 1, 1, 2, 3]) if d else 1
    x = bytes(d)
    for _ in range(n):
        x = cf.deflate(x, rng.choice([1, 9]))
    return x, bytes(d), tree


def big_table(rng, name):
    t = gen.table(rng, name, rng.choice([0, 3, 12, 40]), types=None)
    for f in t.fields:
        for r in t.rows:
            if r is DELETED or r[f.name] is None:
                continue
            if f.type == "NT" and rng.random() < .5:
                r[f.name] = bracket(rng)
            elif f.type == "NT" and rng.random() < .3:      # begins like packed data
                r[f.name] = rng.choice(["c", "K", "b", "s", "cd"]) + r[f.name]
    for i in range(rng.choice([0, 1, 2, 3])):
        gen.add_index(rng, t, "%s_IX%d" % (name, i), False)
    if rng.random() < .6:
        gen.add_index(rng, t, "PK", True)
        rng.shuffle(t.indexes)
    return t


def is_deflate(data):
    d = zlib.decompressobj(-15)
    try:
        d.decompress(data) + d.flush()
    except zlib.error:
        return False
    return d.eof


def check_list(g, i, db):
    lines = g.get(i)[1:]
    if len(lines) != len(db.tables):
        raise Problem("gui:tables", "%d tables are listed, the database has %d" % (len(lines), len(db.tables)))
    pos = {}
    for k, l in enumerate(lines):
        c = [text(x) for x in l[2:]]
        t = next((t for t in db.tables if t.name == c[0]), None)
        if t is None or c[0] in pos:
            raise Problem("gui:tables", "table %r is listed, but does not exist" % c[0])
        pos[c[0]] = k
        sizes = [len(x) if x is not None else 0 for x in (t.data, t.blob, t.index)]
        if c[1] != str(t.layout()[1]) or c[2] != ("YES" if t.recordlock else "NO"):
            raise Problem("gui:tables", "table %s: %r, record length %d, record lock %r" % (t.name, c, t.layout()[1], t.recordlock))
        for s, n in zip(c[3:], sizes + [sum(sizes)]):
            if not human_ok(s, n):
                raise Problem("gui:tables", "table %s: size %r is shown for %d bytes" % (t.name, s, n))
    return pos


def check_fields(g, i, t):
    lines = g.get(i)[1:]
    fs = t.all_fields()
    if len(lines) != len(fs):
        raise Problem("gui:fields", "%s: %d fields are shown, it has %d" % (t.name, len(lines), len(fs)))
    for f, l in zip(fs, lines):
        c = [text(x) for x in l[2:]]
        want = [f.name, xmlm.PT[f.type], str(f.length), str(f.prec), "NULL" if f.null else "NOT NULL", "CS" if f.cs else "CI"]
        if f.name == "VERSION" and f.type == "V8":
            want[2:] = c[2:]
        if c != want:
            raise Problem("gui:fields", "%s.%s is shown as %r, expected %r" % (t.name, f.name, c, want))


def cell_edit(f, v):
    """text of a cell in full; None = not judged"""
    if v is None:
        return ""
    if f.type == "NT":
        return v
    if f.type == "I" and not v:
        return ""
    if f.type in ("T", "I"):
        return None
    if f.type == "B" and f.length == 16 and f.name.upper().endswith("REF"):
        return xmlm.guid_1c(v)
    return display(f, v)


def check_rows(g, i, t, order, out):
    """the rows of a table, in the order of an index or all of them as they are stored"""
    lines = g.get(i)
    fs = t.all_fields()
    head = [text(x) for x in lines[0][1:]]
    if head != [f.name for f in fs]:
        raise Problem("gui:rows", "%s: columns %r, expected %r" % (t.name, head, [f.name for f in fs]))
    nums = list(range(len(t.rows))) if order is None else order
    if len(lines) - 1 != len(nums):
        raise Problem("gui:rows", "%s: %d rows are shown, expected %d" % (t.name, len(lines) - 1, len(nums)))
    for k, (n, l) in enumerate(zip(nums, lines[1:])):
        r = t.rows[n]
        if l[1] != ("italic" if r is DELETED else "plain"):
            raise Problem("gui:rows", "%s: row %d (record %d) is shown as %s" % (t.name, k, n, "deleted" if l[1] == "italic" else "live"))
        if r is DELETED:
            continue
        for j, f in enumerate(fs):
            for what, have, want in (("shows", l[2 + 2 * j], display(f, r[f.name])), ("has the text", l[3 + 2 * j], cell_edit(f, r[f.name]))):
                if want is None:
                    continue
                if have[:1] == "!" or bom(text(have)) != bom(want):
                    raise Problem("gui:cell", "%s row %d (record %d) field %s %s(%d,%d) %s %r, stored is %r" % (
                        t.name, k, n, f.name, f.type, f.length, f.prec, what, have if have[:1] == "!" else text(have)[:200], want[:200]))
        out.count("rows compared")
        out.count("cells compared", len(fs))


def table_case(case, d, out):
    rng = random.Random(case["seed"])
    db = gen.database(rng, case.get("version"), case.get("ps"))
    images = {}
    for i in range(rng.choice([1, 2, 3])):
        t = big_table(rng, "T%d" % i)
        for f in t.fields:
            if f.type != "I":
                continue
            if rng.random() < .3:
                continue
            for n, r in enumerate(t.rows):
                if r is not DELETED and r[f.name] is not None:
                    st, plain, tree = image(rng)
                    r[f.name] = st
                    images[t.name, n, f.name] = (plain, tree)
        db.add(t)
    if rng.random() < .7:      # values that are named by their row
        t = gen.config_table(rng.choice(["STORE", "_EXTS"]), [], rng.random() < .5)
        if rng.random() < .3:
            t.fields[0].name = "EXTNAME"
        key = t.fields[0].name
        rows = []
        for k in range(rng.choice([1, 4, 9])):
            st, plain, tree = image(rng)
            r = {key: cfggen.name(rng).replace("\ufeff", "x").replace("\t", "x"), "CREATION": cfggen.rand_time(rng), "MODIFIED": cfggen.rand_time(rng), "ATTRIBUTES": "0",
                 "DATASIZE": str(len(st)), "BINARYDATA": st}
            if len(t.fields) > 6:
                r["PARTNO"] = "0"
            while rng.random() < .2:
                rows.append(DELETED)
            images[t.name, len(rows), "BINARYDATA"] = (plain, tree)
            rows.append(r)
        t.rows = rows
        db.add(t)
    data = db.build()
    p = os.path.join(d, "Base.1CD")
    tool.write(p, data)
    files = {"base.1CD": data, "case.txt": repr(case)}
    g = Gui(d)
    i_open = g.add("open", p, os.path.join(d, "cache"))
    i_list = g.add("tables")
    todo = []
    # the order of the list is that of the database
    names = [t.name for t in db.tables]
    exported = []
    for step in range(rng.choice([2, 4, 7])):
        k = rng.randrange(len(names))
        t = db.tables[k]
        todo.append(("table", t, g.add("table", k)))
        prim = [x for x in t.indexes if x.primary][:1]
        box = prim + [x for x in t.indexes if x not in prim]
        order = "any"
        for _ in range(rng.choice([1, 2, 4])):
            x = rng.random()
            if x < .15:
                todo.append(("fields", t, g.add("fields")))
            elif x < .25:
                todo.append(("description", t, g.add("description")))
            elif x < .35 and not any(e[0].name == t.name for e in exported):
                f = os.path.join(d, "x%d.xml" % len(exported))
                i = g.add("export", f, 0, 0)
                exported.append((t, f))
                todo.append(("export", t, i, f))
            else:
                c = rng.randint(0, len(box))
                g.add("choose", c)
                order = None if not c else box[c - 1].order if box[c - 1].order is not None else t.live()
                i = g.add("rows")
                todo.append(("rows", t, i, order))
                nums = list(range(len(t.rows))) if order is None else order
                fs = t.all_fields()
                live = [(r, n) for r, n in enumerate(nums) if t.rows[n] is not DELETED]
                cand = [(r, n, j) for r, n in live for j in range(len(fs))]
                for r, n, j in rng.sample(cand, min(len(cand), 4)) + [x for x in rng.sample(cand, min(len(cand), 60)) if fs[x[2]].type in ("I", "NT")][:5]:
                    f = fs[j]
                    todo.append(("select", t, g.add("select", r, j), n, f))
                    if f.type == "NT" and t.rows[n][f.name] and t.rows[n][f.name].startswith("{"):
                        b = binaries(t.rows[n][f.name])
                        for rows, want in rng.sample(b, min(len(b), 2)):
                            todo.append(("item", t, g.add("openitem", 1, *rows), rows, want))
                    if f.type == "I" and t.rows[n][f.name] is not None and rng.random() < .3:
                        q = os.path.join(d, "b%d" % len(todo))
                        g.add("saveblob", r, j, q)
                        todo.append(("saved", t, None, n, f, q))
    if not g.run(files, out):
        return
    try:
        res = g.result(i_open)
        if res[0] != "ok main" or text(res[1]) != p:
            raise Problem("gui:open", "opening a database gave %r" % (res,))
        check_list(g, i_list, db)
        if [text(l[2]) for l in g.get(i_list)[1:]] != names:
            raise Problem("harness:order", "the tables are listed in another order")
        out.count("tables listed", len(names))
        for x in todo:
            kind, t, i = x[:3]
            if kind == "table":
                lines = g.get(i)
                if text(g.result(i)[0]) != t.name:
                    raise Problem("gui:table", "the window of %s is titled %r" % (t.name, text(g.result(i)[0])))
                prim = [x for x in t.indexes if x.primary][:1]
                box = prim + [x for x in t.indexes if x not in prim]
                have = [text(l[1]) for l in lines if l[0] == "index"]
                want = ["%s: %s" % (x.name, ", ".join(p[0] for p in x.parts)) for x in box]
                if have[1:] != want:
                    raise Problem("gui:indexes", "%s: the indexes shown are %r, expected %r" % (t.name, have, want))
                out.seen(("table", len(box), len(t.all_fields())))
            elif kind == "fields":
                check_fields(g, i, t)
                out.seen(("fields", len(t.all_fields())))
            elif kind == "description":
                lines = g.get(i)
                v = View(lines)
                if text(lines[0][1]) != t.name:
                    raise Problem("gui:description", "the description of %s is titled %r" % (t.name, text(lines[0][1])))
                want_text(v, t.descr_text, "description of " + t.name)
                out.seen(("description", len(v.nodes)))
                out.count("descriptions compared")
            elif kind == "export":
                g.get(i)
                have = tool.read(x[3])
                msg = xmlm.compare(t, have) if have is not None else "no file was written"
                if msg:
                    raise Problem("gui:export", "export of %s: %s" % (t.name, msg))
                out.seen(("export", len(t.rows)))
                out.count("tables exported")
            elif kind == "rows":
                check_rows(g, i, t, x[3], out)
                out.seen(("rows", t.name, x[3] is None, len(t.rows), len(t.all_fields())))
            elif kind == "select":
                n, f = x[3:5]
                val = t.rows[n][f.name]
                what = "%s record %d field %s %s" % (t.name, n, f.name, f.type)
                v = View(g.get(i))
                out.count("values viewed")
                if f.type == "I" and val:
                    if (t.name, n, f.name) in images:     # an empty value is no container
                        plain, tree = images[t.name, n, f.name]
                        name = t.rows[n].get("FILENAME", t.rows[n].get("EXTNAME", "{catalog}")) if t.name in ("STORE", "_EXTS") else "{catalog}"
                        want_stream(v, plain, outer(*tree) if tree else None, name, what)
                        out.count("containers viewed" if tree else "binary values viewed")
                        if bom(v.title) != bom(name):
                            raise Problem("gui:title", "%s: the value is titled %r, expected %r" % (what, v.title, name))
                    elif inflated(val) == val:
                        if v.hex != val:
                            raise Problem("gui:hex", "%s: %r bytes are shown, %d are stored" % (what, None if v.hex is None else len(v.hex), len(val)))
                    out.seen(("image", len(val), f.null))
                elif f.type == "I":
                    if v.hex or (val is None and v.text):
                        raise Problem("gui:hex", "%s: something is shown for an empty value" % what)
                else:
                    e = cell_edit(f, val)
                    if e is not None and "\0" not in e:
                        want_text(v, e, what)
                        if v.hex is not None:
                            raise Problem("gui:hex", "%s: bytes are shown for a text" % what)
                        out.seen(("value", f.type, e[:20]))
                        if e.startswith("{"):
                            out.count("trees viewed")
            elif kind == "item":
                if g.result(i) != ["ok"]:
                    raise Problem("gui:item", "no window was opened for the binary value %r" % (x[3],))
                v = View(g.get(i))
                if not cf.is_container(x[4]) and len(x[4]) != 16:
                    want_stream(v, x[4], None, None, "binary value %r of a text" % (x[3],))
                    out.count("binary values of trees viewed")
                    out.seen(("item", len(x[4])))
            elif kind == "saved":
                n, f, q = x[3:6]
                val = t.rows[n][f.name]
                if not val:
                    continue
                have = tool.read(q)
                want = inflated(val, 1)
                if have != want:
                    raise Problem("gui:saved", "%s record %d field %s: %s bytes were saved, expected %d" % (
                        t.name, n, f.name, None if have is None else len(have), len(want)))
                out.count("values saved")
                out.seen(("saved", len(val)))
        if tool.read(p) != files["base.1CD"]:
            raise Problem("gui:changed", "browsing changed the database")
    except Problem as e:
        if e.sig.startswith("harness"):
            raise AssertionError(str(e))
        out.violation(e.sig, str(e) + "\ncase %r" % case, files)


def files_case(case, d, out):
    """the storages of chosen tables are saved, and loaded into another copy"""
    rng = random.Random(case["seed"])

    def make(seed):
        db = gen.database(random.Random(case["seed"]), case.get("version"), case.get("ps"))
        r2 = random.Random(seed)
        for i in range(n):
            t = Table("T%d" % i, schemas[i])
            t.rows = [{f.name: gen.value(r2, f, 20000) for f in schemas[i]} for _ in range(r2.choice([1, 5, 60]))]
            db.add(t)
        return db
    n = rng.choice([1, 3, 5])
    schemas = []
    for i in range(n):
        schemas.append([f for f in gen.table(rng, "x", 0).fields if f.type not in ("RV", "V8")] or [Field("N", "N", 5)])
    a, b = make(1), make(2)
    da, dbb = a.build(), b.build()
    pa, pb = os.path.join(d, "a.1CD"), os.path.join(d, "b.1CD")
    tool.write(pa, da)
    tool.write(pb, dbb)
    e = os.path.join(d, "exp")
    os.mkdir(e)
    files = {"base.1CD": da, "target.1CD": dbb, "case.txt": repr(case)}
    chosen = sorted(rng.sample(range(n), rng.randint(1, n)))
    g = Gui(d)
    g.add("open", pa, os.path.join(d, "cache"))
    g.add("tables")
    x = g.add("exportfiles", e, *chosen)
    if not g.run(files, out):
        return
    try:
        g.get(x)
        have = tool.tree(e)
        want = {}
        for k in chosen:
            t = a.tables[k]
            for kind in ("data", "blob", "index"):
                if getattr(t, kind) is not None:
                    want["%s/%s" % (t.name, kind)] = getattr(t, kind)
            if a.version != "8.3.8":
                want["%s/descr" % t.name] = t.descr_text.encode("utf-16-le")
        rest = {k: v for k, v in have.items() if not k.endswith("/root")}
        if rest != want:
            raise Problem("gui:storages", "saved storages of %r: %r, expected %r" % (
                chosen, {k: len(v) for k, v in sorted(rest.items())}, {k: len(v) for k, v in sorted(want.items())}))
        out.count("storages saved", len(want))
        out.seen(("storages", len(want), a.version))
        if tool.read(pa) != da:
            raise Problem("gui:changed", "saving storages changed the database")
        if a.version != "8.3.8":
            return
        g = Gui(d)
        g.add("open", pb, os.path.join(d, "cache"))
        g.add("tables")
        chosen = chosen if rng.random() < .7 else chosen[:1]
        x = g.add("importfiles", e, *chosen)
        views = []
        for k in chosen:
            q = os.path.join(d, "x%d.xml" % k)
            g.add("table", k)
            views.append((k, q, g.add("export", q, 0, 0)))
        if not g.run(files, out):
            return
        g.get(x)
        try:
            rd = Reader(tool.read(pb))
        except (FormatError, struct.error, UnicodeDecodeError) as err:
            raise Problem("gui:import", "the database is not sound after loading storages: %s" % err)
        for k in range(n):
            t = (a if k in chosen else b).tables[k]
            have = rd.tables[t.name]
            for kind in ("data", "blob", "index"):
                if (have[kind] or b"") != (getattr(t, kind) or b""):
                    raise Problem("gui:import", "%s of %s is not as expected after loading storages of %r" % (kind, t.name, chosen))
        out.count("storages loaded", len(chosen))
        for k, q, i in views:
            g.get(i)
            x = tool.read(q)
            msg = "no file" if x is None else xmlm.compare(a.tables[k], x)
            if msg:
                raise Problem("gui:import", "export after loading storages: " + msg)
    except Problem as err:
        out.violation(err.sig, str(err) + "\ncase %r" % case, files)


def sparse_case(case, d, out):
    """sizes over 2 GB"""
    rng = random.Random(case["seed"])
    db = Database("8.3.8", 65536)
    t = Table("BIG", [Field("NUM", "N", 10), Field("VAL", "I"), Field("MEMO", "NT")])
    t.blob_base = case["at"] // 256
    t.rows = [{"NUM": str(i), "VAL": b"\x07" + rng.randbytes(rng.randint(1, 3000)), "MEMO": gen.text(rng, 100) or "x"} for i in range(5)]
    db.add(t)
    data = db.build()
    sp = sparse.Sparse(db, data)
    size = t.blob_base * 256 + len(t.blob)
    sp.grow(db.table_obj["BIG"][1], size, t.blob_base * 256, t.blob)
    p = os.path.join(d, "base.1CD")
    sp.save(p)
    g = Gui(d)
    g.add("open", p, os.path.join(d, "cache"))
    i = g.add("tables")
    g.add("table", 0)
    g.add("choose", 0)
    k = g.add("rows")
    sel = [(r, g.add("select", r, 1)) for r in range(5)]
    files = {"case.txt": repr(case)}
    if not g.run(files, out):
        return
    try:
        c = [text(x) for x in g.get(i)[1][2:]]
        for s, w in zip(c[3:], (len(t.data), size, 0, len(t.data) + size)):
            if not human_ok(s, w):
                raise Problem("gui:tables", "size %r is shown for %d bytes" % (s, w))
        out.seen(("sparse", case["at"]))
        check_rows(g, k, t, None, out)
        for r, j in sel:
            want_stream(View(g.get(j)), t.rows[r]["VAL"], None, None, "value beyond %d" % case["at"])
            out.seen(("beyond", case["at"], r))
            out.count("values beyond 2 GB viewed")
    except Problem as err:
        out.violation(err.sig, str(err) + "\ncase %r" % case, files)


def container_case(case, d, out):
    rng = random.Random(case["seed"])
    tree = elements(rng, 2, rng.choice([0, 1, 3, 8, 30]))
    defl = rng.random() < .6
    data = packed(tree, rng, defl)
    p = os.path.join(d, rng.choice(["Имя.cf", "a b.epf", "x.erf", "conf.cfe"]))
    tool.write(p, data)
    files = {"base" + os.path.splitext(p)[1]: data, "case.txt": repr(case)}
    name = os.path.splitext(os.path.basename(p))[0]
    what = "container %s" % name
    g = Gui(d)
    i_open = g.add("open", p, os.path.join(d, "cache"))
    i_view = g.add("view")
    if not g.run(files, out):
        return
    try:
        res = g.result(i_open)
        if res[0] != "ok container" or text(res[1]) != p:
            raise Problem("gui:open", "opening a container gave %r" % (res,))
        v = View(g.get(i_view))
        shape = outer(tree, defl)
        want_stream(v, data, shape, name, what)
        out.seen(("container", len(data)))
        out.count("containers viewed")
        # open elements by a double click; the rows are known now
        paths = []

        def walk(t, shown_, pre):
            for k, x in t.items():
                paths.append((pre + [k], x))
                if isinstance(x, dict) and not defl:
                    walk(x, shown_[k], pre + [k])
        walk(tree, shape, [])
        g = Gui(d)
        g.add("open", p, os.path.join(d, "cache"))
        todo = []
        for path, x in rng.sample(paths, min(len(paths), 6)):
            rows = rows_of(v, path)
            todo.append((path, x, g.add("openitem", 0, *rows)))
        if not g.run(files, out):
            return
        for path, x, i in todo:
            w = "%s element %s" % (what, "/".join(path))
            v2 = View(g.get(i))
            if g.result(i) != ["ok"]:
                raise Problem("gui:item", "%s: no window was opened" % w)
            if isinstance(x, dict):
                want_container(v2, outer(x, defl), name + " / " + path[-1], w)
                out.count("containers viewed")
            else:
                want_stream(v2, x, None, None, w)
                out.count("elements viewed")
            if bom(v2.title) != bom(name + " / " + path[-1]):
                raise Problem("gui:title", "%s: the window is titled %r" % (w, v2.title))
            out.seen(("element", len(path), len(x)))
        if tool.read(p) != data:
            raise Problem("gui:changed", "browsing changed the container")
    except Problem as e:
        out.violation(e.sig, str(e) + "\ncase %r" % case, files)


def config_case(case, d, out):
    """configurations of an infobase"""
    rng = random.Random(case["seed"])
    if rng.random() < .5:
        db, ddc, dc, info = c06.make(case)
        vend = {}
        if info["vendor"]:     # files that only look like vendor configurations by their names: nothing there to show
            return config_case(dict(case, seed=case["seed"] + 77777777), d, out)
    else:
        db, tables, vend = c07.make_vendor(case)
        ddc = dict(tables["CONFIG"])
        dc = dict(ddc)
        dc.update(tables["CONFIGSAVE"])
        info = {"vendor": False}
    data = db.build()
    p = os.path.join(d, "1Cv8.1CD")
    tool.write(p, data)
    files = {"base.1CD": data, "case.txt": repr(case)}
    g = Gui(d)
    i_open = g.add("open", p, os.path.join(d, "cache"))
    i_cfg = g.add("configs")
    q1, q2 = os.path.join(d, "c1.cf"), os.path.join(d, "c2.cf")
    todo = [("savedbconfig", q1), ("saveconfig", q2)]
    rng.shuffle(todo)
    for k, q in todo:
        g.add(k, q)
    vs = []
    for k in range(len(vend)):
        q = os.path.join(d, "v%d.cf" % k)
        vs.append((k, q, g.add("savevendor", q, k)))
    if not g.run(files, out):
        return
    try:
        if g.result(i_open)[0] != "ok main":
            raise Problem("gui:open", "opening an infobase gave %r" % (g.result(i_open),))
        lines = g.get(i_cfg)[1:]
        shown_ = []
        for l in lines:
            shown_.append(tuple(text(x) for x in l[2:]))
        if sorted(plain("%s %s.cf" % (a, c)) for a, b, c in shown_) != sorted(plain(x) for x in vend) or any(s[1] != "Фирма" for s in shown_):
            raise Problem("gui:vendors", "the vendor configurations shown are %r, stored are %r" % (shown_, sorted(vend)))
        out.count("infobases")
        c06.compare(out, "gui:ddc", q1, ddc, files, g.r, "configuration of the database")
        c06.compare(out, "gui:dc", q2, dc, files, g.r, "main configuration")
        for k, q, i in vs:
            g.get(i)
            key = next(x for x in vend if plain(x) == plain("%s %s.cf" % (shown_[k][0], shown_[k][2])))
            have = tool.read(q)
            if have != vend[key]:
                raise Problem("gui:vendor", "vendor configuration %r: %s bytes were saved, %d are stored" % (
                    key, None if have is None else len(have), len(vend[key])))
            out.count("vendor configurations saved")
            out.seen(("vendor", len(have)))
        if tool.read(p) != data:
            raise Problem("gui:changed", "saving configurations changed the database")
    except Problem as e:
        out.violation(e.sig, str(e) + "\ncase %r" % case, files)


def bad_case(case, d, out):
    """files that are neither"""
    rng = random.Random(case["seed"])
    p = os.path.join(d, "x.1CD")
    k = rng.randrange(6)
    data = [b"", b"1C", b"1CDBMSV8" + bytes(100), rng.randbytes(5000), b"text\n" * 3000, b"1CDBMSV8" + rng.randbytes(20000)][k]
    if k == 5:
        b = bytearray(gen.database(rng).build())
        b[8:12] = b"\x63\1\1\1"
        data = bytes(b)
    tool.write(p, data)
    cache = os.path.join(d, "list")
    paths = ["/data/%s.1CD" % gen.text(rng, 12, exact=True).replace("\t", " ").replace("\u2028", "").strip("\ufeff") for _ in range(rng.choice([1, 3]))]
    g = Gui(d)
    i = g.add("open", p, os.path.join(d, "cache"))
    j = g.add("log")
    for x in paths:
        last = g.add("cache", cache, x)
    last = g.add("cache", cache)
    files = {"base.1CD": data, "case.txt": repr(case)}
    if not g.run(files, out):
        return
    try:
        res = g.result(i)
        if not res[0].startswith("refused") or "main" in res[0]:
            raise Problem("gui:bad", "a file that is no database was opened: %r" % (res,))
        if not g.get(j):
            raise Problem("gui:bad", "a file that is no database was refused without a message")
        out.count("files refused")
        out.seen(("bad", k, len(data)))
        have = [text(x[1]) for x in g.get(last)]
        if have != paths:
            raise Problem("gui:cache", "the list of files is %r, added were %r" % (have, paths))
    except Problem as e:
        out.violation(e.sig, str(e) + "\ncase %r" % case, files)


def run_case(case, d, out):
    {"table": table_case, "container": container_case, "config": config_case, "bad": bad_case, "files": files_case, "sparse": sparse_case}[case["kind"]](case, d, out)


def main():
    c = fw.Check("C22", rule="a case is one session with the real windows (offscreen) on a generated database, infobase, container or "
                 "other file; every list, field list, description, set of rows, viewed or saved value and window is one evaluation",
                 assumptions=["values of the type T (text) have no documented encoding in the table view and are not judged there",
                              "the values of deleted records are not judged", "a byte order mark at the start of a text need not be shown"])
    build.gui("guidrv")
    cases = []
    base = c.seed * 1000003
    k = 0

    def add(cnt, **kw):
        nonlocal k
        for _ in range(cnt):
            k += 1
            cases.append(dict(seed=base + k, **kw))
    for v in gen.ALL_VERSIONS:
        if v != "8.3.8":
            add(c.n(8, 80), kind="table", version=v)
            add(c.n(6, 60), kind="config", version=v)
    for ps in gen.PAGESIZES:
        add(c.n(14, 140), kind="table", version="8.3.8", ps=ps)
        add(c.n(8, 80), kind="config", version="8.3.8", ps=ps)
        add(c.n(5, 50), kind="files", version="8.3.8", ps=ps)
    add(c.n(8, 80), kind="files")
    for at in (1 << 30, (1 << 31) - 512, (1 << 31) + 256, (1 << 32) + 512):
        add(c.n(1, 4), kind="sparse", at=at)
    add(c.n(60, 600), kind="container")
    add(c.n(24, 120), kind="bad")
    c.map(run_case, cases)
    c.finish(min_evals=300, require=["rows compared", "containers viewed", "values viewed", "elements viewed", "vendor configurations saved"])
