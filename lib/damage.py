"""Damages databases: byte level and structure aware."""
import re
import struct

import db1cd

INTERESTING = [0, 1, 2, 3, 4, 5, 7, 0x10, 0xff, 0x100, 0x3ff, 0x400, 0xfff, 0x1000, 0x1001, 0x7fff, 0x8000, 0xffff, 0x10000,
               0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x7ffffffe, 0x40000000, 0x20000000]


def pages(data, ps):
    return len(data) // ps


def u32(rng, data, ps, off):
    n = pages(data, ps)
    old = struct.unpack_from("<I", data, off)[0]
    return rng.choice([rng.choice(INTERESTING), rng.randrange(n + 2), off // ps, n, n - 1, (old + rng.choice([-1, 1, 2, 256])) & 0xffffffff,
                       (-old) & 0xffffffff, rng.getrandbits(32), old * 2 & 0xffffffff, old ^ (1 << rng.randrange(32))]) & 0xffffffff


def owners(data):
    try:
        return db1cd.Reader(data).owner
    except Exception:
        return {}


def kind_of(who):
    if who.endswith(":root"):
        return "header"
    if who.endswith(":alloc"):
        return "alloc"
    if ".blob" in who:
        return "blob"
    if ".index" in who:
        return "index"
    if ".data" in who:
        return "data"
    if who.startswith("descr"):
        return "descr"
    return who


TOKENS = ["{", "}", ",", '"', "0", "-1", "1", "99999999999", "2147483648", "4294967295", "abc", '""', "{}", "\r\n", "65536",
          "100000", '"NVC"', '"NT"', '"I"', '"B"', '"N"', '"RV"', '"X"', "00", "1e5", "{{{{{{", "'"]


def mutate_text(rng, s):
    k = rng.randrange(7)
    if not s:
        return s
    i = rng.randrange(len(s))
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + rng.choice(TOKENS) + s[i:]
    if k == 2:
        return s[:i]
    if k == 3:
        nums = list(re.finditer(r"\d+", s))
        if nums:
            m = rng.choice(nums)
            return s[:m.start()] + rng.choice(["0", "-1", "1", "2", "65535", "2147483647", "4294967296", "99999999999999999999", "", "38",
                                               "100"]) + s[m.end():]
    if k == 4:
        strs = list(re.finditer(r'"[^"]*"', s))
        if strs:
            m = rng.choice(strs)
            return s[:m.start()] + rng.choice(['""', '"NVC"', '"NT"', '"I"', '"N"', '"B"', '"L"', '"DT"', '"RV"', '"NC"', '"VB"',
                                               '"Files"', '"Fields"', '"Indexes"', '"x"', "0"]) + s[m.end():]
    if k == 5:
        j = min(len(s), i + rng.randint(1, 30))
        return s[:i] + s[j:]
    j = min(len(s), i + rng.randint(1, 30))
    return s[:j] + s[i:j] + s[j:]


def tree_parse(s):
    """bracket text -> nested lists of the raw value texts"""
    stack, cur, i = [[]], None, 0
    for m in re.finditer(r'"(?:[^"]|"")*"|[{},]|[^{},"]+', s):
        x = m.group()
        if x == "{":
            new = []
            stack[-1].append(new)
            stack.append(new)
        elif x == "}":
            if len(stack) > 1:
                stack.pop()
        elif x != "," and x.strip():
            stack[-1].append(x.strip())
    return stack[0][0] if stack[0] else []


def tree_text(t):
    return "{" + ",".join(tree_text(x) for x in t) + "}" if isinstance(t, list) else t


WORDS = ['""', '"NVC"', '"NT"', '"I"', '"N"', '"B"', '"L"', '"DT"', '"RV"', '"NC"', '"VB"', '"T"', '"Files"', '"Fields"', '"Indexes"', '"Recordlock"',
         '"x"', "0", "1", "-1", "2", "3", "38", "39", "255", "65535", "2147483647", "4294967296", "99999999999999999999", "", "x", "#base64:AAAA",
         "00000000-0000-0000-0000-000000000000", "1.5", "{}"]


def mutate_tree(rng, s):
    """changes the structure of a bracket text which stays well-formed"""
    t = tree_parse(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        lists = []
        todo = [t]
        while todo:
            x = todo.pop()
            lists.append(x)
            todo += [y for y in x if isinstance(y, list)]
        l = rng.choice(lists)
        k = rng.randrange(9)
        if not l:
            k = 2
        i = rng.randrange(len(l)) if l else 0
        if k in (0, 1):
            del l[i if rng.random() < .6 else -1]
        elif k == 2:
            l.insert(rng.randint(0, len(l)), rng.choice(WORDS))
        elif k == 3:
            l.insert(rng.randint(0, len(l)), l[i])
        elif k in (4, 5):
            l[i] = rng.choice(WORDS)
        elif k == 6:
            l[i] = [l[i]] if rng.random() < .5 else []
        elif k == 7:
            del l[i:]
        else:
            j = rng.randrange(len(l))
            l[i], l[j] = l[j], l[i]
        if rng.random() < .03:
            t = rng.choice([[], ["1"], [t], t + t])
        # a list inserted twice must not become shared
        t = tree_parse(tree_text(t))
    return tree_text(t)


def descriptions(rng, db):
    """one or more table descriptions change their structure"""
    names = {rng.choice(db.tables).name for _ in range(rng.choice([1, 1, 2]))}
    log = []

    def change(t, d):
        if t.name not in names:
            return d
        e = mutate_tree(rng, d)
        log.append(e if len(e) < 200 else e[:80] + "..." + e[-100:])
        return e
    db.change_descr = change
    return log


def put_page(b, ps, p, chunk):
    b[p * ps:(p + 1) * ps] = chunk


def damage(rng, data, version, ps, own=None, times=None):
    """returns (damaged bytes, description)"""
    if own is None:
        own = owners(data)
    b = bytearray(data)
    log = []
    groups = {}
    for p, who in own.items():
        groups.setdefault(kind_of(who), []).append(p)
    for g in groups.values():
        g.sort()
    for _ in range(times or rng.choice([1, 1, 1, 2, 4])):
        n = pages(b, ps)
        if n < 3:
            break

        def pick_page():
            if groups and rng.random() < .9:
                k = rng.choice(sorted(groups))
                p = rng.choice(groups[k])
                if p < n:
                    return p, k
            return rng.randrange(n), "?"
        how = rng.choices(["u32", "u16", "bit", "byte", "trunc", "zero", "fill", "swap", "copy", "text", "hdr", "objhead", "append"],
                          [20, 6, 6, 4, 3, 3, 2, 4, 5, 14, 4, 22, 2])[0]
        if how in ("u32", "u16", "bit", "byte"):
            p, k = pick_page()
            small = rng.random() < .6      # near the start of the page, where structures are
            o = p * ps + (rng.randrange(min(ps - 4, 96)) if small else rng.randrange(ps - 4))
            if how == "u32":
                o &= ~3
                if k == "blob" and rng.random() < .7:
                    o = p * ps + rng.randrange(ps // 256) * 256
                v = u32(rng, b, ps, o)
                struct.pack_into("<I", b, o, v)
                log.append("u32 %#x in %s page %d +%d" % (v, k, p, o - p * ps))
            elif how == "u16":
                if k == "blob" and rng.random() < .7:
                    o = p * ps + rng.randrange(ps // 256) * 256 + 4
                v = rng.choice(INTERESTING) & 0xffff
                struct.pack_into("<H", b, o, v)
                log.append("u16 %#x in %s page %d +%d" % (v, k, p, o - p * ps))
            elif how == "bit":
                b[o] ^= 1 << rng.randrange(8)
                log.append("bit in %s page %d +%d" % (k, p, o - p * ps))
            else:
                b[o] = rng.randrange(256)
                log.append("byte in %s page %d +%d" % (k, p, o - p * ps))
        elif how == "objhead":
            # length, allocation level, page references of an object or of its allocation page
            cand = groups.get("header", []) + groups.get("alloc", []) + groups.get("freeroot", [1])
            cand = [p for p in cand if p < n]
            if not cand:
                continue
            p = rng.choice(cand)
            if version == "8.3.8":
                o = rng.choice([0, 2, 4, 8, 12, 16, 20, 24, 28, 24 + 4 * rng.randrange((ps - 24) // 4)])
            else:
                o = rng.choice([0, 4, 8, 12, 16, 20, 24, 28, 24 + 4 * rng.randrange(1018)])
            v = u32(rng, b, ps, p * ps + o)
            if rng.random() < .3 and o in (8, 16):
                v = rng.choice([0, 1, ps - 1, ps, ps + 1, ps * 1018, ps * 1023, ps * 1024, ps * n, ps * (n + 1), 0xffffffff, 0x7fffffff,
                                0xfffff000])
            struct.pack_into("<I", b, p * ps + o, v & 0xffffffff)
            log.append("u32 %#x in object page %d (%s) +%d" % (v, p, own.get(p), o))
        elif how == "hdr":
            o = rng.choice([0, 8, 9, 10, 11, 12, 16, 20, 20, 20])
            if o < 12 and o:
                b[o] = rng.choice([0, 1, 2, 3, 5, 8, 14, 255])
            else:
                struct.pack_into("<I", b, o, rng.choice([0, 1, 512, 1024, 2048, 4096, 8192, 65536, 131072, 0xffffffff, 0x80000000, n, n + 1,
                                                         n * 2]))
            log.append("header +%d" % o)
        elif how == "trunc":
            cut = rng.choice([0, 1, 11, 12, 24, ps - 1, ps, 2 * ps, 3 * ps, len(b) - 1, len(b) - ps, rng.randrange(len(b)),
                              rng.randrange(n) * ps])
            fix = rng.random() < .5
            del b[max(0, cut):]
            if fix and len(b) >= 24:
                struct.pack_into("<I", b, 12, len(b) // ps)
            log.append("truncated to %d%s" % (cut, " header fixed" if fix else ""))
        elif how == "append":
            b += rng.randbytes(rng.choice([1, ps, 3 * ps]))
            if rng.random() < .7:
                struct.pack_into("<I", b, 12, len(b) // ps)
            log.append("appended")
        elif how == "zero":
            p, k = pick_page()
            put_page(b, ps, p, b"\0" * ps)
            log.append("%s page %d zeroed" % (k, p))
        elif how == "fill":
            p, k = pick_page()
            put_page(b, ps, p, rng.choice([b"\xff" * ps, rng.randbytes(ps)]))
            log.append("%s page %d filled" % (k, p))
        elif how == "swap":
            p, k = pick_page()
            q, k2 = pick_page()
            x, y = bytes(b[p * ps:(p + 1) * ps]), bytes(b[q * ps:(q + 1) * ps])
            put_page(b, ps, p, y)
            put_page(b, ps, q, x)
            log.append("%s page %d and %s page %d swapped" % (k, p, k2, q))
        elif how == "copy":
            p, k = pick_page()
            q, k2 = pick_page()
            put_page(b, ps, q, bytes(b[p * ps:(p + 1) * ps]))
            log.append("%s page %d copied over %s page %d" % (k, p, k2, q))
        elif how == "text":
            enc = "utf-8" if version == "8.3.8" else "utf-16-le"
            mark = '{"'.encode(enc)
            spots = [m.start() for m in re.finditer(re.escape(mark), bytes(b)) if b.startswith("".join(['{"']).encode(enc), m.start())]
            spots = [s for s in spots if kind_of(own.get(s // ps, "")) in ("descr", "root", "") or not own]
            if not spots:
                continue
            s = rng.choice(spots)
            room = (s // ps + 1) * ps - s
            if version == "8.3.8":
                room = min(room, 256 - (s % 256))
            seg = bytes(b[s:s + room])
            try:
                t = seg.decode(enc, "ignore")
            except UnicodeError:
                continue
            t2 = mutate_text(rng, t)
            e = t2.encode(enc, "replace")[:room]
            e = e + seg[len(e):] if rng.random() < .5 else e + b" " .ljust(len(mark) // 2, b"\0") * ((room - len(e)) // (len(mark) // 2))
            b[s:s + room] = e[:room].ljust(room, b"\0")
            log.append("description at %#x changed" % s)
    return bytes(b), "; ".join(log) or "nothing"


# ---- damage of what the tables say

def weird_value(rng, f, v):
    """another value of the same field, encodable"""
    t = f.type
    if f.null and rng.random() < .15:
        return None
    if t in ("B",):
        return rng.choice([bytes(f.length), b"\xff" * f.length, rng.randbytes(f.length)])
    if t == "L":
        return not v
    if t == "N":
        n = f.length - f.prec
        return rng.choice(["0", "9" * n if n else "0", "-" + "9" * n if n else "0", "1" if n else "0", str(rng.randrange(10 ** min(n, 10))) if n else "0"])
    if t in ("NC", "NVC"):
        s = rng.choice(["", "x" * f.length, "..", "/", "a/b", "../../x", "\0", "users.usr", "root", "version", "versions", "DynamicallyUpdated", "deleted",
                        "{", '"', ".", "...", "-", "a.b.c.d", "00000000-0000-0000-0000-000000000000", "Ж" * min(20, f.length),
                        (v or "") + "x", (v or "")[:-1], (v or "").upper(), (v or "") + ".new", (v or "") + ".0"])
        return s[:f.length]
    if t == "DT":
        return rng.choice([(0, 0, 0, 0, 0, 0), (9999, 99, 99, 99, 99, 99), (1, 1, 1, 0, 0, 0), (2020, 2, 31, 25, 61, 61)])
    if t in ("NT", "T"):
        return mutate_text(rng, v or "{1,2}") if rng.random() < .8 else ""
    if t == "I":
        return weird_bytes(rng, v)
    return v


def weird_bytes(rng, v):
    import zlib
    if not isinstance(v, bytes):
        v = b""
    k = rng.randrange(9)
    if k == 0:
        return b""
    if k == 1:
        return v[:rng.randint(0, len(v))]
    if k == 2:
        return rng.randbytes(rng.choice([1, 2, 3, 17, 300]))
    if k == 3 and v:
        b = bytearray(v)
        for _ in range(rng.choice([1, 2, 8])):
            b[rng.randrange(len(b))] = rng.randrange(256)
        return bytes(b)
    if k == 4:
        return (rng.choice([0, 1, 2, 99999, 0xffffffff, 0x80000000]), rng.choice([0, 1, 255, 70000, 0xffffffff, 0x80000000]))
    # change what is inside the packed value
    for depth in (2, 1, 0):
        x = v
        try:
            for _ in range(depth):
                x = zlib.decompress(x, -15)
        except zlib.error:
            continue
        if k in (5, 6) or not x:
            try:
                x = mutate_text(rng, x.decode("utf-8", "strict")).encode("utf-8", "replace")
            except UnicodeDecodeError:
                x = mutate_container(rng, x)
        elif k == 7:
            x = x[:rng.randint(0, len(x))]
        else:
            x = mutate_container(rng, x)
        for _ in range(depth):
            c = zlib.compressobj(9, zlib.DEFLATED, -15)
            x = c.compress(x) + c.flush()
        return x
    return v


HEXES = [b"00000000", b"ffffffff", b"7fffffff", b"80000000", b"00000001", b"0000001f", b"00000010", b"00000200", b"zzzzzzzz", b"        ", b"-0000001", b"12345678"]


def mutate_container(rng, x):
    b = bytearray(x)
    if len(b) < 16:
        return bytes(b) + rng.randbytes(5)
    heads = [m.start() for m in re.finditer(rb"\r\n[0-9a-fA-F]{8} [0-9a-fA-F]{8} [0-9a-fA-F]{8} \r\n", x)]
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        if heads and k < .55:
            h = rng.choice(heads)
            if h + 31 > len(b):
                continue
            o = h + rng.choice([2, 11, 20])
            v = rng.choice(HEXES + [b"%08x" % rng.choice(heads), b"%08x" % len(b), b"%08x" % rng.randrange(len(b) + 10), b"%08x" % h])
            b[o:o + 8] = v
        elif k < .65:
            o = rng.choice([0, 4, 8, 12])
            struct.pack_into("<I", b, o, rng.choice([0, 1, 15, 16, 512, 0x7fffffff, 0xffffffff, len(b)]))
        elif heads and k < .8:
            h = rng.choice(heads) + 31
            if h + 12 > len(b):
                continue
            o = h + rng.choice([0, 4, 8, 12, 16, 20])
            if o + 4 <= len(b):
                struct.pack_into("<I", b, o, rng.choice([0, 1, 0x7fffffff, 0xffffffff, len(b), rng.choice(heads)]))
        elif k < .9:
            b[rng.randrange(len(b))] = rng.randrange(256)
        else:
            del b[rng.randrange(len(b)):]
            if len(b) < 16:
                break
    return bytes(b)


def logical(rng, db):
    """damages the Database object (tables, rows, values) before it is written; returns a description"""
    log = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        k = rng.random()
        t = rng.choice(db.tables)
        if k < .03 and len(db.tables) > 1:
            db.tables.remove(t)
            log.append("table %s missing" % t.name)
            continue
        if k < .05:
            t.name = rng.choice(["", "x", t.name + "X", rng.choice(db.tables).name, "..", "a/b", t.name.lower(), "V8USERS", "CONFIG", "PARAMS"])
            log.append("table renamed to %r" % t.name)
            continue
        if k < .10 and len(t.fields) > 1:
            f = rng.choice(t.fields)
            used = {p[0] for ix in t.indexes for p in ix.parts}
            how = rng.random()
            if how < .4 and f.name not in used:
                t.fields.remove(f)
                log.append("%s: field %s missing" % (t.name, f.name))
            elif how < .6 and f.name not in used:
                old = f.name
                f.name = rng.choice([old + "X", "", old.lower(), rng.choice(t.fields).name])
                if all(g is f or g.name != f.name for g in t.fields):
                    for r in t.rows:
                        if r is not db1cd.DELETED:
                            r[f.name] = r.pop(old)
                else:
                    f.name = old
                log.append("%s: field %s renamed" % (t.name, old))
            else:
                log.append("%s: order of the fields" % t.name)
                rng.shuffle(t.fields)
            continue
        if k < .14:
            f = rng.choice(t.fields)
            g = rng.choice(["NT", "T", "I", "L", "DT", "NVC", "N", "RV", "B", "VB", "NC"])
            used = {p[0] for ix in t.indexes for p in ix.parts}
            if f.name in used:
                continue
            import gen
            nf = gen.field(rng, f.name, g)
            t.fields[t.fields.index(f)] = nf
            for r in t.rows:
                if r is not db1cd.DELETED:
                    r[f.name] = gen.value(rng, nf)
            log.append("%s: field %s of type %s" % (t.name, f.name, g))
            continue
        live = t.live()
        if not live:
            continue
        i = rng.choice(live)
        r = t.rows[i]
        if k < .2:
            t.rows.append(dict(r))
            log.append("%s: a record twice" % t.name)
        elif k < .24:
            t.rows[i] = db1cd.DELETED
            log.append("%s: record %d deleted" % (t.name, i))
        else:
            f = rng.choice(t.all_fields())
            if rng.random() < .5:
                blobs = [g for g in t.fields if g.type in ("I", "NT", "T")]
                f = rng.choice(blobs) if blobs else f
            r = t.rows[i] = dict(r)
            r[f.name] = weird_value(rng, f, r[f.name])
            log.append("%s: record %d field %s = %r" % (t.name, i, f.name, r[f.name] if len(repr(r[f.name])) < 60 else "..."))
    return "; ".join(log) or "nothing"
