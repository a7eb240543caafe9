"""Independent model of the 1CD database file format: a writer that builds databases from a logical model
and a reader / structural checker.  Nothing here is derived from running the code under test."""
import random
import struct

VERSIONS = {"8.0.3": (8, 0, 3, 0), "8.0.5": (8, 0, 5, 0), "8.1.0": (8, 1, 0, 0),
            "8.2.0": (8, 2, 0, 0), "8.2.14": (8, 2, 14, 0), "8.3.8": (8, 3, 8, 0)}
WRITABLE = ["8.1.0", "8.2.0", "8.2.14", "8.3.8"]
SIG_OBJ = b"1CDBOBV8"
SIG_CON = b"1CDBMSV8"

BLOB_TYPES = ("NT", "T", "I")


# --------------------------------------------------------------------------- logical model
class Field:
    def __init__(self, name, type, length=0, prec=0, null=False, cs=True):
        self.name, self.type, self.length, self.prec, self.null, self.cs = name, type, length, prec, null, cs

    def data_size(self):
        t, n = self.type, self.length
        return {"B": n, "L": 1, "N": (n + 2) >> 1, "NC": n * 2, "NVC": n * 2 + 2, "RV": 16, "NT": 8, "T": 8,
                "I": 8, "DT": 7, "VB": n + 2, "V8": 8}[t]

    def size(self):
        return self.data_size() + (1 if self.null else 0)

    def descr(self):
        return '{"%s","%s",%d,%d,%d,"%s"}' % (self.name, self.type, 1 if self.null else 0, self.length, self.prec,
                                              "CS" if self.cs else "CI")


class IndexDef:
    def __init__(self, name, primary, parts, order=None, keylen=None, opts=None):
        """parts: [(field name, len)]; order: record numbers in index order (None: physical order of live)"""
        self.name, self.primary, self.parts, self.order, self.keylen, self.opts = \
            name, primary, parts, order, keylen, opts or {}

    def descr(self):
        return '{"%s",%d,%s}' % (self.name, 1 if self.primary else 0,
                                 ",".join('{"%s",%d}' % p for p in self.parts))


DELETED = object()


class Table:
    def __init__(self, name, fields, rows=None, indexes=None, recordlock=False):
        self.name, self.fields, self.rows, self.indexes, self.recordlock = name, fields, rows or [], indexes or [], \
            recordlock
        self.data = self.blob = self.index = None  # raw bytes, filled by build
        self.force_blob = False    # create a blob file even with nothing in it
        self.raw_data = None       # override
        self.raw_blob = None
        self.blob_shuffle = None   # rng: scatter blob chains
        self.blob_min_blocks = 0
        self.drop_data = False
        self.obj_opts = {}         # per file: {"data":{"fatlevel":1}}
        self.pad_rows = 0
        self.rec_base = 0          # number of the first record / blob block when the storage is moved (sparse.grow)
        self.blob_base = 0

    # all fields in physical model incl. hidden version
    def all_fields(self):
        fs = list(self.fields)
        if self.recordlock and not any(f.type == "RV" for f in fs):
            fs.append(Field("VERSION", "V8"))
        return fs

    def layout(self):
        off = 1
        pos = {}
        fs = self.all_fields()
        for f in fs:
            if f.type in ("RV", "V8"):
                pos[f.name] = off
                off += f.size()
        for f in fs:
            if f.type not in ("RV", "V8"):
                pos[f.name] = off
                off += f.size()
        return pos, max(off, 5)

    def live(self):
        return [i for i, r in enumerate(self.rows) if r is not DELETED]


class BlobFile:
    def __init__(self, rng=None, base=0):
        self.base = base
        self.blocks = [b"\0" * 256]
        self.rng = rng
        self.free = []

    def _alloc(self, n):
        if not self.rng:
            base = len(self.blocks)
            self.blocks += [None] * n
            return list(range(base, base + n))
        # scattered: extend by n + some spare, shuffle
        need = n - len(self.free)
        if need > 0:
            extra = self.rng.randrange(0, 4)
            base = len(self.blocks)
            new = list(range(base, base + need + extra))
            self.blocks += [None] * len(new)
            self.free += new
            self.rng.shuffle(self.free)
        out = self.free[:n]
        self.free = self.free[n:]
        return out

    def add(self, data, chunk=250):
        if not data:
            return 0, 0
        chunks = [data[i:i + chunk] for i in range(0, len(data), chunk)]
        ids = self._alloc(len(chunks))
        for k, (i, c) in enumerate(zip(ids, chunks)):
            nxt = ids[k + 1] + self.base if k + 1 < len(ids) else 0
            self.blocks[i] = struct.pack("<IH", nxt, len(c)) + c + b"\0" * (250 - len(c))
        return ids[0] + self.base, len(data)

    def bytes(self):
        # free blocks form a chain from block 0
        fr = sorted(i for i, b in enumerate(self.blocks) if b is None)
        prev = 0
        blocks = list(self.blocks)
        chain = fr
        for k, i in enumerate(chain):
            nxt = chain[k + 1] if k + 1 < len(chain) else 0
            blocks[i] = struct.pack("<IH", nxt, 0) + b"\0" * 250
        blocks[0] = struct.pack("<IH", chain[0] if chain else 0, 0) + b"\0" * 250
        return b"".join(blocks)


def bcd_number(value, length, prec):
    """value: string like -12.50"""
    neg = value.startswith("-")
    s = value.lstrip("-")
    ip, _, fp = s.partition(".")
    fp = fp.ljust(prec, "0")[:prec]
    digits = (ip.rjust(length - prec, "0") if length - prec > 0 else "") + fp
    digits = digits[-length:] if length else ""
    assert len(digits) == length, (value, length, prec, digits)
    nib = [0 if neg else 1] + [int(c) for c in digits]
    if len(nib) % 2:
        nib.append(0)
    out = bytes((nib[i] << 4) | nib[i + 1] for i in range(0, len(nib), 2))
    size = (length + 2) >> 1
    return out[:size].ljust(size, b"\0")


def encode_value(f, v, blob):
    """bytes of the field (incl. null flag)"""
    if v is None:
        assert f.null
        return b"\0" * f.size()
    t = f.type
    if t == "B":
        assert len(v) == f.length
        b = v
    elif t == "L":
        b = b"\1" if v else b"\0"
    elif t == "N":
        b = bcd_number(v, f.length, f.prec)
    elif t == "NC":
        b = v.encode("utf-16-le")
        assert len(b) <= f.length * 2
        b = b + " ".encode("utf-16-le") * (f.length - len(b) // 2)
    elif t == "NVC":
        e = v.encode("utf-16-le")
        assert len(e) <= f.length * 2
        b = struct.pack("<H", len(e) // 2) + e
        b = b + " ".encode("utf-16-le") * (f.length - len(e) // 2)
    elif t in ("RV",):
        b = struct.pack("<4i", *v)
    elif t == "V8":
        b = struct.pack("<2i", *v)
    elif t == "NT":
        b = struct.pack("<II", *blob.add(v.encode("utf-16-le")))
    elif t == "T":
        b = struct.pack("<II", *blob.add(v.encode("utf-8")))
    elif t == "I":
        if isinstance(v, tuple):   # explicit (start, length)
            b = struct.pack("<II", *v)
        else:
            b = struct.pack("<II", *blob.add(v))
    elif t == "DT":
        y, mo, d, h, mi, s = v
        b = bytes.fromhex("%04d%02d%02d%02d%02d%02d" % (y, mo, d, h, mi, s))
    elif t == "VB":
        b = struct.pack("<H", len(v)) + v + b"\0" * (f.length - len(v))
    else:
        raise ValueError(t)
    assert len(b) == f.data_size(), (f.name, t, len(b), f.data_size())
    return (b"\1" if f.null else b"") + b


def build_table_files(t):
    """fills t.data, t.blob from rows"""
    blob = BlobFile(t.blob_shuffle, t.blob_base)
    pos, reclen = t.layout()
    fs = t.all_fields()
    out = bytearray()
    dels = [i for i, r in enumerate(t.rows) if r is DELETED]
    nextdel = {d: (dels[k + 1] if k + 1 < len(dels) else 0) for k, d in enumerate(dels)}
    for i, r in enumerate(t.rows):
        rec = bytearray(reclen)
        if r is DELETED:
            rec[0] = 1
            rec[1:5] = struct.pack("<I", nextdel[i])
            if len(rec) > 5:  # stale bytes of a deleted record
                for k in range(5, len(rec)):
                    rec[k] = (i * 31 + k * 7) & 0xff
        else:
            for f in fs:
                b = encode_value(f, r[f.name], blob)
                rec[pos[f.name]:pos[f.name] + len(b)] = b
        out += rec
    t.data = bytes(out) if t.raw_data is None else t.raw_data
    has_blob = any(f.type in BLOB_TYPES for f in fs)
    if t.raw_blob is not None:
        t.blob = t.raw_blob
    elif has_blob or t.force_blob:
        while len(blob.blocks) < t.blob_min_blocks:
            blob.blocks.append(None)
        t.blob = blob.bytes()
    else:
        t.blob = None


# --------------------------------------------------------------------------- index files
def pack_leaf(ps, flags, prev, nxt, entries, keylen, numrec_bits=None, lr_bits=None, recbytes=None):
    """entries: [(recno, key bytes)], returns page or None when they do not fit"""
    lb = lr_bits or max(1, keylen.bit_length())
    nb = numrec_bits or max(1, max([e[0] for e in entries] + [1]).bit_length())
    total = nb + 2 * lb
    rb = recbytes or (total + 7) // 8
    assert rb * 8 >= total and rb <= 8
    hdr = bytearray()
    tail = b""
    prevkey = None
    for rec, key in entries:
        assert len(key) == keylen
        left = 0
        if prevkey is not None:
            while left < keylen and key[left] == prevkey[left]:
                left += 1
        right = 0
        while right < keylen - left and key[keylen - 1 - right] == 0:
            right += 1
        v = rec | (left << nb) | (right << (nb + lb))
        hdr += v.to_bytes(rb, "little")
        tail = key[left:keylen - right] + tail
        prevkey = key
    free = ps - 30 - len(hdr) - len(tail)
    if free < 0:
        return None
    page = struct.pack("<HHIIHIHHHHHH", flags | 2, len(entries), prev, nxt, free, (1 << nb) - 1, (1 << lb) - 1,
                       (1 << lb) - 1, nb, lb, lb, rb)
    assert len(page) == 30
    return page + bytes(hdr) + b"\0" * free + tail


def build_index_file(t, version, ps, rng=None):
    """index file for all t.indexes.  opts per index: leaf_max (entries per leaf), branch_max, numrec_bits"""
    if not t.indexes:
        t.index = None
        return
    v838 = version == "8.3.8"
    pages = [None]      # page 0: header
    LAST = 0xFFFFFFFF

    def newpage():
        pages.append(None)
        return len(pages) - 1

    def ref(p):
        return LAST if p is None else (p if v838 else p * ps)

    starts = []
    plans = []
    for idx in t.indexes:
        order = idx.order if idx.order is not None else t.live()
        keylen = idx.keylen or max(4, sum(p[1] for p in idx.parts))
        # synthetic ascending keys: common prefix, counter, trailing zeroes in some
        entries = []
        for k, rec in enumerate(order):
            if idx.opts.get("keys"):
                key = idx.opts["keys"][k]
            else:
                key = (b"\x10\x20" * keylen)[:max(0, keylen - 4 - (keylen > 8) * 2)]
                key += struct.pack(">I", k + 1)[-(keylen - len(key)):] if keylen - len(key) <= 4 else \
                    struct.pack(">I", k + 1)
                key = key.ljust(keylen, b"\0")
            entries.append((rec + t.rec_base, key))
        # split in leaves
        leafmax = idx.opts.get("leaf_max", 10 ** 9)
        leaves = []
        i = 0
        nb = idx.opts.get("numrec_bits")
        lbits = idx.opts.get("lr_bits")
        rbytes = idx.opts.get("recbytes")
        while i < len(entries):
            lo, hi = 1, min(leafmax, len(entries) - i)
            # binary search for the largest fitting count
            while lo < hi:
                mid = (lo + hi + 1) // 2
                if pack_leaf(ps, 0, 0, 0, entries[i:i + mid], keylen, nb, lbits, rbytes) is not None:
                    lo = mid
                else:
                    hi = mid - 1
            leaves.append(entries[i:i + lo])
            i += lo
        if not leaves:
            leaves = [[]]
        plans.append((idx, keylen, leaves))
    alloc_ids = []
    for idx, keylen, leaves in plans:
        start = newpage()
        starts.append(start)
    # leaf pages, possibly interleaved between indexes / shuffled
    slots = []
    for n, (idx, keylen, leaves) in enumerate(plans):
        for k in range(len(leaves)):
            slots.append((n, k))
    ids = [newpage() for _ in slots]
    if rng:
        rng.shuffle(ids)
    leafid = dict(zip(slots, ids))
    for n, (idx, keylen, leaves) in enumerate(plans):
        lids = [leafid[(n, k)] for k in range(len(leaves))]
        level = []
        for k, ent in enumerate(leaves):
            root = 1 if len(leaves) == 1 else 0
            prev = lids[k - 1] if k else None
            nxt = lids[k + 1] if k + 1 < len(lids) else None
            pages[lids[k]] = pack_leaf(ps, root, ref(prev), ref(nxt), ent, keylen, idx.opts.get("numrec_bits"),
                                       idx.opts.get("lr_bits"), idx.opts.get("recbytes"))
            last = ent[-1] if ent else (0, b"\0" * keylen)
            level.append((lids[k], last))
        bmax = min(idx.opts.get("branch_max", 10 ** 9), (ps - 12) // (keylen + 8))
        while len(level) > 1:
            groups = [level[i:i + bmax] for i in range(0, len(level), bmax)]
            bids = [newpage() for _ in groups]
            nl = []
            for k, g in enumerate(groups):
                body = b"".join(key + struct.pack(">I", rec) + struct.pack(">I", ref(pid)) for pid, (rec, key) in g)
                prev = bids[k - 1] if k else None
                nxt = bids[k + 1] if k + 1 < len(bids) else None
                root = 1 if len(groups) == 1 else 0
                pages[bids[k]] = (struct.pack("<HHII", root, len(g), ref(prev), ref(nxt)) + body).ljust(ps, b"\0")
                nl.append((bids[k], g[-1][1]))
            level = nl
        pages[starts[n]] = struct.pack("<Ih", ref(level[0][0]), keylen).ljust(ps, b"\0")
    pages[0] = struct.pack("<I%dI" % len(starts), 0, *[ref(s) for s in starts]).ljust(ps, b"\0")
    t.index = b"".join(pages)
    assert all(len(p) == ps for p in pages)


# --------------------------------------------------------------------------- the database file
class Database:
    def __init__(self, version="8.3.8", pagesize=8192, lang="ru_RU", layout="seq", seed=0, spare_pages=0):
        self.version = version
        self.ps = pagesize if version == "8.3.8" else 4096
        self.lang = lang
        self.tables = []
        self.rng = random.Random(seed)
        self.layout = layout
        self.spare = spare_pages
        self.lost = []       # (bytes, opts): unreferenced objects
        self.lost_pages = []
        self.objects = []    # (kind, table, header page, size)
        self.use_free_list = True
        self.change_descr = None   # function(table, description) -> description written instead
        self.root_lock_order = None

    def add(self, t):
        self.tables.append(t)
        return t

    # ---- page allocator
    def _pool_refill(self):
        base = self._next
        n = {"seq": 1, "reverse": 64, "shuffle": 48}[self.layout]
        w = list(range(base, base + n))
        self._next += n
        if self.layout == "reverse":
            w.reverse()
        elif self.layout == "shuffle":
            self.rng.shuffle(w)
        self._pool = w

    def _alloc(self):
        if not self._pool:
            self._pool_refill()
        return self._pool.pop(0)

    def _put(self, n, data):
        assert len(data) <= self.ps
        self.pages[n] = data if len(data) == self.ps else data.ljust(self.ps, b"\0")

    def _object(self, data, header=None, fatlevel=None, kind="?", shuffle_pages=False):
        """writes an object; returns its header page number"""
        ps = self.ps
        h = header if header is not None else self._alloc()
        if self.version != "8.3.8":
            n = (len(data) + ps - 1) // ps
            tabs = []
            pagelist = []
            for i in range(0, n, 1023):
                tp = self._alloc()
                tabs.append(tp)
                blk = [self._alloc() for _ in range(min(1023, n - i))]
                pagelist += blk
                self._put(tp, struct.pack("<I%dI" % len(blk), len(blk), *blk))
            for k, p in enumerate(pagelist):
                self._put(p, data[k * ps:(k + 1) * ps])
            ver = (self.rng.randrange(1, 9), self.rng.randrange(0, 9), self.rng.randrange(0, 9))
            self._put(h, SIG_OBJ + struct.pack("<I3I%dI" % len(tabs), len(data), *ver, *tabs))
        else:
            n = (len(data) + ps - 1) // ps
            direct = ps // 4 - 6
            fl = fatlevel if fatlevel is not None else (1 if n > direct else 0)
            blk = [self._alloc() for _ in range(n)]
            for k, p in enumerate(blk):
                self._put(p, data[k * ps:(k + 1) * ps])
            if fl:
                tabs = []
                per = ps // 4
                for i in range(0, n, per):
                    tp = self._alloc()
                    tabs.append(tp)
                    part = blk[i:i + per]
                    self._put(tp, struct.pack("<%dI" % len(part), *part))
                refs = tabs
            else:
                refs = blk
            ver = (self.rng.randrange(1, 99), self.rng.randrange(0, 9), self.rng.randrange(0, 9))
            self._put(h, b"\x1c\xfd" + struct.pack("<h3IQ%dI" % len(refs), fl, *ver, len(data), *refs))
        self.objects.append((kind, h, len(data)))
        self.obj_version[h] = ver
        return h

    def build(self):
        self.pages = {}
        self.obj_version = {}
        self._next = 3
        self._pool = []
        ps = self.ps
        v838 = self.version == "8.3.8"
        descrs = []
        for _ in range(self.spare):
            self._alloc_spare = getattr(self, "_alloc_spare", []) + [self._alloc()]
        self.table_obj = {}
        lost = list(self.lost)
        for t in self.tables:
            build_table_files(t)
            if t.index is None:
                build_index_file(t, self.version, ps, self.rng if self.layout == "shuffle" or getattr(t, "index_shuffle", None) else None)
                if t.index is not None:
                    t.index += getattr(t, 'index_tail', b'')
            while lost and self.rng.random() < 0.5:
                d, o = lost.pop()
                self.lost_pages.append((self._object(d, kind="lost", **o), d))
            nums = []
            for kind in ("data", "blob", "index"):
                data = getattr(t, kind)
                if data is None or (kind == "data" and t.drop_data):
                    nums.append(0)
                else:
                    nums.append(self._object(data, kind=kind, **t.obj_opts.get(kind, {})))
            self.table_obj[t.name] = nums
            idx = ",".join('\r\n' + i.descr() for i in t.indexes)
            d = '{"%s",0,\r\n{"Fields",\r\n%s\r\n},\r\n{"Indexes"%s},\r\n{"Recordlock","%d"},\r\n{"Files",%d,%d,%d}\r\n}' % (
                t.name, ",\r\n".join(f.descr() for f in t.fields), ("," + idx) if idx else "",
                1 if t.recordlock else 0, *nums)
            t.descr_text = d
            descrs.append(self.change_descr(t, d) if self.change_descr else d)
        while lost:
            d, o = lost.pop()
            self.lost_pages.append((self._object(d, kind="lost", **o), d))
        lang = self.lang.encode()
        if v838:
            blob = BlobFile(self.rng if self.layout == "shuffle" else None)
            # block 1 must be the root record: reserve it
            n = len(descrs)
            rootlen = 32 + 4 + 4 * n
            rootblocks = (rootlen + 249) // 250
            save = blob.rng
            blob.rng = None
            blob._alloc(1)
            rest = blob._alloc(rootblocks - 1) if not save else None
            blob.rng = save
            starts = [blob.add(d.encode("utf-8"))[0] for d in descrs]
            if rest is None:
                rest = blob._alloc(rootblocks - 1) if rootblocks > 1 else []
            root = lang.ljust(32, b"\0") + struct.pack("<I%dI" % n, n, *starts)
            ids = [1] + rest
            for k, i in enumerate(ids):
                c = root[k * 250:(k + 1) * 250]
                nxt = ids[k + 1] if k + 1 < len(ids) else 0
                blob.blocks[i] = struct.pack("<IH", nxt, len(c)) + c + b"\0" * (250 - len(c))
            self.table_ids = starts
            self._object(blob.bytes(), header=2, kind="root")
        else:
            starts = [self._object(d.encode("utf-16-le"), kind="descr") for d in descrs]
            self.table_ids = starts
            if self.version in ("8.0.3", "8.0.5"):
                root = lang.ljust(8, b"\0")
            else:
                root = lang.ljust(32, b"\0")
            root += struct.pack("<I%dI" % len(starts), len(starts), *starts)
            self._object(root, header=2, kind="root")
        # free pages: everything left in the pool + spares
        free = list(self._pool) + list(getattr(self, "_alloc_spare", []))
        self._pool = []
        if not self.use_free_list:
            free = []
        listpages = []
        if free:
            per = ps // 4
            nlist = (len(free) + per - 1) // per
            for k in range(nlist):
                lp = self._next
                self._next += 1
                listpages.append(lp)
                part = free[k * per:(k + 1) * per]
                self._put(lp, struct.pack("<%dI" % len(part), *part))
        self.free = free
        if v838:
            self._put(1, b"\x1c\xff" + struct.pack("<hII%dI" % len(listpages), 0, len(free), 1, *listpages))
        else:
            self._put(1, SIG_OBJ + struct.pack("<I3I%dI" % len(listpages), len(free), 0, 0, 0, *listpages))
        total = self._next
        v = VERSIONS[self.version]
        hdr = SIG_CON + bytes(v) + struct.pack("<II", total, 1)
        if v838:
            hdr += struct.pack("<I", ps)
        self._put(0, hdr)
        z = b"\0" * ps
        # free pages hold stale bytes
        stale = bytes((i * 37 + 11) & 0xff for i in range(256)) * (ps // 256)
        return b"".join(self.pages.get(i, stale if i in set_of(free) else z) for i in range(total))


_cache = {}


def set_of(lst):
    k = id(lst)
    s = _cache.get(k)
    if s is None or s[0] is not lst:
        s = (lst, frozenset(lst))
        _cache.clear()
        _cache[k] = s
    return s[1]


# --------------------------------------------------------------------------- independent reader
class FormatError(Exception):
    pass


def parse_bracket(text):
    """strict parser of the bracket notation; returns nested lists, strings as ('s', value), other as ('v', text)"""
    pos = 0
    n = len(text)
    if text[:1] == "\ufeff":
        pos = 1

    def ws():
        nonlocal pos
        while pos < n and text[pos] in " \r\n\t":
            pos += 1

    def value():
        nonlocal pos
        ws()
        if pos >= n:
            raise FormatError("unexpected end")
        c = text[pos]
        if c == "{":
            pos += 1
            out = []
            ws()
            if pos < n and text[pos] == "}":
                pos += 1
                return out
            while True:
                ws()
                if pos < n and text[pos] in ",}":
                    out.append(("v", ""))
                else:
                    out.append(value())
                ws()
                if pos >= n:
                    raise FormatError("unexpected end in list")
                if text[pos] == ",":
                    pos += 1
                    continue
                if text[pos] == "}":
                    pos += 1
                    return out
                raise FormatError("expected , or } at %d" % pos)
        if c == '"':
            pos += 1
            s = []
            while True:
                q = text.find('"', pos)
                if q < 0:
                    raise FormatError("unterminated string")
                s.append(text[pos:q])
                if text[q + 1:q + 2] == '"':
                    s.append('"')
                    pos = q + 2
                    continue
                pos = q + 1
                return ("s", "".join(s))
        st = pos
        while pos < n and text[pos] not in ',{}" \r\n\t':
            pos += 1
        if st == pos:
            raise FormatError("bad value at %d" % pos)
        return ("v", text[st:pos])

    v = value()
    ws()
    if pos != n:
        raise FormatError("garbage at %d" % pos)
    return v


class Reader:
    """structural reader with page ownership; raises FormatError when the file is not sound"""

    def __init__(self, data, strict=True):
        self.d = data
        if data[:8] != SIG_CON:
            raise FormatError("signature")
        v = tuple(data[8:12])
        inv = {b: a for a, b in VERSIONS.items()}
        self.version = inv[v]
        self.v838 = self.version == "8.3.8"
        self.ps = struct.unpack_from("<I", data, 20)[0] if self.v838 else 4096
        self.length = struct.unpack_from("<I", data, 12)[0]
        if self.length * self.ps != len(data):
            raise FormatError("header length %d * %d != file size %d" % (self.length, self.ps, len(data)))
        self.owner = {}
        self.own(0, "header")
        self.tables = {}
        self.free = []
        self._read_free()
        root = self.read_object(2, "root")
        self.table_order = []
        if self.v838:
            r = self._blob_chain(root, 1)
            self.lang = r[:32].split(b"\0")[0].decode()
            n = struct.unpack_from("<I", r, 32)[0]
            ids = struct.unpack_from("<%dI" % n, r, 36)
            descr = [(i, self._blob_chain(root, i).decode("utf-8")) for i in ids]
        else:
            off = 8 if self.version in ("8.0.3", "8.0.5") else 32
            self.lang = root[:off].split(b"\0")[0].decode()
            n = struct.unpack_from("<I", root, off)[0]
            ids = struct.unpack_from("<%dI" % n, root, off + 4)
            descr = [(i, self.read_object(i, "descr%d" % i).decode("utf-16-le")) for i in ids]
        for i, text in descr:
            self._read_table(i, text)

    def page(self, n):
        if not 0 <= n < self.length:
            raise FormatError("page %d out of range" % n)
        return self.d[n * self.ps:(n + 1) * self.ps]

    def own(self, n, who):
        if not 0 <= n < self.length:
            raise FormatError("page %d of %s out of range (%d pages)" % (n, who, self.length))
        if n in self.owner:
            raise FormatError("page %d used by both %s and %s" % (n, self.owner[n], who))
        self.owner[n] = who

    def _read_free(self):
        p = self.page(1)
        self.own(1, "freeroot")
        per = self.ps // 4
        if self.v838:
            if p[:2] != b"\x1c\xff":
                raise FormatError("free list signature")
            fl, count, ver = struct.unpack_from("<hII", p, 2)
            refs = struct.unpack_from("<%dI" % (per - 3), p, 12)
        else:
            if p[:8] != SIG_OBJ:
                raise FormatError("free list signature")
            count = struct.unpack_from("<I", p, 8)[0]
            refs = struct.unpack_from("<%dI" % (per - 6), p, 24)
        lst = []
        for r in refs:
            if r == 0:
                break
            lst.append(r)
            self.own(r, "freealloc")
        need = (count + per - 1) // per
        if need > len(lst):
            raise FormatError("free list count %d needs %d pages, has %d" % (count, need, len(lst)))
        for i in range(count):
            pg = self.page(lst[i // per])
            f = struct.unpack_from("<I", pg, (i % per) * 4)[0]
            self.own(f, "free")
            self.free.append(f)

    def read_object(self, h, who):
        self.own(h, who + ":root")
        p = self.page(h)
        ps = self.ps
        per = ps // 4
        blk = []
        if self.v838:
            if p[:2] != b"\x1c\xfd":
                raise FormatError("%s: page %d is not an object" % (who, h))
            fl, v1, v2, v3, ln = struct.unpack_from("<h3IQ", p, 2)
            n = (ln + ps - 1) // ps
            if fl:
                nt = (n + per - 1) // per
                if nt > per - 6:
                    raise FormatError("%s too long" % who)
                for i, tp in enumerate(struct.unpack_from("<%dI" % nt, p, 24)):
                    self.own(tp, who + ":alloc")
                    blk += struct.unpack_from("<%dI" % min(per, n - i * per), self.page(tp), 0)
            else:
                if n > per - 6:
                    raise FormatError("%s too long for fatlevel 0" % who)
                blk = list(struct.unpack_from("<%dI" % n, p, 24))
        else:
            if p[:8] != SIG_OBJ:
                raise FormatError("%s: page %d is not an object" % (who, h))
            ln = struct.unpack_from("<I", p, 8)[0]
            n = (ln + ps - 1) // ps
            nt = (n + 1022) // 1023
            for i, tp in enumerate(struct.unpack_from("<%dI" % nt, p, 24)):
                self.own(tp, who + ":alloc")
                pg = self.page(tp)
                k = struct.unpack_from("<I", pg, 0)[0]
                want = min(1023, n - i * 1023)
                if k != want:
                    raise FormatError("%s: allocation page %d holds %d blocks, expected %d" % (who, tp, k, want))
                blk += struct.unpack_from("<%dI" % k, pg, 4)
        out = []
        for b in blk:
            self.own(b, who)
            out.append(self.page(b))
        return b"".join(out)[:ln]

    def _blob_chain(self, data, start):
        out = []
        seen = set()
        while start:
            if start in seen or start * 256 + 256 > len(data):
                raise FormatError("bad blob chain")
            seen.add(start)
            nxt, ln = struct.unpack_from("<IH", data, start * 256)
            if ln > 250:
                raise FormatError("bad blob block length")
            out.append(data[start * 256 + 6:start * 256 + 6 + ln])
            start = nxt
        return b"".join(out)

    def _read_table(self, num, text):
        t = parse_bracket(text)
        name = t[0][1]
        files = [int(x[1]) for x in t[5][1:]]
        tab = {"num": num, "descr": text, "tree": t, "files": files}
        for kind, f in zip(("data", "blob", "index"), files):
            tab[kind] = self.read_object(f, "%s.%s" % (name, kind)) if f else None
        self.tables[name] = tab
        self.table_order.append(name)

    def unowned(self):
        return [i for i in range(self.length) if i not in self.owner]
