"""Independent reader and writer of the configuration container format (.cf/.epf/.cfu content)."""
import re
import struct
import zlib

LAST = 0x7fffffff


class ContainerError(Exception):
    pass


def deflate(data, level=9):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def inflate(data):
    """complete raw deflate stream without trailing garbage"""
    d = zlib.decompressobj(-15)
    out = d.decompress(data) + d.flush()
    if not d.eof:
        raise ContainerError("unfinished deflate stream")
    if d.unused_data:
        raise ContainerError("%d bytes after the deflate stream" % len(d.unused_data))
    return out


def block_header(data_size, page_size, nxt):
    return b"\r\n%08x %08x %08x \r\n" % (data_size, page_size, nxt)


def parse_header(d, pos, who):
    if pos + 31 > len(d):
        raise ContainerError("%s: block header at %d beyond the end (%d)" % (who, pos, len(d)))
    h = d[pos:pos + 31]
    if h[0:2] != b"\r\n" or h[10:11] != b" " or h[19:20] != b" " or h[28:31] != b" \r\n":
        raise ContainerError("%s: no block header at %d: %r" % (who, pos, h))
    try:
        return tuple(int(x, 16) for x in re.fullmatch(rb"\r\n([0-9a-fA-F]{8}) ([0-9a-fA-F]{8}) ([0-9a-fA-F]{8}) \r\n", h).groups())
    except AttributeError:
        raise ContainerError("%s: bad block header at %d: %r" % (who, pos, h))


class Entry:
    def __init__(self, name, data, ctime, mtime, attr):
        self.name, self.data, self.ctime, self.mtime, self.attr = name, data, ctime, mtime, attr


class Container:
    """strict reader; checks that live blocks are disjoint from each other and from the free list"""

    def __init__(self, data, free_strict=True):
        if len(data) < 16:
            raise ContainerError("too short: %d bytes" % len(data))
        self.d = data
        self.free, self.page_size, self.storage_ver, self.zero = struct.unpack_from("<IIII", data, 0)
        self.entries = []
        self.spans = []      # (start, end, who)
        self.free_blocks = 0
        self.odd_sizes = 0
        if len(data) == 16:
            if self.free != LAST:
                raise ContainerError("free list in an empty container")
            return
        toc = self.chain(16, "toc")
        if len(toc) % 12:
            raise ContainerError("table of contents has %d bytes" % len(toc))
        for i in range(0, len(toc), 12):
            ha, da, f = struct.unpack_from("<III", toc, i)
            if f != LAST:
                raise ContainerError("entry %d is not terminated" % (i // 12))
            h = self.chain(ha, "header %d" % (i // 12))
            if len(h) < 24:
                raise ContainerError("entry %d: header of %d bytes" % (i // 12, len(h)))
            ct, mt, attr = struct.unpack_from("<QQI", h, 0)
            if h[-4:] != b"\0\0\0\0":
                raise ContainerError("entry %d: name is not terminated" % (i // 12))
            name = h[20:-4].decode("utf-16-le")
            if "\0" in name:
                raise ContainerError("entry %d: NUL in name %r" % (i // 12, name))
            body = self.chain(da, "data of %r" % name) if da != 0 and da != LAST else b""
            self.entries.append(Entry(name, body, ct, mt, attr))
        # free list
        p = self.free
        seen = set()
        while p != LAST:
            if p in seen:
                raise ContainerError("free list is cyclic")
            seen.add(p)
            ds, ps, nx = parse_header(data, p, "free list")
            self.spans.append((p, p + 31 + ps, "free block"))
            self.free_blocks += 1
            p = nx
        self.spans.sort()
        for a, b in zip(self.spans, self.spans[1:]):
            if a[1] > b[0]:
                raise ContainerError("blocks overlap: %r and %r" % (a, b))
        if self.spans and self.spans[-1][1] > len(data):
            raise ContainerError("block %r ends beyond the file (%d)" % (self.spans[-1], len(data)))

    def chain(self, pos, who):
        out = []
        total = None
        have = 0
        seen = set()
        while True:
            if pos in seen:
                raise ContainerError("%s: cyclic chain" % who)
            seen.add(pos)
            ds, ps, nx = parse_header(self.d, pos, who)
            if total is None:
                total = ds
                if total == LAST:
                    raise ContainerError("%s: chain starts in a freed block" % who)
            if out and ds:
                self.odd_sizes += 1      # a block that continues another one has no size of its own
            if ds > LAST:
                raise ContainerError("%s: data size %#x" % (who, ds))
            self.spans.append((pos, pos + 31 + ps, who))
            n = min(ps, total - have)
            if pos + 31 + n > len(self.d):
                raise ContainerError("%s: block at %d truncated" % (who, pos))
            out.append(self.d[pos + 31:pos + 31 + n])
            have += n
            if nx == LAST:
                break
            pos = nx
        if have != total:
            raise ContainerError("%s: chain holds %d of %d bytes" % (who, have, total))
        return b"".join(out)

    def as_dict(self):
        out = {}
        for e in self.entries:
            if e.name in out:
                raise ContainerError("name %r twice" % e.name)
            out[e.name] = e.data
        return out


def build(files, rng=None, page=512, split=False):
    """files: [(name, data)] or [(name, data, ctime, mtime)]; valid container.  split: blocks in several pages"""
    out = bytearray(struct.pack("<IIII", LAST, page, 0, 0))
    if not files:
        return bytes(out)
    toc_len = 12 * len(files)
    # table of contents goes first; the page is at least `page` bytes
    tp = max(page, toc_len)
    out += block_header(toc_len, tp, LAST) + b"\0" * tp
    toc = []

    def put(data, minpage):
        start = len(out)
        if split and rng and len(data) > 40 and rng.random() < .5:
            k = rng.randint(1, len(data) - 1)
            parts = [data[:k], data[k:]]
        else:
            parts = [data]
        pos = start
        for i, p in enumerate(parts):
            ps = max(len(p), minpage if i == len(parts) - 1 else 0)
            nx = LAST if i == len(parts) - 1 else pos + 31 + ps
            out.extend(block_header(len(data) if i == 0 else 0, ps, nx) + p + b"\0" * (ps - len(p)))
            pos += 31 + ps
        return start
    for f in files:
        name, data = f[0], f[1]
        ct, mt = (f[2], f[3]) if len(f) > 3 else (630000000000000, 630000000010000)
        h = struct.pack("<QQI", ct, mt, 0) + name.encode("utf-16-le") + b"\0" * 4
        ha = put(h, 0)
        da = put(data, page if rng is None or rng.random() < .5 else 0)
        toc.append((ha, da, LAST))
    t = b"".join(struct.pack("<III", *x) for x in toc)
    out[16 + 31:16 + 31 + len(t)] = t
    return bytes(out)


def is_container(data):
    try:
        Container(data)
        return True
    except (ContainerError, ValueError, struct.error):
        return False
