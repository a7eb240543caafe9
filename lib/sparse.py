"""Databases with storages over 2 and 4 GB: the pages are holes of a sparse file."""
import struct


class Sparse:
    """an 8.3.8 database image whose objects can be made huge"""

    def __init__(self, db, data):
        self.ps = db.ps
        self.head = bytearray(data)
        self.next = len(data) // db.ps
        self.writes = []

    def grow(self, header_page, size, at, content):
        """the object with this header page gets the given size, holding zeros but for content at offset at"""
        ps = self.ps
        n = (size + ps - 1) // ps
        per = ps // 4
        nt = (n + per - 1) // per
        assert nt <= per - 6
        first = self.next
        h = header_page * ps
        self.head[h + 2:h + 4] = struct.pack("<h", 1)
        self.head[h + 16:h + 24] = struct.pack("<Q", size)
        self.head[h + 24:h + ps] = struct.pack("<%dI" % nt, *range(first, first + nt)).ljust(ps - 24, b"\0")
        p0 = first + nt
        for k in range(nt):
            part = range(p0 + k * per, p0 + min(n, (k + 1) * per))
            self.writes.append(((first + k) * ps, struct.pack("<%dI" % len(part), *part)))
        self.writes.append((p0 * ps + at, content))
        self.next = p0 + n

    def save(self, path):
        self.head[12:16] = struct.pack("<I", self.next)
        with open(path, "wb") as f:
            f.write(self.head)
            for pos, b in self.writes:
                f.seek(pos)
                f.write(b)
            f.truncate(self.next * self.ps)
