"""C12: conversions between stored bytes and presentations."""
import base64
import calendar
import datetime
import random
import struct
import zlib

import build
import fw
import gen
import run as _run

ANY = object()          # any answer that is not a crash
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
CHUNK = 16384


def b(x):
    return x.encode() if isinstance(x, str) else x


def hx(x):
    return b(x).hex() or "-"


def guid_1c(r):
    h = r.hex()
    return "-".join((h[24:32], h[20:24], h[16:20], h[0:4], h[4:16]))


def guid_ms(r):
    return "-".join((r[3::-1].hex(), r[5:3:-1].hex(), r[7:5:-1].hex(), r[8:10].hex(), r[10:16].hex()))


def pres(neg, digits, prec):
    """presentation of a packed decimal"""
    ip = digits[:len(digits) - prec].lstrip("0") or "0"
    fp = digits[len(digits) - prec:].rstrip("0") if prec else ""
    return ("-" if neg else "") + ip + ("." + fp if fp else "")


def pack(digits, sign=None):
    """sign: None, 1 (not negative), 0"""
    n = ("" if sign is None else str(sign)) + digits
    n += "0" * (len(n) % 2)
    return bytes.fromhex(n)


def any_text(rng, n, nul=True):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .3:
            c = rng.randrange(32, 127)
        elif k < .5:
            c = rng.choice([0x401, 0x451, 0x410, 0x42f, 0x430, 0x44f, 0x440, 0x439])
        elif k < .6:
            c = rng.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0xfffe, 0x10000, 0x10ffff, 0xfeff, 1, 9, 10, 13] + ([0] if nul else []))
        else:
            c = rng.choice([rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x110000), rng.randrange(0x80, 0x800)])
        out.append(chr(c))
    return "".join(out)


def size(rng, small=False):
    r = rng.random()
    if r < .5 or small:
        return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 16, 53, 54, 55, rng.randint(0, 300)])
    if r < .8:
        return rng.choice([1023, 1024, 1025, 2048, 4095, 4096, 4097, rng.randint(0, 5000)])
    if r < .97:
        return rng.choice([CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1, 3 * CHUNK, rng.randint(0, 4 * CHUNK)])
    return rng.choice([16 * CHUNK, 200000, 20 * CHUNK + 7])


def data(rng, n):
    k = rng.random()
    if k < .4:
        return rng.randbytes(n)
    if k < .6:
        return bytes([rng.randrange(256)]) * n
    p = rng.randbytes(rng.randint(1, 300))
    return (p * (n // len(p) + 1))[:n]


def raw_deflate(rng, d, flush=False):
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, rng.choice([1, 8, 9]), rng.choice([0, 0, 1, 2, 3, 4]))
    out = b""
    if flush:
        for i in range(0, len(d), 5000):
            out += c.compress(d[i:i + 5000]) + c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_NO_FLUSH]))
        return out + c.flush()
    return c.compress(d) + c.flush()


def inflate(z):
    """independent reading of one raw stream: (content, complete?)"""
    d = zlib.decompressobj(-15)
    try:
        r = d.decompress(z)
    except zlib.error:
        return None, False
    return r, d.eof


def fit(rng, d, at):
    """bytes that compress (stored) to exactly `at` bytes, near multiples of the buffer"""
    lo = at - 5 * (at // 65535 + 1)
    for n in range(max(0, lo - 10), lo + 10):
        z = zlib.compressobj(0, zlib.DEFLATED, -15)
        x = d[:n]
        y = z.compress(x) + z.flush()
        if len(y) == at:
            return x, y
    return None


def field_raw(rng, t, null, ln, pr):
    """-> (bytes, presentation, xml or ANY, order key or None)"""
    if t == "B":
        r = rng.randbytes(ln)
        return r, r.hex(), r.hex(), r
    if t == "L":
        v = rng.random() < .5
        return bytes([v]), "true" if v else "false", "true" if v else "false", int(v)
    if t == "N":
        nd = rng.randint(0, ln)
        d = "".join(rng.choice("0123456789") for _ in range(nd)).rjust(ln, "0")
        neg = rng.random() < .5 and int(d) > 0
        p = pres(neg, d, pr)
        return pack(d, 0 if neg else 1), p, p, -int(d) if neg else int(d)
    if t == "NC":
        s = gen.text(rng, ln)
        s += " " * (ln - len(s.encode("utf-16-le")) // 2)
        return s.encode("utf-16-le"), s, ANY, None
    if t == "NVC":
        s = gen.text(rng, ln)
        e = s.encode("utf-16-le")
        return struct.pack("<H", len(e) // 2) + e + rng.randbytes(2 * ln - len(e)), s, ANY, None
    if t == "VB":
        r = rng.randbytes(rng.choice([0, 1, ln, rng.randint(0, ln)]))
        return struct.pack("<H", len(r)) + r + rng.randbytes(ln - len(r)), r.hex(), r.hex(), None
    if t == "RV":
        v = [rng.randrange(-2 ** 31, 2 ** 31) for _ in range(4)]
        p = ":".join(map(str, v))
        return struct.pack("<4i", *v), p, p, None
    y, mo, da, h, mi, se = date(rng)
    r = bytes.fromhex("%04d%02d%02d%02d%02d%02d" % (y, mo, da, h, mi, se))
    return r, "%02d.%02d.%04d %02d:%02d:%02d" % (da, mo, y, h, mi, se), "%d-%02d-%02dT%02d:%02d:%02d" % (y, mo, da, h, mi, se) if y > 999 else ANY, r


def date(rng):
    y = rng.choice([1, 4, 1600, 1601, 1900, 1970, 1999, 2000, 2018, 2038, 2100, 3999, 9999, rng.randint(1, 9999)])
    m = rng.choice([1, 2, 12, rng.randint(1, 12)])
    last = calendar.monthrange(max(y, 1), m)[1]
    return y, m, rng.choice([1, last, rng.randint(1, last)]), rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice(
        [0, 59, rng.randint(0, 59)])


def decimal_text(rng, ln, prec, sign):
    """a text of a number that fits, and its digits"""
    ni = min(ln - prec, rng.choice([0, 1, ln - prec, rng.randint(0, ln - prec)]))
    nf = rng.choice([0, prec, rng.randint(0, prec)])
    ip = "".join(rng.choice("0123456789") for _ in range(ni))
    fp = "".join(rng.choice("0012345678999") for _ in range(nf))
    neg = sign and rng.random() < .5 and (ip + fp).strip("0") != ""
    d = ip.rjust(ln - prec, "0") + fp.ljust(prec, "0")
    t = ip
    if ip == "" or (rng.random() < .7 and ip.lstrip("0") == ""):
        t = "0"
    elif rng.random() < .6:
        t = ip.lstrip("0") or "0"
    elif rng.random() < .1:
        t = "000" + ip
    return ("-" if neg else "") + t + ("." + fp if fp else ""), d, neg


def jobs_for(rng, kind, tz):
    """-> list of (command, argument, payload, expected list / 'error' / ANY)"""
    J = []
    if kind == "guid":
        r = rng.choice([rng.randbytes(16), b"\0" * 16, b"\0" * 15 + b"\1", b"\x80" + b"\0" * 15, b"\xff" * 16, bytes(range(16))])
        J.append(("guid.raw", "-", r, [guid_1c(r), guid_ms(r), guid_1c(r), guid_ms(r), guid_1c(r), "01"[r == b"\0" * 16], "1"]))
        t = guid_1c(r)
        if rng.random() < .3:
            t = t.upper()
        J.append(("guid.text", "-", t, ["1", guid_1c(r)]))
        J.append(("guid.text", "-", rng.choice([r.hex(), r.hex().upper()]), ["1", guid_1c(r)]))
        n = rng.choice([0, 1, 31, 33, 35, 37, 72, rng.randint(0, 100)])
        bad = (t + t + t)[:n]
        if n not in (32, 36):
            J.append(("guid.text", "-", bad, ["0", guid_1c(b"\0" * 16)]))
        J.append(("guid.text", "-", any_text(rng, rng.choice([16, 32, 36]))[:36], ANY))
        o = bytearray(r)
        if rng.random() < .7:
            o[rng.randrange(16)] = rng.randrange(256)
        J.append(("guid.cmp", "-", r + bytes(o), ["01"[bytes(o) == r], "01"[bytes(o) != r], "01"[r > bytes(o)]]))
    elif kind == "decimal":
        ln = rng.choice([1, 2, 3, 10, 15, 16, 31, 32, 38, rng.randint(1, 38)])
        prec = rng.choice([0, 0, ln, rng.randint(0, ln)])
        sign = rng.random() < .7
        d = "".join(rng.choice("0123456789") for _ in range(ln))
        if rng.random() < .3:
            k = rng.randint(0, ln)
            d = rng.choice(["0" * k + d[k:], d[:k] + "0" * (ln - k)])
        neg = sign and rng.random() < .5 and int(d) > 0
        r = pack(d, (0 if neg else 1) if sign else None)
        J.append(("dec.raw", "%d:%d:%d" % (ln, prec, sign), r, [pres(neg, d, prec), d[:ln - prec], d[ln - prec:], r]))
        t, d, neg = decimal_text(rng, ln, prec, sign)
        r = pack(d, (0 if neg else 1) if sign else None)
        p = pres(neg, d, prec)
        J.append(("dec.text", "%d:%d:%d" % (ln, prec, sign), t, [p, r, p]))
        J.append(("dec.text", "0:0:%d" % sign, t, [p]))
        J.append(("dec.text", "%d:%d:%d" % (ln, prec, sign), rng.choice(["", ".", "-", "1.2.3", "99999999999999999999999999999999999999999999", "abc", "-.-", "1e5",
                                                                        any_text(rng, 5), t + "." + t, t + "999", t * 3]), ANY))
    elif kind == "date":
        v = date(rng)
        t1 = "%04d%02d%02d%02d%02d%02d" % v
        t2 = "%02d.%02d.%04d %02d:%02d:%02d" % (v[2], v[1], v[0], v[3], v[4], v[5])
        r = bytes.fromhex(t1)
        J.append(("date.raw", "-", r, [t2, t1, ",".join("%d" % x for x in v), r]))
        J.append(("date.text", "1c", t1, [r, t2]))
        J.append(("date.text", "-", t2, [r, t2]))
        J.append(("date.text", rng.choice(["1c", "-"]), any_text(rng, rng.randint(0, 25)), ANY))
        if v[0] >= 1602:
            sec = calendar.timegm((v[0], v[1], v[2], v[3], v[4], v[5])) - tz * 60
            ft = (sec + 11644473600) * 10000000
            J.append(("date.time", "-", r, [str(ft), str(ft)]))
        J.append(("date.raw", "-", rng.randbytes(7), ANY))
    elif kind == "hex":
        d = data(rng, size(rng, True))
        at = rng.randint(0, len(d)) if rng.random() < .3 else 0
        J.append(("hex", str(at), d, [d.hex(), d[at:].hex(), d, d]))
        x = bytes(rng.choice(b"0189aAfFgG/:@`\x00\xff -") for _ in range(2))
        ok = all(c in b"0123456789abcdefABCDEF" for c in x)
        J.append(("hexbad", "-", x, ["1", bytes.fromhex(x.decode())] if ok else ["0", b"\0"]))
        w = rng.randbytes(4)
        J.append(("reverse", "-", w, [w[::-1], "0x" + w.hex(), w.hex()]))
    elif kind == "base64":
        d = data(rng, size(rng, rng.random() < .7))
        ls = rng.choice([0, 72, 64, 76, 4, rng.randrange(4, 100, 4)])
        e = base64.b64encode(d)
        w = b"\r\n".join(e[i:i + ls] for i in range(0, len(e), ls)) if ls else e
        J.append(("b64enc", str(ls), d, [w.decode().encode("utf-16-le")]))
        noise = bytearray()
        if rng.random() < .6:
            for c in w[:3000]:
                noise.append(c)
                if rng.random() < .1:
                    noise += bytes(rng.choice(b"\r\n \t-_.,!*") for _ in range(rng.randint(1, 3)))
            noise += w[3000:]
        else:
            noise[:] = w
        if rng.random() < .3:
            noise = bytearray(bytes(noise).rstrip(b"="))
        junk = bytes(rng.choice(b"abc=\r\n!") for _ in range(rng.choice([0, 0, 1, 5])))
        J.append(("b64dec", "string:%d" % len(junk), junk + bytes(noise), [d]))
        u = bytes(noise).decode("latin-1")
        if rng.random() < .3:
            u = u.replace("\r", "\u2028Ж")
        u = u.encode("utf-16-le")
        j2 = junk.decode().encode("utf-16-le")
        J.append(("b64dec", "stream:%d" % len(j2), j2 + u, [d]))
        m = bytes(rng.randrange(256) for _ in range(rng.randint(0, 9)))
        J.append(("b64dec", rng.choice(["string:0", "stream:0"]), m, ANY))
    elif kind == "deflate":
        d = data(rng, size(rng))
        at = rng.randint(0, len(d)) if rng.random() < .3 else 0
        J.append(("deflate", str(at), d, ("inflates", d[at:])))
        z = raw_deflate(rng, d, rng.random() < .4)
        tail = rng.randbytes(rng.choice([0, 0, 1, 3 * CHUNK]))
        pre = rng.randbytes(rng.choice([0, 0, 1, 100]))
        J.append(("inflate", str(len(pre)), pre + z + tail, [b"begin" + d]))
        J.append(("inflateorcopy", str(len(pre)), pre + z, [b"begin" + d]))
        x = fit(rng, rng.randbytes(5 * CHUNK), CHUNK * rng.randint(1, 4) + rng.choice([-1, 0, 1]))
        if x:
            J.append(("inflate", "0", x[1], [b"begin" + x[0]]))
            J.append(("inflate", "0", x[1][:max(1, len(x[1]) - rng.choice([1, 2, len(x[0]), 5, len(x[1]) % CHUNK or CHUNK]))], "not complete"))      # (nothing at all is no stream and no error)
        if len(z) > 1:
            cut = z[:rng.choice([len(z) - 1, rng.randint(1, len(z) - 1)])]
            J.append(("inflate", "0", cut, "not complete"))
            J.append(("inflateorcopy", "0", cut, [b"begin" + cut]))
            m = bytearray(z)
            m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
            c, done = inflate(bytes(m))
            J.append(("inflate", "0", bytes(m), [b"begin" + c] if done else "not complete"))
            J.append(("inflateorcopy", "0", bytes(m), [b"begin" + (c if done else bytes(m))]))
        g = b"\xff\xff" + rng.randbytes(rng.choice([0, 1, 50, CHUNK - 2, CHUNK]))   # not deflate: block type 3
        J.append(("inflateorcopy", "0", g, [b"begin" + g]))
    elif kind == "crc":
        d = data(rng, size(rng))
        J.append(("crc", "-", d, [str(zlib.crc32(d))]))
    elif kind == "text":
        s = any_text(rng, rng.choice([0, 1, 2, 3, 10, 100, rng.randint(0, 3000)]))
        e = s.encode("utf-16-le")
        bom = b"\xff\xfe" if rng.random() < .4 else b""
        J.append(("utf16", str(len(bom)), bom + e, [s, s]))
        bom8 = b"\xef\xbb\xbf" if rng.random() < .4 and s else b""
        J.append(("utf8", str(len(bom8)), bom8 + s.encode(), [(bom8.decode() + s).encode("utf-16-le"), e, bom8 + s.encode(), s]))
        J.append(("utf16", "0", rng.randbytes(rng.randint(0, 40)), ANY))
        J.append(("utf8", "0", rng.randbytes(rng.randint(0, 40)), ANY))
        x = rng.choice([bom8 + s.encode()[:20], bom + e[:20], rng.randbytes(rng.randint(0, 5)), b"\xff\xfe", b"\xef\xbb\xbf", b"\xef\xbb", b"\xff", b""])
        k = [3, "utf8"] if x.startswith(b"\xef\xbb\xbf") else [2, "utf16"] if x.startswith(b"\xff\xfe") else [0, "none"]
        J.append(("bom", "-", x, [str(k[0]), k[1]]))
        t = "".join(rng.choice("abcXYZ019 _-ёЁабвгдежзийклмнопрстуфхцчшщъыьэюяАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ№漢字😀,.") for _ in range(rng.choice([0, 1, 2, 30])))
        J.append(("case", "-", t, [t.lower(), t.upper(), "1", "1"]))
        m = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&apos;").replace('"', "&quot;")
        J.append(("xml", "-", s, [m]))
    elif kind == "int":
        n = rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31), rng.randint(-100, 100)])
        J.append(("int", "77", str(n), [str(n)]))
        J.append(("int", "77", rng.choice(["", "abc", "-", " ", "x1", "--5", "№5"]), ["77"]))
        J.append(("int", "-5", str(rng.choice([2 ** 31, -2 ** 31 - 1, 10 ** 20, -10 ** 30])), ["-5"]))
        J.append(("int", "77", any_text(rng, 4), ANY))
    elif kind == "field":
        t = rng.choice(["B", "L", "N", "N", "NC", "NVC", "DT", "VB", "RV"])
        null = rng.random() < .4
        ln = pr = 0
        if t in ("B", "VB", "NC", "NVC"):
            ln = rng.choice([1, 2, 15, 16, 17, 32, 100, rng.randint(1, 300)])
        if t == "N":
            ln = rng.randint(1, 38)
            pr = rng.choice([0, rng.randint(0, ln), ln])
        name = "F" if rng.random() < .6 else "_IDRREF"
        a = "%s:%s:%d:%d:%d" % (name, t, null, ln, pr)
        r, p, x, key = field_raw(rng, t, null, ln, pr)
        guid = t == "B" and ln == 16 and name == "_IDRREF"
        if guid:
            p = x = guid_1c(r)
        if x is not ANY and t in ("NC", "NVC"):
            x = ANY
        sort = key is not None and not null
        exp = [str(len(r) + null), p, x]
        if sort:
            exp += [str(len(r)), ANY]
        J.append(("field.raw", a + ":%d" % sort, (b"\1" if null else b"") + r, exp))
        if sort:
            r2, p2, x2, key2 = field_raw(rng, t, null, ln, pr)
            if rng.random() < .3 and t == "N" and ln < 18:
                k2 = key + rng.choice([-1, 1])
                if abs(k2) < 10 ** ln:
                    key2 = k2
                    r2 = pack(str(abs(k2)).rjust(ln, "0"), 0 if k2 < 0 else 1)
            J.append(("field.raw", a + ":1", r2, ("order", key, key2)))
        if null:
            J.append(("field.raw", a + ":0", b"\0" + bytes(len(r)), [str(len(r) + 1), "{NULL}", ""]))
            J.append(("field.text", a + ":0:1", p, ["1", b"\0" + bytes(len(r)), "{NULL}", ""]))
        if t in ("B", "L", "N", "NC", "NVC", "DT"):
            txt = p
            want = r
            if t == "NC" and rng.random() < .5:
                txt = p.rstrip(" ")
            if t == "NVC":
                e = p.encode("utf-16-le")
                want = r[:2 + len(e)] + b" \0" * (ln - len(e) // 2)
            if t == "N":
                txt, d, neg = decimal_text(rng, ln, pr, True)
                want = pack(d, 0 if neg else 1)
                p = x = pres(neg, d, pr)
            if t == "DT" and x is ANY:
                x = ANY
            sg = 0
            if t == "B" and ln == 16 and not guid and rng.random() < .5:
                sg = 1                 # presented as a GUID on request
                txt = p = x = guid_1c(r)
            J.append(("field.text", a + ":%d:0" % sg, txt, ["1", (b"\1" if null else b"") + want, p, x]))
            J.append(("field.text", a + ":0:0", rng.choice(["", "1", txt[:len(txt) // 2], txt + txt, txt + "Ж", any_text(rng, 40), any_text(rng, 3, False)]), ANY))
    return J


KINDS = ["guid", "decimal", "decimal", "date", "hex", "base64", "deflate", "crc", "text", "int", "field", "field", "field", "field"]


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    tz = rng.choice([0, 180, -300, 345, 840, -720])      # minutes east
    jobs = []
    for _ in range(case["n"]):
        k = rng.choice(KINDS)
        jobs += [(k,) + j for j in jobs_for(rng, k, tz)]
    inp = b"".join(b"%s %s %d\n%s\n" % (c.encode(), a.encode(), len(b(p)), b(p)) for k, c, a, p, e in jobs)
    s = "%s%02d:%02d" % ("-" if tz > 0 else "+", abs(tz) // 60, abs(tz) % 60)
    r = _run.run([build.driver("convdrv")], cwd=d, timeout=120, env={"TZ": "XXX" + s}, stdin=inp)
    ans = r.out.split("\n")[:-1]
    if r.crash or r.timeout or r.rc or len(ans) != len(jobs):
        i = min(len(ans), len(jobs) - 1)
        k, c, a, p, e = jobs[i]
        out.violation("conversions:%s:crash" % k, "%s at %s %s %r\nexit %r\n%s" % ("timeout" if r.timeout else "crash", c, a, p[:300], r.rc, (r.crash or "") + r.err[-2500:]),
                      {"input.bin": inp[:3000000]})
        return
    prev = None
    for (k, c, a, p, e), got in zip(jobs, ans):
        out.seen((c, a, hash(b(p))), {"command": c, "argument": a, "input": repr(p[:60]), "output": got[:120]})
        out.count(k)
        g = got.split(" ")
        fail = None
        if e is ANY:
            out.count("inputs without a defined value")
            if got == "foreign":
                fail = "foreign exception"
        elif e == "not complete":
            out.count("damaged streams")
            if g[0] == "ok":
                fail = "a damaged stream was taken for a complete one: %s" % got[:200]
        elif isinstance(e, tuple) and e[0] == "inflates":
            if g[0] != "ok" or g[1] != hx("1") or inflate(bytes.fromhex(g[2].replace("-", ""))) != (e[1], True) or g[3] != hx(e[1]):
                fail = "not inverse: %s" % got[:300]
        elif isinstance(e, tuple) and e[0] == "order":
            ka, kb = prev[5], g[5] if len(g) > 5 else ""
            out.count("pairs of sort keys")
            if (ka > kb) - (ka < kb) != (e[1] > e[2]) - (e[1] < e[2]):
                fail = "sort keys %s and %s of %r and %r" % (ka, kb, e[1], e[2])
        else:
            want = [w if w is ANY else hx(w) for w in e]
            if g[0] != "ok" or len(g) - 1 != len(want) or any(w is not ANY and w != x for w, x in zip(want, g[1:])):
                fail = "answer %s\nexpected %s" % ([bytes.fromhex(x.replace("-", "")) if len(x) % 2 == 0 or x == "-" else x for x in g[1:]][:6] if g[0] == "ok" else got[:300], [
                    w if w is ANY else b(w)[:200] for w in e])
        prev = g
        if fail:
            out.violation("conversions:%s:value" % c, "%s %s %r\n%s" % (c, a, p[:300], fail[:1500]), {"input.bin": b(p)})
            return


def main():
    c = fw.Check("C12", rule="a case is one value given to a conversion of the library; the answer is compared with an independent implementation in Python; "
                 "distinct by conversion and value",
                 assumptions=["numbers that do not fit their field, texts that are not a presentation and malformed UTF have no defined value: they may give anything "
                              "but must not leave a buffer", "file times have whole seconds, no earlier than 1602"])
    build.driver("convdrv")
    base = c.seed * 1000003
    c.map(run_case, [dict(seed=base + k, n=120) for k in range(c.n(700, 9000))])
    c.finish(min_evals=20000, require=KINDS + ["damaged streams", "pairs of sort keys"])
