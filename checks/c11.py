"""C11: bracket notation: parsing, writing, rejection of malformed texts."""
import os
import random
import re

import build
import fw
import gen
import run as _run

EMPTY, STRING, NUMBER, EXP, GUID, LIST, BINARY, BINARY2, LINK, DATA = range(10)
NAMES = ["empty", "string", "number", "exponent", "guid", "list", "base64", "base64 without prefix", "link", "data"]
WS = b" \t\r\n"
KINDS = [(NUMBER, re.compile(rb"-?[0-9]+")), (EXP, re.compile(rb"-?[0-9]+(\.[0-9]*)?([eE]-?[0-9]+)?")),
         (GUID, re.compile(rb"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}")),
         (BINARY, re.compile(rb"#base64:[0-9a-zA-Z+=\r\n/]*")), (LINK, re.compile(rb"[0-9]+:[0-9a-fA-F]{32}")),
         (BINARY2, re.compile(rb"[0-9a-zA-Z+=\r\n/]+")), (DATA, re.compile(rb"#data:[0-9a-zA-Z+=\r\n/]*"))]
STOP = re.compile(rb"[,}]")
BOM = b"\xef\xbb\xbf"


class Bad(Exception):
    pass


def kind(v):
    for k, r in KINDS:
        if r.fullmatch(v):
            return k
    return None


def oracle(b, stream):
    """-> (nodes or None when malformed, unspecified?)  A node is (depth, kind, value)."""
    unspec = False
    if stream and b.startswith(BOM):
        b = b[3:]
    elif b.startswith(BOM):
        return None, True
    if stream and b"\0" in b:
        return None, True
    nodes = [(0, LIST, b"")]
    stack = [0]                  # number of values in each open list
    i, n = 0, len(b)
    try:
        want = True              # a value is expected
        while True:
            while i < n and b[i] in WS:
                i += 1
            if want:
                if i >= n:
                    raise Bad("value expected at the end")
                c = b[i:i + 1]
                d = len(stack)
                if c == b'"':
                    v = []
                    i += 1
                    while True:
                        j = b.find(b'"', i)
                        if j < 0:
                            raise Bad("string without end")
                        v.append(b[i:j])
                        i = j + 1
                        if b[i:i + 1] == b'"':
                            v.append(b'"')
                            i += 1
                        else:
                            break
                    nodes.append((d, STRING, b"".join(v)))
                    stack[-1] += 1
                    want = False
                elif c == b"{":
                    nodes.append((d, LIST, b""))
                    stack[-1] += 1
                    stack.append(0)
                    i += 1
                elif c == b"}":
                    if stack[-1]:
                        nodes.append((d, EMPTY, b""))
                    stack.pop()
                    if not stack:
                        raise Bad("unexpected }")
                    i += 1
                    want = False
                elif c == b",":
                    nodes.append((d, EMPTY, b""))
                    stack[-1] += 1
                    i += 1
                else:
                    m = STOP.search(b, i)
                    j = m.start() if m else n
                    v = b[i:j]
                    k = kind(v)
                    if k is None:
                        s = v.rstrip(WS)
                        if s != v and kind(s) is not None:
                            unspec = True
                            k = kind(s)
                        else:
                            raise Bad("unknown value %r" % v[:50])
                    elif v.rstrip(WS) != v and k not in (BINARY, DATA):
                        unspec = True
                    nodes.append((d, k, v))
                    stack[-1] += 1
                    i = j
                    want = False
            else:
                if i >= n:
                    break
                c = b[i:i + 1]
                if c == b",":
                    want = True
                elif c == b"}":
                    stack.pop()
                    if not stack:
                        raise Bad("unexpected }")
                else:
                    raise Bad("delimiter expected")
                i += 1
        if len(stack) != 1:
            raise Bad("missing }")
    except Bad:
        return None, False
    if stack[0] > 1:
        unspec = True            # several values at the top
    return nodes, unspec


def show(nodes):
    return "".join("%d,%d,%s;" % (d, k, v.hex()) for d, k, v in nodes)


# ---- generation

def value(rng, k):
    if k == EMPTY:
        return b""
    if k == STRING:
        t = rng.random()
        if t < .3:
            return "".join(rng.choice('"{},\r\n 1aЖ#:-\t') for _ in range(rng.choice([0, 1, 2, 5, 30]))).encode()
        if t < .35:
            return b'"' * rng.randint(1, 9)
        return gen.text(rng, rng.choice([0, 1, 10, 100]), exact=False).encode()
    if k == NUMBER:
        return (rng.choice(["", "-"]) + str(rng.choice([0, 1, rng.randint(0, 10 ** rng.choice([2, 9, 20, 40]))]))).encode()
    if k == EXP:
        return (rng.choice(["", "-"]) + str(rng.randint(0, 10 ** 9)) + rng.choice([".5", ".", ".000", "e5", "E-7", ".25e-300", ".1E9"])).encode()
    if k == GUID:
        h = "%032x" % rng.getrandbits(128)
        g = "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
        return (g.upper() if rng.random() < .2 else g).encode()
    if k == LINK:
        return ("%d:%032x" % (rng.randint(0, 10 ** rng.choice([1, 9])), rng.getrandbits(128))).encode()
    alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    t = "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 4, 63, 64, 65, 200])))
    if rng.random() < .5:
        t = "\r\n".join(t[i:i + 64] for i in range(0, len(t), 64))
    if rng.random() < .4:
        t += "="
    if k == BINARY:
        return ("#base64:" + t).encode()
    if k == DATA:
        return ("#data:" + t).encode()
    return ("q" + t).encode()


def tree(rng, size, maxdepth, wide):
    """nodes of a random tree with one value at the top"""
    nodes = [(0, LIST, b"")]
    counts = [1]                 # values still to come in each open list
    while counts:
        if counts[-1] == 0:
            counts.pop()
            continue
        counts[-1] -= 1
        d = len(counts)
        only = counts[-1] == 0 and nodes[-1][0] < d      # the only value of its list
        k = rng.choices(range(10), [1, 5, 4, 1, 2, 6, 1, 1, 1, 1])[0]
        if d == 1 and rng.random() < .9:
            k = LIST
        if k == LIST and (d > maxdepth or len(nodes) > size):
            k = NUMBER
        if k == EMPTY and only:
            k = STRING           # one empty value cannot be told from none
        if k == LIST:
            nodes.append((d, LIST, b""))
            counts.append(rng.choice([0, 1, 2, 3, rng.randint(0, wide)]))
        else:
            nodes.append((d, k, value(rng, k)))
    return nodes


def text(rng, nodes, space):
    """one of the texts that denote the tree"""
    out = []

    def ws():
        return bytes(rng.choice(WS) for _ in range(rng.choice([0, 0, 1, 2, 5]))) if space and rng.random() < .5 else b""
    depth = 1
    first = True
    last = None
    for d, k, v in nodes[1:]:
        while depth > d:
            out.append(b"}" if last not in (STRING, LIST, None) else ws() + b"}")
            depth -= 1
            last = None
            first = False
        if not first:
            out.append((ws() if last in (STRING, LIST, None) else b"") + b",")
        out.append(ws())
        if k == LIST:
            out.append(b"{")
            depth += 1
            first = True
            last = None
        else:
            out.append(b'"' + v.replace(b'"', b'""') + b'"' if k == STRING else v)
            first = False
            last = k if k != EMPTY else None
        # an empty value followed by blanks is still empty
    while depth > 1:
        out.append((ws() if last in (STRING, LIST, None) else b"") + b"}")
        depth -= 1
        last = None
    out.append(ws() if last in (STRING, None) else b"")
    return b"".join(out)


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        i = rng.randint(0, len(b))
        k = rng.random()
        if k < .3:
            b[i:i] = bytes([rng.choice(b'{}",\r\n 01aZ#:-.eE+=/\x00\xd0')])
        elif k < .6:
            del b[i:i + rng.choice([1, 1, 1, 2, 8])]
        elif k < .75 and i < len(b):
            b[i] = rng.choice(b'{}", 1a\x7f')
        elif k < .85:
            del b[i:]
        elif k < .93:
            j = rng.randint(0, len(b))
            b[i:i] = b[j:j + rng.randint(1, 20)]
        else:
            del b[:i]
    return bytes(b)


def special(name):
    """large and extreme texts"""
    if name == "deep":
        return b"{" * 300000 + b"1" + b"}" * 300000
    if name == "deep2":
        return b"{1," * 100000 + b"{}" + b",2}" * 100000
    if name == "open":
        return b"{" * 500000
    if name == "close":
        return b"{" * 1000 + b"}" * 100000
    if name == "wide":
        return b"{" + b",".join(b"%d" % i for i in range(150000)) + b"}"
    if name == "widelists":
        return b"{" + b",".join(b"{%d}" % i for i in range(60000)) + b"}"
    if name == "base64":
        return b"{#base64:" + b"\r\n".join(b"QUJD" * 16 for _ in range(30000)) + b"}"
    if name == "binary2":
        return b"{" + b"QUJD" * 700000 + b"}"
    if name == "string":
        return b'{"' + b'a""b\r\n' * 50000 + b'"}'
    if name == "quotes":
        return b'{"' + b'"' * 200001
    if name == "number":
        return b"{1" + b"0" * 300000 + b"}"
    if name == "stray":
        return b"{1" + b"0" * 300000 + b"-}"
    if name == "commas":
        return b"{" + b"," * 200000 + b"}"
    raise ValueError(name)


SPECIAL = ["deep", "deep2", "open", "close", "wide", "widelists", "base64", "binary2", "string", "quotes", "number", "stray", "commas"]


def run_case(case, d, out):
    rng = random.Random(case["seed"])
    jobs = []                    # (command, bytes, nodes wanted or None for an error, unspecified)
    if "special" in case:
        b = special(case["special"])
        for cmd in ("text", "stream", "roundtext"):
            jobs.append((cmd, b) + oracle(b, cmd == "stream"))
    for _ in range(case.get("n", 0)):
        size = rng.choice([1, 3, 10, 60, 300])
        t = tree(rng, size, rng.choice([1, 2, 5, 30]), rng.choice([4, 10, 40]))
        b = text(rng, t, rng.random() < .6)
        k = rng.random()
        if k < .2:
            jobs.append(("tree", show(t).encode(), t, False))
            continue
        if k < .6:
            m = b
            if rng.random() < .1:
                m = BOM + b
            for cmd in rng.sample(["text", "stream", "roundtext", "roundstream"], 2):
                want, un = oracle(m, cmd.endswith("stream"))
                if not un and want is not None and want != t:
                    raise AssertionError("generator and oracle disagree: %r" % m)
                jobs.append((cmd, m, want, un))
            continue
        m = mutate(rng, b)
        cmd = rng.choice(["text", "stream", "roundtext"])
        jobs.append((cmd, m) + oracle(m, cmd == "stream"))
    data = b"".join(b"%s %d\n%s\n" % (c.encode(), len(b), b) for c, b, w, u in jobs)
    e = {"TZ": "UTC"}
    r = _run.run([build.driver("treedrv")], cwd=d, timeout=120, env=e, stdin=data)
    ans = r.out.split("\n")[:-1]
    files = {"input.bin": data[:3000000]}
    sig = "brackets"
    if r.crash or r.timeout or r.rc or len(ans) != len(jobs):
        k = min(len(ans), len(jobs) - 1)
        out.violation(sig + ":crash", "%s at text %d of %d (%s): %r\nexit %r\n%s" % (
            "timeout" if r.timeout else "crash", k + 1, len(jobs), jobs[k][0], jobs[k][1][:300], r.rc, (r.crash or r.err)[-2500:]), files)
        return
    for (cmd, b, want, un), a in zip(jobs, ans):
        out.seen((cmd, hash(b)), {"command": cmd, "text": b[:80].decode("utf-8", "replace"), "expected": "error" if want is None else
                                  "%d nodes" % len(want)})
        one = {"text.bin": b}
        if a.startswith("exception") or "broken" in a[:20]:
            out.violation(sig + ":exception", "%s: %s\n%r" % (cmd, a[:300], b[:500]), one)
            return
        if un:
            out.count("texts without a defined meaning")
            continue
        if want is None:
            out.count("malformed texts")
            if not a.startswith("error"):
                out.violation(sig + ":accepted", "%s: malformed text was taken for %s\n%r" % (cmd, a[:300], b[:500]), one)
                return
            continue
        out.count("well-formed texts")
        w = show(want)
        if cmd in ("text", "stream"):
            if a != "tree " + w:
                out.violation(sig + ":tree", "%s: parsed to\n%s\nexpected\n%s\n%r" % (cmd, a[:600], w[:600], b[:500]), one)
                return
        else:
            p = a.split(" ", 2)
            if p[0] != "out":
                out.violation(sig + ":write", "%s: %s\n%r" % (cmd, a[:300], b[:500]), one)
                return
            t = bytes.fromhex(p[1])
            if p[2] != w:
                out.violation(sig + ":roundtrip", "%s: written as %r, which parses to\n%s\nexpected\n%s" % (cmd, t[:500], p[2][:600], w[:600]), one)
                return
            n2, u2 = oracle(t, False)
            out.count("written texts read by the independent parser")
            if u2 or n2 != want:
                out.violation(sig + ":written", "%s: written as %r, which does not denote the tree %s" % (cmd, t[:500], w[:600]), one)
                return
        for k in {k for _, k, _ in want}:
            out.count("texts with " + NAMES[k])


def main():
    c = fw.Check("C11", rule="a case is one text or tree given to the library; the tree, the text written from it and its second parse are "
                 "compared with an independent parser; distinct by content",
                 assumptions=["blanks behind a value without quotes, several values at the top and zero bytes in a stream have no defined meaning",
                              "a list with exactly one empty value has no text of its own"])
    build.driver("treedrv")
    base = c.seed * 1000003
    cases = [dict(seed=base + k, special=s) for k, s in enumerate(SPECIAL)]
    cases += [dict(seed=base + 1000 + k, n=150) for k in range(c.n(800, 9000))]
    c.map(run_case, cases)
    c.finish(min_evals=5000, require=["well-formed texts", "malformed texts", "written texts read by the independent parser"])
