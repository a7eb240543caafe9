"""Helpers around the command line program."""
import os

import build
import run as _run

_cli = None


def cli():
    global _cli
    if _cli is None:
        _cli = build.cli()
    return _cli


def invoke(args, cwd, timeout=60, env=None, tmp=None, binary=None):
    tmp = tmp or os.path.join(cwd, ".tmp")
    return _run.run([binary or cli()] + list(args), cwd=cwd, timeout=timeout, env=env, tmp=tmp)


def describe(r):
    s = "command: %s\nexit: %s%s wall %.1fs\n" % (" ".join(r.cmd), r.rc, " TIMEOUT" if r.timeout else "", r.wall)
    import re
    err = re.sub(r"Создан объект\n(\t[^\n]*\n)*", "", r.err)
    return s + r.out[-1500:] + err[-3000:]


def must_be_clean(r, out, sig, files=None):
    """sanitizer reports, signals, hangs are violations of every property"""
    c = r.crash
    if c:
        out.violation(sig + ":" + c, "the tool ended abnormally (%s)\n%s" % (c, describe(r)),
                      dict(files or {}, **{"stderr.txt": r.err, "stdout.txt": r.out}))
        return False
    return True


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None


def write(p, data):
    with open(p, "wb") as f:
        f.write(data)


def tree(d):
    """{relative path: bytes} of all files below d"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = read(p)
    return out
