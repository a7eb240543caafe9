"""Log of the system call monitor."""
import os

import build


class Event:
    __slots__ = ("op", "res", "err", "path", "detail")

    def __init__(self, line):
        f = line.rstrip("\n").split("\t")
        self.op, self.res, self.err, self.path, self.detail = f[0], int(f[1]), int(f[2]), f[3], f[4] if len(f) > 4 else ""

    def __repr__(self):
        return "%s %r %s = %d errno %d" % (self.op, self.path, self.detail, self.res, self.err)


def env(log=None, fail=None, jitter=None, barrier=None):
    e = {"LD_PRELOAD": build.preload(), "ASAN_OPTIONS_EXTRA": ""}
    if log:
        e["IOMON_LOG"] = log
    if fail:
        e["IOMON_FAIL"] = fail
    if jitter:
        e["IOMON_JITTER"] = jitter
    if barrier:
        e["IOMON_BARRIER"] = barrier
    return e


def events(log):
    out = []
    if os.path.exists(log):
        with open(log, encoding="utf-8", errors="surrogateescape") as f:
            for line in f:
                if line.count("\t") >= 3:
                    out.append(Event(line))
    return out
