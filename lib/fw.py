"""Framework of the checks: case bookkeeping, violations, known findings, evidence, parallel execution."""
import ctypes
import json
import multiprocessing
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

ALL = bool(os.environ.get("VERIF_ALL"))    # do not stop at the eighth violation
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Out:
    """what one case (possibly in a worker process) observed"""

    def __init__(self):
        self.evals = 0
        self.keys = []
        self.samples = []
        self.viol = []     # (signature, message, {filename: bytes})
        self.counts = {}
        self.spill = None  # violations are noted there at once: a case may be ended before it returns

    def seen(self, key, sample=None, n=1):
        self.evals += n
        self.keys.append(key)
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, sig, msg, files=None):
        if len(self.viol) < 20:
            self.viol.append((sig, msg, files or {}))
            if self.spill:
                with open(self.spill, "ab") as f:
                    pickle.dump((sig, msg, files or {}), f)


def _worker(args):
    fn, case, scratch, i = args
    d = os.path.join(scratch, "w%06d" % i)
    os.makedirs(d)
    out = Out()
    out.index = i
    out.spill = os.path.join(scratch, "v%06d" % i)
    out.error = None
    try:
        fn(case, d, out)
    except (KeyboardInterrupt, SystemExit, MemoryError, AssertionError):
        out.error = traceback.format_exc() + "\ncase: %r" % (case,)
    except Exception as e:
        text = traceback.format_exc() + "\ncase: %r" % (case,)
        if isinstance(e, OSError) and not isinstance(e, (FileNotFoundError, IsADirectoryError, NotADirectoryError)):
            out.error = text     # the machine, not the code under test
        else:
            # every oracle understands all that the unchanged code writes: what it cannot read is wrong
            out.violation("oracle:%s" % type(e).__name__, "the output of the code under test cannot be read\n" + text)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def _spilled(path):
    out = []
    try:
        with open(path, "rb") as f:
            while True:
                out.append(pickle.load(f))
    except (OSError, EOFError, pickle.UnpicklingError):
        pass
    return out


def _reap():
    """ends what workers that were terminated left behind (this process is the subreaper of its descendants)"""
    for _ in range(50):
        mine = []
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    with open("/proc/%s/stat" % p) as f:
                        if int(f.read().rsplit(")", 1)[1].split()[1]) == os.getpid():
                            mine.append(int(p))
                except (OSError, ValueError, IndexError):
                    pass
        if not mine:
            return
        for p in mine:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        self.total = Out()
        self.keys = set()
        self.jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
        self.caseno = 0
        self.extra = {}
        self.known = load_known(pid)
        self.known_hit = {}
        self.violations = 0
        self.stopped = False   # enough violations: the rest of the cases is left out
        self.broken = False    # a case ended with an exception of the harness: no answer, unless there are violations

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def map(self, fn, cases):
        """runs fn(case, scratch dir, Out) for every case in worker processes"""
        cases = list(cases)
        args = [(fn, c, self.scratch, self.caseno + i) for i, c in enumerate(cases)]
        self.caseno += len(cases)
        if self.stopped:
            return
        if self.jobs == 1 or len(cases) == 1:
            for a in args:
                self._collect(_worker(a))
            return
        try:
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER
        except (OSError, AttributeError):
            pass
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(self.jobs)
        todo = {a[3] for a in args}
        try:
            it = pool.imap_unordered(_worker, args, chunksize=1)
            while todo and not self.stopped:
                try:
                    r = it.next(timeout=5)
                except multiprocessing.TimeoutError:
                    r = None
                if r is not None:
                    todo.discard(r.index)
                    self._collect(r)
                if not ALL and (self.violations >= 8 or self._spare(todo) < 0):
                    self.stopped = True
        finally:
            pool.terminate()
            pool.join()
        if self.stopped:
            _reap()
            for i in sorted(todo):
                for v in _spilled(os.path.join(self.scratch, "v%06d" % i)):
                    self._report(*v)

    def _spare(self, todo):
        """seconds left, once there are violations: then the time limit matters more than the rest of the cases"""
        if self.thorough:
            return 1
        left = 600 - (time.time() - self.t0)
        if left >= 0 or self.violations or any(_spilled(os.path.join(self.scratch, "v%06d" % i)) for i in todo):
            return left
        return 1

    def _collect(self, r):
        if r.error:
            sys.stderr.write(r.error + "\n")
            self.broken = True
        self.add(r)

    def add(self, r):
        self.total.evals += r.evals
        self.keys.update(json.dumps(k, sort_keys=True, default=str) for k in r.keys)
        for s in r.samples:
            if len(self.total.samples) < 6:
                self.total.samples.append(s)
        for k, v in r.counts.items():
            self.total.count(k, v)
        for v in r.viol:
            self._report(*v)

    def _report(self, sig, msg, files):
        for k in self.known:
            if k["re"].fullmatch(sig):
                self.known_hit.setdefault(k["sig"], 0)
                self.known_hit[k["sig"]] += 1
                return
        self.violations += 1
        if self.violations > 8:
            return
        d = os.path.join(VERIF, "replay", "%s-%d-%d" % (self.pid, os.getpid(), self.violations))
        os.makedirs(d, exist_ok=True)
        for name, data in files.items():
            if data is None:
                continue
            if isinstance(data, str):
                data = data.encode("utf-8", "replace")
            with open(os.path.join(d, name), "wb") as f:
                f.write(data[:64 << 20])
        with open(os.path.join(d, "README.txt"), "w") as f:
            f.write("property %s\nsignature: %s\n\n%s\n" % (self.pid, sig, msg))
        print("VIOLATION property=%s replay=%s" % (self.pid, d))
        print("  " + sig)
        print("  " + msg[:1500].replace("\n", "\n  "))
        sys.stdout.flush()

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self, min_evals=1, require=()):
        """require: names of counters that must be non-zero (the monitor must have observed something)"""
        self.cleanup()
        for k in self.known:
            if k["sig"] in self.known_hit or k.get("always"):
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.pid, k["text"],
                                                                    self.known_hit.get(k["sig"], 0)))
        cov = {"evaluations": self.total.evals, "distinct_nontrivial": len(self.keys), "rule": self.rule,
               "samples": self.total.samples or ["(none)"]}
        cov["observed"] = dict(sorted(self.total.counts.items()))
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if self.violations:
            print("%s: %d violations in %d evaluations, %.1fs" % (self.pid, self.violations, self.total.evals,
                                                                time.time() - self.t0))
            sys.exit(1)
        if self.broken:
            sys.exit(2)
        if self.total.evals < min_evals or any(not self.total.counts.get(r) for r in require):
            sys.stderr.write("%s: the monitors observed too little: %d evaluations, %r\n" % (
                self.pid, self.total.evals, self.total.counts))
            sys.exit(2)
        print("%s: OK, %d evaluations, %d distinct, %.1fs %s" % (self.pid, self.total.evals, len(self.keys),
                                                                 time.time() - self.t0, self.total.counts))
        sys.exit(0)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p, encoding="utf-8"):
        m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append({"sig": m.group(2), "re": re.compile(m.group(2)), "text": m.group(3)})
    return out
