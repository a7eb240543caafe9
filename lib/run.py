"""Runs one process of the code under test and classifies how it ended."""
import os
import re
import signal
import subprocess
import time

ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=3000:"
        "detect_stack_use_after_return=0:print_summary=1:symbolize=1:handle_abort=1:allow_user_segv_handler=0")
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=99"


class Result:
    def __init__(self, rc, out, err, timeout, wall, cmd):
        self.rc, self.out, self.err, self.timeout, self.wall, self.cmd = rc, out, err, timeout, wall, cmd

    @property
    def text(self):
        return self.out + self.err

    @property
    def sanitizer(self):
        return "AddressSanitizer" in self.err or "runtime error:" in self.err or "LeakSanitizer" in self.err

    @property
    def crash(self):
        """None, or a short description when the process ended in a way no input may cause"""
        if self.timeout:
            return "timeout"
        if self.sanitizer:
            return "sanitizer:" + san_summary(self.err)
        if self.rc is not None and self.rc < 0:
            return "signal %d" % -self.rc
        if self.rc == 99:
            return "exit 99"
        if "terminate called" in self.err:
            return "uncaught exception"
        return None


def san_summary(err):
    m = re.search(r"ERROR: AddressSanitizer:? ([\w\- ]+?)(?: on | in |:|\(|\n)", err)
    kind = m.group(1).strip() if m else ""
    if "runtime error:" in err:
        m = re.search(r"runtime error: ([^\n]*)", err)
        kind = "UB " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60]
    fn = ""
    if "terminate called" in err:
        m2 = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
        kind = "uncaught " + (m2.group(1) if m2 else "exception")
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", err):
        s = m.group(1)
        if "/repo/" in s or "/src/tool1cd" in s or "/src/ctool1cd" in s:
            fn = re.split(r"\(| /", s)[0]
            break
    return (kind + "@" + fn).strip("@")


_hung = False     # a hang has been confirmed in this process: the next ones need no second try


def run(cmd, cwd=None, timeout=60, env=None, tmp=None, stdin=None, retry_timeout=True):
    global _hung
    if _hung:
        timeout, retry_timeout = min(timeout, 30), False
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "ASAN_OPTIONS": ASAN,
         "UBSAN_OPTIONS": UBSAN, "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18"}
    if tmp:
        os.makedirs(tmp, exist_ok=True)
        e["TMPDIR"] = tmp
    if env:
        e.update(env)
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        to = True
    r = Result(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to, time.time() - t0, cmd)
    if to and retry_timeout:   # a busy machine must not look like a hang: once more, with more time
        r = run(cmd, cwd, timeout * 3, env, tmp, stdin, False)
        _hung = r.timeout
    return r
