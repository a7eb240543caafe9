"""Builds the code under test from /repo's working tree with sanitizers, into /verif/.build (git-ignored).
Object files are cached by content (source + all headers + flags + compiler)."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LIBS = ["-lboost_filesystem", "-lboost_regex", "-lboost_system", "-lz", "-lpthread"]
BASE = ["-std=c++11", "-w", "-include", "cstdint", "-O1", "-g1", "-fno-omit-frame-pointer",
        "-I%s/src/tool1cd" % REPO, "-I%s/src/ctool1cd" % REPO, "-I%s/src" % REPO]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all"]
SAN += os.environ.get("VERIF_CXXFLAGS", "").split()      # coverage measurements by hand
CXX = "clang++"


class BuildError(Exception):
    pass


def headers():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".h", ".hpp", ".inc")):
                out.append(os.path.join(root, f))
    return sorted(out)


def _hash_headers(extra=()):
    h = hashlib.sha256()
    for p in headers() + sorted(extra):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def lib_sources():
    base = os.path.join(REPO, "src", "tool1cd")
    out = []
    for root, dirs, files in os.walk(base):
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


def cli_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "ctool1cd", "*.cpp")))


def _compile(src, flags, hh, objdir):
    with open(src, "rb") as f:
        body = f.read()
    key = hashlib.sha256(b"\0".join([src.encode(), body, hh.encode(), " ".join(flags).encode()])).hexdigest()[:32]
    obj = os.path.join(objdir, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode("utf-8", "replace")[-4000:]))
        os.rename(tmp, obj)
    return obj


def _build(sources, name, flags, extra_headers=(), libs=LIBS):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = _hash_headers(extra_headers)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # biggest first for a shorter makespan
        order = sorted(sources, key=lambda p: -os.path.getsize(p))
        objs = dict(zip(order, ex.map(lambda s: _compile(s, flags, hh, os.path.join(BUILD, "obj")), order)))
    objs = [objs[s] for s in sources]
    link = [f for f in flags if f.startswith(("-fsanitize", "-fno-sanitize", "-fprofile"))]
    key = hashlib.sha256(("\n".join(objs) + " ".join(libs + link)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + link + objs + ["-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode("utf-8", "replace")[-4000:]))
        os.rename(tmp, out)
    return out


def _prune():
    """keep the cache small"""
    d = os.path.join(BUILD, "obj")
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d))
    if len(fs) > 1500:
        for _, f in fs[:700]:
            os.unlink(f)
    d = os.path.join(BUILD, "bin")
    fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)) if os.path.isdir(d) \
        else []
    if len(fs) > 60:
        for _, f in fs[:30]:
            os.unlink(f)


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def cli(san=True):
    """path of the sanitized command line tool"""
    with _Lock():
        _prune()
        return _build(lib_sources() + cli_sources(), "ctool1cd" + ("" if san else "-plain"), BASE + (SAN if san else []))


def cli_pattern():
    """the command line tool, built so that automatic variables without a value begin with a fixed pattern"""
    with _Lock():
        return _build(lib_sources() + cli_sources(), "ctool1cd-pattern", BASE + ["-ftrivial-auto-var-init=pattern"])


def driver(name, san=True):
    """C++ driver from /verif/drivers linked with the library sources"""
    with _Lock():
        src = os.path.join(VERIF, "drivers", name + ".cpp")
        return _build(lib_sources() + [src], name + ("" if san else "-plain"), BASE + (SAN if san else []))


QT = "/usr/include/x86_64-linux-gnu/qt6"
QT_TOOLS = "/usr/lib/qt6/libexec"


def gui(name):
    """C++ driver from /verif/drivers linked with the graphical tool (all but its main function) and the library"""
    with _Lock():
        base = os.path.join(REPO, "src", "gtool1cd")
        sources, hs, uis = [], [], []
        for root, dirs, files in os.walk(base):
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(".cpp") and p != os.path.join(base, "main.cpp"):
                    sources.append(p)
                elif f.endswith(".h"):
                    hs.append(p)
                elif f.endswith(".ui"):
                    uis.append(p)
        h = hashlib.sha256()
        for p in sorted(hs + uis):
            with open(p, "rb") as f:
                h.update(p.encode() + b"\0" + f.read())
        gen = os.path.join(BUILD, "gui-" + h.hexdigest()[:24])
        if not os.path.isdir(gen):
            for old in glob.glob(os.path.join(BUILD, "gui-*")):
                shutil.rmtree(old, ignore_errors=True)
            tmp = gen + ".tmp%d" % os.getpid()
            os.makedirs(tmp)
            todo = [[QT_TOOLS + "/uic", p, "-o", os.path.join(tmp, "ui_" + os.path.basename(p)[:-3] + ".h")] for p in uis]
            for p in hs:
                with open(p, "rb") as f:
                    if b"Q_OBJECT" not in f.read():
                        continue
                rel = os.path.relpath(p, base)
                todo.append([QT_TOOLS + "/moc", "-I" + QT, p, "-o", os.path.join(tmp, "moc_" + rel.replace("/", "_")[:-2] + ".cpp")])
            for cmd in todo:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-2000:]))
            os.rename(tmp, gen)
        sources += sorted(glob.glob(os.path.join(gen, "moc_*.cpp"))) + [os.path.join(VERIF, "drivers", name + ".cpp")]
        flags = [f for f in BASE if not f.startswith("-std=")] + \
            ["-std=c++17", "-fPIC", "-DNDEBUG", "-DQT_NO_DEBUG", "-I" + gen, "-I" + base, "-isystem", QT] + \
            sum([["-isystem", "%s/%s" % (QT, m)] for m in ("QtWidgets", "QtCore", "QtGui", "QtCore5Compat")], []) + SAN + \
            ["-fno-sanitize=function"]
        plain = [f for f in SAN if "sanit" in f or "profile" in f]
        return _build_mixed([(sources, flags), (lib_sources(), BASE + SAN)], name, plain,
                            LIBS + ["-lQt6Widgets", "-lQt6Gui", "-lQt6Core5Compat", "-lQt6Core"])


def _build_mixed(groups, name, link, libs):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = _hash_headers()
    jobs = sorted([(s, flags) for sources, flags in groups for s in sources], key=lambda x: -os.path.getsize(x[0]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = sorted(ex.map(lambda x: _compile(x[0], x[1], hh, os.path.join(BUILD, "obj")), jobs))
    key = hashlib.sha256(("\n".join(objs) + " ".join(libs + link)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + link + objs + ["-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode("utf-8", "replace")[-4000:]))
        os.rename(tmp, out)
    return out


def preload():
    """system call monitor / fault injector"""
    with _Lock():
        src = os.path.join(VERIF, "drivers", "iomon.c")
        with open(src, "rb") as f:
            key = hashlib.sha256(f.read()).hexdigest()[:24]
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        out = os.path.join(BUILD, "bin", "iomon-%s.so" % key)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode("utf-8", "replace"))
            os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(cli())
