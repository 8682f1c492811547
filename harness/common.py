"""Paths, building, scratch directories."""
import atexit, ctypes, hashlib, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


def source_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "src", "tests/CMakeLists.txt"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f[len(REPO):].encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


FLAVORS = {
    # the tag server and library with the address sanitizer
    "asan": ("gcc", "-Wno-error -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"),
    "plain": ("gcc", "-Wno-error -g"),
    "tsan": ("gcc", "-Wno-error -g -fsanitize=thread"),
}


def build(flavor, targets):
    """Build targets from /repo's working tree; returns the build directory."""
    cc, flags = FLAVORS[flavor]
    key = source_hash()
    d = os.path.join(BUILD, flavor + "-" + key)
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        if old.startswith(flavor + "-") and not old.endswith(key):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    env = {"HOME": "/root", "LANG": "C.UTF-8", "CC": "/usr/bin/" + cc, "CXX": "/usr/bin/g++",
           "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           "ASAN_OPTIONS": "detect_leaks=0"}
    log = []
    if not os.path.exists(os.path.join(d, "build.ninja")):
        r = subprocess.run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_FLAGS=" + flags],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise CheckError("cmake failed:\n" + r.stdout[-3000:])
    r = subprocess.run(["ninja", "-C", d] + targets, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout[-3000:])
    return d


def compile_c(src, out, flags):
    """a helper of the harness, built once"""
    d = os.path.join(BUILD, "tools")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(VERIF, "harness", src), "rb") as f:
        key = hashlib.sha256(f.read() + repr(flags).encode()).hexdigest()[:12]
    o = os.path.join(d, key + "-" + out)
    if not os.path.exists(o):
        r = subprocess.run(["gcc", "-O1", "-g", "-o", "%s.%d" % (o, os.getpid()), os.path.join(VERIF, "harness", src)] + flags,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-2000:]))
        os.rename("%s.%d" % (o, os.getpid()), o)
    return o


_root = None


def scratch(prefix="dax"):
    """a directory of its own below one that is removed in the end"""
    global _root
    if _root is None:
        _root = (tempfile.mkdtemp(prefix="daxrun-", dir="/tmp"), os.getpid())
    return tempfile.mkdtemp(prefix=prefix + "-", dir=_root[0])


@atexit.register
def _cleanup():
    if _root and _root[1] == os.getpid():
        shutil.rmtree(_root[0], ignore_errors=True)


def with_parent():
    """(in a child process) end when the parent ends"""
    ctypes.CDLL(None).prctl(1, 9)


def linked(flavor, source, out, targets, flags):
    """a program of the harness, linked with libraries of /repo's working tree"""
    d = build(flavor, targets)
    src = os.path.join(VERIF, "harness", source)
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:12]
    o = os.path.join(d, out + "-" + key)
    if not os.path.exists(o):
        cc, cflags = FLAVORS[flavor]
        lib = os.path.join(d, "src/lib")
        dirs = [lib, os.path.join(lib, "logger"), os.path.join(lib, "lua")]
        r = subprocess.run([cc] + cflags.split() + ["-O1", "-I", os.path.join(REPO, "src"), "-o", "%s.%d" % (o, os.getpid()), src] +
                           [x for y in dirs for x in ("-L", y, "-Wl,-rpath," + y)] + ["-Wl,--no-as-needed"] + flags +
                           ["-ldax", "-ldaxlog", "-lpthread", "-ldl", "-rdynamic"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (source, r.stdout[-2000:]))
        os.rename("%s.%d" % (o, os.getpid()), o)
    return o


def driver(flavor="asan"):
    """the program that drives libdax"""
    return linked(flavor, "libdrv.c", "libdrv", ["dax", "daxlog"], [])


def luadriver(flavor="asan"):
    """the Lua interpreter with the dax package"""
    return linked(flavor, "luadrv.c", "luadrv", ["dax", "daxlog", "daxlua_library"], ["-I/usr/include/lua5.4", "-ldaxlua", "-llua5.4"])
