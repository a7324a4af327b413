"""Front end: compile /repo's current sources to LLVM bitcode and dump them as JSON (see irdump.cpp)."""
import os, sys, subprocess, json, glob, hashlib, tempfile, shutil, atexit, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = shutil.which("clang++-18") or shutil.which("clang++") or "clang++"
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The check can give no answer (vanished anchor, build failure): exit 2."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="tgverif.")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def irdump_bin():
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(HERE, "build"), scratch()):
        p = os.path.join(d, "irdump-" + h)
        if os.path.exists(p):
            return p
    out = os.path.join(HERE, "build")
    try:
        os.makedirs(out, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=out, delete=False); t.close(); os.unlink(t.name)
    except OSError:
        out = scratch()
    p = os.path.join(out, "irdump-" + h)
    tmp = p + ".tmp%d" % os.getpid()
    run([CLANG, "-O0", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
         "-L" + LLVM + "/lib", "-lLLVM-18"])
    os.replace(tmp, p)
    return p


DIRS = ["crypto", "garbled_circuit", "scd", "tcpip", "util"]
EXCLUDE = re.compile(r"(_test|_testsuit|_testing)\.cpp$")


def sources():
    out = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if EXCLUDE.search(f):
                continue
            out.append(f)
    if not out:
        raise Broken("no sources found")
    return out


def mains():
    r = []
    for f in sources():
        t = open(f, errors="replace").read()
        if re.search(r"\bint\s+main\s*\(", t):
            r.append(f)
    return r


def gen_config(log=True, dump=False):
    d = os.path.join(scratch(), "cfg_%d%d" % (log, dump), "util")
    if os.path.isdir(d):
        return os.path.dirname(d)
    os.makedirs(d)
    src = open(os.path.join(REPO, "util/tinygarble_config.h.in")).read()
    src = src.replace("@TinyGarble_VERSION_MAJOR@", "3").replace("@TinyGarble_VERSION_MINOR@", "0")
    src = src.replace("@TinyGarble_VERSION_PATCH@", "0")
    src = src.replace("@CMAKE_SOURCE_DIR@", REPO).replace("@CMAKE_BINARY_DIR@", REPO + "/_build")

    def cm(m):
        n = m.group(1)
        on = {"ENABLE_LOG": log, "ENABLE_DUMP": dump}.get(n, False)
        return "#define %s" % n if on else "/* #undef %s */" % n
    src = re.sub(r"#cmakedefine\s+(\w+)", cm, src)
    open(os.path.join(d, "tinygarble_config.h"), "w").write(src)
    return os.path.dirname(d)


_bc = {}


def bitcode(log=True, dump=False):
    """bitcode of every TU (one file each); `main` of each program renamed main_<stem>."""
    key = (log, dump)
    if key in _bc:
        return _bc[key]
    inc = gen_config(log, dump)
    out = os.path.join(scratch(), "bc_%d%d" % key)
    os.makedirs(out, exist_ok=True)
    ms = set(mains())

    def one(f):
        stem = os.path.basename(f)[:-4]
        o = os.path.join(out, os.path.basename(os.path.dirname(f)) + "_" + stem + ".bc")
        cmd = [CLANG, "-std=c++11", "-c", "-emit-llvm", "-g", "-O1", "-Xclang", "-disable-llvm-passes",
               "-march=x86-64-v2", "-maes", "-mpclmul", "-DNDEBUG", "-w", "-fdebug-compilation-dir=" + REPO, "-fno-discard-value-names",
               "-I" + inc, "-I" + REPO, "-include", os.path.join(HERE, "stdmodel.h"), f, "-o", o]
        if f in ms:
            cmd.insert(1, "-Dmain=main_" + stem)
        run(cmd)
        return o
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sources() + [os.path.join(HERE, "probe.cpp")]))
    _bc[key] = res
    return res


_prog = {}
SCALARS = [r"~^(.* )?std::swap<[^:]*>$", r"~^(.* )?std::exchange<"]


def program(keep=(), inline_none=False, log=True, dump=False, extra=(), deep=False, bycopy=False):
    key = (tuple(sorted(keep)), inline_none, log, dump, tuple(sorted(extra)), deep, bycopy)
    if key in _prog:
        return _prog[key]
    bcs = bitcode(log, dump)
    view = os.path.join(scratch(), "view%d" % len(_prog))
    with open(view, "w") as f:
        if inline_none:
            f.write("!noinline\n")
        if bycopy:
            f.write("!bycopy\n")
        if deep:
            f.write("!deep\n")
        for k in sorted(keep):
            f.write(k + "\n")
        for k in sorted(set(extra) | set(SCALARS)):
            f.write((k if k[0] == "~" else "+" + k) + "\n")
    out = view + ".json"
    run([irdump_bin(), REPO + "/", view, out] + bcs)
    with open(out) as f:
        _prog[key] = Program(json.load(f))
    return _prog[key]


class Program:
    def __init__(self, j):
        self.j = j
        self.functions = j["functions"]
        self.structs = j["structs"]
        self.globals = j["globals"]
        self.by_dem = {}
        for m, f in self.functions.items():
            self.by_dem.setdefault(f["dem"], []).append(f)

    def const(self, name):
        """value of a constant of the program under analysis (see probe.cpp)"""
        g = self.globals.get("vp_" + name)
        if not g or g.get("init", [None])[0] != "i":
            raise Broken("anchor constant vanished: " + name)
        return int(g["init"][1])

    def fn(self, name, required=True):
        fs = self.by_dem.get(name, [])
        if not fs:
            if required:
                raise Broken("anchor function vanished: " + name)
            return None
        if len(fs) > 1:
            raise Broken("ambiguous anchor function: " + name)
        return fs[0]


# accessors of standard containers (inlined so that elements are plain loads); exceptions of .at() are fail edges
CONTAINERS = [r"~^std::(__cxx1998::)?vector<.*>::(operator\[\]|at|begin|end|cbegin|cend|size|data|front|back|empty|_M_data_ptr<.*>|_M_data_ptr)$",
              r"~^__gnu_cxx::__normal_iterator<", r"~^(bool |.* )?__gnu_cxx::operator(!=|==|-)<", r"~^std::array<.*>::(operator\[\]|at|begin|end|size|data)$", r"~^std::__array_traits<"]
