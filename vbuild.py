"""Builds the library under test and the harnesses, in several variants.

Everything comes from the working tree at REPO; objects are kept under
build/<digest of all sources and flags>, so an edited tree is always rebuilt."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-g", "-fno-rtti", "-pthread", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w",
          "-DLSMDB_PLATFORM_POSIX=1", "-DLSMDB_COMPILE_LIBRARY"]
VARIANTS = {
    "asan":   {"cxx": "g++", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]},
    "tsan":   {"cxx": "g++", "flags": ["-O1", "-fsanitize=thread"]},
    "plain":  {"cxx": "g++", "flags": ["-O2"]},
    "ndebug": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG"]},
    "clang":  {"cxx": "clang++", "flags": ["-O1", "-fsanitize=address,undefined,local-bounds", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]},
    "fsync":  {"cxx": "g++", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-DHAVE_FDATASYNC=0"]},
    "cov":    {"cxx": "g++", "flags": ["-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc"]},
    "vg":     {"cxx": "g++", "flags": ["-O1", "-gdwarf-4", "-DVH_VG"]},
}


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        top = rel.split(os.sep)[0]
        if top in ("third_party", "build", "cmake") or (top.startswith((".", "_")) and rel != "."):
            dirs[:] = []
            continue
        for f in files:
            if not f.endswith(".cc") or f.endswith("_test.cc") or f in ("test_util.cc", "lsmdb_util.cc"):
                continue
            if f.endswith(("_bench.cc", "_benchmark.cc", "_main.cc")):
                continue
            out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


def digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_")) and d != "third_party")
        for f in sorted(files):
            if f.endswith((".cc", ".h", ".hpp", ".cpp", ".inc", ".in")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))) + [os.path.abspath(__file__)]:
        h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()[:20]


def port_config():
    """The generated port_config.h, as the project's own CMake run makes it here."""
    src = open(os.path.join(REPO, "port", "port_config.h.in")).read()
    have = {"HAVE_FDATASYNC": 1, "HAVE_FULLFSYNC": 0, "HAVE_O_CLOEXEC": 1, "HAVE_CRC32C": 0, "HAVE_SNAPPY": 0}
    out = []
    for line in src.splitlines():
        if line.startswith("#cmakedefine01"):
            n = line.split()[1]
            line = "#define %s %d" % (n, have.get(n, 0))
        elif line.startswith("#cmakedefine"):
            continue
        out.append(line)
    return "\n".join(out) + "\n"


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def job(out, cmd):
    if os.path.exists(out):
        return
    tmp = out + ".tmp%d" % os.getpid()
    run([tmp if c == "@OUT" else c for c in cmd], None)
    os.rename(tmp, out)


def prune(keep):
    try:
        ds = sorted(((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                     if os.path.isdir(os.path.join(BUILD, d))), reverse=True)
    except OSError:
        return
    for i, (t, d) in enumerate(ds):
        if d != keep and (i >= 4 or time.time() - t > 6 * 3600) and time.time() - t > 1800:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build(targets, jobs=8):
    """targets: list of (harness name, variant, extra defines tuple, wraps tuple).
    Returns {target: path}; a target whose compilation fails maps to a BuildError."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, digest())
    os.makedirs(os.path.join(d, "gen", "port"), exist_ok=True)
    os.utime(d)
    prune(os.path.basename(d))
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        pc = os.path.join(d, "gen", "port", "port_config.h")
        if not os.path.exists(pc):
            with open(pc, "w") as f:
                f.write(port_config())
        inc = ["-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(d, "gen"), "-I" + os.path.join(VERIF, "harness")]
        todo, libs, objs = [], {}, {}
        for v in sorted({t[1] for t in targets}):
            V = VARIANTS[v]
            vd = os.path.join(d, v)
            os.makedirs(vd, exist_ok=True)
            libs[v] = []
            for s in lib_sources():
                o = os.path.join(vd, s.replace("/", "__") + ".o")
                libs[v].append(o)
                todo.append((o, [V["cxx"], "-std=c++11", "-fno-exceptions"] + COMMON + V["flags"] + inc + ["-c", os.path.join(REPO, s), "-o", "@OUT"]))
        for t in targets:
            h, v, defs, wraps = t
            V = VARIANTS[v]
            tag = h + "".join("-" + x for x in defs)
            o = os.path.join(d, v, "H_" + tag + ".o")
            w = "-" + hashlib.sha256(" ".join(wraps).encode()).hexdigest()[:6] if wraps else ""
            objs[t] = (o, os.path.join(d, v, "H_" + tag + w + ".exe"))
            todo.append((o, [V["cxx"], "-std=c++17"] + COMMON + V["flags"] + ["-D" + x for x in defs] + inc + ["-c", os.path.join(VERIF, "harness", h + ".cc"), "-o", "@OUT"]))
        errs = {}
        with ThreadPoolExecutor(jobs) as ex:
            fs = {ex.submit(job, o, c): o for o, c in dict(todo).items()}
            for f in fs:
                try:
                    f.result()
                except BuildError as e:
                    errs[fs[f]] = e
        res = {}

        def link(t):
            h, v, defs, wraps = t
            V = VARIANTS[v]
            o, exe = objs[t]
            for x in libs[v] + [o]:
                if x in errs:
                    return errs[x]
            try:
                job(exe, [V["cxx"], "-pthread"] + V["flags"] + V.get("link", []) + [o] + libs[v] + ["-Wl,--wrap=" + w for w in wraps] + ["-o", "@OUT"])
            except BuildError as e:
                return e
            return exe
        with ThreadPoolExecutor(jobs) as ex:
            for t, r in zip(targets, ex.map(link, targets)):
                res[t] = r
        return res
