"""Runs the clang extractor over every translation unit of the extension and merges the result."""
import hashlib, json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
SRCROOT = os.path.join(REPO, "src", "cliquematch") + "/"


class AnalysisError(Exception):
    pass


def ensure_extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    stamp = os.path.join(BUILD, "extract.sha")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor does not compile:\n" + r.stderr[-2000:])
    os.replace(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(h)


def _flags():
    py = "/opt/vp/venv/bin/python"
    inc = subprocess.run([py, "-c", "import sysconfig,pybind11;print(sysconfig.get_paths()['include']);print(pybind11.get_include())"],
                         capture_output=True, text=True).stdout.split()
    if len(inc) < 2:
        inc = inc[:1] + ["/opt/vp/venv/lib/python3.12/site-packages/pybind11/include"]
    fl = ["-std=c++11", "-w", "-fvisibility=hidden"]
    for i in inc:
        fl += ["-isystem", i]
    fl += ["-I", SRCROOT, "-isystem", "/usr/include/eigen3"]
    eig = os.path.join(REPO, "include")
    if os.path.isdir(eig):
        for d in glob.glob(eig + "/*"):
            fl += ["-isystem", d]
    return fl


def sources():
    out = []
    for sub in ("detail", "core", "ext"):
        for d, _, fs in os.walk(os.path.join(SRCROOT, sub)):
            out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, _, fs in os.walk(SRCROOT):
        files += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc", ".hh"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(os.path.join(VERIF, "extract", "extract.cpp"), "rb").read())
    return h.hexdigest()[:24]


def load():
    """-> merged program dict; cached by content of the sources"""
    ensure_extractor()
    key = tree_hash()
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    path = os.path.join(cache, key + ".json")
    if os.path.exists(path):
        try:
            with open(path) as f:
                return json.load(f)
        except ValueError:
            pass
    flags = _flags()
    srcs = sources()
    if not srcs:
        raise AnalysisError("no sources found")

    # a unit is extracted again when its own text or any header changed
    hh = hashlib.sha256()
    for d, _, fs in sorted(os.walk(SRCROOT)):
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".hh")):
                hh.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    hh.update(open(os.path.join(VERIF, "extract", "extract.cpp"), "rb").read() + repr(flags).encode())
    tudir = os.path.join(cache, "tu")
    os.makedirs(tudir, exist_ok=True)

    def one(i):
        h = hh.copy()
        h.update(srcs[i].encode() + b"\0" + open(srcs[i], "rb").read())
        kept = os.path.join(tudir, h.hexdigest()[:24] + ".json")
        if os.path.exists(kept):
            try:
                with open(kept) as f:
                    d = json.load(f)
                os.utime(kept)
                return d
            except (ValueError, OSError):
                pass
        out = os.path.join(tudir, "tmp.%d.%d" % (os.getpid(), i))
        r = subprocess.run([EXTRACT, SRCROOT, out, srcs[i], "--"] + flags, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise AnalysisError("cannot analyse %s\n%s" % (srcs[i], r.stderr[-3000:]))
        with open(out) as f:
            d = json.load(f)
        os.replace(out, kept)
        return d

    with ThreadPoolExecutor(8) as ex:
        tus = list(ex.map(one, range(len(srcs))))
    files, fns, recs = [], {}, {}
    for tu in tus:
        remap = []
        for f in tu["files"]:
            if f not in files:
                files.append(f)
            remap.append(files.index(f))
        for fn in tu["functions"]:
            if fn["id"] not in fns or _better(fn, fns[fn["id"]]):
                _relocate(fn, remap)
                fns[fn["id"]] = fn
        for r in tu["records"]:
            if r["q"] not in recs:
                _relocate(r, remap)
                recs[r["q"]] = r
    prog = {"files": files, "functions": fns, "records": recs, "tus": len(srcs),
            "sources": [os.path.relpath(s, REPO) for s in srcs], "key": key}
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(prog, f)
    os.replace(tmp, path)
    # keep the cache small
    olds = sorted(glob.glob(os.path.join(cache, "*.json")), key=_mtime)
    for o in olds[:-12] + sorted(glob.glob(os.path.join(tudir, "*.json")), key=_mtime)[:-300]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return prog


def _mtime(f):
    try:
        return os.path.getmtime(f)
    except OSError:
        return 0


def _better(a, b):
    return False


def _relocate(x, remap):
    if isinstance(x, dict):
        L = x.get("L")
        if isinstance(L, list) and len(L) == 2 and isinstance(L[0], int):
            L[0] = remap[L[0]] if 0 <= L[0] < len(remap) else -1
        for k, v in x.items():
            if k != "L" and isinstance(v, (dict, list)):
                _relocate(v, remap)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                _relocate(v, remap)


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p["functions"]), "functions", len(p["records"]), "records", p["tus"], "units", round(time.time() - t, 1), "s")
