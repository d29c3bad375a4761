"""Build /repo's current working tree for the checks.

Everything is built below /verif/.cache (git-ignored); /repo is only read.
A content-addressed object cache (source + every header it included + flags)
avoids recompiling what did not change; a cold cache only costs time.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
OBJ = os.path.join(CACHE, "obj")
OUT = os.path.join(CACHE, "out")
VENV = "/opt/vp/venv/bin"
RESIZE_STUB = "/opt/vp/extra/resize_left_out.cpp"
CXX = "g++"

class BuildError(Exception):
    pass

_hash_memo = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    h = _hash_memo.get(k)
    if h is None:
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:24]
        _hash_memo[k] = h
    return h

def sh(s):
    return hashlib.sha256(s.encode()).hexdigest()[:24]

def release():
    m = re.search(r"VS_CURRENT_RELEASE\s+(\d+)", open(f"{REPO}/VAPOURSYNTH_VERSION").read())
    return m.group(1) if m else "0"

COMMON = ["-D_FILE_OFFSET_BITS=64", "-w", "-std=c++20", "-fno-math-errno", "-fno-char8_t",
          "-DVS_GRAPH_API", "-DVS_USE_LATEST_API", "-DVSSCRIPT_USE_LATEST_API", "-DVS_TARGET_OS_LINUX",
          "-DHAVE_SCHED_GETAFFINITY", "-DVS_TARGET_CPU_X86", "-fPIC", "-pthread"]

def flags(opt="-O1", extra=()):
    return COMMON + [opt, f"-I{REPO}", f"-I{REPO}/include", f"-DVS_CURRENT_RELEASE={release()}"] + list(extra)

def compile_one(src, fl, tag=""):
    """Compile src with flags; returns object path."""
    os.makedirs(OBJ, exist_ok=True)
    key = sh(json.dumps([src, fl, tag]))
    man = os.path.join(OBJ, key + ".json")
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
    for e in entries:
        if os.path.exists(os.path.join(OBJ, e["obj"])) and all(fhash(p) == h for p, h in e["deps"].items()):
            return os.path.join(OBJ, e["obj"])
    tmp = os.path.join(OBJ, f"{key}.{os.getpid()}.tmp.o")
    dep = tmp + ".d"
    r = subprocess.run([CXX] + fl + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compiling {src} failed:\n{r.stderr[-4000:]}")
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d.replace("\\ ", " ") for d in re.findall(r"(?:[^\s\\]|\\ )+", txt.split(":", 1)[1])]
    deps = [os.path.normpath(d) for d in deps if not d.startswith("/usr/")]
    os.remove(dep)
    dm = {d: fhash(d) for d in deps}
    dm[src] = fhash(src)
    name = f"{key}.{sh(json.dumps(dm, sort_keys=True))}.o"
    os.replace(tmp, os.path.join(OBJ, name))
    entries = [e for e in entries if e["obj"] != name] + [{"obj": name, "deps": dm}]
    # keep at most 4 generations per source
    for e in entries[:-4]:
        try: os.remove(os.path.join(OBJ, e["obj"]))
        except OSError: pass
    entries = entries[-4:]
    t2 = man + f".{os.getpid()}"
    json.dump(entries, open(t2, "w"))
    os.replace(t2, man)
    return os.path.join(OBJ, name)

def compile_many(jobs):
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_one, *j) for j in jobs]
        return [f.result() for f in futs]

def link(out, objs, args):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    sig = sh(json.dumps([[os.path.basename(o) for o in objs], args]))
    sigf = out + ".sig"
    if os.path.exists(out) and os.path.exists(sigf) and open(sigf).read() == sig:
        return out
    tmp = out + f".{os.getpid()}.tmp"
    r = subprocess.run([CXX, "-o", tmp] + objs + args, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"linking {out} failed:\n{r.stderr[-4000:]}")
    os.replace(tmp, out)
    open(sigf, "w").write(sig)
    return out

# ---- source lists out of meson.build --------------------------------------
def _meson_list(head):
    txt = open(f"{REPO}/meson.build").read()
    i = txt.index(head)
    j = txt.index("files(", i)
    depth, k = 0, j + 5
    while True:
        c = txt[k]
        if c == "(": depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0: break
        k += 1
    return re.findall(r"'([^']+)'", txt[j:k])

CORE_DEF = ["src/core/cpufeatures.cpp", "src/core/internalfilters.cpp", "src/core/kernel/cpulevel.cpp",
            "src/core/memoryuse.cpp", "src/core/textfilter.cpp", "src/core/vsapi.cpp", "src/core/vscore.cpp",
            "src/core/vslog.cpp", "src/core/vsresize.cpp", "src/core/vsthreadpool.cpp"]

def lists():
    def g(h, d=None):
        try:
            return _meson_list(h)
        except (ValueError, IndexError):
            if d is None: raise
            return d
    return {
        "core": g("libvapoursynth = library('libvapoursynth'", CORE_DEF),
        "filters": g("filters_sources = files("),
        "sse2": g("sse2_kernel_sources = files("),
        "avx2": g("avx2_kernel_sources = files("),
        "avx512": g("avx512_kernel_sources = files("),
        "vspipe": g("executable('vspipe'"),
        "vsscript": g("libvsscript = library('vsscript'"),
        "py": g("py.extension_module('vapoursynth'"),
    }

def _src(p):
    return RESIZE_STUB if p.endswith("vsresize.cpp") else f"{REPO}/{p}"

GUARD = "VP_TRACE"

def py_include():
    import sysconfig
    for c in ("/usr/include/python3.12",):
        if os.path.exists(c + "/Python.h"): return c
    return sysconfig.get_paths()["include"]

class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def build(parts=("core", "filters"), hooks=False, opt="-O1"):
    """Build the parts asked for; returns the directory holding the libraries."""
    parts = tuple(dict.fromkeys(tuple(parts) + ("core", "filters")))      # a core needs its filter library
    with Lock():
        return _build(parts, hooks, opt)

def _build(parts, hooks, opt):
    L = lists()
    outdir = os.path.join(OUT, ("hook" if hooks else "plain") + opt.replace("-", "_"), "vapoursynth")
    os.makedirs(outdir, exist_ok=True)
    hk = [f"-D{GUARD}"] if hooks else []
    jobs, groups = [], {}
    def add(g, srcs, fl):
        for s in srcs:
            groups.setdefault(g, []).append(len(jobs))
            jobs.append((_src(s), fl))
    vis = ["-fvisibility=hidden", "-DVS_CORE_EXPORTS"]
    inc = ["-I/usr/include"]
    if "python" in parts:
        pyx = [s for s in L["py"] if s.endswith(".pyx")][0]
        cpp = _cython(pyx)
    if "core" in parts:
        add("core", L["core"], flags(opt, vis + hk))
    if "filters" in parts:
        order = L["filters"] + L["sse2"]
        add("filters", order, flags(opt))
        add("filters", L["avx2"], flags(opt, ["-march=x86-64-v3"]))
        add("filters", L["avx512"], flags(opt, ["-march=x86-64-v4"]))
    if "python" in parts:
        pf = flags("-O0", ["-fvisibility=hidden", "-fvisibility-inlines-hidden", f"-I{py_include()}", "-DPy_LIMITED_API=0x030c0000"])
        groups.setdefault("python", []).append(len(jobs)); jobs.append((cpp, pf))
        add("python", [s for s in L["py"] if not s.endswith(".pyx")], pf)
    if "vsscript" in parts:
        add("vsscript", L["vsscript"], flags(opt, ["-fvisibility=hidden", "-DPy_NO_LINK_LIB", "-DVS_CORE_EXPORTS", f"-I{py_include()}"]))
    if "vspipe" in parts:
        add("vspipe", L["vspipe"], flags(opt, ["-fvisibility=hidden"]))
    # biggest first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]) if os.path.exists(jobs[i][0]) else 0)
    objs = [None] * len(jobs)
    res = compile_many([jobs[i] for i in order])
    for i, o in zip(order, res): objs[i] = o
    g = lambda n: [objs[i] for i in groups[n]]
    if "core" in parts:
        lib = link(f"{outdir}/libvapoursynth.so.4", g("core"),
             ["-shared", "-fPIC", "-Wl,-soname,libvapoursynth.so.4", "-pthread", "-lzimg", "-ldl"])
        ln = f"{outdir}/libvapoursynth.so"
        if not os.path.islink(ln): os.symlink("libvapoursynth.so.4", ln)
    if "filters" in parts:
        link(f"{outdir}/libvapoursynthfilters.so", g("filters"), ["-shared", "-fPIC", "-pthread"])
    if "python" in parts:
        link(f"{outdir}/vapoursynth.abi3.so", g("python"),
             ["-shared", "-fPIC", "-Wl,--allow-shlib-undefined", "-Wl,-rpath,$ORIGIN/", f"{outdir}/libvapoursynth.so.4"])
        for f in os.listdir(f"{REPO}/src/py"):
            if f.endswith(".py"):
                shutil.copyfile(f"{REPO}/src/py/{f}", f"{outdir}/{f}")
    if "vsscript" in parts:
        link(f"{outdir}/libvsscript.so", g("vsscript"), ["-shared", "-fPIC", "-Wl,-soname,libvsscript.so", "-ldl", "-pthread"])
        ln = f"{outdir}/libvsscript.so.4"
    if "vspipe" in parts:
        link(f"{outdir}/vspipe", g("vspipe"), [f"-L{outdir}", "-Wl,-rpath,$ORIGIN/", f"{outdir}/libvsscript.so", "-pthread"])
    return outdir

def _cython(pyx):
    src = f"{REPO}/{pyx}"
    d = os.path.dirname(src)
    incs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".pxd", ".pyx", ".pxi")))
    key = sh(json.dumps([fhash(p) for p in incs]))
    os.makedirs(OBJ, exist_ok=True)
    out = os.path.join(OBJ, f"pyx_{key}.cpp")
    if not os.path.exists(out):
        tmp = os.path.join(OBJ, f"pyx_{key}.{os.getpid()}.tmp.cpp")
        env = dict(os.environ, PATH=VENV + ":" + os.environ["PATH"])
        r = subprocess.run([f"{VENV}/cython", "--fast-fail", "-3", "--cplus", src, "-o", tmp], capture_output=True, text=True, env=env)
        if r.returncode:
            raise BuildError("cython failed:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
        old = sorted((f for f in os.listdir(OBJ) if f.startswith("pyx_") and f.endswith(".cpp")), key=lambda f: os.path.getmtime(os.path.join(OBJ, f)))
        for f in old[:-4]: os.remove(os.path.join(OBJ, f))
    return out

def build_driver(name, libdir, opt="-O1", extra=(), libs=("core",)):
    """Compile /verif/drivers/<name>.cpp against the headers of /repo and the built core."""
    with Lock():
        o = compile_one(f"{VERIF}/drivers/{name}.cpp", flags(opt, [f"-I{VERIF}/drivers"] + list(extra)))
        args = ["-Wl,-rpath," + libdir, f"{libdir}/libvapoursynth.so.4", "-pthread", "-ldl", "-rdynamic"]
        if "vsscript" in libs: args += [f"{libdir}/libvsscript.so"]
        return link(f"{libdir}/../bin/{name}", [o], args)

def build_plugin(name, libdir):
    """A shared library out of /verif/drivers/plugins, next to the drivers."""
    with Lock():
        o = compile_one(f"{VERIF}/drivers/plugins/{name}.cpp", flags("-O1"))
        return link(f"{libdir}/../bin/{name}.so", [o], ["-shared", "-fPIC", "-ldl"])

if __name__ == "__main__":
    t = time.time()
    parts = sys.argv[1:] or ["core", "filters", "python", "vsscript", "vspipe"]
    print(build(parts), f"{time.time()-t:.1f}s")
