"""Builds the drivers from /repo's working tree, keyed by everything that goes in."""
import concurrent.futures as cf
import functools, hashlib, os, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
H = V + "/harness"
CACHE = os.environ.get("VP_BUILD", V + "/.build")
TREES = {"single": "include", "devel": "devel/include"}
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-O1"],
    "tsan": ["-fsanitize=thread", "-O1"],
    "plain": ["-O2"],
}
BASE = ["-std=c++20", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-pthread"]

class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[:6000]))
    return r.stdout.decode(errors="replace")

def files_under(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r): out.append(r); continue
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in (".git", "out", "build", "node_modules", "__pycache__", "target")]
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

_locks, _ml = {}, threading.Lock()
def once(key, make):
    """CACHE/key, made by make(dir) if it is not there."""
    with _ml: l = _locks.setdefault(key, threading.Lock())
    with l:
        d = os.path.join(CACHE, key)
        if os.path.exists(d + "/.ok"): return d
        os.makedirs(CACHE, exist_ok=True)
        t = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
        try:
            make(t)
            open(t + "/.ok", "w").close()
            try: os.rename(t, d)
            except OSError: pass   # somebody else was faster
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return d

POOL = cf.ThreadPoolExecutor(8)

def harness_objs(san):
    srcs = [f for f in sorted(os.listdir(H)) if f.endswith(".cpp") and f not in ("sut.cpp", "values.cpp")]
    key = "h-%s-%s" % (san, digest(files_under(H), " ".join(BASE + SAN[san])))
    def make(d):
        fs = [POOL.submit(run, ["g++"] + BASE + SAN[san] + ["-Wall", "-Wextra", "-c", H + "/" + s, "-o", d + "/" + s[:-4] + ".o"]) for s in srcs]
        for f in fs: f.result()
    d = once(key, make)
    return [d + "/" + s[:-4] + ".o" for s in srcs]

def repo_src(tree):
    return files_under(REPO + "/" + TREES[tree], REPO + "/watcher-c/src", REPO + "/watcher-c/include")

def driver(tree, san, defs=()):
    """The scenario driver with the library of that header tree in it. With san
    "x-bare" nothing stands between the library and the system."""
    san, bare = san.split("-")[0], san.endswith("-bare")
    inc = ["-I" + REPO + "/" + TREES[tree], "-I" + REPO + "/watcher-c/include", "-I" + H]
    key = "d-%s-%s%s-%s" % (tree, san, "-bare" if bare else "", digest(repo_src(tree) + files_under(H), " ".join(BASE + SAN[san] + list(defs))))
    def make(d):
        def obj(src, o):
            run(["g++"] + BASE + SAN[san] + list(defs) + inc + ["-c", src, "-o", o])
            if not bare: run(["objcopy", "--redefine-syms=" + H + "/wraps.txt", o])
        fs = [POOL.submit(obj, H + "/sut.cpp", d + "/sut.o"), POOL.submit(obj, REPO + "/watcher-c/src/watcher-c.cpp", d + "/capi.o")]
        hs = harness_objs(san)
        for f in fs: f.result()
        run(["g++"] + SAN[san] + hs + [d + "/sut.o", d + "/capi.o", "-o", d + "/drv", "-pthread"])
        os.unlink(d + "/sut.o"); os.unlink(d + "/capi.o")
    return once(key, make) + "/drv"

def program(name, src, tree, san, defs=(), extra=(), std="c++17", deps=()):
    """A program of one or more sources, without the shim."""
    src = [src] if isinstance(src, str) else list(src)
    inc = ["-I" + REPO + "/" + TREES[tree], "-I" + REPO + "/watcher-c/include", "-I" + H]
    fl = ["-std=" + std if x.startswith("-std") else x for x in BASE] + SAN[san] + list(defs)
    key = "p-%s-%s-%s-%s" % (name, tree, san, digest(repo_src(tree) + src + list(deps) + files_under(H), " ".join(fl) + " ".join(extra)))
    return once(key, lambda d: run(["g++"] + fl + inc + src + ["-o", d + "/prog"] + list(extra))) + "/prog"

B = V + "/bind"
def shared(tree, san):
    """The tee over the real C library, for the bindings: libtee.so."""
    inc = ["-I" + REPO + "/" + TREES[tree], "-I" + REPO + "/watcher-c/include"]
    fl = BASE + SAN[san] + ["-fPIC"]
    key = "t-%s-%s-%s" % (tree, san, digest(repo_src(tree) + [B + "/tee.cpp", B + "/gen.hpp"], " ".join(fl)))
    def make(d):
        fs = [POOL.submit(run, ["g++"] + fl + inc + ["-c", REPO + "/watcher-c/src/watcher-c.cpp", "-o", d + "/capi.o"]),
              POOL.submit(run, ["g++"] + fl + inc + ["-c", B + "/tee.cpp", "-o", d + "/tee.o"])]
        for f in fs: f.result()
        run(["objcopy", "--redefine-sym", "wtr_watcher_open=real_wtr_watcher_open", "--redefine-sym", "wtr_watcher_close=real_wtr_watcher_close", d + "/capi.o"])
        run(["g++"] + SAN[san] + ["-shared", d + "/tee.o", d + "/capi.o", "-o", d + "/libtee.so", "-pthread"])
    return once(key, make) + "/libtee.so"

CLI_WRAPS = ("nanosleep clock_nanosleep sleep usleep pthread_cond_clockwait pthread_cond_timedwait poll select fanotify_init inotify_init1 inotify_init read "
             "_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv").split()
def cli(which, tree, san):
    """A command line program, over the header in V/cli/fake."""
    src = REPO + "/src/wtr/" + which + "/main.cpp"
    c = V + "/cli"
    inc = ["-I" + c + "/fake", "-I" + B, "-I" + REPO + "/" + TREES[tree]]
    fl = BASE + SAN[san]
    key = "c-%s-%s-%s-%s" % (which, tree, san, digest(repo_src(tree) + files_under(REPO + "/src", c) + [B + "/gen.hpp"], " ".join(fl)))
    def make(d):
        fs = [POOL.submit(run, ["g++"] + fl + inc + ["-c", x, "-o", d + "/" + o]) for x, o in ((src, "main.o"), (c + "/wrap.cpp", "wrap.o"))]
        for f in fs: f.result()
        run(["g++"] + SAN[san] + [d + "/main.o", d + "/wrap.o", "-o", d + "/prog", "-pthread"] + ["-Wl,--wrap=" + w for w in CLI_WRAPS])
    return once(key, make) + "/prog"

@functools.lru_cache(None)
def libasan(): return run(["gcc", "-print-file-name=libasan.so"]).strip()

ACCT = ("malloc calloc realloc strdup strndup free _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm napi_create_reference napi_delete_reference "
        "napi_create_threadsafe_function napi_acquire_threadsafe_function napi_release_threadsafe_function").split()
def node(tree, san):
    """The Node.js binding over the tee: a directory with build/watcher.js."""
    n = REPO + "/watcher-nodejs/lib"
    inc = ["-I" + REPO + "/" + TREES[tree], "-I" + REPO + "/watcher-c/include", "-I/usr/include/node", "-I" + B]
    fl = BASE + SAN[san] + ["-fPIC"]
    mine = [B + "/" + x for x in ("tee.cpp", "gen.hpp", "acct.cpp", "acct_addon.cpp", "transpile.cjs")]
    key = "n-%s-%s-%s" % (tree, san, digest(repo_src(tree) + files_under(n) + mine, " ".join(fl + ACCT)))
    def make(d):
        os.makedirs(d + "/build/Release")
        src = dict(capi=REPO + "/watcher-c/src/watcher-c.cpp", tee=B + "/tee.cpp", napi=n + "/watcher-napi.cpp", acct=B + "/acct.cpp")
        fs = [POOL.submit(run, ["g++"] + fl + inc + ["-c", s, "-o", "%s/%s.o" % (d, o)]) for o, s in src.items()]
        fs.append(POOL.submit(run, ["node", B + "/transpile.cjs", n + "/watcher.ts", d + "/build/watcher.js"]))
        fs.append(POOL.submit(run, ["g++"] + BASE + SAN["plain"] + inc + ["-fPIC", "-shared", B + "/acct_addon.cpp", "-o", d + "/acct.node"]))
        for f in fs: f.result()
        run(["objcopy", "--redefine-sym", "wtr_watcher_open=real_wtr_watcher_open", "--redefine-sym", "wtr_watcher_close=real_wtr_watcher_close", d + "/capi.o"])
        run(["objcopy"] + ["--redefine-sym=%s=vp_%s" % (a, a) for a in ACCT] + [d + "/napi.o"])
        run(["g++"] + SAN[san] + ["-shared"] + ["%s/%s.o" % (d, o) for o in src] + ["-o", d + "/build/Release/watcher-napi.node", "-pthread"])
        for o in src: os.unlink("%s/%s.o" % (d, o))
        open(d + "/package.json", "w").write('{"type":"module"}')
    return once(key, make)

RS = V + "/rust"
def rust(tree, miri=False):
    """The Rust binding with its driver over the tee (under AddressSanitizer), or with
    the other one over a library made up in Rust (to be interpreted)."""
    lib = REPO + "/watcher-rs/src/lib.rs"
    tee = None if miri else os.path.dirname(shared(tree, "plain"))
    key = "r-%s-%s" % ("miri" if miri else tree, digest(files_under(RS, REPO + "/watcher-rs/src", REPO + "/watcher-c/include"), str(tee)))
    def make(d):
        c = d + "/crate"
        shutil.copytree(RS, c)
        open(c + "/Cargo.toml", "w").write(open(RS + "/Cargo.toml.in").read().replace("@LIB@", lib))
        run(["gcc", "-I" + REPO + "/watcher-c/include", RS + "/header.c", "-o", d + "/header"])
        open(c + "/header.rs", "w").write(run([d + "/header"]))
        e = dict(os.environ, CARGO_TARGET_DIR=c + "/target", CARGO_TERM_COLOR="never")
        if miri:
            e.update(VP_MIRI="1")
            run(["cargo", "+nightly", "miri", "setup"], cwd=c, env=e)
        else:
            e.update(VP_TEE=tee, RUSTFLAGS="-Zsanitizer=address")
            run(["cargo", "+nightly", "build", "-q", "--offline", "--bin", "drive", "--target", "x86_64-unknown-linux-gnu"], cwd=c, env=e)
            shutil.move(c + "/target/x86_64-unknown-linux-gnu/debug/drive", d + "/drive")
            shutil.rmtree(c)
    return once(key, make)

def prune(keep_mb=3000):
    """Old build results go when there are too many."""
    try: ds = [os.path.join(CACHE, x) for x in os.listdir(CACHE)]
    except FileNotFoundError: return
    size = lambda d: sum(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d)) if os.path.isdir(d) else 0
    l = sorted((os.path.getmtime(d), d, size(d)) for d in ds)
    total = sum(x[2] for x in l)
    for t, d, s in l:
        if total < keep_mb << 20: break
        shutil.rmtree(d, ignore_errors=True); total -= s

def everything():
    prune()
    fs = [cf.ThreadPoolExecutor(4)]
    ex = fs[0]
    j = [ex.submit(driver, t, s) for t in TREES for s in ("asan", "tsan")]
    for x in j: x.result()

if __name__ == "__main__":
    try: everything()
    except BuildError as e: print(e); sys.exit(2)
