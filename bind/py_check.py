"""Drives the Python binding; run with python3, VP_SO (the tee), VP_PKG (directory of
the package `watcher`), VP_LOG. Arguments prop= seed= rounds= scratch=."""
import ctypes, gc, json, os, random, sys, threading, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
args = dict(a.split("=", 1) for a in sys.argv[1:])
rng = random.Random(int(args["seed"]))
R = common.Report(args["prop"])
SO, LOG, SCR = os.environ["VP_SO"], os.environ["VP_LOG"], args["scratch"]
asked = []
_cdll, _exists = ctypes.CDLL, os.path.exists
class CDLL(_cdll):
    def __init__(s, name, *a, **k):
        if name and "libwatcher-c" in os.path.basename(str(name)):
            asked.append(str(name)); name = SO
        super().__init__(name, *a, **k)
ctypes.CDLL = CDLL
os.path.exists = lambda p: True if "libwatcher-c" in os.path.basename(str(p)) else _exists(p)
sys.path.insert(0, os.environ["VP_PKG"])
import watcher
Watch, Event, EffectType, PathType = watcher.Watch, watcher.Event, watcher.EffectType, watcher.PathType
C15 = args["prop"] == "C15"

ignored = []
sys.unraisablehook = lambda u: ignored.append(u.exc_type.__name__)
class Boom(Exception): pass

class Seen:
    """A callback which writes down what it gets."""
    all = []
    def __init__(s, raise_at=(), slow=0, closes=None):
        s.got, s.raise_at, s.slow, s.end, s.id, s.threads = [], raise_at, slow, None, None, set()
        Seen.all.append(s)
    def cb(s, e):
        n = len(s.got)
        s.got.append((e, type(e) is Event))
        if s.slow: time.sleep(s.slow * random.random())
        if n in s.raise_at: raise Boom()

opened = [0]
def watch(path, seen):
    """Watched as asked for, or not at all (None)."""
    opened[0] += 1
    seen.id = opened[0]
    seen.path = None
    try: w = Watch(path, seen.cb)
    except ValueError:
        opened[0] -= 1; Seen.all.remove(seen); R.add("refused")
        return None
    seen.path = os.fsencode(path)
    return w
def wait(f, s=30):
    t = time.monotonic() + s
    while not f():
        if time.monotonic() > t: return False
        time.sleep(0.002)
    return True
def log(): return common.read_log(LOG)
def idle(seen): return log().get(seen.id, common.Watched()).idle
def closed_now(seen):
    seen.end = len(seen.got)

def fake_path(n, flags): return "fake:%d:%d:%s" % (rng.randrange(10**9), n, flags or "x")

def one(kind):
    R.see("kinds", kind); R.add("watches")
    raise_at = set(rng.sample(range(2000), 40)) if rng.random() < 0.25 else ()
    s = Seen(raise_at, rng.choice([0, 0, 0.0005]))
    if kind.startswith("fake"):
        n = rng.choice([0, 1, 20, 300, 1500]); flags = rng.choice(["x", "s", "d", "u", "sd"])
        mk = lambda: watch(fake_path(n, flags), s)
        settle = lambda: wait(lambda: len(s.got) >= n + 1)
        hit = "d" not in flags
    else:
        d = os.path.join(os.fsencode(SCR), b"d%d" % opened[0] + rng.choice([b"", "é世".encode(), b"\xff\xfe", b" \n\""]))
        os.mkdir(d); path = os.fsdecode(d)
        mk = lambda: watch(path, s)
        def settle():
            wait(lambda: s.got)
            common.mutate(rng, d, rng.randrange(120))
            e = os.path.join(d, b"end%d" % rng.randrange(10**9)); open(e, "wb").close()
            return wait(lambda: any(os.fsencode(x.path_name) == e for x, _ in list(s.got)), 20)
        hit = True
    how = kind.split("-")[1]
    if how == "odd":
        os.mkdir(os.path.join(d, b"x")); deep = path + "/" + "/".join(["e" * 200] * 30)
        for p in (path, path + "\0", path + "\0x", path + "/\0/x", "\0" + path, path + "/x\0", "\0", "", deep[:4094], deep[:4095], deep[:4096], deep, path + "/." * 3000, path + "\udcff\udc80", path + "\udcff\0x", "/" * 5000 + path):
            x = Seen(); w = watch(p, x)
            if w is None: continue
            wait(lambda: x.got, 10); w.close(); closed_now(x); w.close()
        Seen.all.remove(s)
        return
    if how == "with":
        with mk() as w:
            if not settle(): R.viol("stuck", "not everything arrived in 30 s (%s)" % kind)
        closed_now(s); w.close(); w.close(); del w
    elif how == "inner":
        with mk() as w:
            settle(); w.close(); closed_now(s)
    elif how == "raise":
        try:
            with mk() as w:
                settle(); raise KeyError("x")
        except KeyError: pass
        else: R.viol("with-swallows", "leaving the context by an exception lost it")
        closed_now(s)
    elif how == "early":
        w = mk(); time.sleep(rng.choice([0, 0, 0.001, 0.01])); w.close(); closed_now(s); w.close()
    elif how == "threads":
        w = mk()
        if rng.random() < 0.5: settle()
        ts = [threading.Thread(target=w.close) for _ in range(rng.randrange(1, 4))]
        for t in ts: t.start()
        for t in ts: t.join()
        closed_now(s); w.close()
    elif how == "gc":
        w = mk()
        if rng.random() < 0.5: settle()
        if rng.random() < 0.5: l = [w]; l.append(l); del l
        del w; gc.collect(); closed_now(s)
    elif how == "del":
        w = mk(); w.close(); closed_now(s); w.__del__(); w.__exit__(None, None, None); del w; gc.collect()
    elif how == "traffic":
        w = mk(); stop = threading.Event()
        def busy():
            r = random.Random(1); x = os.path.join(SCR, "busy"); os.makedirs(x, exist_ok=True)
            while not stop.is_set():
                if not kind.startswith("fake"): common.mutate(r, d, 5)
                else: time.sleep(0.001)
        t = threading.Thread(target=busy); t.start()
        wait(lambda: len(s.got) > rng.randrange(1, 20) or (kind.startswith("fake") and len(s.got) > n))
        w.close(); closed_now(s); stop.set(); t.join()
    elif how == "many":
        ws = [(mk(), s)]
        for _ in range(rng.randrange(1, 5)):
            x = Seen(); ws.append((watch(fake_path(rng.randrange(200), rng.choice("xsud")), x), x))
        rng.shuffle(ws)
        for w, x in ws: w.close(); closed_now(x)

def check():
    time.sleep(0.05)
    L = log()
    for s in Seen.all:
        w = L.get(s.id)
        if w is None: R.viol("not-opened", "watch %d never opened a watcher" % s.id); continue
        if len(s.got) > s.end: R.viol("called-after-close", "%d calls after close had returned" % (len(s.got) - s.end))
        if len(w.closes) == 0: R.viol("not-closed", "the watcher was let go, and its C watcher never closed")
        if s.path is not None and w.path != s.path: R.viol("other-path", "asked to watch %r, the C library was given %r" % (s.path[-120:], w.path[-120:])); continue
        want = w.events
        if len(s.got) != len(want):
            R.viol("count", "the C library delivered %d events, the callback was called %d times (watch of %r; raising at %s)" % (len(want), len(s.got), w.path, bool(s.raise_at)))
        for i, (x, (e, ok)) in enumerate(zip(want, s.got)):
            R.add("events"); R.see("event_shapes", common.shape(x))
            if not ok: R.viol("type", "not an Event: %r" % (e,)); break
            t, et, pt, p, a = x
            enc = lambda v: None if v is None else v.encode("utf-8", "surrogateescape") if isinstance(v, str) else v
            bad = [k for k, g, h in (("effect_time", e.effect_time, t), ("path_name", enc(e.path_name), p), ("associated_path_name", enc(e.associated_path_name), a),
                   ("effect_type", e.effect_type, EffectType[common.ET[et].upper()]), ("path_type", e.path_type, PathType[common.PT[pt].upper()])) if g != h]
            if bad and not C15:
                R.viol("field:" + ",".join(bad), "event %d of watch %r: the C library delivered %r, the callback got %r" % (i, w.path, x, e)); break
            if type(e.effect_time) is not int or type(e.path_name) is not str: R.viol("type", repr(e)); break
            if C15: json_of(e)
    R.add("closes", sum(len(w.closes) for w in L.values()))
    if Seen.all: R.samples.append("watch %r, %d events, closes %r" % (L[1].path, len(L[1].events), L[1].closes))
    if not asked: R.viol("library", "no library named libwatcher-c was loaded")

def json_of(e):
    R.add("forms")
    try: s = e.to_json(); j = json.loads(s)
    except ValueError as x: R.viol("python-json", "%r: %r is not JSON: %s" % (e, s, x)); return
    want = dict(effect_time=e.effect_time, path_name=e.path_name, associated_path_name=e.associated_path_name, effect_type=e.effect_type.name.lower(), path_type=e.path_type.name.lower())
    if j != want: R.viol("python-json", "%r became %r" % (want, j))
    R.see("shapes", "py%d%s%s" % (len(e.path_name).bit_length(), e.effect_type.name, e.path_type.name))

kinds = [b + "-" + h for b in ("fake", "real") for h in ("with", "inner", "raise", "early", "threads", "gc", "del", "traffic", "many")] + ["real-odd"]
todo = []
while len(todo) < int(args["rounds"]): todo += rng.sample(kinds, len(kinds))
for k in todo[:int(args["rounds"])]: one(k)
gc.collect()
check()
R.end()
sys.stdout.flush()
