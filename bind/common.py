"""What the checkers of the bindings share."""
import json, os, random, sys
ET = ["rename", "modify", "create", "destroy", "owner", "other"]
PT = ["dir", "file", "hard_link", "sym_link", "watcher", "other"]

class Watched:
    def __init__(s): s.events, s.closes, s.open_closes, s.path, s.idle, s.returned = [], [], 0, None, False, 0

def read_log(path):
    """{id: Watched} of the tee's log."""
    out = {}
    unh = lambda h: None if h == "-" else bytes.fromhex(h[1:])
    try: lines = open(path).read().splitlines()
    except FileNotFoundError: lines = []
    for l in lines:
        f = l.split()
        if f[0] == "X": continue
        w = out.setdefault(int(f[1]), Watched())
        if f[0] == "O": w.path = unh(f[2])
        elif f[0] == "E": w.events.append((int(f[2]), int(f[3]), int(f[4]), unh(f[5]), unh(f[6])))
        elif f[0] == "e": w.returned += 1
        elif f[0] == "Q": w.idle = True
        elif f[0] == "c": w.closes.append(f[2] == "1")
    return out

class Report:
    def __init__(s, prop): s.prop, s.n, s.sum, s.distinct, s.samples = prop, 0, {}, {}, []
    def viol(s, key, detail):
        s.n += 1
        if s.n < 20: print(json.dumps({"viol": dict(prop=s.prop, key=key, detail=detail)}), flush=True)
    def add(s, k, n=1): s.sum[k] = s.sum.get(k, 0) + n
    def see(s, k, what): s.distinct.setdefault(k, set()).add(str(what))
    def end(s):
        print(json.dumps({"cov": dict(sum=s.sum, distinct={k: sorted(v) for k, v in s.distinct.items()}, samples=s.samples[:3])}))
        print(json.dumps({"done": True}), flush=True)

def shape(e):
    n = e[3]
    try: n.decode(); u = "u"
    except UnicodeDecodeError: u = "b"
    return "%s%s%s%d%s%s" % (ET[e[1]][:2], PT[e[2]][:2], u, len(n).bit_length(), "c" if any(x < 32 for x in n) else "", "-" if e[4] is None else "a")

def mutate(rng, d, n, utf8=False, tag=""):
    """Changes in directory d (bytes), names of all kinds."""
    live = []
    def name():
        k = rng.randrange(5)
        if k == 0 and not utf8: b = bytes(rng.choice([x for x in range(1, 256) if x != 47]) for _ in range(rng.randrange(1, 30)))
        elif k == 1: b = "".join(rng.choice("\u00e9\u00df\u4e16\u754c\U0001f600\"\\\n\t\x01\x7f\u2028 ") for _ in range(rng.randrange(1, 20))).encode()
        elif k == 2: b = b"n" * rng.randrange(1, 240)
        else: b = b"f%d" % rng.randrange(1000)
        b += b"%d" % rng.randrange(10**6)
        return os.path.join(d, b)
    for _ in range(n):
        k = rng.randrange(6)
        try:
            if k < 2 or not live:
                p = name(); open(p, "wb").close(); live.append(p)
            elif k == 2: open(rng.choice(live), "ab").write(b"x")
            elif k == 3:
                i = rng.randrange(len(live)); q = name(); os.rename(live[i], q); live[i] = q
            elif k == 4: os.unlink(live.pop(rng.randrange(len(live))))
            else:
                p = name(); rng.choice([lambda: os.symlink(b"nowhere", p), lambda: os.mkdir(p)])()
        except OSError: pass
