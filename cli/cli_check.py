"""Drives the command line programs. Arguments: prop= seed= rounds= scratch= what=
(args, stream, real, json, tiny); environment VP_CLI, VP_TINY."""
import fractions, json, os, random, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bind"))
import common
from common import ET, PT
args = dict(a.split("=", 1) for a in sys.argv[1:])
rng = random.Random(int(args["seed"]))
PROP, SCR = args["prop"], args["scratch"]
R = common.Report(PROP)
CLI, TINY = os.environ["VP_CLI"], os.environ["VP_TINY"]
LIMIT = 60
UNITS = {}
for names, ns, lo, hi in ((("-nanoseconds", "-ns"), 1, 1, 1), (("-microseconds", "-us"), 10**3, 1, 1), (("-milliseconds", "-ms"), 10**6, 1, 1),
        (("-seconds", "-s"), 10**9, 1, 1), (("-minutes", "-m"), 60 * 10**9, 1, 1), (("-hours", "-h"), 3600 * 10**9, 1, 1), (("-days", "-d"), 86400 * 10**9, 1, 1),
        (("-weeks", "-w"), 7 * 86400 * 10**9, 1, 1), (("-months", "-mts"), 30 * 86400 * 10**9, 0.93, 1.034), (("-years", "-y"), 365 * 86400 * 10**9, 1, 1.003)):
    for n in names: UNITS[n] = (ns, lo, hi)
FOREVER = 2**63 - 1

class Run: pass
count = [0]
def run(argv, prog=None, fake=None, stdin=None, cwd=None, env={}, during=None, slow=False, close_stdin=True, limit=LIMIT):
    """One run to its end; during(r) is called while it runs and returns what goes to stdin."""
    count[0] += 1
    r = Run()
    r.argv = argv
    log = os.path.join(SCR, "log%d" % count[0])
    e = dict(os.environ, VP_LOG=log, **env)
    if fake: e["VP_FAKE"] = fake
    p = subprocess.Popen([prog or CLI] + argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or SCR)
    r.lines, buf, errs = [], [], []
    r.p, r.log = p, log
    def reader():
        if slow: time.sleep(0.3)
        while True:
            b = os.read(p.stdout.fileno(), 4096 if slow else 65536)
            if not b: break
            buf.append(b)
            if slow: time.sleep(0.001)
    def ereader(): errs.append(p.stderr.read())
    ts = [threading.Thread(target=reader, daemon=True), threading.Thread(target=ereader, daemon=True)]
    for t in ts: t.start()
    r.out_now = lambda: b"".join(list(buf))
    r.hung = False
    try:
        if during: stdin = during(r)
        if stdin: p.stdin.write(stdin); p.stdin.flush()
        if close_stdin: p.stdin.close()
    except BrokenPipeError: pass
    try: r.rc = p.wait(limit)
    except subprocess.TimeoutExpired: r.hung = True; p.kill(); r.rc = p.wait()
    for t in ts: t.join(10)
    try: p.stdin.close()
    except OSError: pass
    r.out, r.err = b"".join(buf), b"".join(errs)
    r.opened, r.want, r.sleeps, r.closed = [], [], [], []
    for l in (open(log).read().splitlines() if os.path.exists(log) else []):
        f = l.split()
        if f[0] == "O": r.opened.append(bytes.fromhex(f[1][1:]))
        elif f[0] == "S": r.sleeps.append(int(f[1]))
        elif f[0] == "c": r.closed.append(f[1] == "1")
        elif f[0] == "E":
            g = None if f[5] == "-" else (bytes.fromhex(f[5][1:]), int(f[6]), int(f[7]), int(f[8]))
            r.want.append((int(f[1]), int(f[2]), int(f[3]), bytes.fromhex(f[4][1:]), g))
    if os.path.exists(log): os.unlink(log)
    R.add("runs")
    if "Sanitizer" in r.err.decode(errors="replace") or "runtime error" in r.err.decode(errors="replace") or r.rc < 0 and not r.hung:
        R.viol("crash", "%r: status %d: %s" % (argv, r.rc, r.err.decode(errors="replace")[:1500]))
    if r.hung: R.viol("hang", "%r did not end within %d s" % (argv, limit))
    return r

def text(b):
    try: b.decode(); return True
    except UnicodeDecodeError: return False

def no_twice(pairs):
    d = dict(pairs)
    if len(d) != len(pairs): raise ValueError("a name twice")
    return d

def same(j, w):
    """Does the JSON say what the event was?"""
    t, et, pt, p, a = w
    bad = []
    if not isinstance(j, dict): return ["object"]
    if type(j.get("effect_time")) is not int or j["effect_time"] != t: bad.append("effect_time")
    if j.get("effect_type") != ET[et]: bad.append("effect_type")
    if j.get("path_type") != PT[pt]: bad.append("path_type")
    if text(p) and j.get("path_name") != p.decode(): bad.append("path_name")
    got = j.get("associated")
    if (got is None) != (a is None): bad.append("associated")
    elif a is not None:
        if text(a[0]) and got.get("path_name") != a[0].decode(): bad.append("associated.path_name")
        if got.get("effect_type") != ET[a[1]] or got.get("path_type") != PT[a[2]]: bad.append("associated.types")
        if "effect_time" in got and got["effect_time"] != a[3]: bad.append("associated.effect_time")
        if got.get("associated") is not None: bad.append("associated.associated")
    return bad

def stream(r, what):
    """Its output is the events it got, one line each."""
    if r.hung: return
    lines = r.out.split(b"\n")
    if r.out and lines[-1] != b"": R.viol("incomplete-line", "%s: the output ends in the middle of a line: %r" % (what, lines[-1][:200])); return
    lines = lines[:-1]
    if len(lines) != len(r.want): R.viol("line-count", "%s: %d events, %d lines" % (what, len(r.want), len(lines)))
    for i, (l, w) in enumerate(zip(lines, r.want)):
        R.add("lines"); R.see("event_shapes", common.shape(w)); R.add("forms")
        R.see("shapes", "cli" + common.shape(w))
        try: j = json.loads(l.decode("utf-8", "surrogateescape"), object_pairs_hook=no_twice)
        except ValueError as e:
            if text(l): R.viol("not-json", "%s: line %d of event %r is not JSON (%s): %r" % (what, i, w, e, l[:500])); break
            continue
        bad = same(j, w)
        if bad: R.viol("line-field:" + ",".join(bad), "%s: event %r was printed as %r" % (what, w, l[:500])); break
    if len(R.samples) < 3: R.samples.append("%s: %d lines, sleeps %r, status %d" % (what, len(lines), r.sleeps[:3], r.rc))

def status(r, good, what):
    if r.hung: return
    if good and r.rc != 0: R.viol("status", "%s: the watch ended well, but the status is %d" % (what, r.rc))
    if not good and r.rc == 0: R.viol("status", "%s: the watch ended with an error, but the status is 0" % what)
    if r.err: R.viol("stderr", "%s: wrote to standard error: %r" % (what, r.err[:300]))

patience = [20]
def wait_for(r, ready, n):
    """Until it is there; n lines must be once the events are delivered."""
    t = 0
    while not ready() and t < patience[0] and r.p.poll() is None: time.sleep(0.01); t += 0.01
    if ready() or r.p.poll() is not None: return
    patience[0] = 1
    sent = [l for l in open(r.log).read().splitlines() if l.startswith("E")] if os.path.exists(r.log) else []
    have = r.out_now().count(b"\n")
    if len(sent) >= n and have < n: R.viol("held-back", "%d events were delivered, and for %d s after that there were %d lines" % (len(sent), 20, have))
def enough(r, n):
    return lambda r: wait_for(r, lambda: r.out_now().count(b"\n") >= n, n)

def mkdir(name=b"d"):
    p = os.path.join(os.fsencode(SCR), name + b"%d" % rng.randrange(10**12))
    os.mkdir(p)
    return p
def fake(n, flags): return "%d:%d:%s" % (rng.randrange(10**9), n, flags)
NAMES = [b"d", "é世界".encode(), b" s p ", b"\"q\"", b"\xff\xfe", b"-ms", b"line\nbreak", b"n" * 200]

def amounts():
    k = rng.randrange(6)
    if k == 0: return str(rng.randrange(1, 20))
    if k == 1: return str(rng.randrange(1, 10**6))
    if k == 2: return str(10**rng.randrange(0, 19))
    if k == 3: return str(2**rng.randrange(0, 64) + rng.choice([0, 1]))
    if k == 4: return str(2**64 - 2 - rng.randrange(5))
    return str(rng.randrange(1, 2**63))

def limits():
    unit = rng.choice(list(UNITS)); a = amounts(); d = mkdir(rng.choice(NAMES))
    what = "%s %s" % (unit, a)
    dies = rng.random() < 0.2
    r = run([os.fsdecode(d), unit, a], fake=fake(rng.randrange(30), rng.choice(["x", "s", "u"]) + ("d" if dies else "")), close_stdin=False)
    R.add("limits"); R.see("arg_shapes", "%s %d %s" % (unit, len(a), dies))
    if r.hung: return
    ns, lo, hi = UNITS[unit]
    want, got = int(a) * ns, sum(r.sleeps)
    least = min(want * fractions.Fraction(lo), FOREVER) * fractions.Fraction(10**9 - 1, 10**9)
    most = want * fractions.Fraction(hi) * fractions.Fraction(10**9 + 1, 10**9) + 2 * 10**6
    if got < least: R.viol("limit-short", "%s is %d ns; the program slept %d ns (%r)" % (what, want, got, r.sleeps[:5]))
    if got > most: R.viol("limit-long", "%s is %d ns; the program slept %d ns (%r)" % (what, want, got, r.sleeps[:5]))
    if r.opened != [d]: R.viol("wrong-path", "asked to watch %r, watched %r" % (d, r.opened))
    stream(r, what); status(r, not dies, what)

def wall():
    unit, a = rng.choice([("-ms", "300"), ("-milliseconds", "250"), ("-us", "200000"), ("-s", "1"), ("-ns", "350000000"), ("-seconds", "1")])
    want = int(a) * UNITS[unit][0] / 1e9
    d = mkdir()
    t = time.monotonic()
    r = run([os.fsdecode(d), unit, a], env={"VP_REAL_SLEEP": "1"}, close_stdin=False)
    t = time.monotonic() - t
    R.add("limits"); R.see("arg_shapes", "wall " + unit)
    if not r.hung and t < want: R.viol("limit-short", "%s %s took %.3f s" % (unit, a, t))
    if t > want + 20: R.viol("limit-long", "%s %s took %.1f s" % (unit, a, t))
    ends(r, d, True, "%s %s" % (unit, a))

def ends(r, d, good, what):
    """A real watch's first and last line."""
    if r.hung: return
    try: ls = [json.loads(l.decode("utf-8", "surrogateescape")) for l in r.out.splitlines()]
    except ValueError: R.viol("not-json", "%s: %r" % (what, r.out[:600])); return
    a = os.fsdecode(d)
    ok = ls and ls[0]["effect_type"] == "create" and ls[0]["path_type"] == "watcher" and ls[0]["path_name"].split("@")[0] in ("s/self/live", "e/self/live") and ls[0]["path_name"].endswith("@" + a)
    if not ok: R.viol("no-live", "%s: the first line is %r" % (what, ls[:1])); return
    ok = ls[-1]["effect_type"] == "destroy" and ls[-1]["path_type"] == "watcher" and ls[-1]["path_name"] == ("s" if good else "e") + "/self/die@" + a
    if not ok: R.viol("no-die", "%s: the last line is %r" % (what, ls[-1])); return
    status(r, good, what)
    return ls

HELP = [None]
def helps():
    argv = rng.choice([["-h"], ["--help"], ["-h", "-ms", "5"], ["--help", "."]])
    r = run(argv, fake=fake(5, "x"), close_stdin=False)
    R.see("arg_shapes", " ".join(argv))
    if r.hung: return
    if r.rc != 0: R.viol("help-status", "%r: status %d" % (argv, r.rc))
    if r.err: R.viol("help-stderr", "%r: %r" % (argv, r.err[:200]))
    if len(r.out) < 40: R.viol("help-missing", "%r printed %r" % (argv, r.out))
    if r.opened: R.viol("help-watches", "%r watched %r" % (argv, r.opened))
    HELP[0] = r.out

def bad_args():
    if not HELP[0]: helps()
    d = os.fsdecode(mkdir())
    u = rng.choice(list(UNITS))
    os.symlink("loop", d + "/loop")
    argv = rng.choice([["n" * 300], [d + "/" + "n" * 5000, u, "5"], [d + "/loop"], [d + "/loop", u, "5"], [d + "/no/such"], [""], [d, u], [d, u, ""], [d, u, "abc"], [d, u, "0"], [d, u, "-5"], [d, u, "5x"], [d, u, "5 6"], [d, u[1:], "5"], [d, u.upper(), "5"],
        [d, "-" + u, "5"], [d, u + "x", "5"], [d, "-q", "5"], [d, "", "5"], [d, "--help"], [d, "--", "5"], [d, "5", u], [d, "5"], [d, u, u], [d, u, "."], [d, u, "x5"], ["--halp"], [d + "/no", u, "5"], [d, u, "five"], [d, u, "-"], [d, u, "00"]])
    r = run(argv, fake=fake(5, "x"), close_stdin=False)
    R.add("bad_args"); R.see("arg_shapes", "bad " + " ".join(x.replace(d, "D") for x in argv))
    what = repr([x.replace(d, "D") for x in argv])
    if r.hung: return
    if r.rc == 0: R.viol("bad-args-status", "%s: status 0" % what)
    if r.out: R.viol("bad-args-stdout", "%s: printed %r" % (what, r.out[:200]))
    if r.err != HELP[0]: R.viol("bad-args-help", "%s: standard error is %r" % (what, r.err[:200]))
    if r.opened: R.viol("bad-args-watch", "%s: watched %r" % (what, r.opened))

def nowhere():
    """The current directory is gone."""
    if not HELP[0]: helps()
    d = mkdir()
    r = run(["-c", "rmdir \"$PWD\" && exec \"$0\"", CLI], prog="/bin/sh", fake=fake(5, "x"), cwd=os.fsdecode(d), close_stdin=False)
    R.add("bad_args"); R.see("arg_shapes", "nowhere")
    if r.hung: return
    if r.rc == 0 or r.out: R.viol("bad-args-status", "the current directory is gone: status %d, printed %r" % (r.rc, r.out[:200]))
    if r.opened: R.viol("bad-args-watch", "the current directory is gone: watched %r" % r.opened)

def burst():
    """Many events, none lost, also to a slow reader, until a line comes."""
    n = rng.choice([0, 3, 200, 1500]); flags = rng.choice(["x", "u", "us", "x"]); d = mkdir(rng.choice(NAMES)); slow = rng.random() < 0.3
    default = rng.random() < 0.3
    line = rng.choice([b"\n", b"stop\n", b" \n", b"", b"\n\n\n"])
    def during(r):
        enough(r, n + 1)(r)
        return line
    r = run([] if default else [os.fsdecode(d)], fake=fake(n, flags), during=during, slow=slow, cwd=d if default else None)
    what = "%d events%s" % (n, " to a slow reader" if slow else "")
    R.see("arg_shapes", "stream %d %s %s %r" % (n, slow, default, line))
    if r.hung: return
    if [os.path.join(d, x) if x in (b".", b"") else x for x in r.opened] not in ([d], [os.path.join(d, b"")], [d + b"/."]): R.viol("wrong-path", "asked to watch %r, watched %r" % (d, r.opened))
    if r.sleeps: R.add("sleeps_without_limit")
    stream(r, what); status(r, True, what)

def cut():
    """Ended in the middle of a burst, by time or by line, or by the watch itself."""
    d = mkdir(); k = rng.randrange(4)
    f = fake(20000, rng.choice(["x", "us"]))
    if k == 0: r = run([os.fsdecode(d), "-ms", str(rng.randrange(1, 60))], fake=f, close_stdin=False); good = True
    elif k == 1: r = run([os.fsdecode(d)], fake=f, during=lambda r: (time.sleep(rng.random() * 0.1), b"\n")[1]); good = True
    elif k == 2: r = run([os.fsdecode(d)], fake=fake(rng.randrange(200), "ud"), during=lambda r: (enough(r, 1)(r), time.sleep(0.1), b"\n")[2]); good = False
    else: r = run([os.fsdecode(d)], fake=fake(5, "b"), during=lambda r: (time.sleep(0.05), b"x\n")[1]); good = False
    R.see("arg_shapes", "cut %d" % k); R.add("cuts")
    stream(r, "cut %d" % k); status(r, good, "cut %d" % k)

def waits():
    """Without a limit and without a line, it goes on."""
    d = mkdir()
    still = []
    def during(r):
        enough(r, 51)(r)
        time.sleep(0.6)
        still.append(r.p.poll())
        return b"\n"
    r = run([os.fsdecode(d)], fake=fake(50, "u"), during=during)
    R.see("arg_shapes", "waits")
    if still != [None]: R.viol("stopped-by-itself", "without a time limit and without input it ended with status %r" % still)
    stream(r, "waits"); status(r, True, "waits")

def real():
    """A real watch: changes in turn and their lines."""
    d = mkdir(rng.choice([b"d", "é".encode(), b"a b", b"\"", b"t\tn\n"]))
    want = []
    def during(r):
        enough(r, 1)(r)
        def n():
            k = rng.randrange(3)
            if k == 0: x = "".join(rng.choice("\u00e9\u4e16\U0001f600\"\\\n\t\x01\x7f\u2028 /'"[:11]) for _ in range(rng.randrange(1, 12)))
            else: x = rng.choice(["f", "a b", "n" * 150, "\"", "\\"])
            return os.path.join(d, x.encode() + b"%d" % rng.randrange(10**9))
        live, last = [], None
        for _ in range(rng.randrange(1, 150)):
            k = rng.randrange(5)
            if k == 0 or not live:
                p = n(); os.close(os.open(p, os.O_CREAT | os.O_EXCL | os.O_WRONLY)); live.append(p); want.append(("create", "file", p, None)); last = None
            elif k == 1:
                p = rng.choice(live)
                if p == last: continue
                f = os.open(p, os.O_WRONLY | os.O_APPEND); os.write(f, b"x"); os.close(f); want.append(("modify", "file", p, None)); last = p
            elif k == 2:
                i = rng.randrange(len(live)); q = n(); os.rename(live[i], q); want.append(("rename", "file", live[i], q)); live[i] = q; last = None
            elif k == 3:
                p = live.pop(rng.randrange(len(live))); os.unlink(p); want.append(("destroy", "file", p, None)); last = None
            else:
                p = n(); os.mkdir(p); want.append(("create", "dir", p, None)); last = None
        p = os.path.join(d, b"end"); os.close(os.open(p, os.O_CREAT | os.O_WRONLY)); want.append(("create", "file", p, None))
        wait_for(r, lambda: b"/end\"" in r.out_now(), len(want))
        return b"\n"
    t0 = time.time_ns()
    r = run([os.fsdecode(d)], during=during)
    t1 = time.time_ns()
    R.see("arg_shapes", "real"); R.add("real")
    ls = ends(r, d, True, "real watch")
    if not ls: return
    R.add("lines", len(ls)); R.add("forms", len(ls))
    key = lambda l: (l["effect_type"], l["path_type"], os.fsencode(l["path_name"]), os.fsencode(l["associated"]["path_name"]) if l["associated"] else None)
    try: got = [key(l) for l in ls[1:-1] if l["path_type"] != "watcher"]
    except (KeyError, TypeError) as e: R.viol("line-field", "%r: %r" % (e, ls[:5])); return
    # a rename whose halves were read apart comes as two
    flat = lambda l: [x for e in l for x in ([("rename", e[1], e[2], None), ("rename", e[1], e[3], None)] if e[0] == "rename" and e[3] else [e])]
    if flat(got) != flat(want):
        i = next((i for i, (a, b) in enumerate(zip(flat(got), flat(want))) if a != b), min(len(flat(got)), len(flat(want))))
        R.viol("real-stream", "changes %r, lines %r" % (flat(want)[max(0, i - 1):i + 3], flat(got)[max(0, i - 1):i + 3]))
    for l in ls:
        if not t0 - 10**9 <= l["effect_time"] <= t1 + 10**9: R.viol("real-time", "%r" % l); break

def fails():
    d = mkdir(); k = rng.randrange(3)
    def line(r): enough(r, 2)(r); time.sleep(0.1); return b"\n"
    if k == 0: r = run([os.fsdecode(d)], env={"VP_FAIL": "init"}, during=line)
    elif k == 1: r = run([os.fsdecode(d), "-ms", "50"], env={"VP_FAIL": "init"}, close_stdin=False)
    else:
        def during(r):
            enough(r, 1)(r)
            for i in range(20): open(os.path.join(d, b"f%d" % i), "wb").close(); time.sleep(0.002)
            time.sleep(0.2)
            return b"\n"
        r = run([os.fsdecode(d)], env={"VP_FAIL": "read"}, during=during)
    R.see("arg_shapes", "fails %d" % k); R.add("failed_watches")
    ends(r, d, False, "failing watch %d" % k)

def file_root():
    """Something that exists and cannot be watched."""
    p = os.path.join(mkdir(), b"file"); open(p, "wb").close()
    r = run([os.fsdecode(p), "-ms", "50"], close_stdin=False)
    R.see("arg_shapes", "file"); R.add("failed_watches")
    ends(r, p, False, "a file")

def tiny():
    n = rng.choice([0, 5, 300]); dies = rng.random() < 0.3; d = mkdir()
    def during(r): enough(r, n + 1)(r); time.sleep(0.05 if dies else 0); return b"\n"
    r = run([], prog=TINY, fake=fake(n, "p" + ("d" if dies else "")), during=during, cwd=d)
    R.see("arg_shapes", "tiny %d %s" % (n, dies)); R.add("tiny")
    if r.hung: return
    lines = r.out.split(b"\n")[:-1]
    if len(lines) != len(r.want): R.viol("tiny-lines", "%d events, %d lines" % (len(r.want), len(lines)))
    for l, (t, et, pt, p, a) in zip(lines, r.want):
        R.add("lines")
        if not all(x in l for x in [ET[et].encode(), PT[pt].encode(), p] + ([a[0]] if a else [])): R.viol("tiny-line", "event %r printed as %r" % ((t, et, pt, p, a), l)); break
    if (b"->" in b"".join(lines)) != any(w[4] for w in r.want): R.viol("tiny-line", "associated: %r" % lines[:5])
    status(r, not dies, "tiny_watcher")

def tiny_real():
    d = mkdir()
    def during(r):
        enough(r, 1)(r)
        for i in range(20): open(os.path.join(d, b"f%d" % i), "wb").close()
        enough(r, 21)(r)
        return b"\n"
    r = run([], prog=TINY, during=during, cwd=d)
    R.add("tiny"); R.see("arg_shapes", "tiny real")
    if r.hung: return
    lines = r.out.split(b"\n")[:-1]
    if len(lines) != 22 or b"s/self/live@" not in lines[0] or b"s/self/die@" not in lines[-1]: R.viol("tiny-lines", "20 files created: %r" % lines[:30])
    elif not all(b"create" in l and b"/f%d" % i in l for i, l in enumerate(lines[1:-1])): R.viol("tiny-line", repr(lines))
    status(r, True, "tiny_watcher")

DO = dict(args=[limits] * 8 + [bad_args] * 8 + [helps, wall, nowhere], stream=[burst, burst, cut, cut, waits], real=[real, real, fails, file_root, wall], json=[burst, cut], tiny=[tiny, tiny, tiny_real])[args["what"]]
if args["what"] == "args": helps()
for _ in range(int(args["rounds"])): rng.choice(DO)()
R.end()
