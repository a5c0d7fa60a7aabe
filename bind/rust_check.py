"""Runs the Rust binding's driver and judges its record, or interprets the other one.
Arguments prop= seed= rounds= scratch= and drive= (the driver) or crate= (for Miri)."""
import json, os, re, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import ET, PT
a = dict(x.split("=", 1) for x in sys.argv[1:])
R = common.Report(a["prop"])
here = os.path.dirname(os.path.abspath(__file__))
camel = lambda s: "".join(x.capitalize() for x in s.split("_"))
if "crate" in a:
    events = 0
    for k in range(int(a["rounds"])):
        seed = int(a["seed"]) * 31 + k
        env = dict(os.environ, VP_MIRI="1", CARGO_TARGET_DIR=a["crate"] + "/target", MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-seed=%d" % (seed % 2**31))
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", "interpreted", str(seed)], cwd=a["crate"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        m = re.search(r"^I (\d+) (\d+)", out, re.M)
        if p.returncode != 0 or not m:
            why = re.search(r"error: (.*)", err)
            if why is None or not re.search("Undefined Behavior|memory leaked|abnormal termination|deadlock|panicked|data race", err):
                print(json.dumps({"error": "miri could not run: " + err[-1500:]})); sys.exit(0)
            R.viol("miri:" + why.group(1)[:60], "interpreted with seed %d: %s" % (seed, err[:3000])); break
        events += int(m.group(1))
        R.add("interpreted_runs"); R.add("interpreted_events", int(m.group(1))); R.add("events", int(m.group(1))); R.add("closes", int(m.group(2)))
        R.see("kinds", "interpreted %d" % seed)
    R.end(); sys.exit(0)
top = os.path.dirname(a["scratch"])
LOG = top + "/tee.log"
p = subprocess.Popen([a["drive"], a["seed"], a["rounds"], a["scratch"], here + "/node_mut.py"], env=dict(os.environ, VP_LOG=LOG), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
try: out, err = p.communicate(timeout=200); hung = False
except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate(); hung = True
err = err.decode(errors="replace")
got, closes, complete, done, balance = {}, {}, set(), False, None
for l in out.decode(errors="replace").splitlines():
    f = l.split()
    if not f: continue
    if f[0] == "E": got.setdefault(int(f[1]), []).append((int(f[2]), f[3], f[4], bytes.fromhex(f[5][1:]), None if f[6] == "-" else bytes.fromhex(f[6][1:])))
    elif f[0] == "C": closes.setdefault(int(f[1]), []).append(f[2] == "1")
    elif f[0] == "A": complete.add(int(f[1]))
    elif f[0] == "K": R.see("kinds", f[1])
    elif f[0] == "N": R.viol("ended", "the stream of watch %s ended" % f[1])
    elif f[0] == "T": R.viol("not-woken", "watch %s: fewer than %s items after 20 s" % (f[1], f[2]))
    elif f[0] == "Z": R.viol("null-in-path", "a path with a null character was taken")
    elif f[0] == "B": balance = int(f[1])
    elif f[0] == "D": done = True
if hung: R.viol("hang", "the driver did not end; its last output: %r" % out[-300:])
elif p.returncode != 0 or not done: R.viol("crash", "the driver ended with status %d: %s" % (p.returncode, err[:3000]))
L = common.read_log(LOG)
lossy = lambda b: None if b is None else b.decode("utf-8", "replace").encode()
for i, w in sorted(L.items()):
    R.add("watches"); g = got.get(i, [])
    if i in complete and len(g) != len(w.events) or len(g) > len(w.events): R.viol("count", "watch of %r: the C library delivered %d events, the stream yielded %d" % (w.path, len(w.events), len(g)))
    for k, (e, x) in enumerate(zip(w.events, g)):
        R.add("events"); R.see("event_shapes", common.shape(e))
        want = (e[0], camel(ET[e[1]]), camel(PT[e[2]]), lossy(e[3]), lossy(e[4]))
        if x != want: R.viol("field", "event %d of watch %r: the C library delivered %r, the stream yielded %r" % (k, w.path, want, x)); break
    c = closes.get(i, [])
    R.add("closes", len(c))
    want = [bool(w.closes and w.closes[0])] + [False] * (len(c) - 1)
    if c and c != want: R.viol("close-result", "watch of %r: close gave %r instead of %r" % (w.path, c, want))
    if done and not w.closes: R.viol("not-closed", "watch of %r was dropped, and its C watcher never closed" % w.path)
if balance is None: pass
elif balance >= 4: R.viol("leak", "4 rounds of opening and dropping 17 watchers left %d more allocations" % balance)
if L: R.samples.append("watch %r: %d events, %d yielded, closes %r" % (L[1].path, len(L[1].events), len(got.get(1, [])), closes.get(1)))
R.end()
