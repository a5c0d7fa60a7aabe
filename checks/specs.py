"""What each check runs."""
import functools, os
import build

@functools.lru_cache(None)
def builder(tree, san): return lambda: build.driver(tree, san)

VALGRIND = ["valgrind", "-q", "--error-exitcode=78", "--leak-check=no", "--fair-sched=yes", "--max-stackframe=16000000", "--num-callers=20"]

def drv(scen, prop, backend, tree="single", san="asan", timeout=180, n=0, **opt):
    """san=memcheck: the uninstrumented driver under valgrind."""
    b = builder(tree, "plain" if san == "memcheck" else san)
    pre = VALGRIND if san == "memcheck" else []
    def cmd(scratch, seed):
        return pre + [b(), scen, "backend=" + backend, "prop=" + prop, "seed=%d" % seed, "part=%d" % n, "scratch=" + scratch] + ["%s=%s" % kv for kv in opt.items()], None
    return dict(name="%s/%s/%s/%s%s#%d" % (scen, backend, tree, san, "".join("," + k for k in sorted(opt) if opt[k]), n), build=b, cmd=cmd, timeout=timeout)

CLOCK = "-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv"
@functools.lru_cache(None)
def prog_builder(name, src, tree, san, std="c++17", extra=()):
    return lambda: build.program(name, build.H + "/" + src, tree, san, extra=extra, std=std)

def prog(name, src, prop, tree, san, n, std="c++17", extra=(), timeout=240, **opt):
    b = prog_builder(name, src, tree, "plain" if san == "memcheck" else san, std, extra)
    pre = VALGRIND if san == "memcheck" else []
    def cmd(scratch, seed):
        return pre + [b(), "prop=" + prop, "seed=%d" % seed] + ["%s=%s" % kv for kv in opt.items()], None
    return dict(name="%s/%s/%s/%s#%d" % (name, tree, san, std, n), build=b, cmd=cmd, timeout=timeout)

def values(prop, n, size):
    out = []
    for i in range(n):
        tree, std = ("single", "devel")[i % 2], ("c++17", "c++20")[i // 2 % 2]
        out.append(prog("values", "values.cpp", prop, tree, "asan", i, std, (CLOCK,), size=size))
    out.append(prog("values", "values.cpp", prop, "single", "memcheck", n, "c++17", (CLOCK,), size=size // 15, timeout=600))
    return out

@functools.lru_cache(None)
def so_builder(tree, san): return lambda: build.shared(tree, san)

def py(prop, n, san="plain", timeout=240, **opt):
    """The Python binding over the tee."""
    tree = ("single", "devel")[n % 2]
    b = so_builder(tree, san)
    def cmd(scratch, seed):
        env = dict(VP_SO=b(), VP_LOG=os.path.dirname(scratch) + "/tee.log", VP_PKG=build.REPO + "/watcher-py", PYTHONDONTWRITEBYTECODE="1")
        if san == "asan": env.update(LD_PRELOAD=build.libasan(), PYTHONMALLOC="malloc")
        return ["python3", build.B + "/py_check.py", "prop=" + prop, "seed=%d" % seed, "scratch=" + scratch] + ["%s=%s" % kv for kv in opt.items()], env
    return dict(name="python/%s/%s#%d" % (tree, san, n), build=b, cmd=cmd, timeout=timeout)

@functools.lru_cache(None)
def node_builder(tree, san): return lambda: build.node(tree, san)

def node(prop, n, san="plain", timeout=240, **opt):
    """The Node.js binding over the tee."""
    tree = ("single", "devel")[n % 2]
    b = node_builder(tree, san)
    def cmd(scratch, seed):
        return ["python3", build.B + "/node_check.py", "prop=" + prop, "seed=%d" % seed, "scratch=" + scratch, "dir=" + b(), "asan=" + (build.libasan() if san == "asan" else "")] + ["%s=%s" % kv for kv in opt.items()], dict(PYTHONDONTWRITEBYTECODE="1")
    return dict(name="node-%s/%s/%s#%d" % (opt.get("what", "use"), tree, san, n), build=b, cmd=cmd, timeout=timeout)

@functools.lru_cache(None)
def rust_builder(tree, miri): return lambda: build.rust(tree, miri)

def rust(prop, n, miri=False, timeout=260, **opt):
    """The Rust binding over the tee, or interpreted."""
    tree = ("single", "devel")[n % 2]
    b = rust_builder("any" if miri else tree, miri)
    def cmd(scratch, seed):
        return ["python3", build.B + "/rust_check.py", "prop=" + prop, "seed=%d" % seed, "scratch=" + scratch, "crate=" + b() + "/crate" if miri else "drive=" + b() + "/drive"] + ["%s=%s" % kv for kv in opt.items()], dict(PYTHONDONTWRITEBYTECODE="1")
    return dict(name="rust-%s/%s#%d" % ("miri" if miri else "asan", "-" if miri else tree, n), build=b, cmd=cmd, timeout=timeout)

@functools.lru_cache(None)
def cli_builder(tree, san): return lambda: (build.cli("watcher", tree, san), build.cli("tiny_watcher", tree, san))

def cli(prop, what, n, rounds, san="asan", timeout=300):
    """The command line programs over the made-up watch, or the real one."""
    tree = ("single", "devel")[n % 2]
    b = cli_builder(tree, san)
    def cmd(scratch, seed):
        c, t = b()
        return ["python3", build.V + "/cli/cli_check.py", "prop=" + prop, "seed=%d" % seed, "scratch=" + scratch, "what=" + what, "rounds=%d" % rounds], dict(VP_CLI=c, VP_TINY=t, PYTHONDONTWRITEBYTECODE="1")
    return dict(name="cli-%s/%s/%s#%d" % (what, tree, san, n), build=b, cmd=cmd, timeout=timeout)

def spread(scen, prop, n, backends=("inotify", "direct", "fanotify"), sans=("asan",), **opt):
    """n jobs per backend, alternating header trees and sanitizers."""
    out = []
    for i in range(n):
        for k, b in enumerate(backends):
            out.append(drv(scen, prop, b, ("single", "devel")[(i + k) % 2], sans[(i // 2) % len(sans)], n=i, **opt))
    return out

T = lambda tier, q, t: q if tier == "quick" else t
SPECS = {}
SPECS["C02"] = dict(
    level="exploration", evaluations=["events"], distinct=["segment_shapes"], need=dict(events=2000),
    rule="random histories of create/mkdir/mknod/link/symlink/write/truncate/unlink/rmdir in watched directories by 1-4 threads (some with renames, and changes of the watched tree, among them), each recorded and aligned with the delivered sequence per mutator; a segment is non-trivial if more than 3 events were delivered, distinct by its sequence of effects and types",
    jobs=lambda t: spread("churn", "C02", T(t, 48, 500)) + spread("churn", "C02", T(t, 20, 200), ren=12) + spread("tree", "C02", T(t, 12, 150)) + spread("chroot", "C02", T(t, 2, 20)) + [drv("findings", "C02", b) for b in ("fanotify", "inotify")])
SPECS["C04"] = dict(
    level="exploration", evaluations=["events"], distinct=["segment_shapes"], need=dict(events=2000, steps=100),
    rule="random sequences of steps changing the set of directories (grow, burst, rename, move in, move out and back, exchange, remove, make again), after each of which every directory is poked and the delivered sequence aligned with the model; distinct by effects and types of a step",
    jobs=lambda t: [drv("tree", "C04", b, s, n=90 + i, many=8500, runs=1, steps=2) for i, (b, s) in enumerate(zip(("fanotify", "direct", "fanotify", "inotify"), ("single", "devel", "devel", "single")))] + spread("tree", "C04", T(t, 40, 600)))
SPECS["C01"] = dict(
    level="exploration", evaluations=["watches"], distinct=["kind_x_moment"], need=dict(watches=100, succeeded=20, failed=20),
    rule="watches of 27 kinds of path (existing, missing, file, links, relative, too long ...) closed at 8 kinds of moment, by close, destructor or scope, with and without traffic; distinct by kind, moment and traffic",
    jobs=lambda t: spread("life", "C01", T(t, 8, 60)) + spread("fail", "C01", T(t, 2, 20)) + spread("leak", "C01", T(t, 1, 8)))
SPECS["C07"] = dict(
    level="exploration", evaluations=["closes"], distinct=["mode_x_events"], need=dict(closes=100),
    rule="closing idle, starting, blocked, busy, backlogged and endlessly busy watchers from 1-5 threads, with either order of a close request and waiting notifications; distinct by mode, number of closers and log2 of the events delivered",
    jobs=lambda t: spread("close", "C07", T(t, 8, 40), sans=("asan", "tsan")))
SPECS["C08"] = dict(
    level="exploration", evaluations=["streams"], distinct=["stream_shapes"], need=dict(streams=100, watchers_beside=50), width=6,
    rule="6 steady watchers on equal, nested and unrelated roots and one whose callback blocks, beside 3 threads that open, close and fail others; each steady stream is aligned with the changes below its root; distinct by effects and types of a stream with more than 3 events",
    jobs=lambda t: spread("indep", "C08", T(t, 14, 40), sans=("asan", "asan", "tsan")))
SPECS["C09"] = dict(
    level="fault_enumeration", evaluations=["cycles"], distinct=["variants"], need=dict(cycles=500, events_while_running=1000),
    rule="blocks of 24 watches of one variant (28 ways to go: quick, with events, bad path, each system call failing at a place; C and C++; closed or destroyed), resources measured before, between and after two blocks; then a watcher which runs through 60 rounds of changes (directories made, renamed, removed, moved away, and lost track of in an overflow) which leave its tree as it was: descriptors, whether they are inherited, threads, kernel watches and allocated bytes every 10 rounds; distinct by variant, interface and backend",
    jobs=lambda t: spread("leak", "C09", T(t, 6, 40)))
SPECS["C03"] = dict(
    level="exploration", evaluations=["events", "op_noise"], distinct=["segment_shapes"], need=dict(events=1000, op_noise=2000),
    rule="histories in which most operations must stay silent (19 kinds of reading, listing, locking, metadata change, failed change and change outside, beside, or through links), mixed with few real changes; every delivered event is aligned with the real changes; directories that left the tree are used on; opening on a populated tree must stay silent; distinct by effects and types of a segment",
    jobs=lambda t: spread("churn", "C03", T(t, 50, 400), noise=75, ren=8, ops=300) + spread("tree", "C03", T(t, 16, 200)))
SPECS["C05"] = dict(
    level="exploration", evaluations=["events"], distinct=["segment_shapes"], need=dict(events=2000, op_rename_across=100, op_move_in=50, op_move_out=50, op_rename_over=50),
    rule="histories of renames (within, across, over existing, exchange, no-op, in, out, chains) mixed with other changes by 1-4 threads, with both notifications in one read or split over two, and renames of directories with everything in them; aligned with the model, which demands one associated event when both notifications lay in one read; distinct by effects, types and associations of a segment",
    jobs=lambda t: spread("churn", "C05", T(t, 50, 400), ren=55, noise=3) + spread("tree", "C05", T(t, 16, 200)) + [drv("findings", "C05", "fanotify")])
SPECS["C06"] = dict(
    level="exploration", evaluations=["times"], distinct=["segment_shapes"], need=dict(times=3000, times_vs_change=1000),
    rule="every event (messages and associated ones included) of churn, tree and life workloads with blocked callbacks and piled-up notifications: its time against the opening, the start of the change, its delivery and its predecessor; distinct by effects and types of a segment",
    jobs=lambda t: spread("churn", "C06", T(t, 30, 300), ren=20) + spread("tree", "C06", T(t, 8, 150)) + spread("life", "C06", T(t, 2, 20)))
SPECS["C10"] = dict(
    level="exploration", evaluations=["events"], distinct=["segment_shapes", "messages"], need=dict(events=2000),
    rule="churn by 1-3 threads while read and epoll_wait are interrupted (EINTR, EAGAIN, woken for nothing), signals hit the watcher's thread, unresolvable records are put into its stream, new directories vanish while they are opened or marked, directories cannot be marked or listed, and a thread makes and removes trees; every other change must be delivered, every unwatchable directory announced, and closing succeed; distinct by effects and types of a segment",
    jobs=lambda t: spread("disturb", "C10", T(t, 40, 250)))
SPECS["C11"] = dict(
    level="fault_enumeration", evaluations=["failures"], distinct=["variants"], need=dict(failures=80),
    rule="each system call the library needs (epoll_create, epoll_ctl 1st and 2nd, eventfd, inotify_init, add_watch, each fanotify call together with each inotify call, read and epoll_wait from the start and while running), with each of 2-5 error codes, failing for good; the root vanishing before it is marked; no threads; through C and C++, with traffic, and with close racing the failure; distinct by variant, interface and backend",
    jobs=lambda t: spread("fail", "C11", T(t, 40, 200), timeout=80))
SPECS["C12"] = dict(
    level="exploration", evaluations=["overflows"], distinct=["segment_shapes"], need=dict(overflows=100, real_overflows=2),
    rule="overflow notifications at random places of the stream (first, last, in the middle of a read, several in a row), with and without changes of directories nobody is told of in the gap (made, renamed, removed, moved out), and real overflows of the kernel's queue while the callback blocks; messages are matched in place, the parts between them aligned, and the tree pokes afterwards; distinct by unseen changes, overflows and effects between two",
    jobs=lambda t: spread("overflow", "C12", T(t, 20, 150), backends=("inotify", "fanotify")) + spread("overflow", "C12", T(t, 8, 20), backends=("direct",)))
SPECS["C13"] = dict(
    level="exploration", evaluations=["raw_reads", "events", "odd_paths"], distinct=["raw_sizes", "outcomes", "segment_shapes"], need=dict(raw_reads=500, deep_trees=10, odd_paths=300),
    rule="reads of 1-30 kernel records of every well-formed shape (unknown descriptors, all masks, names of 0-255 bytes, handles of all sizes, records without name or handle, cookies paired, torn and repeated), with system calls failing and directories vanishing meanwhile; trees of 40-2300 levels, deeper than PATH_MAX, moved and renamed; 13 kinds of impossible paths through C and C++; churn; all under AddressSanitizer and UndefinedBehaviorSanitizer, and smaller ones under memcheck for uninitialised memory; distinct by size of the read, kind of what came of it and shape of a segment",
    jobs=lambda t: spread("hostile", "C13", T(t, 14, 120)) + spread("churn", "C13", T(t, 2, 40)) + spread("tree", "C13", T(t, 2, 40))
        + spread("hostile", "C13", T(t, 2, 12), backends=("inotify", "fanotify"), sans=("memcheck",), small=1, records=T(t, 25, 80), timeout=600)
        + spread("churn", "C13", T(t, 1, 8), sans=("memcheck",), runs=1, ops=60, timeout=600))
SPECS["C14"] = dict(
    technique="ThreadSanitizer over concurrent public-API workloads (with and without system-call interposition), plain memory shared between callbacks and closers, watchdog for deadlocks",
    level="exploration", evaluations=["rounds"], distinct=["kinds", "mode_x_events", "stream_shapes"], need=dict(rounds=2000),
    rule="5 threads x 40 rounds of 12 kinds of use (open/close/destroy in one thread or handed on, 2-4 concurrent closers through C++ and C, watchers opened, closed and destroyed from another's callback, closed by a callback and a thread at once, dying by themselves while closed) with two threads making changes; callbacks write plain memory which closers read after a true close; without interposition (so that it adds no order) and with it (for the backends and pauses); plus the close, independence, disturbance and failure workloads; distinct by kind of use",
    jobs=lambda t: spread("race", "C14", T(t, 6, 80), backends=("direct",), sans=("tsan-bare",)) + spread("race", "C14", T(t, 2, 20), sans=("tsan",)) + spread("race", "C14", T(t, 2, 12))
        + spread("close", "C14", T(t, 2, 20), sans=("tsan",)) + spread("indep", "C14", T(t, 1, 12), sans=("tsan",)) + spread("life", "C14", T(t, 1, 12), sans=("tsan",))
        + spread("disturb", "C14", T(t, 1, 10), backends=("inotify", "fanotify"), sans=("tsan",)) + spread("fail", "C14", T(t, 1, 10), sans=("tsan",)))
SPECS["C17"] = dict(
    technique="runtime monitoring: C and C++ watchers on one directory compared event by event (clock controlled), under AddressSanitizer and UBSan",
    level="exploration", evaluations=["events", "closes"], distinct=["segment_shapes", "handle_kinds"], need=dict(events=2000, closes=500, times_exact=1000, segments_compared=100),
    rule="1-3 C watchers and a C++ watcher on one directory through random histories of changes, renames and moves under names of all kinds, with the library's clock set to boundary values of 64 bits, slow callbacks that check the strings again before they return, and null, stack and arbitrary context pointers; handles closed by one or several threads, when healthy, failed, long closed or null, with traffic; distinct by effects, types and associations of a segment",
    jobs=lambda t: spread("capi", "C17", T(t, 30, 100)))
SPECS["C22"] = dict(
    technique="runtime monitoring: one history replayed on both backends and the deliveries compared; fault injection into the kernel interfaces with history checking",
    level="fault_enumeration", evaluations=["events", "openings"], distinct=["segment_shapes", "variants"], need=dict(events=5000, openings=40, histories=10),
    rule="25 situations in which one of the kernel's interfaces is missing, forbidden, exhausted or refuses the directory (by init, mark and handle errors), each followed by a random history that must be delivered completely with one live and no error message; and random histories (churn, renames, growing, moving, exchanging, removing directories) run twice, once per backend, and compared event by event; distinct by step and shape of a segment",
    jobs=lambda t: [drv("fallback", "C22", "inotify", ("single", "devel")[(n // 3) % 2], n=n) for n in range(T(t, 36, 120))] + [drv("equiv", "C22", "both", ("single", "devel")[n % 2], n=n) for n in range(T(t, 60, 200))] + [drv("tree", "C22", "fanotify", x, n=n, many=8500, runs=1, steps=2) for n, x in enumerate(("single", "devel"))])
SPECS["C16"] = dict(
    technique="runtime monitoring: generated events copied, compared and destroyed against a model of their fields, under AddressSanitizer, UBSan and memcheck",
    level="exploration", evaluations=["comparisons", "copies"], distinct=["depths", "differences"], need=dict(comparisons=2000, copies=2000, unequal=500),
    rule="chains of 1-1000 associated events with paths of any bytes and any times (the clock is controlled), copied to heap, stack, containers, closures, parameters and results; compared with each other after the original and its memory are gone, with chains that differ in one field of one member, in length or in order, and from several threads; distinct by depth of the chain and kind of difference",
    jobs=lambda t: values("C16", T(t, 16, 40), T(t, 3000, 20000)))

SPECS["C19"] = dict(
    technique="runtime monitoring: what the Python callback got compared with what the C library delivered (recorded at the C boundary, real and scripted), under AddressSanitizer",
    level="exploration", evaluations=["events"], distinct=["kinds", "event_shapes"], need=dict(events=3000, watches=40, closes=40),
    rule="Python watches over the real C library (directories and names of any bytes) and over scripted deliveries (all types, times over all 64 bits, names of any bytes up to 4000), with callbacks that raise or dawdle, left by context, exception, close from any and several threads, repeated close, garbage collection and in traffic; distinct by way of use, types, encoding and length of names",
    jobs=lambda t: [py("C19", n, ("plain", "plain", "asan")[n % 3], rounds=T(t, 18, 90), timeout=T(t, 240, 800)) for n in range(T(t, 40, 80))])
SPECS["C15"] = dict(
    technique="runtime monitoring: generated events through every conversion, parsed back and compared with a model, under AddressSanitizer, UBSan and memcheck; the command line program's and the Python binding's JSON likewise",
    level="exploration", evaluations=["forms"], distinct=["shapes"], need=dict(forms=20000),
    rule="generated events (all types, boundary and random times, names of all kinds of text and of any bytes, with and without associated event) through every narrow and wide conversion and stream operator of the header, the command line program and the Python binding; each JSON form parsed by an independent parser and compared field by field; distinct by kind of form, types and length and kind of name",
    jobs=lambda t: values("C15", T(t, 16, 40), 3000) + [cli("C15", "json", n, T(t, 10, 40)) for n in range(T(t, 6, 30))] + [py("C15", n, rounds=T(t, 12, 60), timeout=T(t, 240, 800)) for n in range(T(t, 4, 20))])
SPECS["C18"] = dict(
    technique="runtime monitoring: the command line programs run over a watch which writes down what it delivers (and over the real one), with sleeps recorded and passed at once at the C library boundary, under AddressSanitizer and UBSan",
    level="exploration", evaluations=["runs", "lines"], distinct=["arg_shapes", "event_shapes"], need=dict(limits=40, bad_args=40, cuts=5, lines=3000, tiny=5, failed_watches=5),
    rule="argument vectors (every unit with amounts from 1 to ULONG_MAX, 27 kinds of unusable ones, help) with the slept time recorded; streams of up to 20000 events with names of any bytes, to slow readers, ended by line, by end of input, by time, in the middle, by the watch itself; real watches with changes, failures and unwatchable roots; distinct by arguments and by types and kind of name",
    jobs=lambda t: [cli("C18", w, n, T(t, q, q * 4), timeout=T(t, 300, 850)) for w, k, q in (("args", 4, 50), ("stream", 6, 9), ("real", 4, 9), ("tiny", 2, 6)) for n in range(T(t, k, k * 6))])
SPECS["C20"] = dict(
    technique="runtime monitoring: what the JavaScript callback got compared with what the C library delivered (recorded at the C boundary, real and scripted), the addon's allocations and handles counted, under AddressSanitizer",
    level="exploration", evaluations=["events"], distinct=["kinds", "event_shapes"], need=dict(events=10000, watches=100, closes=100, environments=5),
    rule="JavaScript watchers over the real C library and over scripted deliveries (all types, times over all 64 bits, all kinds of text) with bursts of up to 20000 events while the JavaScript thread is busy, closed early, late, from the own callback, in any order, repeatedly, after dying; callbacks that throw; workers and processes that end with watchers open; the addon's allocations, references and thread-safe functions balanced over cycles; distinct by way of use, types and kind of name",
    jobs=lambda t: [node("C20", n, ("plain", "asan")[n // 2 % 2], rounds=T(t, 18, 54), timeout=T(t, 240, 700), limit=T(t, 200, 650)) for n in range(T(t, 8, 60))] + [node("C20", n, ("asan", "plain")[n // 2 % 2], what="ends", rounds=T(t, 5, 15)) for n in range(T(t, 4, 24))])
SPECS["C21"] = dict(
    technique="runtime monitoring: what the Rust stream yielded compared with what the C library delivered (recorded at the C boundary, real and scripted), under AddressSanitizer with allocations counted; random sequences of safe calls interpreted by Miri",
    level="exploration", evaluations=["events"], distinct=["kinds", "event_shapes"], need=dict(events=10000, watches=200, closes=100, interpreted_runs=3),
    rule="Rust watches over the real C library and over scripted deliveries (all types, times over all 64 bits, names of all kinds), polled with a real waker, late, after close, closed repeatedly, dropped open, in the middle and after dying, moved between containers; 60-step random sequences of safe calls over a library made up in Rust interpreted by Miri under different schedules (use after free, data races, leaks); distinct by way of use or schedule, types and kind of name",
    jobs=lambda t: [rust("C21", n, True, rounds=T(t, 3, 20), timeout=T(t, 260, 850)) for n in range(T(t, 3, 12))] + [rust("C21", n, rounds=T(t, 18, 45)) for n in range(T(t, 10, 60))])
@functools.lru_cache(None)
def warthog_builder(tree, san): return lambda: build.program("warthog", build.V + "/warthog/warthog.cpp", tree, san, defs=("-DWATER_WATCHER_USE_WARTHOG",), std="c++20")
def warthog(n, san, batches, timeout=300):
    tree = ("single", "devel")[n % 2]
    b = warthog_builder(tree, san)
    def cmd(scratch, seed): return [b(), "seed=%d" % seed, "scratch=" + scratch, "batches=%d" % batches], None
    return dict(name="warthog/%s/%s#%d" % (tree, san, n), build=b, cmd=cmd, timeout=timeout)
SPECS["C23"] = dict(
    technique="runtime monitoring: lasting changes of generated trees compared with what the polling backend reports, under AddressSanitizer, UBSan and ThreadSanitizer",
    level="exploration", evaluations=["events", "changes"], distinct=["batch_kinds"], need=dict(changes=500, batches=100, scans=300),
    rule="the backend compiled on Linux, run as an unprivileged user on trees of up to 600 entries and 60 levels; batches of 1-40 changes (made, written, touched with any time, removed, renamed, renamed over, replaced by something else, whole directories moved in, out and about, directories made unreadable and readable again) each compared after several scans were seen to pass, with another thread making, removing and locking things beside; distinct by the kinds of changes in a batch",
    jobs=lambda t: [warthog(n, ("asan", "asan", "tsan")[n % 3], T(t, 40, 150), T(t, 300, 800)) for n in range(T(t, 32, 80))])
FAKES = ["windows.h", "CoreFoundation/CoreFoundation.h", "CoreServices/CoreServices.h", "dispatch/dispatch.h"]
@functools.lru_cache(None)
def platform_builder(name, tree, san): return lambda: build.program(name, build.V + "/platforms/%s.cpp" % name, tree, san, deps=[build.V + "/platforms/fake/" + f for f in FAKES], defs=("-I" + build.V + "/platforms/fake", "-I" + build.V + "/platforms"))
def platform(name, n, rounds, timeout=300, only=None):
    tree, san = ("single", "devel")[n % 2], ("asan", "asan", "tsan")[n // 2 % 3]
    b = platform_builder(name, tree, san)
    def cmd(scratch, seed): return [b(), "seed=%d" % seed, "scratch=" + scratch, "rounds=%d" % rounds] + (["only=" + only] if only else []), None
    return dict(name="%s/%s/%s%s" % (only or name, tree, san, "" if only else "#%d" % n), build=b, cmd=cmd, timeout=timeout)
SPECS["C24"] = dict(
    technique="runtime monitoring: the Windows adapter over a stand-in for the system which keeps, hands out, overflows, delays, fails and cancels as documented; every event compared with what was handed out, every handle and pending read accounted for, under AddressSanitizer, UBSan and ThreadSanitizer",
    level="exploration", evaluations=["events"], distinct=["segment_shapes", "kinds"], need=dict(events=20000, watchers=300, overflows=50, faults=10),
    rule="watchers over a stand-in for Windows (record buffer of bounded size, asynchronous reads, completion ports), on roots of all lengths; single changes, bursts, renames whose halves come apart, slow users, overflows said in both ways, closing in traffic and at once, failures at start and later; distinct by the kinds and order of events between two points of rest",
    jobs=lambda t: [platform("windows", n, T(t, 60, 250), T(t, 300, 800)) for n in range(T(t, 24, 72))])
SPECS["C25"] = dict(
    technique="runtime monitoring: the macOS adapter over a stand-in for FSEvents and dispatch which hands out batches of items as documented; every event compared with what the flags handed out mean, every stream accounted for, under AddressSanitizer, UBSan and ThreadSanitizer",
    level="exploration", evaluations=["events"], distinct=["segment_shapes", "kinds"], need=dict(events=20000, watchers=300, renames=3000, repeated=1000, faults=10),
    rule="watchers over a stand-in for macOS (a stream delivering on a thread of its own into memory it takes back at once, dispatch semaphores), on roots of all lengths; items with every combination of flags and types, repeated and in batches of all sizes, chains of real renames delivered together, late and apart with other changes between, slow users, missing arguments, closing in traffic and at once, streams which can't be made or don't start; distinct by the kinds and order of events between two points of rest",
    jobs=lambda t: [platform("darwin", n, T(t, 50, 250), T(t, 300, 800)) for n in range(T(t, 24, 72))] + [platform("darwin", 0, 1, only="removed-before")])
