// C25: the macOS adapter, over a system made up from its documentation: one
// which hands batches of items, with flags that may stand for several changes,
// to the watcher on a thread of its own, one batch at a time, until the stream
// was invalidated. Arguments: seed= scratch= rounds= only=removed-before.
#include <array>
#include <atomic>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <filesystem>
#include <functional>
#include <future>
#include <ios>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <string_view>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <utility>
#include <vector>
#include "fake/CoreServices/CoreServices.h"
#undef __linux__
#define __APPLE__ 1
#include "wtr/watcher.hpp"

using S = std::string;
using namespace std::chrono_literals;
using Clock = std::chrono::steady_clock;
static S esc(S const& s)
{
  S o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') o += '\\', o += c; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static std::atomic<int> viols;
static void viol(S const& key, S const& detail) { static std::mutex m; auto l = std::scoped_lock{m}; if (++viols < 20) std::cout << "{\"viol\":{\"prop\":\"C25\",\"key\":\"" << key << "\",\"detail\":\"" << esc(detail) << "\"}}" << std::endl; }
struct Rng { std::mt19937_64 r; explicit Rng(uint64_t s) : r{s * 0x9e3779b97f4a7c15ull + 7} {} unsigned operator()(unsigned n) { return n ? (unsigned)(r() % n) : 0; } bool chance(unsigned p) { return (*this)(100) < p; } };
static std::map<S, long> sums;
static std::mutex sums_mx;
static void cov(S const& k, long n = 1) { auto l = std::scoped_lock{sums_mx}; sums[k] += n; }

// ---- the system ----------------------------------------------------------------
struct Item { S path; unsigned flags; };
struct Batch { std::vector<Item> items; int missing = 0; };
struct FakeString { S s; };
struct FakeArray { std::vector<CFTypeRef> v; };
struct FakeQueue { int x; };
struct FakeSemaphore { std::mutex m; std::condition_variable c; long n = 0; };
static std::mutex sys_mx;
static std::condition_variable sys_cv;
static std::atomic<unsigned> pause_us{0};
static void maybe_pause() { if (auto p = pause_us.load()) { static std::atomic<unsigned> n{0}; if (++n % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(n * 7919u % p)); } }
struct FakeStream {
  S path; FSEventStreamCallback fn{}; FSEventStreamContext ctx{}; bool queue = false, started = false, stopped = false, invalid = false, released = false, running = false, quit = false, flushed = false;
  std::deque<Batch> kept; std::thread t; long given = 0;
  void run()
  {
    std::unique_lock l{sys_mx};
    for (;;) {
      while (! quit && (kept.empty() || ! started || stopped || invalid)) sys_cv.wait(l);
      if (quit) return;
      auto b = std::move(kept.front());
      kept.pop_front();
      running = true;
      auto c = ctx;
      auto f = fn;
      l.unlock();
      maybe_pause();
      {
        // the memory is ours, and only for as long as this takes
        auto n = b.items.size();
        std::vector<std::unique_ptr<char[]>> names;
        std::unique_ptr<char const*[]> paths{new char const*[n]};
        std::unique_ptr<unsigned[]> flags{new unsigned[n]};
        std::unique_ptr<FSEventStreamEventId[]> ids{new FSEventStreamEventId[n]};
        for (size_t i = 0; i < n; ++i) {
          names.emplace_back(new char[b.items[i].path.size() + 1]);
          memcpy(names.back().get(), b.items[i].path.c_str(), b.items[i].path.size() + 1);
          paths[i] = names.back().get(), flags[i] = b.items[i].flags, ids[i] = i;
        }
        f(this, b.missing == 1 ? nullptr : c.info, n, b.missing == 2 ? nullptr : (void*)paths.get(), b.missing == 3 ? nullptr : flags.get(), ids.get());
      }
      l.lock();
      running = false, given++;
      sys_cv.notify_all();
    }
  }
};
static std::set<FakeStream*> streams;
static std::map<S, int> faults;
static bool faulty(char const* f) { auto i = faults.find(f); if (i == faults.end() || --i->second > 0) return false; cov("faults"); return true; }
CFArrayCallBacks const kCFTypeArrayCallBacks{0};
CFStringRef CFStringCreateWithCString(CFAllocatorRef, char const* s, uint32_t e) { if (e != kCFStringEncodingUTF8) viol("encoding", "a path is UTF-8"); static std::mutex mm; static auto& all = *new std::deque<FakeString>; auto l = std::scoped_lock{mm}; all.push_back({s}); return &all.back(); }
CFArrayRef CFArrayCreate(CFAllocatorRef, void const** v, CFIndex n, CFArrayCallBacks const*) { static std::mutex mm; static auto& all = *new std::deque<FakeArray>; auto l = std::scoped_lock{mm}; all.push_back({std::vector<CFTypeRef>(v, v + n)}); return &all.back(); }
// what was said about who releases these is not clear
void CFRelease(CFTypeRef o) { if (! o) viol("null", "CFRelease was given null"); }
CFTypeRef CFRetain(CFTypeRef o) { return o; }
dispatch_queue_t dispatch_get_global_queue(long, unsigned long) { static FakeQueue q{}; return &q; }
dispatch_queue_t dispatch_queue_create(char const*, void*) { return dispatch_get_global_queue(0, 0); }
void dispatch_release(void*) {}
static std::mutex sems_mx;
static std::deque<FakeSemaphore>& sems() { static auto& d = *new std::deque<FakeSemaphore>; return d; }
dispatch_semaphore_t dispatch_semaphore_create(long n) { auto l = std::scoped_lock{sems_mx}; sems().emplace_back(); sems().back().n = n; return &sems().back(); }
long dispatch_semaphore_signal(dispatch_semaphore_t s) { maybe_pause(); auto l = std::scoped_lock{s->m}; s->n++; s->c.notify_one(); return 1; }
long dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t)
{
  std::unique_lock l{s->m};
  auto ok = [&] { return s->n > 0; };
  if (t == DISPATCH_TIME_FOREVER) s->c.wait(l, ok); else if (! s->c.wait_for(l, std::chrono::nanoseconds(t), ok)) return 1;
  s->n--;
  return 0;
}
dispatch_time_t dispatch_time(dispatch_time_t, int64_t d) { return (dispatch_time_t)d; }
FSEventStreamRef FSEventStreamCreate(CFAllocatorRef, FSEventStreamCallback fn, FSEventStreamContext* c, CFArrayRef a, FSEventStreamEventId since, CFTimeInterval, FSEventStreamCreateFlags fl)
{
  auto l = std::scoped_lock{sys_mx};
  if (faulty("FSEventStreamCreate")) return nullptr;
  if (since != kFSEventStreamEventIdSinceNow) viol("since", "changes of before are asked for");
  if (! (fl & kFSEventStreamCreateFlagFileEvents) || fl & kFSEventStreamCreateFlagUseCFTypes) viol("flags", "not single items, or not paths, are asked for");
  auto* s = new FakeStream;
  s->fn = fn, s->ctx = *c, s->path = ((FakeString const*)a->v[0])->s;
  streams.insert(s);
  return s;
}
static bool good(FSEventStreamRef s, char const* f) { if (! s || ! streams.count(s) || s->released) { viol("bad-stream", S{f} + " was given a stream which is released or never was"); return false; } return true; }
void FSEventStreamSetDispatchQueue(FSEventStreamRef s, dispatch_queue_t q) { auto l = std::scoped_lock{sys_mx}; if (good(s, "FSEventStreamSetDispatchQueue")) s->queue = q != nullptr; }
Boolean FSEventStreamStart(FSEventStreamRef s)
{
  maybe_pause();
  auto l = std::scoped_lock{sys_mx};
  if (! good(s, "FSEventStreamStart")) return false;
  if (! s->queue) viol("order", "started before there is a queue");
  if (faulty("FSEventStreamStart")) return false;
  s->started = true;
  s->t = std::thread([s] { s->run(); });
  sys_cv.notify_all();
  return true;
}
void FSEventStreamFlushSync(FSEventStreamRef s)
{
  std::unique_lock l{sys_mx};
  if (! good(s, "FSEventStreamFlushSync")) return;
  s->flushed = true;
  // what is there by now
  auto until = s->given + (long)s->kept.size() + s->running;
  if (s->started && ! s->stopped) while (s->given < until) sys_cv.wait(l);
}
FSEventStreamEventId FSEventStreamFlushAsync(FSEventStreamRef) { return 0; }
void FSEventStreamStop(FSEventStreamRef s) { maybe_pause(); auto l = std::scoped_lock{sys_mx}; if (! good(s, "FSEventStreamStop")) return; if (! s->started) viol("order", "stopped before it was started"); s->stopped = true; }
void FSEventStreamInvalidate(FSEventStreamRef s)
{
  maybe_pause();
  std::unique_lock l{sys_mx};
  if (! good(s, "FSEventStreamInvalidate")) return;
  if (s->started && ! s->stopped) viol("order", "invalidated before it was stopped");
  s->invalid = true;
  while (s->running) sys_cv.wait(l);
}
void FSEventStreamRelease(FSEventStreamRef s)
{
  maybe_pause();
  std::unique_lock l{sys_mx};
  if (! good(s, "FSEventStreamRelease")) return;
  if (s->queue && ! s->invalid) viol("order", "released before it was invalidated");
  s->released = true;
  while (s->running) sys_cv.wait(l);
  s->quit = true;
  sys_cv.notify_all();
  l.unlock();
  if (s->t.joinable()) s->t.join();
}
// what the system has to tell
static void hand(std::vector<Item> const& v, S const& path, int missing = 0)
{
  auto l = std::scoped_lock{sys_mx};
  for (auto* s : streams) if (! s->released && s->path == path) { s->kept.push_back({v, missing}); cov("batches_handed"), cov("items_handed", (long)v.size()); }
  sys_cv.notify_all();
}
static bool reading(S const& path) { auto l = std::scoped_lock{sys_mx}; for (auto* s : streams) if (s->started && ! s->released && s->path == path) return true; return false; }
static bool idle(S const& path) { auto l = std::scoped_lock{sys_mx}; for (auto* s : streams) if (! s->released && s->path == path) return s->kept.empty() && ! s->running; return false; }

// ---- the user -------------------------------------------------------------------
struct Ev { S path, path2; int et, pt, pt2; bool assoc; };
static char const* ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
static char const* PT[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
static S show(Ev const& e) { return S(ET[e.et]) + " " + PT[e.pt] + " " + e.path + (e.assoc ? S(" -> ") + PT[e.pt2] + " " + e.path2 : ""); }
struct User {
  S root; std::mutex m; std::vector<Ev> seen; std::atomic<bool> closed{false}; std::atomic<long> after{0}; std::atomic<int> inside{0}; std::atomic<unsigned> slow{0};
  std::unique_ptr<wtr::watch> w;
  User(S r) : root{r} {}
  void open()
  {
    w = std::make_unique<wtr::watch>(root, [this](wtr::event const& e) {
      if (closed) after++;
      if (inside++) viol("overlapping", "two callbacks of one watcher at once");
      if (auto s = slow.load()) std::this_thread::sleep_for(std::chrono::microseconds(s));
      { auto l = std::scoped_lock{m}; seen.push_back({e.path_name.string(), e.associated ? e.associated->path_name.string() : "", (int)e.effect_type, (int)e.path_type, e.associated ? (int)e.associated->path_type : 5, e.associated != nullptr}); }
      inside--;
    });
  }
  size_t n() { auto l = std::scoped_lock{m}; return seen.size(); }
  bool died() { auto l = std::scoped_lock{m}; return ! seen.empty() && seen.back().pt == 4 && seen.back().et == 3; }
  std::vector<Ev> from(size_t i) { auto l = std::scoped_lock{m}; return {seen.begin() + (long)i, seen.end()}; }
  S dump(size_t i = 0) { S s; for (auto& e : from(i)) s += show(e) + "; "; return s.substr(0, 1500); }
};
template<class F> static bool wait(F f, int s = 20) { for (auto t = Clock::now(); Clock::now() - t < std::chrono::seconds(s); std::this_thread::sleep_for(300us)) if (f()) return true; return f(); }
static std::set<S> shapes, kinds;
static std::vector<S> samples;

struct Round {
  Rng r; S root; User u; int serial = 0; bool bad = false;
  std::vector<Ev> want;
  std::set<S> made;
  Round(uint64_t s, S rt) : r{s}, root{rt}, u{rt} {}
  void fail(S const& k, S const& d) { if (! bad) viol(k, d); bad = true; }
  S name() { static char const* const T[] = {"", " b", "\xc3\xa9\xe4\xb8\x96", ".txt", "\xf0\x9f\x98\x80", "/x/y"}; return root + "/n" + std::to_string(serial++) + (r.chance(8) ? S(r(240), 'x') : T[r(6)]); }
  static unsigned type_flag(int pt) { return pt == 0 ? kFSEventStreamEventFlagItemIsDir : pt == 1 ? kFSEventStreamEventFlagItemIsFile : pt == 3 ? kFSEventStreamEventFlagItemIsSymlink : pt == 2 ? (unsigned)kFSEventStreamEventFlagItemIsHardlink : 0u; }
  int type() { auto k = r(20); return k < 11 ? 1 : k < 15 ? 0 : k < 18 ? 3 : k < 19 ? 2 : 5; }
  std::map<S, int> types;
  int type_of(S const& p) { auto i = types.find(p); return i != types.end() ? i->second : types[p] = type(); }
  S some() { if (types.empty() || r.chance(40)) return name(); auto i = types.begin(); std::advance(i, r((unsigned)types.size())); return i->first; }
  // what is said of one item, and what is to be reported of it
  Item item()
  {
    static unsigned const MOD[] = {kFSEventStreamEventFlagItemModified, kFSEventStreamEventFlagItemChangeOwner, kFSEventStreamEventFlagItemXattrMod, kFSEventStreamEventFlagItemFinderInfoMod};
    auto p = some();
    auto pt = type_of(p);
    unsigned f = type_flag(pt);
    if (pt == 2 && r.chance(30)) f = kFSEventStreamEventFlagItemIsLastHardlink;
    bool c = r.chance(50), m = r.chance(40), d = r.chance(30), meta = r.chance(10), none = ! c && ! m && ! d && ! meta;
    if (c) { f |= kFSEventStreamEventFlagItemCreated; if (made.insert(p).second) want.push_back({p, "", 2, pt, 5, false}); else cov("repeated"); }
    if (d) {
      // of what came to be in our time
      if (made.erase(p)) { f |= kFSEventStreamEventFlagItemRemoved; want.push_back({p, "", 3, pt, 5, false}); }
      else none = ! c && ! m && ! meta;
    }
    if (m) { f |= MOD[r(4)]; if (r.chance(30)) f |= MOD[r(4)]; want.push_back({p, "", 1, pt, 5, false}); }
    if (meta) f |= kFSEventStreamEventFlagItemInodeMetaMod;
    if (none) { if (r.chance(50)) f |= kFSEventStreamEventFlagOwnEvent | kFSEventStreamEventFlagItemCloned; want.push_back({p, "", 5, pt, 5, false}); }
    return {p, f};
  }
  void judge(S const& what, std::vector<Ev> const& got)
  {
    S sh;
    for (size_t i = 0; i < std::max(got.size(), want.size()) && ! bad; ++i) {
      if (i >= got.size()) { fail("lost", what + ": " + show(want[i]) + " was not reported (" + std::to_string(got.size()) + " of " + std::to_string(want.size()) + ")"); break; }
      auto& g = got[i];
      if (i >= want.size()) { fail("unexpected", what + ": " + show(g) + " was reported"); break; }
      auto& w = want[i];
      if (g.path != w.path || g.et != w.et || g.pt != w.pt || g.assoc != w.assoc || (g.assoc && (g.path2 != w.path2 || g.pt2 != w.pt2)))
        fail(g.path != w.path ? "lost-or-reordered" : g.assoc != w.assoc ? "association" : "wrong", what + ": event " + std::to_string(i) + " is " + show(g) + " instead of " + show(w));
      sh += ET[g.et][0], sh += PT[g.pt][0];
      if (g.assoc) sh += "+";
    }
    cov("events", (long)got.size());
    if (sh.size() > 6) { auto l = std::scoped_lock{sums_mx}; shapes.insert(sh); }
    if (samples.size() < 4 && got.size() > 2 && ! bad) samples.push_back(what + ": " + std::to_string(got.size()) + " events as expected, e.g. " + show(got[got.size() / 2]));
    want.clear();
  }
  void rename_some(std::vector<Item>& pending)
  {
    // for real, since it is looked at; a chain of up to three
    hand(pending, root), pending.clear();
    wait([&] { return idle(root); });
    auto pt = r.chance(70) ? 1 : 0;
    std::vector<S> p;
    auto base = root + "/r" + std::to_string(serial++);
    for (unsigned i = 0, n = 2 + r(3); i < n; ++i) p.push_back(base + "-" + std::to_string(i));
    if (pt) close(::open(p[0].c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644)); else mkdir(p[0].c_str(), 0755);
    bool late = r.chance(40);
    if (late) for (size_t i = 0; i + 1 < p.size(); ++i) rename(p[i].c_str(), p[i + 1].c_str());
    std::vector<Item> v;
    for (size_t i = 0; i + 1 < p.size(); ++i) {
      if (! late) rename(p[i].c_str(), p[i + 1].c_str());
      auto f = type_flag(pt) | kFSEventStreamEventFlagItemRenamed;
      v.push_back({p[i], f});
      if (r.chance(30)) hand(v, root), v.clear();
      // of something else, between the two
      if (r.chance(30)) v.push_back(item());
      want.push_back({p[i], p[i + 1], 0, pt, pt, true});
      v.push_back({p[i + 1], f});
      if (! late || r.chance(30)) { hand(v, root), v.clear(); if (! late) wait([&] { return idle(root); }); }
      cov("renames");
    }
    hand(v, root);
    wait([&] { return idle(root); });
  }
  void still_there(std::vector<Item>& pending)
  {
    // two which were renamed, from somewhere else; there is nothing known of where
    hand(pending, root), pending.clear();
    wait([&] { return idle(root); });
    auto a = root + "/s" + std::to_string(serial++), b = root + "/s" + std::to_string(serial++);
    for (auto& x : {a, b}) close(::open(x.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644));
    auto f = type_flag(1) | kFSEventStreamEventFlagItemRenamed;
    hand({{a, f}, {b, f}}, root);
    wait([&] { return idle(root); });
    // the first half of nothing
    auto c = b + "-to";
    rename(b.c_str(), c.c_str());
    hand({{c, f}}, root);
    want.push_back({b, c, 0, 1, 1, true});
    wait([&] { return idle(root); });
    cov("renamed_and_still_there");
  }
  void run(std::string kind)
  {
    kinds.insert(kind);
    cov("rounds");
    pause_us = r.chance(30) ? 1 + r(2000) : 0;
    faults.clear();
    if (kind == "fails-to-start") {
      auto f = r.chance(50) ? "FSEventStreamCreate" : "FSEventStreamStart";
      { auto l = std::scoped_lock{sys_mx}; faults[f] = 1; }
      kinds.insert(kind + " " + f);
      u.open();
      if (! wait([&] { return u.died(); })) fail("keeps-running", S("20 s after ") + f + " failed there is no e/self/die: " + u.dump());
      auto ok = u.w->close();
      u.closed = true;
      if (ok) fail("close-succeeds", S(f) + " failed, closing reported success: " + u.dump());
      else if (u.from(u.n() - 1)[0].path != "e/self/die@" + root) fail("die-succeeds", u.dump());
      return done();
    }
    if (kind == "at-once") {
      u.open();
      std::this_thread::sleep_for(std::chrono::microseconds(r(3) ? r(300) : 0));
      u.w->close();
      u.closed = true;
      return done();
    }
    u.open();
    if (! wait([&] { return reading(root); })) { fail("not-started", "no stream for the path was started within 20 s: " + u.dump()); return done(); }
    size_t pos = u.n();
    if (pos != 1 || u.from(0)[0].path != "s/self/live@" + root || u.from(0)[0].et != 2) fail("live", "it began with: " + u.dump());
    for (int seg = 0; seg < 4 && ! bad; ++seg) {
      u.slow = kind == "slow" ? 200 + r(800) : 0;
      std::vector<Item> pending;
      for (int i = 0, n = 1 + (int)r(80); i < n; ++i) {
        if (r.chance(12)) rename_some(pending);
        else if (r.chance(4)) still_there(pending);
        else pending.push_back(item());
        if (r.chance(30)) { hand(pending, root), pending.clear(); if (r.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(r(400))); }
        if (kind == "missing" && r.chance(30)) { hand({{name(), kFSEventStreamEventFlagItemCreated | kFSEventStreamEventFlagItemIsFile}}, root, 1 + (int)r(3)); cov("missing_data"); }
      }
      hand(pending, root);
      wait([&] { return idle(root); });
      auto m = root + "/mark" + std::to_string(serial++);
      hand({{m, kFSEventStreamEventFlagItemCreated | kFSEventStreamEventFlagItemIsFile}}, root);
      want.push_back({m, "", 2, 1, 5, false});
      if (! wait([&] { for (auto& e : u.from(pos)) if (e.path == m) return true; return false; })) { fail("events-stopped", kind + ": a change was not reported within 20 s; last: " + u.dump(u.n() > 5 ? u.n() - 5 : 0)); break; }
      auto got = u.from(pos);
      pos += got.size();
      judge(kind, got);
    }
    if (kind == "close-in-traffic") {
      std::atomic<bool> stop{false};
      std::thread t{[&] { Rng q{7}; for (int i = 0; ! stop && i < 100000; ++i) { hand({{root + "/traffic", kFSEventStreamEventFlagItemModified | kFSEventStreamEventFlagItemIsFile}}, root); if (q.chance(10)) std::this_thread::sleep_for(100us); } }};
      std::this_thread::sleep_for(std::chrono::microseconds(r(3000)));
      if (! u.w->close()) fail("close-failed", u.dump(u.n() - 2));
      u.closed = true;
      std::this_thread::sleep_for(2ms);
      stop = true;
      t.join();
    }
    else if (! u.w->close()) fail("close-failed", "closing a healthy watcher reported failure: " + u.dump(u.n() - 2));
    u.closed = true;
    if (! u.died() || u.from(u.n() - 1)[0].path != "s/self/die@" + root) fail("die", "it ended with: " + u.dump(u.n() - 2));
    done();
  }
  // what was there before we were, KNOWN-FINDING
  void removed_before()
  {
    kinds.insert("removed-before");
    u.open();
    if (! wait([&] { return reading(root); })) return fail("not-started", "no stream");
    auto p = root + "/old";
    hand({{p, kFSEventStreamEventFlagItemRemoved | kFSEventStreamEventFlagItemIsFile}, {root + "/mark", kFSEventStreamEventFlagItemCreated | kFSEventStreamEventFlagItemIsFile}}, root);
    wait([&] { return u.n() > 1 && u.from(u.n() - 1)[0].path == root + "/mark"; });
    bool told = false;
    for (auto& e : u.from(0)) told |= e.path == p && e.et == 3;
    if (! told) viol("removed-not-made-here", "the removal of what was there before the watcher was not reported: " + u.dump());
    u.w->close(), u.closed = true;
    done();
  }
  void done()
  {
    u.w.reset();
    std::this_thread::sleep_for(1ms);
    auto l = std::scoped_lock{sys_mx};
    for (auto* s : streams) if (! s->released) fail("stream-left", "a stream is still there");
    if (u.after) fail("callback-after-close", std::to_string(u.after.load()) + " callbacks after close had returned");
    for (auto& e : u.seen) if (e.pt == 4 && e.path.find("@" + root) == S::npos) fail("message-form", "a message without the path: " + e.path);
    static auto& forgotten = *new std::vector<FakeStream*>;
    forgotten.insert(forgotten.end(), streams.begin(), streams.end());
    for (auto* s : streams) s->kept = {};
    streams.clear();
    faults.clear();
  }
};

int main(int argc, char** argv)
{
  S scratch, only; int rounds = 20; unsigned long seed = 1;
  for (int i = 1; i < argc; ++i) {
    S a = argv[i];
    if (a.rfind("seed=", 0) == 0) seed = std::stoul(a.substr(5));
    if (a.rfind("scratch=", 0) == 0) scratch = a.substr(8);
    if (a.rfind("only=", 0) == 0) only = a.substr(5);
    if (a.rfind("rounds=", 0) == 0) rounds = std::stoi(a.substr(7));
  }
  std::setlocale(LC_ALL, "C.UTF-8");
  std::locale::global(std::locale("C.UTF-8"));
  Rng r{seed};
  char const* const K[] = {"plain", "plain", "slow", "missing", "close-in-traffic", "at-once", "fails-to-start"};
  for (int i = 0; i < rounds && viols < 5; ++i) {
    auto root = scratch + "/w" + std::to_string(i) + (r.chance(20) ? "/" + S(240, 'p') + "/" + S(240, 'q') + "/" + S(240, 'r') + "/" + S(240, 's') + "/" + S(240, 't') : r.chance(20) ? S("/\xc3\xa9 \xe4\xb8\x96") : "");
    std::filesystem::create_directories(root);
    Round d{r.r(), root};
    if (only == "removed-before") d.removed_before(); else d.run(K[r(7)]);
  }
  std::cout << "{\"cov\":{\"sum\":{\"watchers\":" << sums["rounds"];
  for (auto const& [k, v] : sums) std::cout << ",\"" << k << "\":" << v;
  std::cout << "},\"max\":{},\"distinct\":{\"segment_shapes\":[";
  bool first = true;
  for (auto const& s : shapes) std::cout << (first ? "" : ",") << '"' << s << '"', first = false;
  std::cout << "],\"kinds\":[";
  first = true;
  for (auto const& s : kinds) std::cout << (first ? "" : ",") << '"' << s << '"', first = false;
  std::cout << "]},\"samples\":[";
  first = true;
  for (auto const& s : samples) std::cout << (first ? "\"" : ",\"") << esc(s) << '"', first = false;
  std::cout << "]}}\n{\"done\":true}" << std::endl;
}
