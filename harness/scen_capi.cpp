// C17: what comes through the C library, next to what the C++ interface
// delivers for the same history; and the contract of its functions.
#include "mut.hpp"
#include "scen.hpp"
#include <string.h>

namespace {
struct Obs {
  std::mutex mx;
  vector<Ev> log;
  std::atomic<long> n{0}, after{0};
  std::atomic<bool> closed{false}, ended{false};
  void add(Ev e)
  {
    std::lock_guard l{mx};
    if (closed) after++;
    log.push_back(std::move(e));
    n++;
  }
  bool has(string const& p)
  {
    std::lock_guard l{mx};
    for (auto i = log.rbegin(); i != log.rend(); ++i) if (i->path == p) return true;
    return false;
  }
  vector<Ev> take() { std::lock_guard l{mx}; vector<Ev> v; v.swap(log); return v; }
};
bool wait_for(std::function<bool()> const& f, int ms = 30000)
{
  auto end = mono_ms() + ms;
  while (! f()) { if (mono_ms() > end) return false; usleep(100); }
  return true;
}
// Changes inside of a directory which the watcher had already let go of: it
// depends on when it read, and what they were is lost.
bool phantom(Ev const& e) { return e.pt == WATCHER && e.path.find("w/sys/phantom@") == 0; }
// The kernel tells of changes of one file in a row once or more often, as it likes.
vector<Ev> calm(vector<Ev> v)
{
  vector<Ev> o;
  for (auto& e : v) {
    if (e.pt == WATCHER && (e.path.find("w/sys/not_watched@") == 0 || phantom(e))) continue;
    if (e.eff == MODIFY && ! o.empty() && o.back().eff == MODIFY && o.back().path == e.path && ! e.assoc) continue;
    o.push_back(e);
  }
  return o;
}
string differs(Ev const& a, Ev const& b)
{
  if (a.path != b.path) return "path name";
  if (a.eff != b.eff) return "effect type";
  if (a.pt != b.pt) return "path type";
  if (! a.assoc != ! b.assoc) return "presence of an associated path name";
  if (a.assoc && a.assoc->path != b.assoc->path) return "associated path name";
  return "";
}

void same_story(Rng& r)
{
  auto c = cfg_of(args.backend, (unsigned)r.r());
  c.split_pairs = false;
  shim::configure(c);
  shim::reap();
  auto outer = mkroot("capi");
  auto root = outer + "/" + fresh_name(r, false, 60), outside = outer + "/out";
  mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
  Mut m{r.r()};
  m.outside = outside, m.p_noise = 3, m.p_ren = 35, m.fan = args.backend == "fanotify";
  m.dirs.push_back(root);
  for (int i = 0; i < 4; ++i) {
    auto p = m.dirs[r((unsigned)m.dirs.size())] + "/" + fresh_name(r);
    if (mkdir(p.c_str(), 0755) == 0) m.dirs.push_back(p);
  }
  for (int i = 0; i < 6; ++i) { auto p = outside + "/o" + to_string(i); if (put(p)) m.out.push_back({p, FILE_, true}); }
  shim::set_clock(1700000000000000001ll);
  Obs cpp, cs[3];
  int nc = 1 + (int)r(3);
  std::atomic<int> slow{0};
  auto* w = sut::open(root, [&](Ev const& e) { cpp.add(e); });
  void* h[3];
  char stack_ctx[3];
  void* ctx[3] = {nullptr, &stack_ctx[1], (void*)(uintptr_t)0x8000000000000001ull};
  for (int i = 0; i < nc; ++i) {
    c_slot[i] = [&, i](CEv const& e, void* x) {
      if (x != ctx[i]) violation("C17", "context-changed", "the context given was another one than what arrived");
      if (! e.path) { violation("C17", "null-path", "an event without path name"); return; }
      Ev v{e.path, (Eff)e.eff, (Pt)e.pt, e.t, e.assoc ? std::make_shared<Ev>(Ev{e.assoc, (Eff)e.eff, (Pt)e.pt, e.t, nullptr}) : nullptr};
      if (e.eff < 0 || e.eff > 5 || e.pt < 0 || e.pt > 5) violation("C17", "unknown-code", "effect " + to_string(e.eff) + ", path type " + to_string(e.pt));
      // the strings are ours until we return, whatever happens meanwhile
      if (int s = slow) {
        vector<string> junk;
        for (int k = 0; k < 8; ++k) junk.push_back(string(8 + (size_t)k * 37, 'J'));
        if (s > 1) usleep((useconds_t)s);
        if (strcmp(e.path, v.path.c_str()) || (e.assoc && strcmp(e.assoc, v.assoc->path.c_str()))) violation("C17", "string-changed", "during the callback " + show(v) + " became " + e.path);
      }
      cs[i].add(std::move(v));
    };
    string given = root;
    h[i] = sut::c_open_any(given.c_str(), ctx[i], i);
    for (auto& ch : given) ch = 'X'; // it is ours again once it returned
    if (! h[i]) violation("C17", "open-null", "opening gave null");
  }
  auto all_have = [&](string const& p) { if (! cpp.has(p)) return false; for (int i = 0; i < nc; ++i) if (! cs[i].has(p)) return false; return true; };
  // up, all of them?
  bool up = wait_for([&] {
    auto p = root + "/" + fresh_name(r, true, 20);
    touch_new(p);
    for (int k = 0; k < 40; ++k) { if (all_have(p)) return true; usleep(500); }
    unlink(p.c_str());
    return false;
  });
  if (! up) violation("C17", "not-up", "one of the watchers did not come up");
  usleep(3000);
  auto lives = [&](Obs& o, char const* who) {
    auto v = o.take();
    if (v.empty() || v[0].path != "s/self/live@" + root || v[0].eff != CREATE || v[0].pt != WATCHER) violation("C17", "no-live", string{who} + " began with " + (v.empty() ? "nothing" : show(v[0])));
  };
  lives(cpp, "C++");
  for (int i = 0; i < nc; ++i) lives(cs[i], "C");
  static long long const T[] = {1, 0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000000ll, (1ll << 53) + 1, (1ll << 62) + 12345, 0x7fffffffffffffffll};
  bool bad = ! up;
  for (int seg = 0; seg < 25 && ! bad; ++seg) {
    long long now = r.chance(50) ? T[r(8)] : (long long)(r.r() >> 1) | 1;
    shim::set_clock(now);
    slow = r.chance(50) ? 1 + (int)r(r.chance(20) ? 300 : 1) : 0;
    bool hold = c.pump && r.chance(30);
    if (hold) shim::hold(true);
    int n = 1 + (int)r(40);
    for (int i = 0; i < n; ++i) m.op();
    auto last = root + "/" + fresh_name(r, false, 30) + "=end";
    touch_new(last);
    if (hold) shim::hold(false);
    if (! wait_for([&] { return all_have(last); })) { violation("C17", "events-missing", "not every watcher was told of a file created last"); break; }
    auto taken = cpp.take();
    bool phantoms = std::any_of(taken.begin(), taken.end(), phantom);
    auto a = calm(taken);
    for (int i = 0; i < nc; ++i) {
      auto taken_too = cs[i].take();
      bool dim = phantoms || std::any_of(taken_too.begin(), taken_too.end(), phantom), same = true;
      auto b = calm(taken_too);
      cov("events", (long)b.size());
      string sh;
      for (auto& e : b) { sh += eff_name[e.eff][0]; sh += pt_name[e.pt][0]; if (e.assoc) sh += '+', cov("associated"); }
      if (b.size() > 3) cov_distinct("segment_shapes", sh);
      for (size_t k = 0; k < std::max(a.size(), b.size()) && ! bad && same; ++k) {
        auto say = [&](string const& key, string const& why) { if (dim) { same = false, cov("segments_not_compared"); return; } violation("C17", key, why + " (event " + to_string(k) + "): C++ delivered " + (k < a.size() ? show(a[k]) : "nothing more") + ", C " + (k < b.size() ? show(b[k]) : "nothing more")); bad = true; };
        if (k >= a.size() || k >= b.size()) { say("count-differs", "another number of events"); break; }
        auto d = differs(a[k], b[k]);
        if (! d.empty()) { say("differs:" + d, d); break; }
        if (a[k].t == now) {
          cov("times_exact");
          if (b[k].t != now) say("differs:time", "effect time");
        }
      }
      if (! bad && same) cov("segments_compared");
      if (! bad && b.size() > 2) sample(to_string(b.size()) + " events equal through C and C++, e.g. " + show(b[b.size() / 2]));
    }
    m.h.a.clear();
  }
  shim::set_clock(0);
  slow = 0;
  // closing: once
  for (int i = 0; i < nc; ++i) {
    bool ok = sut::c_close(h[i]);
    cs[i].closed = true;
    if (! ok && up) violation("C17", "close-false", "closing a healthy watcher through C returned false");
    if (sut::c_close(h[i])) violation("C17", "closed-twice", "a second close through C returned true");
    cov("closes");
    auto v = cs[i].take();
    if (v.empty() || v.back().path != "s/self/die@" + root) violation("C17", "no-die", "closing did not end with a die message");
  }
  for (int i = 0; i < 5; ++i) touch_new(root + "/after" + to_string(i));
  if (up && ! wait_for([&] { return cpp.has(root + "/after4"); })) violation("C17", "others-affected", "closing through C stopped the C++ watcher");
  for (int i = 0; i < nc; ++i) if (cs[i].after) violation("C17", "callback-after-close", to_string(cs[i].after) + " events after close had returned");
  sut::destroy(w);
  cov("watchers", nc + 1);
  rmtree(outer);
}

// handles: null, failed, closed, closed by several, old next to new
void contract(Rng& r)
{
  auto c = cfg_of(args.backend, (unsigned)r.r());
  shim::configure(c);
  shim::reap();
  auto root = mkroot("capic");
  if (sut::c_close(nullptr)) violation("C17", "close-null", "closing null returned true");
  cov("closes");
  vector<void*> old;
  for (int i = 0; i < 14; ++i) {
    struct K : CCtx { std::atomic<long> n{0}, after{0}; std::atomic<bool> closed{false}, live{false}, err{false}; string want; } k;
    k.cb = [](CEv const& e, CCtx* x) {
      auto& k = *(K*)x;
      if (k.closed) k.after++;
      k.n++;
      if (e.pt == WATCHER && strstr(e.path, "s/self/live@") == e.path) k.live = true;
      if (e.pt == WATCHER && strstr(e.path, "e/") == e.path) k.err = true;
    };
    unsigned kind = r(7);
    string p = root;
    auto bad = kind == 4 || kind == 5;
    if (kind == 4) p = root + "/missing";
    if (kind == 5) { p = root + "/f"; put(p); }
    std::atomic<bool> stop{false};
    std::thread t;
    if (r.chance(50)) t = std::thread{[&] { long i = 0; while (! stop) { auto q = root + "/t" + to_string(i++ % 9); touch_new(q); unlink(q.c_str()); } }};
    auto* h = sut::c_open(p.c_str(), &k);
    if (bad) wait_for([&] { return k.err.load(); }, 20000);
    else wait_for([&] { return k.live.load(); }, 20000);
    // what was closed long ago
    if (! old.empty() && sut::c_close(old[r((unsigned)old.size())])) violation("C17", "closed-twice", "a handle closed long ago was closed again");
    std::atomic<int> yes{0};
    if (kind < 3) {
      // a true close is the end; the others may come back before
      vector<std::thread> cl;
      int m = 2 + (int)r(4);
      for (int j = 0; j < m; ++j) cl.emplace_back([&] { if (sut::c_close(h)) { k.closed = true; yes++; } });
      for (auto& x : cl) x.join();
      cov("closes", m);
    }
    else { yes = sut::c_close(h), cov("closes"); }
    k.closed = true;
    if (t.joinable()) usleep(2000);
    touch_new(root + "/z" + to_string(i));
    usleep(500);
    if (k.after) violation("C17", "callback-after-close", "kind " + to_string(kind) + ": " + to_string(k.after) + " events after close had returned");
    if (yes != (bad ? 0 : 1)) violation("C17", bad ? "close-true-failed" : "close-count", "kind " + to_string(kind) + ": " + to_string(yes) + " closes returned true");
    for (int j = 0; j < 2; ++j) if (sut::c_close(h)) violation("C17", "closed-twice", "a repeated close returned true");
    old.push_back(h);
    stop = true;
    if (t.joinable()) t.join();
    cov("handles");
    cov_distinct("handle_kinds", to_string(kind) + (t.joinable() ? "t" : ""));
  }
  rmtree(root);
}
} // namespace

void scen_capi()
{
  Rng r{args.seed * 70001ull + 17};
  for (int i = 0; i < args.num("runs", 4); ++i) {
    // without the pump the two halves of a rename may reach one in one read and the other in two
    if (args.backend != "direct") same_story(r);
    contract(r);
  }
}
