// C01: the frame of every watch, for every kind of path and moment of closing.
#include "mut.hpp"
#include "scen.hpp"
#include <filesystem>
namespace fs = std::filesystem;

static string norm(string const& p)
{
  auto s = fs::path(p).lexically_normal().string();
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}
static bool same_place(string const& told, string const& given)
{
  if (told.empty() || told[0] != '/') return given.empty();
  std::error_code ec;
  auto a = fs::absolute(given, ec);
  if (norm(told) == norm(a.string())) return true;
  char b[PATH_MAX];
  return ::realpath(a.c_str(), b) && norm(told) == b;
}

void scen_life()
{
  auto outer = mkroot("life");
  (void)!chdir(outer.c_str());
  Rng r{args.seed * 77777ull + 3};
  auto mk = [&](string const& p) { mkdir(p.c_str(), 0755); return p; };
  mk(outer + "/d"), mk(outer + "/d/sub"), mk(outer + "/rel"), mk(outer + "/rel/x"), put(outer + "/file");
  (void)!symlink((outer + "/d").c_str(), (outer + "/sym").c_str());
  (void)!symlink((outer + "/nowhere").c_str(), (outer + "/dangling").c_str());
  (void)!symlink((outer + "/loop").c_str(), (outer + "/loop").c_str());
  (void)!symlink((outer + "/file").c_str(), (outer + "/fsym").c_str());
  auto weird = mk(outer + "/" + fresh_name(r));
  auto at = mk(outer + "/a@b@c");
  string deep = outer + "/deep";
  mk(deep);
  while (deep.size() < 3300) { deep += "/" + string(200, 'd'); mk(deep); }
  auto many = mk(outer + "/many");
  for (int i = 0; i < 150; ++i) mk(many + "/" + to_string(i));
  struct K { char const* name; string path; bool dir; };
  vector<K> kinds{
    {"dir", outer + "/d", true}, {"dir-slash", outer + "/d/", true}, {"dir-dot", outer + "/d/.", true}, {"dir-dotdot", outer + "/d/sub/..", true},
    {"symlink", outer + "/sym", true}, {"symlink-slash", outer + "/sym/", true}, {"relative", "rel", true}, {"dot-relative", "./rel/x", true}, {"dot", ".", true},
    {"weird", weird, true}, {"with-at", at, true}, {"deep", deep, true}, {"many", many, true},
    {"missing", outer + "/nope", false}, {"missing-slash", outer + "/nope/", false}, {"missing-deep", outer + "/nope/nope", false}, {"file", outer + "/file", false}, {"below-file", outer + "/file/x", false},
    {"file-slash", outer + "/file/", false}, {"file-symlink", outer + "/fsym", false}, {"dangling", outer + "/dangling", false}, {"loop", outer + "/loop", false}, {"relative-missing", "nope", false},
    {"empty", "", false}, {"too-long-name", outer + "/" + string(300, 'n'), false}, {"too-long", outer + string(2500, '/') + string(2500, 'x') + "/y", false}, {"dev-null", "/dev/null", false}};
  for (int run = 0; run < args.num("runs", 60); ++run) {
    auto c = cfg_of(args.backend, (unsigned)r.r());
    shim::configure(c);
    shim::reap();
    auto& k = kinds[(size_t)run < kinds.size() ? (size_t)run : r((unsigned)kinds.size())];
    unsigned moment = r(8);
    std::atomic<bool> stop{false};
    std::thread traffic;
    bool busy = k.dir && r.chance(40) && string{k.name} != "dot";
    if (busy)
      traffic = std::thread{[&, p = k.path] {
        int i = 0;
        while (! stop) { auto f = p + "/t" + to_string(i++ % 40); touch_new(f); unlink(f.c_str()); }
      }};
    vector<sut::Ev> log;
    std::mutex mx;
    std::atomic<int> n{0};
    std::atomic<bool> over{false};
    unsigned slow = r.chance(20) ? r(2000) : 0;
    auto cb = [&](sut::Ev const& e) {
      if (over) violation("C01", "event-after-close", show(e));
      if (slow && e.pt == WATCHER) usleep(slow);
      std::lock_guard l{mx};
      log.push_back(e);
      n++;
    };
    auto wait_n = [&](int want) { auto end = mono_ms() + 20000; while (n < want && mono_ms() < end) usleep(50); return n >= want; };
    string label = string{k.name} + ", moment " + to_string(moment) + (busy ? ", busy" : "");
    int closed = -1; // unknown
    bool saw_live = false;
    auto pace = [&] {
      switch (moment) {
        case 0: break;
        case 1: case 2: saw_live = wait_n(1); if (! saw_live) violation("C01", "no-live", label + ": no live message within 20 s"); break;
        case 3: usleep(r(100)); break;
        case 4: usleep(r(3000)); break;
        case 5: case 6: if (! k.dir) saw_live = wait_n(2); else { saw_live = wait_n(1); usleep(2000); } break;
        default: std::this_thread::yield();
      }
    };
    if (moment == 6) sut::scoped(k.path, cb, pace);
    else {
      auto* w = sut::open(k.path, cb);
      pace();
      if (r.chance(80)) closed = sut::close(w);
      if (closed >= 0) over = true;
      sut::destroy(w);
    }
    over = true;
    stop = true;
    if (traffic.joinable()) traffic.join();
    std::lock_guard l{mx};
    auto starts = [](string const& s, char const* p) { return s.compare(0, strlen(p), p) == 0; };
    string all;
    for (size_t i = 0; i < log.size() && i < 6; ++i) all += show(log[i]) + "; ";
    auto bad = [&](string const& key, string const& why) { violation("C01", key, label + ", path `" + k.path.substr(0, 200) + "`, close " + (closed < 0 ? "not called" : closed ? "true" : "false") + ": " + why + "; got " + to_string(log.size()) + " events: " + all); };
    cov("watches");
    cov_distinct("kind_x_moment", string{k.name} + "/" + to_string(moment) + (busy ? "b" : "") + (slow ? "s" : ""));
    int lives = 0, dies = 0;
    string lp, dp;
    bool live_ok = false, die_ok = false, errs = false;
    for (size_t i = 0; i < log.size(); ++i) {
      auto& e = log[i];
      if (e.pt != WATCHER) continue;
      bool li = starts(e.path, "s/self/live@") || starts(e.path, "e/self/live@"), di = starts(e.path, "s/self/die@") || starts(e.path, "e/self/die@");
      if (! li && ! di && e.path[0] == 'e') errs = true;
      if (li) { lives++; lp = e.path.substr(12); live_ok = e.path[0] == 's'; if (i) bad("live-not-first", "live at " + to_string(i)); if (e.eff != CREATE) bad("live-effect", show(e)); }
      if (di) { dies++; dp = e.path.substr(11); die_ok = e.path[0] == 's'; if (i + 1 != log.size()) bad("die-not-last", "die at " + to_string(i)); if (e.eff != DESTROY) bad("die-effect", show(e)); }
      if (e.assoc) bad("message-with-associated", show(e));
    }
    if (lives != 1) { bad("live-count", to_string(lives) + " live messages"); continue; }
    if (dies != 1) { bad("die-count", to_string(dies) + " die messages"); continue; }
    if (! same_place(lp, k.path)) bad("live-path", "`" + lp + "`");
    if (lp != dp) bad("die-path", "`" + dp + "`");
    if (closed >= 0 && (closed == 1) != die_ok) bad("die-vs-close", "die says " + string{die_ok ? "s" : "e"});
    if (! k.dir) {
      if (live_ok || die_ok || closed == 1) bad("bad-path-succeeds", "the path is not a directory");
      if (log.size() != 2) bad("bad-path-events", "more than live and die");
    }
    else {
      if (live_ok != die_ok) bad("live-vs-die", "nothing failed in between");
      if (! live_ok && saw_live) bad("good-path-fails", "the path is a directory");
      if (errs) bad("error-message", "nothing failed");
    }
    if (live_ok) cov("succeeded"); else cov("failed");
    if (r.chance(5)) sample(label + ": " + all);
  }
  (void)!chdir("/");
  rmtree(outer);
}
