// C23: the portable polling backend. Batches of changes, each of which lasts until it
// was reported and some scans more; what is reported is compared with the model.
// Arguments: seed= scratch= batches=. Works as an unprivileged user.
#include "wtr/watcher.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace fs = std::filesystem;
using namespace std::chrono_literals;
using S = std::string;
static std::mt19937_64 rng;
static unsigned long rnd(unsigned long n) { return rng() % n; }
static S esc(S const& s)
{
  S o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') o += '\\', o += c; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static int viols;
static void viol(S const& key, S const& detail) { if (++viols < 20) std::cout << "{\"viol\":{\"prop\":\"C23\",\"key\":\"" << key << "\",\"detail\":\"" << esc(detail) << "\"}}" << std::endl; }
struct Ev { S path; int et, pt; };
static std::mutex m;
static std::vector<Ev> seen;
static std::atomic<bool> closed{false};
static std::atomic<long> after{0};
static long callbacks;
static char const* ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
static void on(wtr::event const& e)
{
  if (closed) ++after;
  auto l = std::scoped_lock{m};
  ++callbacks;
  seen.push_back({e.path_name.string(), (int)e.effect_type, (int)e.path_type});
}
// others in the process: each is told of its own tree, no matter what they know
struct Other {
  S root; std::mutex m; std::vector<Ev> seen; std::unique_ptr<wtr::watch> w;
  Other(S const& r) : root{r} { w = std::make_unique<wtr::watch>(root, [this](wtr::event const& e) {
    auto l = std::scoped_lock{m}; auto p = e.path_name.string();
    if (e.path_type != wtr::event::path_type::watcher && p != root && p.rfind(root + "/", 0) != 0) viol("foreign", "the watcher of " + root + " reported " + p);
    seen.push_back({p, (int)e.effect_type, (int)e.path_type}); }); }
  size_t n(S const& p, int et) { auto l = std::scoped_lock{m}; size_t k = 0; for (auto const& e : seen) k += e.path == p && (et < 0 || e.et == et); return k; }
  size_t all() { auto l = std::scoped_lock{m}; return seen.size(); }
};
static size_t count_of(S const& p, size_t from)
{
  auto l = std::scoped_lock{m};
  size_t n = 0;
  for (size_t i = from; i < seen.size(); ++i) n += seen[i].path == p;
  return n;
}
static size_t now() { auto l = std::scoped_lock{m}; return seen.size(); }
template<class F> static bool wait(F f, int s = 30)
{
  for (auto t = std::chrono::steady_clock::now(); std::chrono::steady_clock::now() - t < std::chrono::seconds(s); std::this_thread::sleep_for(2ms)) if (f()) return true;
  return false;
}
static long long stamp = 1500000000000000000;
static long long set_time(S const& p)
{
  long long t;
  switch (rnd(5)) {
    case 0: t = 1000000000ll * (long)rnd(2000000000) + ++stamp % 1000000000; break;   // any, backwards too
    case 1: t = -(++stamp % 1000000000000000); break;                                 // before the epoch
    default: t = stamp += 1 + rnd(2000000000);
  }
  timespec ts[2]{{0, UTIME_OMIT}, {(time_t)(t / 1000000000 - (t % 1000000000 < 0)), (long)((t % 1000000000 + 1000000000) % 1000000000)}};
  utimensat(AT_FDCWD, p.c_str(), ts, 0);
  return t;
}
static void touch_new(S const& p)
{
  // made aside and moved in, so that there is nothing in between
  static int n; auto t = S(getenv("VP_ASIDE")) + "/t" + std::to_string(n++);
  close(open(t.c_str(), O_CREAT | O_WRONLY, 0644)); set_time(t); rename(t.c_str(), p.c_str());
}
static std::map<S, long> sums;
static std::set<S> shapes;

int main(int argc, char** argv)
{
  S scratch; int batches = 20; unsigned long seed = 1;
  for (int i = 1; i < argc; ++i) {
    S a = argv[i];
    if (a.rfind("seed=", 0) == 0) seed = std::stoul(a.substr(5));
    if (a.rfind("scratch=", 0) == 0) scratch = a.substr(8);
    if (a.rfind("batches=", 0) == 0) batches = std::stoi(a.substr(8));
  }
  rng.seed(seed);
  auto base = scratch + "/w", root = base + "/root", aside = base + "/aside";
  fs::create_directories(root), fs::create_directories(aside);
  setenv("VP_ASIDE", aside.c_str(), 1);
  // somebody for whom permissions count, and nothing outside
  for (auto p : {base, root, aside}) if (chown(p.c_str(), 65534, 65534)) {}
  if (geteuid() == 0) {
    auto up = fs::path(scratch);
    for (auto const& p : {fs::path(base), up, up.parent_path(), up.parent_path().parent_path()}) if (p.filename().string().find("-") != S::npos || p == up || p == base) fs::permissions(p, fs::perms::others_exec | fs::perms::group_exec, fs::perm_options::add);
    if (setgid(65534) || setuid(65534)) { std::cout << "{\"error\":\"cannot become somebody else\"}\n"; return 0; }
  }
  umask(022);
  S odd[] = {"", " b", "\xc3\xa9", "\xe4\xb8\x96", "\"", "\\", "\n", "\xff\xfe", "%"};
  int serial = 0;
  auto name = [&] { return "n" + std::to_string(serial++) + odd[rnd(9)]; };
  std::set<S> dirs{root}, files, locked;
  auto any = [&](std::set<S> const& s) { auto i = s.begin(); std::advance(i, rnd(s.size())); return *i; };
  auto probe = root + "/probe";
  close(open(probe.c_str(), O_CREAT | O_WRONLY, 0644));
  // what is there before
  for (unsigned i = 0, n = rnd(4) == 0 ? 600 : rnd(30); i < n; ++i) {
    auto d = any(dirs) + "/" + name();
    if (rnd(4) == 0) fs::create_directory(d), dirs.insert(d);
    else touch_new(d), files.insert(d);
  }
  if (rnd(3) == 0) { auto d = root + "/deep"; for (int i = 0; i < 60; ++i) { fs::create_directory(d); dirs.insert(d); d += "/d"; } }
  // what is never to be reported, or waited for
  fs::create_symlink(root, root + "/loop"); fs::create_symlink("nowhere", root + "/dangling");
  mkfifo((root + "/fifo").c_str(), 0644);
  fs::create_directory(root + "/noise");
  auto before = base + "/before", beside = base + "/beside";
  fs::create_directories(before + "/d"), fs::create_directories(beside);
  touch_new(before + "/f"), touch_new(before + "/g"), touch_new(before + "/d/h"), touch_new(beside + "/f");
  if (rnd(2)) {
    Other o{before};
    if (! wait([&] { return o.all() > 0; })) viol("no-live", "no message in 30 s");
    std::this_thread::sleep_for(40ms);
    if (! o.w->close()) viol("close-failed", "close returned false");
    unlink((before + "/f").c_str()), set_time(before + "/g");
    ++sums["earlier_watchers"];
  }
  auto w = std::make_unique<wtr::watch>(root, on);
  std::unique_ptr<Other> same, other;
  if (rnd(2)) other = std::make_unique<Other>(beside);
  if (rnd(2)) same = std::make_unique<Other>(root), ++sums["twins"];
  if (! wait([&] { return now() > 0; })) { viol("no-live", "no message in 30 s"); return 1; }
  auto scans = [&](int n) {
    for (int i = 0; i < n; ++i) {
      auto from = now();
      auto t = std::chrono::steady_clock::now();
      set_time(probe); stamp += 1;
      // the first time it might be so early that it is taken for what was there
      while (! count_of(probe, from)) {
        std::this_thread::sleep_for(1ms);
        auto s = std::chrono::steady_clock::now() - t;
        if (sums["scans"] == 0 && s > 2s) { set_time(probe); t = std::chrono::steady_clock::now(); if (++sums["early"] > 10) break; }
        if (s > 30s) { viol("not-scanned", "a changed modification time was not reported in 30 s"); return false; }
      }
      ++sums["scans"];
    }
    return true;
  };
  if (! scans(3)) goto out;
  for (auto* o : {same.get(), other.get()}) if (o && ! wait([&] { return o->all() > 0; })) viol("no-live", "no message in 30 s");
  // they have looked around: a change can be seen now
  std::this_thread::sleep_for(100ms);
  if (same) { auto l = std::scoped_lock{same->m}; same->seen.clear(); }
  {
    std::atomic<bool> stop{false};
    std::thread noise;
    if (rnd(2)) noise = std::thread([&, r = std::mt19937_64(seed)]() mutable {
      auto top = root + "/noise"; std::error_code ec;
      while (! stop) {
        auto d = top + "/x" + std::to_string(r() % 5);
        switch (r() % 6) {
          case 0: fs::create_directories(d + "/y/z", ec); break;
          case 1: close(open((d + "/f" + std::to_string(r() % 4)).c_str(), O_CREAT | O_WRONLY, 0644)); break;
          case 2: unlink((d + "/f" + std::to_string(r() % 4)).c_str()); break;
          case 3: fs::remove_all(d, ec); break;
          case 4: rename((d + "/y").c_str(), (top + "/x" + std::to_string(r() % 5) + "/w").c_str()); break;
          case 5: chmod(d.c_str(), r() % 2 ? 0 : 0755); if (r() % 2) std::this_thread::sleep_for(std::chrono::microseconds(r() % 3000)); chmod(d.c_str(), 0755); break;
        }
      }
      fs::remove_all(top, ec);
    });
    auto begun = now();
    { auto l = std::scoped_lock{m}; for (auto const& e : seen) if (e.pt != 4 && e.path != probe && e.path.rfind(root + "/noise", 0) != 0) { viol("unchanged", "nothing but the probe changed since the watcher was opened, but " + e.path + " was reported as " + ET[e.et]); break; } }
    auto quiet = [&](S const& p) { return p.rfind(root + "/noise", 0) == 0 || p == probe; };
    for (int b = 0; b < batches && viols < 5; ++b) {
      auto from = now();
      std::map<S, int> want;          // path -> effect
      std::set<S> used;               // one change per path and batch
      S what;
      auto in_locked = [&](S const& p) { for (auto const& l : locked) if (p.rfind(l + "/", 0) == 0 || p == l) return true; return false; };
      auto open_dir = [&]() -> S { for (int i = 0; i < 20; ++i) { auto d = any(dirs); if (! in_locked(d) && ! used.count(d)) return d; } return root; };
      auto open_file = [&]() -> S { for (int i = 0; i < 20 && ! files.empty(); ++i) { auto f = any(files); if (! in_locked(f) && ! used.count(f)) return f; } return {}; };
      for (unsigned k = 0, n = 1 + rnd(rnd(3) ? 6 : 40); k < n; ++k) {
        auto op = rnd(14);
        auto f = open_file(), d = open_dir();
        if (op < 3 || f.empty()) { auto p = d + "/" + name(); if (in_locked(p)) continue; touch_new(p); files.insert(p), used.insert(p); want[p] = 2; what += "c"; }
        else if (op == 3) { set_time(f); used.insert(f); want[f] = 1; what += "t"; }
        else if (op == 4) { int fd = open(f.c_str(), O_WRONLY | O_APPEND); if (write(fd, "x", 1) != 1) {} close(fd); used.insert(f); want[f] = 1; what += "w"; }
        else if (op == 5) { unlink(f.c_str()); files.erase(f); used.insert(f); want[f] = 3; what += "u"; }
        else if (op == 6) { auto p = d + "/" + name(); rename(f.c_str(), p.c_str()); files.erase(f), files.insert(p); used.insert(f), used.insert(p); want[f] = 3, want[p] = 2; what += "r"; }
        else if (op == 7) { auto g = open_file(); if (g == f || g.empty() || fs::last_write_time(f) == fs::last_write_time(g)) continue; rename(f.c_str(), g.c_str()); files.erase(f); used.insert(f), used.insert(g); want[f] = 3, want[g] = 1; what += "o"; }
        else if (op == 8) { auto p = d + "/" + name(); mkdir(p.c_str(), 0755); dirs.insert(p), used.insert(p); what += "m"; for (auto i = rnd(3); i--;) { auto q = p + "/" + name(); touch_new(q); files.insert(q), used.insert(q); want[q] = 2; } }
        else if (op == 9) { chmod(f.c_str(), 0600 | rnd(0100)); struct stat s; stat(f.c_str(), &s); timespec ts[2]{{1, 1}, s.st_mtim}; utimensat(AT_FDCWD, f.c_str(), ts, 0); used.insert(f); what += "n"; }   // nothing of interest
        else if (op == 10) {                                               // a whole directory goes
          if (d == root || ! used.empty()) continue;
          for (auto i = files.begin(); i != files.end();) if (i->rfind(d + "/", 0) == 0) want[*i] = 3, used.insert(*i), i = files.erase(i); else ++i;
          for (auto i = dirs.begin(); i != dirs.end();) if (*i == d || i->rfind(d + "/", 0) == 0) used.insert(*i), i = dirs.erase(i); else ++i;
          for (auto i = locked.begin(); i != locked.end();) if (i->rfind(d + "/", 0) == 0) chmod(i->c_str(), 0755), i = locked.erase(i); else ++i;
          rename(d.c_str(), (aside + "/" + name()).c_str()); what += "D"; break;
        }
        else if (op == 11) {                                               // a directory gets another name
          if (d == root || ! used.empty() || ! locked.empty()) continue;
          auto to = root + "/" + name();
          std::set<S> nf, nd;
          auto moved = [&](S const& p) { return to + p.substr(d.size()); };
          for (auto const& x : files) if (x.rfind(d + "/", 0) == 0) want[x] = 3, want[moved(x)] = 2, nf.insert(moved(x)), used.insert(x), used.insert(moved(x)); else nf.insert(x);
          for (auto const& x : dirs) if (x == d || x.rfind(d + "/", 0) == 0) nd.insert(moved(x)); else nd.insert(x);
          rename(d.c_str(), to.c_str()); files = nf, dirs = nd; what += "M"; break;
        }
        else if (op == 12) {                                               // a file becomes something else
          unlink(f.c_str()); files.erase(f), used.insert(f); want[f] = 3; what += "b";
          if (rnd(2)) mkdir(f.c_str(), 0755); else if (rnd(2)) mkfifo(f.c_str(), 0644); else symlink("nowhere", f.c_str());
        }
        else if (op == 13) {                                               // a directory cannot be read for a while
          if (! locked.empty() && rnd(2)) { auto l = any(locked); if (in_locked(fs::path(l).parent_path().string())) continue; chmod(l.c_str(), 0755); locked.erase(l); what += "L"; }
          else if (d != root && used.empty()) { chmod(d.c_str(), rnd(2) ? 0 : rnd(2) ? 0444 : 0111); locked.insert(d); what += "l"; break; }
        }
      }
      auto all = wait([&] { for (auto const& [p, e] : want) if (! count_of(p, from)) return false; return true; }, 20);
      if (! scans(3)) break;
      (void)all;
      if (auto* o = other.get(); o && rnd(4) == 0) {
        auto p = o->root + "/" + name();
        touch_new(p);
        if (! wait([&] { return o->n(p, 2) > 0; })) viol("missed", "another watcher, of " + o->root + ": " + p + " was not reported");
        ++sums["changes_elsewhere"];
        unlink(p.c_str()); if (! wait([&] { return o->n(p, 3) > 0; })) viol("missed", "another watcher: " + p + " was not reported as destroyed"); if (o->n(p, -1) != 2) viol("twice", "another watcher: " + p);
      }
      std::vector<Ev> got;
      { auto l = std::scoped_lock{m}; got.assign(seen.begin() + from, seen.end()); }
      std::map<S, std::vector<int>> by;
      for (auto const& e : got) {
        if (e.pt != 4 && e.path.rfind(root, 0) != 0) viol("foreign", "reported: " + e.path);
        if (quiet(e.path)) continue;
        if (e.pt == 4) { viol("message", "batch " + what + ": " + e.path); continue; }
        if (e.pt == 0) { ++sums["dir_events"]; if (e.et != 3 || dirs.count(e.path)) viol("dir-event", "batch " + what + ": " + ET[e.et] + " of directory " + e.path); continue; }
        by[e.path].push_back(e.et); ++sums["events"];
        if (e.pt != 1) viol("type", "batch " + what + ": " + e.path + " reported with type " + std::to_string(e.pt));
      }
      for (auto const& [p, e] : want) {
        auto& g = by[p];
        if (g.size() == 1 && g[0] == e) continue;
        S s; for (int x : g) s += S(" ") + ET[x];
        viol(g.empty() ? "missed" : g.size() > 1 ? "twice" : "wrong-effect", "batch " + std::to_string(b) + " " + what + ": " + p + " should be reported as " + ET[e] + " once; reported:" + s);
      }
      for (auto const& [p, g] : by) if (! want.count(p)) viol("unchanged", "batch " + std::to_string(b) + " " + what + ": " + p + " did not change and was reported as " + ET[g[0]]);
      ++sums["batches"], sums["changes"] += want.size();
      std::sort(what.begin(), what.end()); what.erase(std::unique(what.begin(), what.end()), what.end());
      shapes.insert(what);
      sums["largest"] = std::max<long>(sums["largest"], files.size());
    }
    stop = true;
    if (noise.joinable()) noise.join();
    if (same && ! viols) {
      // both saw the same changes of every file
      auto from = now(), n = same->n(probe, -1);
      set_time(probe); stamp += 1;
      if (! wait([&] { return count_of(probe, from) && same->n(probe, -1) > n; })) viol("not-scanned", "a changed modification time was not reported in 30 s");
      auto of = [&](std::vector<Ev> const& v, size_t i) { std::map<S, std::vector<int>> b; for (; i < v.size(); ++i) if (v[i].pt == 1 && ! quiet(v[i].path)) b[v[i].path].push_back(v[i].et); return b; };
      auto l = std::scoped_lock{m, same->m};
      auto a = of(seen, begun), b = of(same->seen, 0);
      for (auto const& [p, g] : a) if (b[p] != g) { viol("twins-differ", p + " was reported " + std::to_string(g.size()) + " times to one and " + std::to_string(b[p].size()) + " times to the other"); break; }
      if (a.size() != b.size()) viol("twins-differ", "one was told of " + std::to_string(a.size()) + " files, the other of " + std::to_string(b.size()));
    }
  }
out:
  {
    for (auto* o : {&same, &other}) if (*o && ! (*o)->w->close()) viol("close-failed", "close returned false");
    bool gone = rnd(4) == 0;
    if (gone) { for (auto const& l : locked) chmod(l.c_str(), 0755); rename(root.c_str(), (aside + "/gone").c_str()); std::this_thread::sleep_for(100ms); sums["roots_gone"] = 1; }
    auto ok = w->close();
    closed = true;
    if (! ok && ! gone) viol("close-failed", "close returned false");
    { auto l = std::scoped_lock{m}; if (seen.empty() || seen.back().path.find(gone ? "/self/die@" + root : "s/self/die@" + root) == S::npos) viol("no-die", "the last event is " + (seen.empty() ? S("none") : seen.back().path)); }
    if (w->close()) viol("close-twice", "a second close returned true");
    w.reset();
    std::this_thread::sleep_for(60ms);
    if (after) viol("after-close", "callbacks after close had returned");
  }
  std::cout << "{\"cov\":{\"sum\":{\"callbacks\":" << callbacks;
  for (auto const& [k, v] : sums) if (k != "largest") std::cout << ",\"" << k << "\":" << v;
  std::cout << "},\"max\":{\"files\":" << sums["largest"] << "},\"distinct\":{\"batch_kinds\":[";
  bool first = true;
  for (auto const& s : shapes) std::cout << (first ? "" : ",") << '"' << s << '"', first = false;
  std::cout << "]},\"samples\":[\"" << sums["batches"] << " batches, " << sums["changes"] << " changes, " << callbacks << " callbacks, " << sums["scans"] << " probed scans\"]}}\n{\"done\":true}" << std::endl;
}
