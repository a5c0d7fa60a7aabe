// C11: whatever fails for good, when starting or later, is said, ends the
// watcher by itself, and makes close report failure.
#include "mut.hpp"
#include "scen.hpp"
#include <filesystem>
#include <pthread.h>
#include <sys/fanotify.h>

namespace {
struct Variant {
  string name;
  vector<std::pair<shim::Fn, int>> start;  // these fail for good from before it starts
  long nth = 1;
  shim::Fn run = shim::F_N; int run_err = 0;   // this fails for good once it runs
  string raw;                                  // this is what it reads once it runs
  bool vanish = false, thread = false, both = false;
};
struct CW { CCtx c; std::mutex mx; vector<string> msgs; std::atomic<long> n{0}, after{0}; std::atomic<bool> closed{false}, died{false}, died_ok{false}, live{false}; };
void c_cb(CEv const& e, CCtx* x)
{
  auto* k = (CW*)x;
  if (k->closed) k->after++;
  k->n++;
  if (e.pt != WATCHER) return;
  std::lock_guard l{k->mx};
  k->msgs.push_back(e.path);
  if (strstr(e.path, "self/die@")) k->died_ok = e.path[0] == 's', k->died = true;
  if (strstr(e.path, "self/live@")) k->live = true;
}
}

void scen_fail()
{
  using namespace shim;
  vector<Variant> vs;
  auto add = [&](string n, vector<std::pair<Fn, int>> s, long nth = 1) { Variant v; v.name = std::move(n), v.start = std::move(s), v.nth = nth; vs.push_back(v); };
  bool fan = args.backend == "fanotify";
  // what both backends need
  for (int e : {EMFILE, ENFILE, ENOMEM}) add("epoll_create " + to_string(e), {{F_epoll_create, e}});
  for (int e : {ENOSPC, ENOMEM, EPERM})
    for (long n : {1, 2}) add("epoll_ctl#" + to_string(n) + " " + to_string(e), {{F_epoll_ctl, e}}, n);
  for (int e : {EMFILE, ENODEV}) add("eventfd " + to_string(e), {{F_eventfd, e}});
  if (! fan) {
    for (int e : {EMFILE, ENFILE, ENOMEM}) add("inotify_init " + to_string(e), {{F_inotify_init, e}});
    for (int e : {ENOSPC, EACCES, ENOMEM}) add("inotify_add_watch " + to_string(e), {{F_inotify_add_watch, e}});
  }
  else {
    for (auto f : {F_fanotify_init, F_fanotify_mark, F_open_by_handle_at}) {
      add(string{fn_name[f]} + " and inotify_init", {{f, f == F_fanotify_init ? EMFILE : EPERM}, {F_inotify_init, EMFILE}});
      add(string{fn_name[f]} + " and inotify_add_watch", {{f, ENOMEM}, {F_inotify_add_watch, ENOSPC}});
      add(string{fn_name[f]} + " and epoll_create", {{f, EACCES}, {F_epoll_create, EMFILE}});
    }
  }
  for (int e : {EIO, EBADF, EINVAL, ENOMEM, EFAULT}) { Variant v; v.name = "read " + to_string(e) + " while running"; v.run = F_read, v.run_err = e; vs.push_back(v); }
  for (int e : {EBADF, EINVAL, ENOMEM}) { Variant v; v.name = "epoll_wait " + to_string(e) + " while running"; v.run = F_epoll_wait, v.run_err = e; vs.push_back(v); }
  for (int e : {EIO, EINVAL}) { Variant v; v.name = "read " + to_string(e) + " from the start"; v.start = {{F_read, e}}; vs.push_back(v); }
  { Variant v; v.name = "epoll_wait from the start"; v.start = {{F_epoll_wait, EINVAL}}; vs.push_back(v); }
  if (fan)
    for (int ver : {0, FANOTIFY_METADATA_VERSION + 1, 255}) {
      fanotify_event_metadata m{};
      m.vers = (uint8_t)ver, m.event_len = m.metadata_len = sizeof m, m.mask = FAN_CREATE, m.fd = FAN_NOFD;
      Variant v;
      v.name = "another kernel's record, version " + to_string(ver), v.raw.assign((char*)&m, sizeof m);
      vs.push_back(v);
    }
  { Variant v; v.name = "root vanishes"; v.vanish = true; vs.push_back(v); }
  { Variant v; v.name = "no threads"; v.thread = true; vs.push_back(v); }

  Rng r{args.seed * 77003ull + 3};
  auto outer = mkroot("fail");
  int stride = args.num("stride", 3), off = args.num("part", 0) % stride;
  for (int i = off; i < (int)vs.size(); i += stride) {
    auto& v = vs[(size_t)i];
    bool c_api = r.chance(35), running = v.run != F_N || ! v.raw.empty();
    auto c = cfg_of(args.backend, (unsigned)r.r());
    configure(c);
    reap();
    auto root = outer + "/" + to_string(i);
    mkdir(root.c_str(), 0755);
    for (int k = 0; k < 5; ++k) mkdir((root + "/d" + to_string(k)).c_str(), 0755);
    string label = v.name + (c_api ? ", C" : ", C++") + ", " + args.backend;
    auto bad = [&](string const& key, string const& why) { violation("C11", key + ":" + v.name, label + ": " + why); };
    for (auto& [f, e] : v.start) fault(f, f == F_epoll_ctl ? v.nth : 1, e, -1);
    if (v.vanish) on_path([&](Fn, string const& p) { if (p == root) { std::error_code ec; std::filesystem::remove_all(root, ec); } });
    pthread_attr_t at0, at;
    if (v.thread) {
      if (pthread_getattr_default_np(&at0) || pthread_attr_init(&at) || pthread_attr_setstacksize(&at, (size_t)1 << 46) || pthread_setattr_default_np(&at)) continue;
    }
    auto threads_again = [&] { if (v.thread) pthread_setattr_default_np(&at0); };
    bool traffic = running && r.chance(70), race = r.chance(25);
    std::atomic<bool> stop{false};
    std::thread tr;
    auto begin_traffic = [&] { if (traffic) tr = std::thread{[&] { long n = 0; while (! stop) { auto p = root + "/d" + to_string(n % 5) + "/t" + to_string(n++ % 50); touch_new(p); unlink(p.c_str()); } }}; };
    auto begin_fault = [&] { if (running) { if (v.raw.empty()) fault(v.run, 1 + r(4), v.run_err, -1); else { RawEv e; e.raw = v.raw, e.beside = r.chance(60); inject(0, {e}); } for (int k = 0; k < 8; ++k) touch_new(root + "/go" + to_string(k)), usleep(300); } };
    auto end_traffic = [&] { stop = true; if (tr.joinable()) tr.join(); };
    auto until = [&](auto f) { auto end = mono_ms() + 20000; while (! f() && mono_ms() < end) { usleep(200); if (running || v.name.find("read ") == 0) touch_new(root + "/x" + to_string(mono_ms())); } return f(); };
    vector<string> msgs;
    bool died, closed_ok = true, die_ok = true;
    long after = 0;
    if (c_api) {
      CW k;
      k.c.cb = c_cb;
      auto* h = sut::c_open(root.c_str(), &k.c);
      threads_again();
      if (running) { until([&] { return k.n > 1; }); begin_traffic(); begin_fault(); }
      if (race && h) { usleep(r(800)); died = true; } // closing while it fails
      else died = until([&] { return k.died.load(); });
      std::lock_guard l{k.mx};
      k.mx.unlock();
      closed_ok = sut::c_close(h);
      k.closed = true;
      if (h) {} 
      end_traffic();
      usleep(2000);
      k.mx.lock();
      msgs = k.msgs, after = k.after, die_ok = k.died_ok;
      if (! k.died) { bad("no-die", "no die message at all"); continue; }
      if (sut::c_close(nullptr)) bad("close-null", "closing null reported success");
    }
    else {
      Watcher w{root};
      threads_again();
      if (running) {
        if (! w.ready()) { bad("not-ready", w.dump(0)); continue; }
        begin_traffic();
        begin_fault();
      }
      if (race) { usleep(r(800)); died = true; }
      else died = until([&] { return w.died(); });
      closed_ok = w.close();
      end_traffic();
      usleep(2000);
      if (w.close()) bad("second-close", "a repeated close of a failed watcher reported success");
      {
        std::lock_guard l{w.mx};
        for (auto& x : w.log) if (x.e.pt == WATCHER) msgs.push_back(x.e.path);
        die_ok = ! w.log.empty() && w.log.back().e.path.compare(0, 2, "s/") == 0;
      }
      after = w.after;
      w.destroy();
    }
    cov("failures");
    cov("faults_hit", faults_hit());
    cov_distinct("variants", label);
    string all;
    bool told = false;
    auto mark = [&](string const& m) { auto a = m.find('@'); return a == string::npos ? string{} : m.substr(a + 1); };
    for (auto& m : msgs) {
      all += m + "; ";
      if (m.compare(0, 2, "e/") == 0 && m.find("e/self/die@") != 0 && mark(m) == root) told = true;
    }
    bool hit = faults_hit() > 0 || v.vanish || v.thread || ! v.raw.empty();
    clear_faults();
    on_path(nullptr);
    rmtree(root);
    if (closed_ok != die_ok) violation("C01", "die-vs-close", label + ": closing reported " + (closed_ok ? "success" : "failure") + ", but: " + all);
    if (! died && hit) bad("keeps-running", "20 s after the failure it has not said e/self/die; messages: " + all);
    if (after) bad("callback-after-close", to_string(after) + " callbacks after close");
    if (race && (closed_ok || ! hit)) { if (closed_ok != die_ok) bad("die-and-close-disagree", all); cov("closed_before_it_failed"); continue; }
    if (! hit) { cov("faults_not_reached"); continue; }
    if (closed_ok) bad("close-succeeds", "close reported success; messages: " + all);
    if (die_ok) bad("die-succeeds", "the die message says success: " + all);
    if (! told) bad("not-told", "no e/...@" + root + " message: " + all);
    sample(label + ": " + all);
  }
  rmtree(outer);
}
