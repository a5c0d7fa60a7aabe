// C22: at least one of the kernel's interfaces is usable; then it must work as
// if there had never been another.
#include "mut.hpp"
#include "scen.hpp"

void scen_fallback()
{
  using namespace shim;
  struct V { string name; bool root; int init = 0; Fn fn = F_N; int err = 0; bool path = false; vector<std::pair<Fn, int>> also; };
  vector<V> vs;
  vs.push_back({"not root", false});
  vs.push_back({"root", true});
  for (int e : {EPERM, ENOSYS, EINVAL, EMFILE, ENFILE, ENOMEM, EACCES}) vs.push_back({"fanotify_init " + to_string(e), true, e});
  for (int e : {ENODEV, EOPNOTSUPP, EXDEV, EPERM, EINVAL, ENOSPC, ENOMEM, ENOSYS, EACCES}) vs.push_back({"fanotify_mark of the root " + to_string(e), true, 0, F_fanotify_mark, e, true});
  for (int e : {EPERM, ENOSYS, EOPNOTSUPP, EACCES}) vs.push_back({"open_by_handle_at " + to_string(e), true, 0, F_open_by_handle_at, e});
  vs.push_back({"no inotify, but fanotify", true, 0, F_N, 0, false, {{F_inotify_init, EMFILE}}});
  vs.push_back({"no room in inotify, but fanotify", true, 0, F_N, 0, false, {{F_inotify_add_watch, ENOSPC}}});
  vs.push_back({"no fanotify for someone else", false, EPERM});
  Rng r{args.seed * 60013ull + 3};
  int stride = args.num("stride", 3), off = args.num("part", 0) % stride;
  for (size_t i = 0; i < vs.size(); ++i) {
    if ((int)(i % (size_t)stride) != off) continue;
    auto& v = vs[i];
    auto c = cfg_of(v.root ? "fanotify" : "inotify", (unsigned)r.r());
    c.fan_init_errno = v.init;
    configure(c);
    reap();
    auto outer = mkroot("fb");
    auto root = outer + "/" + fresh_name(r, false, 40), outside = outer + "/out", dead = outer + "/missing";
    mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
    vector<string> dirs{root};
    for (int k = (int)r(6); k > 0; --k) { auto p = dirs[r((unsigned)dirs.size())] + "/" + fresh_name(r, false, 40); if (mkdir(p.c_str(), 0755) == 0) dirs.push_back(p); }
    if (v.fn == F_fanotify_mark) fault_path(F_fanotify_mark, v.err, [root](string const& p) { return p == root; });
    else if (v.fn != F_N) fault(v.fn, 1, v.err, -1);
    for (auto& f : v.also) fault(f.first, 1, f.second, -1);
    auto fds = open_fds() - (int)open_fds_of_shim();
    {
      Watcher w{root};
      bool up = w.ready(20000);
      if (! up) violation("C22", "watcher-not-ready", v.name + ": one interface was usable, but: " + w.dump(0));
      cov("openings");
      Mut m{r.r()};
      m.dirs = dirs, m.outside = outside, m.p_ren = 25, m.p_noise = 5, m.fan = true;
      size_t pos = 0;
      w.take(pos);
      bool bad = ! up;
      for (int seg = 0; seg < 3 && ! bad; ++seg) {
        for (int k = 30 + (int)r(60); k > 0; --k) m.op();
        // a directory made while it runs, used as soon as it is there
        auto d = root + "/" + fresh_name(r, false, 30);
        ll t = now_ns();
        mkdir(d.c_str(), 0755);
        m.h.one(CREATE, DIR_, d, t);
        if (! w.wait_path(d, CREATE)) { violation("C22", "events-stopped", v.name + ": a new directory is not reported: " + w.dump(w.size() > 5 ? w.size() - 5 : 0)); bad = true; break; }
        auto p = d + "/x";
        t = now_ns();
        touch_new(p);
        m.h.one(CREATE, FILE_, p, t);
        if (! w.barrier() || ! w.barrier(30000, d)) { violation("C22", "events-stopped", v.name + ": " + w.dump(w.size() > 5 ? w.size() - 5 : 0)); bad = true; break; }
        vector<Rec> ev;
        for (auto& x : w.take(pos)) if (x.e.pt != WATCHER) ev.push_back(x);
        string key;
        auto why = align(m.h.a, ev, key);
        cov("events", (long)ev.size()), cov("atoms", (long)m.h.a.size());
        if (! why.empty()) { violation("C22", key, v.name + ": " + why); bad = true; }
        string sh;
        for (auto& e : ev) { sh += eff_name[e.e.eff][0]; sh += pt_name[e.e.pt][0]; if (e.e.assoc) sh += '+'; }
        cov_distinct("segment_shapes", sh);
        m.h.a.clear();
      }
      bool closed = w.close();
      int lives = 0;
      string err;
      for (auto& x : w.log)
        if (x.e.pt == WATCHER) {
          if (x.e.path.find("/self/live@") != string::npos) lives++;
          if (x.e.path.find("e/") == 0) err = x.e.path;
        }
      if (lives != 1) violation("C22", "live-count", v.name + ": " + to_string(lives) + " live messages");
      if (! err.empty()) violation("C22", "error-message", v.name + ": the user is told of " + err);
      if (up && ! closed) violation("C22", "close-failed", v.name + ": closing reported failure");
      w.destroy();
      if (up) sample(v.name + ": one live message, " + to_string(w.count) + " events, no error");
    }
    clear_faults();
    usleep(2000);
    int now = open_fds() - (int)open_fds_of_shim();
    if (now > fds) violation("C22", "descriptors-left", v.name + ": the interface given up kept " + to_string(now - fds) + " descriptors open");
    cov_distinct("variants", v.name);
    rmtree(outer);
  }
}
