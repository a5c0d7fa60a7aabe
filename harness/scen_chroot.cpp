// The whole filesystem is what's watched: its paths have one slash less than
// one might think. In a directory which we, in a user namespace of our own,
// take for the root.
#include "mut.hpp"
#include "scen.hpp"
#include <sched.h>

void scen_chroot()
{
  auto outer = mkroot("chroot");
  struct stat s0, s1;
  if (stat(outer.c_str(), &s0) || unshare(CLONE_NEWUSER) || ::chroot(outer.c_str()) || chdir("/")
      || stat("/", &s1) || s0.st_ino != s1.st_ino || s0.st_dev != s1.st_dev) {
    cov("no_namespace"); // nor a place to watch
    return;
  }
  { // once: what is left behind goes with the scratch directory
    Rng r{args.seed * 1000077ull + 3};
    auto c = cfg_of(args.backend, (unsigned)r.r());
    c.split_pairs = r.chance(20);
    shim::configure(c);
    shim::reap();
    Mut m{r.r()};
    m.fan = args.backend == "fanotify", m.p_ren = 0, m.p_noise = 0, m.whole = c.pump && ! c.split_pairs;
    m.dirs = {"", "/a", "/a/b", "/a b"};
    for (auto& d : m.dirs) if (! d.empty() && mkdir(d.c_str(), 0755)) give_up("cannot make " + d);
    char const* const given[] = {"/", "//", "/.", "/a/.."};
    Watcher w{given[r(4)], nullptr, false};
    w.real = "";
    w.open();
    if (! w.ready()) { violation(args.prop, "watcher-not-ready", "watching /: no event within 30 s of opening; got: " + w.dump(0)); return; }
    size_t pos = 0;
    w.take(pos);
    bool bad = false;
    for (int seg = 0; seg < 4 && ! bad; ++seg) {
      for (int i = 0, n = 10 + (int)r(60); i < n; ++i) {
        m.op();
        if (r.chance(25)) { // into new directories, too
          auto d = m.dirs[r((unsigned)m.dirs.size())] + "/" + fresh_name(r, false, 60);
          ll t = now_ns();
          if (d.size() < 1500 && mkdir(d.c_str(), 0755) == 0) {
            m.h.one(CREATE, DIR_, d, t);
            if (! w.wait_path(d, CREATE)) { violation(args.prop, "not-told:create", "watching /: " + d + " was not reported; last: " + w.dump(w.size() > 8 ? w.size() - 8 : 0)); bad = true; break; }
            m.dirs.push_back(d);
          }
        }
        if (r.chance(20)) if (auto* x = m.pick(false)) {
          auto a = *x;
          auto b = m.dirs[r((unsigned)m.dirs.size())] + "/" + fresh_name(r);
          ll t = now_ns();
          if (rename2(a.path, b, RENAME_NOREPLACE) == 0) m.drop(a.path), m.f.push_back({b, a.pt, a.reg}), m.h.pair(a.pt, a.path, b, t, m.whole);
        }
      }
      if (bad) break;
      if (! w.barrier()) { violation(args.prop, "events-stopped", "watching /: a created file was not reported within 30 s; last: " + w.dump(w.size() > 8 ? w.size() - 8 : 0)); bad = true; break; }
      vector<Rec> ev;
      for (auto& x : w.take(pos)) {
        if (x.e.pt == WATCHER) { cov("messages"); check_message(x.e, w); }
        else ev.push_back(x);
      }
      string key;
      auto why = align(m.h.a, ev, key);
      cov("atoms", (long)m.h.a.size()), cov("events", (long)ev.size()), cov("events_of_the_root", (long)ev.size());
      if (! why.empty()) { violation(args.prop, key, "watching /: " + why); bad = true; }
      check_times(m.h.a, ev);
      m.h.a.clear();
    }
    if (! w.close()) violation("C07", "close-failed", "closing a healthy watcher reported failure");
    w.destroy();
  }
}
