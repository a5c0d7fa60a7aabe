// C07: closing under traffic, at any moment, by any number of threads.
#include "mut.hpp"
#include "scen.hpp"
#include <filesystem>

void scen_close()
{
  Rng r{args.seed * 91111ull + 9};
  long const bound = args.num("bound", 20000);
  for (int run = 0; run < args.num("runs", 25); ++run) {
    auto c = cfg_of(args.backend, (unsigned)r.r());
    shim::configure(c);
    shim::reap();
    auto outer = mkroot("close");
    auto root = outer + "/w";
    mkdir(root.c_str(), 0755);
    int nd = r.chance(30) ? 200 : (int)r(20);
    for (int i = 0; i < nd; ++i) mkdir((root + "/" + to_string(i)).c_str(), 0755);
    enum { IDLE, SETUP, IN_LIVE, TRAFFIC, BACKLOG, ENDLESS } mode = (decltype(IDLE))(run % 6);
    if (mode == ENDLESS && run >= 12) mode = TRAFFIC;
    static char const* const mn[] = {"idle", "setup", "in-live", "traffic", "backlog", "endless"};
    string label = mn[mode];
    std::atomic<bool> stop{false}, in_cb{false}, go{false};
    std::atomic<unsigned> slow{0};
    auto w = std::make_unique<Watcher>(root, nullptr, false);
    w->hook = [&](sut::Ev const& e) {
      if (mode == IN_LIVE && e.pt == WATCHER && e.eff == CREATE) { in_cb = true; auto end = mono_ms() + 300; while (! go && mono_ms() < end) usleep(50); }
      if (slow) usleep(slow);
    };
    std::atomic<long> marks{0};
    if (mode == SETUP) {
      long at = 1 + r((unsigned)nd + 1);
      shim::on_marked([&, at](string const&) { if (++marks == at) { go = true; usleep(300); } });
    }
    w->open();
    vector<std::thread> th;
    auto churn = [&](int id) {
      long i = 0;
      while (! stop) {
        auto p = root + "/c" + to_string(id) + "-" + to_string(i++ % 500);
        touch_new(p);
        unlink(p.c_str());
      }
    };
    switch (mode) {
      case IDLE: if (! w->ready()) violation("C07", "not-ready", "the watcher did not come up"); break;
      case SETUP: { auto end = mono_ms() + 500; while (! go && mono_ms() < end) usleep(20); break; }
      case IN_LIVE: { auto end = mono_ms() + 20000; while (! in_cb && mono_ms() < end) usleep(20); break; }
      case TRAFFIC:
        if (r.chance(50)) w->ready();
        slow = r(3) * 60;
        for (int i = 0; i < 3; ++i) th.emplace_back(churn, i);
        usleep(r(8000));
        break;
      case BACKLOG:
        w->ready();
        if (c.pump) shim::hold(true);
        w->block = true;
        for (int i = 0; i < 7000; ++i) { auto p = root + "/b" + to_string(i); touch_new(p); }
        slow = 20;
        if (c.pump) shim::hold(false);
        w->block = false;
        if (r.chance(50)) usleep(r(3000));
        break;
      case ENDLESS:
        w->ready();
        slow = 100;
        for (int i = 0; i < 6; ++i) th.emplace_back(churn, i);
        usleep(30000 + r(30000));
    }
    bool healthy = mode != IN_LIVE ? w->size() > 0 : true;
    long at_close = w->count;
    int closers = r.chance(50) ? 1 : 2 + (int)r(4);
    std::atomic<int> yes{0}, back{0};
    vector<std::thread> cl;
    std::atomic<bool> late{false};
    for (int i = 0; i < closers; ++i)
      cl.emplace_back([&] {
        if (w->close()) yes++;
        back++;
      });
    if (mode == IN_LIVE) { usleep(r(2000)); go = true; }
    // the closers watch themselves: their progress is counted in deliveries
    while (back < closers) {
      usleep(200);
      if (w->count - at_close > bound && ! late) {
        late = true;
        violation("C07", "close-not-bounded", label + ": " + to_string(w->count - at_close) + " further events were delivered and close had not returned");
        stop = true;
        slow = 0;
      }
    }
    for (auto& t : cl) t.join();
    long after_close = w->count;
    cov_max("deliveries_while_closing", after_close - at_close);
    cov("closes", closers);
    if (yes > 1) violation("C07", "closed-twice", label + ": " + to_string(yes) + " of " + to_string(closers) + " concurrent closes succeeded");
    if (yes == 0 && healthy) violation("C07", "close-failed", label + ": no close of a healthy watcher succeeded; " + w->dump(0, 3) + " … " + w->dump(w->size() > 2 ? w->size() - 2 : 0));
    // once more, from here and from elsewhere
    auto size = w->size();
    auto fds = open_fds();
    bool again = w->close();
    std::thread{[&] { again |= w->close(); }}.join();
    if (again) violation("C07", "closed-again", label + ": a repeated close succeeded");
    if (! stop && ! th.empty()) usleep(1000 + r(2000));
    for (int i = 0; i < 20; ++i) touch_new(root + "/after" + to_string(i));
    if (r.chance(30)) usleep(2000);
    if (w->size() != size) violation("C07", "callback-after-close", label + ": " + to_string(w->size() - size) + " events after close had returned");
    if (th.empty() && open_fds() != fds) violation("C07", "close-side-effect", label + ": open descriptors went from " + to_string(fds) + " to " + to_string(open_fds()) + " with a repeated close");
    cov("watchers");
    cov_distinct("mode_x_events", label + "/" + to_string(closers) + "/" + to_string(after_close > 0 ? 64 - __builtin_clzl((unsigned long)after_close) : 0));
    if (r.chance(20)) sample(label + ": " + to_string(closers) + " closers, " + to_string(at_close) + " events before, " + to_string(after_close - at_close) + " while closing");
    w->destroy();
    stop = true;
    for (auto& t : th) t.join();
    rmtree(outer);
    if (late) break;
  }
}
