// C08: many watchers on the same, nested and unrelated directories; each must
// tell the whole story of its own tree while others come, go, fail or hang.
#include "mut.hpp"
#include "scen.hpp"
#include <list>

void scen_indep()
{
  for (int run = 0; run < args.num("runs", 4); ++run) {
    Rng r{args.seed * 55001ull + (unsigned)run * 13};
    auto c = cfg_of(args.backend, (unsigned)r.r());
    c.split_pairs = r.chance(25);
    shim::configure(c);
    shim::reap();
    auto outer = mkroot("indep");
    auto mk = [&](string const& p) { mkdir(p.c_str(), 0755); return p; };
    auto root = mk(outer + "/w"), a = mk(root + "/a"), b = mk(a + "/b"), bb = mk(b + "/c"), d = mk(root + "/d"), other = mk(outer + "/w2"), oa = mk(other + "/a");
    auto outside = mk(outer + "/out"), failme = mk(outer + "/failme");
    put(outer + "/file");
    vector<string> all{root, a, b, bb, d, other, oa};
    if (r.chance(50)) shim::fault_path(r.chance(50) ? shim::F_inotify_add_watch : shim::F_fanotify_mark, ENOSPC, [](string const& p) { return p.find("/failme") != string::npos; });
    int nmut = 1 + (int)r(3);
    std::deque<Mut> m;
    for (int i = 0; i < nmut; ++i) {
      m.emplace_back(r.r());
      auto& x = m.back();
      x.outside = outside, x.p_noise = 5, x.fan = args.backend == "fanotify";
      x.p_ren = 0;
    }
    for (size_t i = 0; i < all.size(); ++i) m[i % (size_t)nmut].dirs.push_back(all[i]);
    auto owner = [&](string const& p) -> int {
      auto q = dir_name(p);
      for (int i = 0; i < nmut; ++i)
        if (std::find(m[(size_t)i].dirs.begin(), m[(size_t)i].dirs.end(), q) != m[(size_t)i].dirs.end()) return i;
      return -1;
    };
    std::list<Watcher> steady;
    auto nth = [&](size_t i) -> Watcher& { auto it = steady.begin(); std::advance(it, (long)i); return *it; };
    vector<string> roots{root, root, a, b, other, r.chance(50) ? bb : oa};
    for (auto& p : roots) steady.emplace_back(p);
    Watcher stuck{root};
    bool bad = false;
    for (auto& w : steady)
      if (! w.ready()) { violation("C08", "watcher-not-ready", w.root + ": " + w.dump(0)); bad = true; }
    if (! bad && ! stuck.ready()) { violation("C08", "watcher-not-ready", stuck.root + ": " + stuck.dump(0)); bad = true; }
    vector<size_t> pos(steady.size() + 1, 0);
    for (size_t i = 0; i < steady.size(); ++i) nth(i).barrier(), nth(i).take(pos[i]);
    stuck.barrier(), stuck.take(pos.back());
    for (int seg = 0; seg < 3 && ! bad; ++seg) {
      std::atomic<bool> stop{false};
      stuck.block = true;
      vector<std::thread> th, fl;
      std::atomic<long> flaps{0};
      for (int i = 0; i < 3; ++i)
        fl.emplace_back([&, s = r.r()] {
          Rng q{s};
          while (! stop) {
            vector<string> v{root, a, b, d, other, outer, failme, outer + "/missing", outer + "/file"};
            auto& p = v[q((unsigned)v.size())];
            bool ok_dir = p != failme && p.find("missing") == string::npos && p.find("/file") == string::npos;
            Watcher f{p};
            if (ok_dir && q.chance(40)) {
              // it must come up whatever the others do
              if (! f.ready()) violation("C08", "watcher-not-ready", "a watcher opened among others on " + p + " did not come up: " + f.dump(0));
            }
            else if (q.chance(50)) usleep(q(1500));
            if (q.chance(70)) f.close();
            f.destroy();
            flaps++;
          }
        });
      for (auto& x : m)
        th.emplace_back([&x] { int n = 40 + (int)x.r(160); for (int i = 0; i < n; ++i) { x.op(); if (x.r(8) == 0) usleep(x.r(400)); } });
      for (auto& t : th) t.join();
      // the stuck one must not delay the others
      for (auto& w : steady)
        if (! w.barrier()) { violation("C08", "events-stopped", w.root + " is no longer told of changes while another watcher's callback blocks; last: " + w.dump(w.size() > 6 ? w.size() - 6 : 0)); bad = true; }
      stop = true;
      stuck.block = false;
      for (auto& t : fl) t.join();
      cov("watchers_beside", flaps);
      if (! stuck.barrier()) { violation("C08", "events-stopped", "the watcher whose callback was blocked does not go on"); bad = true; }
      for (size_t i = 0; i <= steady.size() && ! bad; ++i) {
        auto& w = i < steady.size() ? nth(i) : stuck;
        vector<vector<Rec>> part((size_t)nmut);
        for (auto& x : w.take(pos[i])) {
          if (x.e.pt == WATCHER && x.e.path.find("w/sys/not_watched@") == 0 && std::find(all.begin(), all.end(), x.e.path.substr(18)) == all.end()) { cov("gone_before_watched"); continue; }
          if (x.e.pt == WATCHER) { violation("C08", "message-by-others", w.root + ": " + show(x.e)); bad = true; continue; }
          int o = owner(x.e.path);
          if (o < 0 || ! under(x.e.path, w.root)) { violation("C08", "foreign-event", "the watcher of " + w.root + " told of " + show(x.e)); bad = true; continue; }
          part[(size_t)o].push_back(x);
        }
        for (int k = 0; k < nmut && ! bad; ++k) {
          vector<Atom> want;
          for (auto& at : m[(size_t)k].h.a) if (at.path != w.root && under(at.path, w.root)) {
            // what lay between them for others does not for this one
            if (at.eff == MODIFY && ! want.empty() && want.back().eff == MODIFY && want.back().path == at.path) want.back().max += at.max;
            else want.push_back(at);
          }
          string key;
          auto why = align(want, part[(size_t)k], key);
          cov("streams"), cov("events", (long)part[(size_t)k].size()), cov("atoms", (long)want.size());
          string sh;
          for (auto& e : part[(size_t)k]) { sh += eff_name[e.e.eff][0]; sh += pt_name[e.e.pt][0]; }
          if (sh.size() > 6) cov_distinct("stream_shapes", sh);
          if (! why.empty()) { violation("C08", key, "watcher " + to_string(i) + " of " + w.root.substr(outer.size()) + ": " + why); bad = true; }
        }
        if (! bad && seg == 0 && i < 2) sample("watcher of " + w.root.substr(outer.size()) + " among " + to_string(steady.size()) + " steady, 1 stuck and " + to_string(flaps) + " passing watchers: complete");
      }
      for (auto& x : m) x.h.a.clear();
    }
    stuck.block = false;
    // one after the other is closed; the rest goes on
    while (! steady.empty()) {
      size_t i = r((unsigned)steady.size());
      if (! nth(i).close()) violation("C08", "close-failed", "closing " + nth(i).root + " reported failure");
      nth(i).destroy();
      steady.erase(std::next(steady.begin(), (long)i));
      if (! bad && ! steady.empty() && ! nth(0).barrier()) { violation("C08", "events-stopped", "closing another watcher stopped the one of " + nth(0).root); bad = true; }
    }
    if (! bad && ! stuck.barrier()) violation("C08", "events-stopped", "closing all others stopped the last one");
    stuck.destroy();
    rmtree(outer);
    if (bad) break;
  }
}
