// Random histories of changes in directories which are already watched,
// by one or several threads, compared with what the watcher reports.
#include "mut.hpp"
#include "scen.hpp"

// Many watched directories removed in one go: their records are short (most of
// them have no name), so that a read gets as many of them as it ever can.
static void burst(Rng& r, Watcher& w, string const& root, bool pump, bool& bad)
{
  Hist h;
  vector<string> ds;
  size_t pos = w.size();
  auto judge = [&](char const* what) {
    if (! w.barrier()) {
      violation(args.prop, "events-stopped", string{what} + ": a created file was not reported within 30 s; last: " + w.dump(w.size() > 10 ? w.size() - 10 : 0));
      bad = true;
      return;
    }
    vector<Rec> ev;
    for (auto& x : w.take(pos)) {
      if (x.e.pt == WATCHER) { cov("messages"); check_message(x.e, w); }
      else ev.push_back(x);
    }
    string key;
    auto why = align(h.a, ev, key);
    cov("atoms", (long)h.a.size()), cov("events", (long)ev.size());
    if (! why.empty()) { violation(args.prop, key, string{what} + ": " + why); bad = true; }
    check_times(h.a, ev);
    h.a.clear();
  };
  int n = 20 + (int)r(120);
  for (int i = 0; i < n; ++i) {
    auto p = root + "/" + (r.chance(70) ? "d" + to_string(i) + "_" : fresh_name(r, false, 60));
    ll t = now_ns();
    if (mkdir(p.c_str(), 0755)) continue;
    ds.push_back(p), h.one(CREATE, DIR_, p, t);
  }
  judge("burst of directories made");
  if (bad) return;
  std::shuffle(ds.begin(), ds.end(), r.r);
  bool hold = pump && r.chance(70);
  if (hold) shim::hold(true);
  else w.block = true;
  for (auto& p : ds) {
    ll t = now_ns();
    if (! rmdir(p.c_str())) h.one(DESTROY, DIR_, p, t);
  }
  if (hold) shim::hold(false);
  w.block = false;
  judge("burst of directories removed");
  cov("bursts"), cov_max("burst", (long)ds.size());
}

// opts: muts, dirs, segs, ops, ren, noise, split, hold
void scen_churn()
{
  unsigned seed = args.seed;
  for (int run = 0; run < args.num("runs", 3); ++run) {
    Rng r{seed * 1000003ull + (unsigned)run * 77 + 1};
    auto c = cfg_of(args.backend, (unsigned)r.r());
    bool split = args.num("split", -1) == 1 || (args.num("split", -1) < 0 && r.chance(25));
    c.split_pairs = split;
    shim::configure(c);
    auto outer = mkroot("churn");
    auto root = outer + "/w";
    auto outside = root + (r.chance(50) ? "2" : "-");
    mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
    int nmut = args.has("muts") ? args.num("muts", 1) : (r.chance(60) ? 1 : 2 + (int)r(3));
    unsigned ren = (unsigned)args.num("ren", 0), noise = (unsigned)args.num("noise", 10);
    vector<string> dirs{root};
    int nd = nmut + (args.has("dirs") ? args.num("dirs", 1) : (int)r(r.chance(20) ? 60 : 10));
    for (int i = 0; i < nd; ++i) {
      auto p = dirs[r((unsigned)dirs.size())] + "/" + fresh_name(r);
      if (p.size() < 3500 && mkdir(p.c_str(), 0755) == 0) dirs.push_back(p);
    }
    std::deque<Mut> m;
    for (int i = 0; i < nmut; ++i) {
      m.emplace_back(r.r());
      auto& x = m.back();
      x.outside = outside, x.p_noise = noise, x.fan = args.backend == "fanotify";
      x.p_ren = (i == 0 || ! x.fan) ? ren : 0;
      x.whole = nmut == 1 && c.pump && ! split;
    }
    for (size_t i = 0; i < dirs.size(); ++i) m[i % (size_t)nmut].dirs.push_back(dirs[i]);
    auto owner = [&](string const& p) -> int {
      auto d = dir_name(p);
      for (int i = 0; i < nmut; ++i)
        if (std::find(m[(size_t)i].dirs.begin(), m[(size_t)i].dirs.end(), d) != m[(size_t)i].dirs.end()) return i;
      return -1;
    };
    // some things are there before the watch begins
    for (auto& x : m) {
      int n = (int)r(8);
      for (int i = 0; i < n; ++i) x.create();
      for (int i = 0; i < 4; ++i) {
        auto p = outside + "/o" + to_string(r.r() % 1000000000);
        if (i < 3 ? put(p) : ! mkdir(p.c_str(), 0755)) x.out.push_back({p, i < 3 ? FILE_ : DIR_, i < 3});
      }
      x.h.a.clear();
    }
    string given = root;
    if (r.chance(20)) { given = outer + "/sym"; (void)!symlink(root.c_str(), given.c_str()); }
    else if (r.chance(20)) given = root + "/.";
    else if (r.chance(10)) given = root + "/";
    Watcher w{given};
    if (! w.ready()) { violation(args.prop, "watcher-not-ready", "no event within 30 s of opening; got: " + w.dump(0)); continue; }
    size_t pos = 0;
    for (auto& x : w.take(pos))
      if (x.e.pt != WATCHER) violation("C03", "event-without-change", "nothing changed since the watcher was opened, but: " + show(x.e));
    int segs = args.num("segs", 4);
    bool bad = false;
    for (int s = 0; s < segs && ! bad; ++s) {
      int ops = args.num("ops", 150);
      bool hold = c.pump && r.chance(40);
      bool block = r.chance(25);
      if (hold) shim::hold(true);
      if (block) w.block = true;
      vector<std::thread> th;
      for (auto& x : m)
        th.emplace_back([&x, ops] { int n = 1 + (int)x.r((unsigned)ops); for (int i = 0; i < n; ++i) { x.op(); if (x.r(50) == 0) usleep(x.r(500)); } });
      for (auto& t : th) t.join();
      w.block = false;
      if (hold) shim::hold(false);
      if (! w.barrier()) {
        violation(args.prop, "events-stopped", "a created file was not reported within 30 s; last: " + w.dump(w.size() > 10 ? w.size() - 10 : 0));
        bad = true;
      }
      auto ev = w.take(pos);
      vector<vector<Rec>> part((size_t)nmut);
      for (auto& x : ev) {
        if (x.e.pt == WATCHER) { cov("messages"); check_message(x.e, w); continue; }
        int o = owner(x.e.path);
        if (o < 0) {
          violation(args.prop, string{"unexpected:"} + eff_name[x.e.eff] + "-outside", "event for a path outside the watched directories: " + show(x.e));
          bad = true;
          continue;
        }
        part[(size_t)o].push_back(x);
      }
      for (int i = 0; i < nmut && ! bad; ++i) {
        string key;
        auto& x = m[(size_t)i];
        auto why = align(x.h.a, part[(size_t)i], key);
        cov("atoms", (long)x.h.a.size());
        cov("events", (long)part[(size_t)i].size());
        if (! why.empty()) {
          violation(args.prop, key, "mutator " + to_string(i) + " of " + to_string(nmut) + ", segment " + to_string(s) + ": " + why);
          bad = true;
        }
        else if (part[(size_t)i].size() > 3) {
          string sh;
          for (auto& e : part[(size_t)i]) { sh += eff_name[e.e.eff][0]; sh += pt_name[e.e.pt][0]; if (e.e.assoc) sh += '+'; }
          cov_distinct("segment_shapes", sh);
          cov("segments");
          sample("segment: " + show(part[(size_t)i][0].e) + "; " + show(part[(size_t)i][1].e) + "; … (" + to_string(part[(size_t)i].size()) + " events, " + to_string(x.h.a.size()) + " expected)");
        }
        check_times(x.h.a, part[(size_t)i]);
        x.h.a.clear();
      }
    }
    w.block = false;
    if (! bad && nmut == 1 && r.chance(60)) burst(r, w, root, c.pump, bad);
    bool ok = w.close();
    if (! ok) violation("C07", "close-failed", "closing a healthy watcher reported failure");
    w.destroy();
    cov("watchers");
    cov_max("dirs", (long)dirs.size());
    cov_max("mutators", nmut);
    rmtree(outer);
    if (bad) break;
  }
}
