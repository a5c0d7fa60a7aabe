// C12: the kernel's queue overflows; what the watcher says and does then.
#include "mut.hpp"
#include "scen.hpp"
#include <filesystem>
#include <sys/inotify.h>
#include <sys/resource.h>

// The kernel itself drops: nobody reads while more happens than it keeps.
static void for_real(Rng& r)
{
  shim::configure(cfg_of("direct", (unsigned)r.r()));
  auto root = mkroot("overflow");
  auto sub = root + "/sub";
  mkdir(sub.c_str(), 0755);
  Watcher w{root};
  if (! w.ready()) { violation("C12", "watcher-not-ready", w.dump(0)); return; }
  long max = 16384;
  if (FILE* f = fopen("/proc/sys/fs/inotify/max_queued_events", "re")) { (void)!fscanf(f, "%ld", &max); fclose(f); }
  if (max > 100000) { cov("queue_too_long"); return; }
  size_t pos = 0;
  w.take(pos);
  int rounds = 1 + (int)r(2);
  for (int k = 0; k < rounds; ++k) {
    w.block = true;
    long n = max + 500 + r(2000), extra = max / 2 + r(3000);
    auto d = root + "/b" + to_string(k) + "-";
    for (long i = 0; i < n; ++i) touch_new(d + to_string(i));
    auto late = root + "/late" + to_string(k);
    mkdir(late.c_str(), 0755);
    if (r.chance(50)) (void)!::rename(sub.c_str(), (sub + "x").c_str()), sub += "x";
    for (long i = 0; i < extra; ++i) unlink((d + to_string(i)).c_str());
    w.block = false;
    bool told = w.wait([&](auto& lg) { for (size_t i = pos; i < lg.size(); ++i) if (lg[i].e.pt == WATCHER && lg[i].e.path.find("w/sys/q_overflow@") == 0) return true; return false; });
    auto alive = w.barrier();
    if (! alive) { violation("C12", "events-stopped", "after a queue overflow nothing is reported any more; last: " + w.dump(w.size() - 5)); return; }
    if (! told) { violation("C12", "not-announced", "the kernel dropped notifications (" + to_string(n) + " changes, queue of " + to_string(max) + "), but no q_overflow message came"); return; }
    auto ev = w.take(pos);
    long i = 0;
    size_t at = 0;
    for (; at < ev.size() && ev[at].e.pt != WATCHER; ++at)
      if (ev[at].e.eff != CREATE || ev[at].e.path != d + to_string(i++)) { violation("C12", "before-the-gap", "event " + to_string(at) + " before the gap is " + show(ev[at].e) + " but should be the creation of number " + to_string(i - 1)); return; }
    cov("events", i), cov("real_overflows"), cov("overflows");
    if (i < max / 2) { violation("C12", "before-the-gap", "only " + to_string(i) + " of at least " + to_string(max) + " queued changes came before the overflow message"); return; }
    // afterwards everything works, in what is new and in what has a new name
    size_t from = w.size();
    for (auto& p : {root + "/after" + to_string(k), late + "/after" + to_string(k), sub + "/after" + to_string(k)}) {
      touch_new(p);
      if (! w.wait_path(p, CREATE, 20000, from)) { violation("C12", "after-the-gap", "after a queue overflow a change is not reported: " + p + "; got: " + w.dump(from)); return; }
    }
    w.take(pos);
    sample("real overflow: " + to_string(i) + " creations in order, then `" + ev[at].e.path.substr(0, 17) + "`, then on");
  }
  if (! w.close()) violation("C12", "close-failed", "after a queue overflow closing failed");
  w.destroy();
  rmtree(root);
}

void scen_overflow()
{
  Rng r{args.seed * 420001ull + 5};
  if (args.backend == "direct") { for (int i = 0; i < args.num("reals", 1); ++i) for_real(r); return; }
  for (int run = 0; run < args.num("runs", 3); ++run) {
    auto c = cfg_of(args.backend, (unsigned)r.r());
    shim::configure(c);
    shim::reap();
    bool fan = args.backend == "fanotify";
    auto outer = mkroot("overflow");
    auto root = outer + "/w", outside = outer + "/out";
    mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
    std::set<string> dirs{root};
    auto any = [&](bool not_root) { vector<string> v; for (auto& d : dirs) if (! (not_root && d == root)) v.push_back(d); return v.empty() ? string{} : v[r((unsigned)v.size())]; };
    for (int i = 0; i < 3 + (int)r(8); ++i) { auto p = any(false) + "/" + fresh_name(r, false, 60); if (mkdir(p.c_str(), 0755) == 0) dirs.insert(p); }
    Watcher w{root};
    bool bad = false;
    auto fail = [&](string const& k, string const& y) { if (! bad) violation("C12", k, y); bad = true; };
    if (! w.ready()) { fail("watcher-not-ready", w.dump(0)); }
    size_t pos = 0;
    w.take(pos);
    Mut m{r.r()};
    m.outside = outside, m.fan = fan, m.p_dir = 0;
    for (int seg = 0; seg < 6 && ! bad; ++seg) {
      m.dirs.assign(dirs.begin(), dirs.end());
      bool hold = r.chance(50);
      if (hold) shim::hold(true);
      auto some = [&](int n) { for (int i = 0; i < n; ++i) m.op(); auto h = m.h; m.h.a.clear(); return h.a; };
      vector<vector<Atom>> parts;
      int gaps = 1 + (int)r(3);
      vector<string> fresh, gone;
      parts.push_back(some((int)r(30)));
      string did;
      for (int g = 0; g < gaps; ++g) {
        bool real_loss = g + 1 == gaps && r.chance(60);
        if (real_loss) {
          // things happen unseen, between the mark of the gap and its being read
          if (hold) shim::hold(false);
          if (! w.barrier()) { fail("events-stopped", "a created file is not reported"); break; }
          shim::hold(hold = true);
        }
        shim::inject(0, {shim::RawEv{-1, IN_Q_OVERFLOW, 0, "", false, ""}});
        if (! real_loss) { parts.push_back(some((int)r(30))); continue; }
        parts.push_back({});
        shim::lose(0, true);
        (void)some(10);
        int n = 1 + (int)r(6);
        for (int k = 0; k < n; ++k) {
          switch (r(4)) {
            case 0: case 1: { auto p = any(false) + "/" + fresh_name(r, false, 60); if (p.size() < 2500 && mkdir(p.c_str(), 0755) == 0) dirs.insert(p), did += "m"; break; }
            case 2: { // another name
              auto a = any(true);
              if (a.empty()) break;
              auto b = dir_name(a) + "/" + fresh_name(r, false, 60);
              if (::rename(a.c_str(), b.c_str())) break;
              std::set<string> x;
              for (auto& d : dirs) x.insert(under(d, a) ? b + d.substr(a.size()) : d);
              dirs.swap(x);
              did += "r";
              break;
            }
            default: { // gone, or gone elsewhere
              auto a = any(true);
              if (a.empty()) break;
              std::error_code ec;
              if (r.chance(50)) std::filesystem::remove_all(a, ec), did += "d";
              else {
                auto o = outside + "/" + fresh_name(r, false, 60);
                if (::rename(a.c_str(), o.c_str())) break;
                for (auto& d : dirs) if (under(d, a)) gone.push_back(o + d.substr(a.size()));
                did += "o";
              }
              for (auto i = dirs.begin(); i != dirs.end();) if (under(*i, a)) i = dirs.erase(i); else ++i;
            }
          }
        }
        shim::lose(0, false);
        // nothing of what it knew about the entries is certain any more
        m.f.clear(), m.gone.clear(), m.out.clear();
        m.dirs.assign(dirs.begin(), dirs.end());
      }
      if (hold) shim::hold(false);
      if (! w.barrier()) { fail("events-stopped", "after an overflow a created file is not reported; last: " + w.dump(w.size() > 6 ? w.size() - 6 : 0)); break; }
      // the directories as they are now are watched, under their present names
      for (auto& p : gone) touch_new(p + "/silent"), unlink((p + "/silent").c_str());
      auto tail = some(30);
      if (! w.barrier()) { fail("events-stopped", "after an overflow a created file is not reported"); break; }
      vector<vector<Rec>> got(1);
      for (auto& x : w.take(pos)) {
        if (x.e.pt != WATCHER) { got.back().push_back(x); continue; }
        if (x.e.path.find("w/sys/q_overflow@") == 0) got.emplace_back();
        else if (x.e.path[0] == 'e') fail("watcher-ended", show(x.e));
        else if (x.e.path.find("w/sys/not_watched@") == 0 && dirs.count(x.e.path.substr(18))) fail("not-watched-without-reason", show(x.e));
        cov_distinct("messages", x.e.path.substr(0, x.e.path.find('@')));
      }
      cov("overflows", (long)parts.size() - 1);
      if (bad) break;
      if (got.size() != parts.size()) { fail(got.size() < parts.size() ? "not-announced" : "announced-too-often", to_string(parts.size() - 1) + " overflows, " + to_string(got.size() - 1) + " q_overflow messages"); break; }
      parts.back().insert(parts.back().end(), tail.begin(), tail.end());
      for (size_t k = 0; k < parts.size() && ! bad; ++k) {
        string key;
        auto why = align(parts[k], got[k], key);
        cov("atoms", (long)parts[k].size()), cov("events", (long)got[k].size());
        if (! why.empty()) fail(key, "between overflow " + to_string(k) + " and " + to_string(k + 1) + " of " + to_string(parts.size() - 1) + (did.empty() ? "" : ", unseen: " + did) + ": " + why);
        string sh = did + "|" + to_string(parts.size()) + "|";
        for (auto& e : got[k]) { sh += eff_name[e.e.eff][0]; sh += pt_name[e.e.pt][0]; }
        cov_distinct("segment_shapes", sh);
      }
      if (! bad) sample(to_string(parts.size() - 1) + " overflows" + (did.empty() ? "" : ", changes of directories unseen: " + did) + ": announced in place, " + to_string(got.back().size()) + " events after the last as expected");
    }
    cov("records_lost", shim::lost());
    if (! w.close() && ! bad) violation("C12", "close-failed", "after overflows closing reported failure");
    w.destroy();
    rmtree(outer);
    if (bad) break;
  }
}
