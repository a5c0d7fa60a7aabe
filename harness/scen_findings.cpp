// Defects which are known and not repaired (known_findings.json), each by the
// history that shows it. Nothing else is judged here.
#include "mut.hpp"
#include "scen.hpp"

void scen_findings()
{
  auto c = cfg_of(args.backend, 1);
  c.batch = 0, c.delay_permille = 0, c.split_pairs = false, c.gather_us = 0;
  auto run = [&](bool merge, auto const& before, auto const& changes, auto const& judge) {
    c.merge = merge;
    shim::configure(c);
    auto outer = mkroot("findings"), root = outer + "/w", outside = outer + "/o";
    mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
    before(root, outside);
    {
      Watcher w{root};
      if (! w.ready()) give_up("the watcher did not come up");
      size_t pos = w.size(), from = pos;
      usleep(20000);
      shim::hold(true);
      changes(root, outside);
      usleep(20000);
      shim::hold(false);
      if (! w.barrier()) give_up("nothing was reported");
      auto ev = w.take(pos);
      cov("histories"), cov("events", (long)ev.size());
      judge(root, ev, w.dump(from));
      w.close();
    }
    rmtree(outer);
  };
  auto count = [](vector<Rec> const& ev, string const& p, Eff e) { long n = 0; for (auto& x : ev) n += x.e.path == p && x.e.eff == e; return n; };
  auto nothing = [](string const&, string const&) {};
  if (args.prop == "C02" && args.backend == "inotify") {
    run(false, [](string const& r, string const&) { mkdir((r + "/d").c_str(), 0755); },
        [](string const& r, string const&) { mkdir((r + "/n").c_str(), 0755); put(r + "/d/f"); (void)! rename((r + "/d").c_str(), (r + "/n/d").c_str()); },
        [&](string const& r, auto& ev, string const& all) { if (count(ev, r + "/d/f", CREATE) != 1) violation("C02", "moved-into-a-new-directory", "n was made, then d/f, and then d moved to n/d before it read: " + all); });
  }
  else if (args.prop == "C02") {
    run(false, [](string const& r, string const&) { mkdir((r + "/d").c_str(), 0755); put(r + "/d/f"); },
        [](string const& r, string const&) { unlink((r + "/d/f").c_str()); rmdir((r + "/d").c_str()); },
        [&](string const& r, auto& ev, string const& all) { if (count(ev, r + "/d/f", DESTROY) != 1) violation("C02", "removed-with-its-directory", "d/f and then d were removed before it read: " + all); });
    run(false, [](string const& r, string const&) { mkdir((r + "/d").c_str(), 0755); },
        [](string const& r, string const&) { put(r + "/d/f"); (void)! rename((r + "/d").c_str(), (r + "/e").c_str()); },
        [&](string const& r, auto& ev, string const& all) { if (count(ev, r + "/d/f", CREATE) != 1) violation("C02", "renamed-before-it-read", "d/f was made and then d renamed to e before it read: " + all); });
    run(true, nothing, [](string const& r, string const&) { put(r + "/f"); unlink((r + "/f").c_str()); },
        [&](string const& r, auto& ev, string const& all) { if (count(ev, r + "/f", DESTROY) != 1) violation("C02", "changes-merged-by-the-kernel", "f was made, written and removed; the kernel made one record of it: " + all); });
  }
  else
    run(false, [](string const& r, string const& o) { put(r + "/a"); put(o + "/b"); },
        [](string const& r, string const& o) { (void)! rename((r + "/a").c_str(), (o + "/a").c_str()); (void)! rename((o + "/b").c_str(), (r + "/b").c_str()); },
        [&](string const&, auto& ev, string const& all) { for (auto& x : ev) if (x.e.assoc) { violation("C05", "out-and-in-linked", "a was moved out and then another file, b, in: " + all); break; } });
}
