// C14: opening, closing, destroying and receiving from everywhere at once. The
// judge is ThreadSanitizer, and the clock for deadlocks. What a callback writes
// and what the closing thread reads after a true close is plain memory: that it
// is ordered is part of the interface.
#include "mut.hpp"
#include "scen.hpp"
#include <string.h>
#include <sys/stat.h>

namespace {
struct Plain { long n = 0, sum = 0; bool live = false; string last; char junk[64]; };
void eat(Plain& p, Ev const& e)
{
  p.n++, p.sum += (long)e.path.size() + (e.assoc ? (long)e.assoc->path.size() : 0);
  if (e.pt == WATCHER && e.path.find("s/self/live@") == 0) p.live = true;
  p.last = e.path;
  memset(p.junk, (int)p.n, sizeof p.junk);
}
struct CP : CCtx { Plain p; std::atomic<bool> up{false}; };
void c_eat(CEv const& e, CCtx* x) { auto* c = (CP*)x; eat(c->p, {e.path, (Eff)e.eff, (Pt)e.pt, e.t, nullptr}); c->up.store(true, std::memory_order_relaxed); }
std::atomic<long> sink{0};
void read_back(Plain& p) { sink += p.n + p.sum + (long)p.last.size() + p.junk[3]; }
// Starts together, without ordering anything.
struct Gate { std::atomic<int> n{0}; int of; explicit Gate(int k) : of{k} {} void pass() { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < of) {} } };
} // namespace

void scen_race()
{
  Rng r0{args.seed * 40009ull + 23};
  for (int run = 0; run < args.num("runs", 3); ++run) {
    auto c = cfg_of(args.backend, (unsigned)r0.r());
    shim::configure(c);
    shim::reap();
    auto outer = mkroot("race");
    vector<string> roots;
    for (int i = 0; i < 4; ++i) { roots.push_back(outer + "/" + to_string(i)); mkdir(roots.back().c_str(), 0755); for (int k = 0; k < 5; ++k) mkdir((roots.back() + "/d" + to_string(k)).c_str(), 0755); }
    roots.push_back(outer);
    std::atomic<bool> stop{false};
    vector<std::thread> tr, th;
    for (int i = 0; i < 2; ++i)
      tr.emplace_back([&, s = r0.r()] {
        Rng r{s};
        while (! stop) {
          auto d = roots[r(4)] + "/d" + to_string(r(5));
          auto p = d + "/" + to_string(r(20)), q = roots[r(4)] + "/d" + to_string(r(5)) + "/" + to_string(r(20));
          switch (r(5)) {
            case 0: touch_new(p); break;
            case 1: unlink(p.c_str()); break;
            case 2: (void)!::rename(p.c_str(), q.c_str()); break;
            case 3: put(p); break;
            default: mkdir((d + "/s").c_str(), 0755), rmdir((d + "/s").c_str());
          }
          if (r.chance(10)) usleep(200);
        }
      });
    int rounds = args.num("rounds", 40);
    auto worker = [&](uint64_t s) {
      Rng r{s};
      auto any = [&] { return roots[r((unsigned)roots.size())]; };
      auto doze = [&] { if (r.chance(60)) usleep(r(r.chance(20) ? 3000 : 300)); };
      for (int i = 0; i < rounds; ++i) {
        unsigned k = r(12);
        cov_distinct("kinds", to_string(k));
        cov("rounds");
        switch (k) {
          case 0: { // open and close
            Plain p;
            auto* w = sut::open(any(), [&](Ev const& e) { eat(p, e); });
            doze();
            if (sut::close(w)) read_back(p);
            sut::destroy(w);
            read_back(p);
            break;
          }
          case 1: case 2: { // several close it
            Plain p;
            auto* w = sut::open(any(), [&](Ev const& e) { eat(p, e); });
            doze();
            int n = 2 + (int)r(3);
            Gate g{n};
            std::atomic<int> yes{0};
            vector<std::thread> t;
            for (int j = 0; j < n; ++j) t.emplace_back([&] { g.pass(); if (sut::close(w)) { read_back(p); yes++; } });
            for (auto& x : t) x.join();
            if (yes > 1) violation("C14", "close-count", to_string(yes) + " concurrent closes succeeded");
            sut::destroy(w);
            read_back(p);
            break;
          }
          case 3: case 4: { // opened, closed and destroyed from another's callback
            Plain p, q;
            sut::Watch* in = nullptr;
            int step = 0;
            bool dtor = r.chance(50);
            auto inner = any();
            auto* w = sut::open(any(), [&](Ev const& e) {
              eat(p, e);
              step++;
              if (! in && step == 1) in = sut::open(inner, [&](Ev const& e) { eat(q, e); });
              else if (in && step == 4) {
                if (! dtor && sut::close(in)) read_back(q);
                if (dtor) { sut::destroy(in); in = nullptr; read_back(q); step = 0; }
              }
            });
            doze(), doze();
            if (sut::close(w)) read_back(p);
            sut::destroy(w);
            if (in) sut::destroy(in);
            read_back(p), read_back(q);
            break;
          }
          case 5: case 6: { // C, closed by several
            CP x;
            x.cb = c_eat;
            auto p = any();
            auto* h = sut::c_open(p.c_str(), &x);
            doze();
            int n = 1 + (int)r(4);
            Gate g{n};
            std::atomic<int> yes{0};
            vector<std::thread> t;
            for (int j = 0; j < n; ++j) t.emplace_back([&] { g.pass(); if (sut::c_close(h)) { read_back(x.p); yes++; } });
            for (auto& y : t) y.join();
            if (yes > 1) violation("C14", "close-count", to_string(yes) + " concurrent closes through C succeeded");
            break;
          }
          case 7: { // handed on
            Plain p;
            auto* w = sut::open(any(), [&](Ev const& e) { eat(p, e); });
            std::thread{[&] { if (sut::close(w)) read_back(p); }}.join();
            doze();
            std::thread{[&] { sut::destroy(w); }}.join();
            read_back(p);
            break;
          }
          case 8: {
            Plain p;
            sut::scoped(any(), [&](Ev const& e) { eat(p, e); }, [&] { doze(); });
            read_back(p);
            break;
          }
          case 9: { // it ends by itself meanwhile
            Plain p;
            auto* w = sut::open(outer + "/missing", [&](Ev const& e) { eat(p, e); });
            doze();
            std::thread t{[&] { sut::close(w); }};
            sut::close(w);
            t.join();
            sut::destroy(w);
            read_back(p);
            break;
          }
          case 10: { // closed by another's callback and by a thread
            Plain p, q;
            auto* v = sut::open(any(), [&](Ev const& e) { eat(q, e); });
            bool did = false;
            auto* w = sut::open(any(), [&](Ev const& e) {
              eat(p, e);
              if (! did) { did = true; if (sut::close(v)) read_back(q); }
            });
            doze();
            if (sut::close(v)) read_back(q);
            sut::destroy(w);
            sut::destroy(v);
            read_back(p), read_back(q);
            break;
          }
          default: { // destroyed right away
            Plain p;
            auto* w = sut::open(any(), [&](Ev const& e) { eat(p, e); });
            sut::destroy(w);
            read_back(p);
          }
        }
      }
    };
    for (int i = 0; i < 5; ++i) th.emplace_back(worker, r0.r());
    for (auto& t : th) t.join();
    stop = true;
    for (auto& t : tr) t.join();
    rmtree(outer);
  }
}
