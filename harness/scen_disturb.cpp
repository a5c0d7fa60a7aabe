// C10: interrupted and spurious system calls, signals, directories that vanish
// while they are looked at or cannot be watched, notifications nobody can
// resolve: none of it ends the watcher or costs an unrelated event.
#include "mut.hpp"
#include "scen.hpp"
#include <signal.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/syscall.h>

static std::atomic<long> sig_seen{0};

// What fanotify may say that nobody can use: by descriptor, without a name, with nothing.
static string useless(Rng& q)
{
  fanotify_event_metadata m{};
  m.vers = FANOTIFY_METADATA_VERSION, m.metadata_len = sizeof m, m.pid = getpid();
  static unsigned const M[] = {FAN_CREATE, FAN_DELETE, FAN_MODIFY, FAN_MOVED_TO, FAN_CREATE | FAN_ONDIR};
  m.mask = M[q(5)], m.fd = q.chance(30) ? 1000000 : FAN_NOFD;
  string info;
  if (m.fd == FAN_NOFD && q.chance(60)) {
    info.assign(sizeof(fanotify_event_info_fid) + sizeof(file_handle) + 8, '\0');
    fanotify_event_info_header h{};
    h.info_type = q.chance(50) ? FAN_EVENT_INFO_TYPE_DFID : FAN_EVENT_INFO_TYPE_FID, h.len = (uint16_t)info.size();
    memcpy(info.data(), &h, sizeof h);
    cov("records_without_name");
  }
  m.event_len = (uint32_t)(sizeof m + info.size());
  return string{(char*)&m, sizeof m} + info;
}

void scen_disturb()
{
  struct sigaction sa = {};
  sa.sa_handler = [](int) { sig_seen.fetch_add(1, std::memory_order_relaxed); };
  sigaction(SIGUSR1, &sa, nullptr); // without SA_RESTART
  for (int run = 0; run < args.num("runs", 3); ++run) {
    Rng r{args.seed * 7000003ull + (unsigned)run * 19};
    auto c = cfg_of(args.backend, (unsigned)r.r());
    c.split_pairs = r.chance(25);
    shim::configure(c);
    shim::reap();
    bool fan = args.backend == "fanotify";
    auto outer = mkroot("disturb");
    auto root = outer + "/w", outside = outer + "/out";
    mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
    vector<string> dirs{root};
    int nd = 4 + (int)r(8);
    for (int i = 0; i < nd; ++i) {
      auto p = dirs[r((unsigned)dirs.size())] + "/" + (r.chance(25) ? "o-" : "d") + to_string(i);
      if (mkdir(p.c_str(), 0755) == 0 && p.find("/o-") == string::npos) dirs.push_back(p);
      else if (base_name(p)[0] == 'o') dirs.push_back(p);
    }
    // nothing lives below an unlistable directory
    for (auto i = dirs.begin(); i != dirs.end();)
      if (dir_name(*i).find("/o-") != string::npos) { rmtree(*i); i = dirs.erase(i); }
      else ++i;
    vector<string> blind; // cannot be watched
    auto is_u = [](string const& p) { return base_name(p).compare(0, 2, "u-") == 0; };
    vector<string> below;
    for (int i = 0; i < (int)r(4); ++i) {
      auto p = dirs[0] + "/u-" + to_string(i);
      mkdir(p.c_str(), 0755);
      blind.push_back(p);
      auto q = p + "/in";
      mkdir(q.c_str(), 0755);
      dirs.push_back(q); // is watched all the same
    }
    std::mutex mx;
    std::set<string> hit;
    static int const E1[] = {ENOSPC, EACCES, ENOMEM, EPERM};
    auto mark_pred = [&](string const& p) {
      if (! is_u(p)) return false;
      std::lock_guard l{mx};
      hit.insert(p);
      return true;
    };
    int err = E1[r(4)];
    shim::fault_path(shim::F_inotify_add_watch, err, mark_pred);
    shim::fault_path(shim::F_fanotify_mark, err, mark_pred);
    static int const E2[] = {EACCES, EMFILE, ENFILE, ENOMEM};
    if (r.chance(50)) shim::fault_path(shim::F_opendir, E2[r(4)], [](string const& p) { return base_name(p).compare(0, 2, "o-") == 0; });
    auto vdir = root + "/vdir", wild = root + "/wild", udir = root + "/udir";
    mkdir(vdir.c_str(), 0755), mkdir(wild.c_str(), 0755), mkdir(udir.c_str(), 0755);
    unsigned vseed = (unsigned)r.r();
    std::atomic<long> vanished{0};
    shim::on_path([&, vseed](shim::Fn fn, string const& p) {
      if (base_name(p).compare(0, 2, "v-") != 0) return;
      unsigned k = (unsigned)std::hash<string>{}(p) + vseed;
      if (k % 3 == 0 && fn == shim::F_opendir) return; // vanishes between being opened and marked
      if (rmdir(p.c_str()) == 0) vanished++;
    });
    int nmut = std::min(1 + (int)r(3), (int)dirs.size());
    std::deque<Mut> m;
    for (int i = 0; i < nmut; ++i) {
      m.emplace_back(r.r());
      auto& x = m.back();
      x.outside = outside, x.p_noise = 5, x.fan = fan, x.p_ren = i == 0 ? 10 : 0;
      x.whole = nmut == 1 && c.pump && ! c.split_pairs;
      // then two other changes lie between the halves, or a record of ours
      x.whole = false;
    }
    for (size_t i = 0; i < dirs.size(); ++i) m[i % (size_t)nmut].dirs.push_back(dirs[i]);
    auto owner = [&](string const& p) -> int {
      auto q = dir_name(p);
      for (int i = 0; i < nmut; ++i)
        if (std::find(m[(size_t)i].dirs.begin(), m[(size_t)i].dirs.end(), q) != m[(size_t)i].dirs.end()) return i;
      return -1;
    };
    std::atomic<long> tid{0};
    Watcher w{root, [&](Ev const&) { tid = syscall(SYS_gettid); }};
    bool bad = false;
    auto fail = [&](string const& key, string const& why) { violation("C10", key, why); bad = true; };
    auto err_sent = [&] {
      std::lock_guard l{w.mx};
      for (auto& x : w.log) if (x.e.pt == WATCHER && x.e.path.compare(0, 2, "e/") == 0) return x.e.path;
      return string{};
    };
    auto interrupt = [&] {
      for (int i = 0; i < 30; ++i) {
        if (r.chance(60)) shim::fault(shim::F_epoll_wait, 1 + r(60), r.chance(70) ? EINTR : 0, 1 + r(3));
        if (r.chance(60)) shim::fault(shim::F_read, 1 + r(60), r.chance(50) ? EINTR : EAGAIN, 1 + r(3));
      }
    };
    if (r.chance(50)) interrupt();
    if (! w.ready()) { fail("watcher-not-ready", "it did not come up: " + w.dump(0)); }
    size_t pos = 0;
    auto started = w.take(pos);
    auto announced = [&](string const& p) {
      std::lock_guard l{w.mx};
      for (auto& x : w.log) if (x.e.pt == WATCHER && x.e.path == "w/sys/not_watched@" + p) return true;
      return false;
    };
    auto hits = [&] { std::lock_guard l{mx}; return hit; };
    for (auto& p : hits())
      if (! bad && ! announced(p)) fail("not-announced", "a directory which could not be watched when opening was not announced: " + p + "; got " + w.dump(0));
    size_t wild_ops = 0;
    for (int seg = 0; seg < 4 && ! bad; ++seg) {
      std::atomic<bool> stop{false};
      interrupt();
      vector<std::thread> bg;
      if (r.chance(70)) bg.emplace_back([&] { while (! stop) { long t = tid; if (t && ! w.died()) { syscall(SYS_tgkill, getpid(), t, SIGUSR1); cov("signals"); } usleep(200); } });
      if (c.pump && r.chance(70))
        bg.emplace_back([&, s = r.r()] {
          Rng q{s};
          while (! stop) {
            shim::RawEv e;
            switch (q(5)) {
              case 0: e.wd = 100000 + (int)q(1000), e.mask = fan ? IN_CREATE : IN_IGNORED, e.stale = fan; e.name = fan ? "x" : ""; break;
              case 1: e.wd = 100000, e.mask = IN_CREATE, e.name = "nobody knows", e.stale = fan; break;
              case 2: e.wd = 100000, e.mask = IN_DELETE, e.name = string(255, 'q'), e.stale = fan; break;
              case 3: e.wd = 100000, e.mask = IN_MODIFY, e.name = "a", e.stale = fan; break;
              default: e.wd = 100000, e.mask = IN_MOVED_FROM | IN_ISDIR, e.name = "m", e.cookie = 4000000000u + q(1000), e.stale = fan;
            }
            if (fan && e.mask == (IN_MOVED_FROM | IN_ISDIR)) e.mask = IN_CREATE | IN_ISDIR; // pairing is by place there
            if (fan && q.chance(40)) e.raw = useless(q), e.beside = true;
            shim::inject(0, {e});
            cov("unresolvable_records");
            usleep(300 + q(500));
          }
        });
      vector<string> vs, us;
      bg.emplace_back([&, s = r.r()] {
        Rng q{s};
        for (int i = 0; i < 12 && ! stop; ++i) {
          auto p = vdir + "/v-" + fresh_name(q, false, 60);
          if (mkdir(p.c_str(), 0755) == 0) vs.push_back(p);
          p = udir + "/u-" + fresh_name(q, false, 60);
          if (mkdir(p.c_str(), 0755) == 0) us.push_back(p);
          usleep(q(1500));
        }
      });
      bg.emplace_back([&, s = r.r()] {
        Rng q{s};
        while (! stop) {
          auto a = wild + "/" + to_string(q(3)), b = a + "/b", d = b + "/c";
          mkdir(a.c_str(), 0755), mkdir(b.c_str(), 0755), mkdir(d.c_str(), 0755);
          put(d + "/f");
          if (! fan && q.chance(20)) (void)!::rename(a.c_str(), (wild + "/9").c_str());
          usleep(q(300));
          unlink((d + "/f").c_str()), rmdir(d.c_str()), rmdir(b.c_str()), rmdir(a.c_str());
          rmtree(wild + "/9");
          wild_ops++;
        }
      });
      vector<std::thread> th;
      for (auto& x : m)
        th.emplace_back([&x] { int n = 30 + (int)x.r(120); for (int i = 0; i < n; ++i) { x.op(); if (x.r(10) == 0) usleep(x.r(600)); } });
      for (auto& t : th) t.join();
      stop = true;
      for (auto& t : bg) t.join();
      if (! w.barrier()) {
        auto e = err_sent();
        fail(e.empty() ? "events-stopped" : "watcher-ended", (e.empty() ? "a created file was not reported within 30 s" : "a recoverable disturbance ended the watcher: " + e) + "; last: " + w.dump(w.size() > 8 ? w.size() - 8 : 0));
        break;
      }
      for (auto& p : vs) (void)!rmdir(p.c_str());
      if (! w.barrier()) { fail("events-stopped", "a created file was not reported within 30 s"); break; }
      vector<vector<Rec>> part((size_t)nmut);
      std::map<string, vector<Rec>> single;
      auto hs = hits();
      for (auto& x : w.take(pos)) {
        if (x.e.pt == WATCHER) {
          auto at = x.e.path.find('@');
          auto what = x.e.path.substr(0, at), where = at == string::npos ? "" : x.e.path.substr(at + 1);
          cov_distinct("messages", what);
          cov("messages");
          if (what[0] == 'e') fail("watcher-ended", "a recoverable disturbance was announced as an error: " + show(x.e));
          else if (what == "w/sys/not_watched" && std::find(dirs.begin(), dirs.end(), where) != dirs.end() && ! hs.count(where)) fail("not-watched-without-reason", show(x.e));
          continue;
        }
        if (under(x.e.path, wild)) continue;
        auto d = dir_name(x.e.path);
        if (d == vdir || d == udir) { single[x.e.path].push_back(x); continue; }
        int o = owner(x.e.path);
        if (o < 0) { fail("unexpected-event", "an event for a place where nothing happened: " + show(x.e)); continue; }
        part[(size_t)o].push_back(x);
      }
      for (int k = 0; k < nmut && ! bad; ++k) {
        string key;
        auto why = align(m[(size_t)k].h.a, part[(size_t)k], key);
        cov("atoms", (long)m[(size_t)k].h.a.size()), cov("events", (long)part[(size_t)k].size());
        if (! why.empty()) fail(key, "mutator " + to_string(k) + ": " + why);
        string sh;
        for (auto& e : part[(size_t)k]) { sh += eff_name[e.e.eff][0]; sh += pt_name[e.e.pt][0]; }
        if (sh.size() > 6) cov_distinct("segment_shapes", sh);
        m[(size_t)k].h.a.clear();
      }
      auto seq = [&](string const& p) { string s; for (auto& x : single[p]) s += string{eff_name[x.e.eff]} + " " + pt_name[x.e.pt] + ","; return s; };
      for (auto& p : vs) if (! bad && seq(p) != "create dir,destroy dir,") fail("vanished-directory", "a directory that was made and vanished while it was looked at was reported as: " + seq(p) + " " + p);
      cov("vanishing_dirs", (long)vs.size());
      for (auto& p : us) {
        if (bad) break;
        if (seq(p) != "create dir,") fail("unwatchable-directory", "a new directory that cannot be watched was reported as: " + seq(p) + " " + p);
        if (hs.count(p)) {
          cov("unwatchable_dirs");
          if (! announced(p)) fail("not-announced", "a new directory which could not be watched was not announced: " + p + "; last: " + w.dump(w.size() > 30 ? w.size() - 30 : 0));
        }
      }
      if (! bad) sample("segment " + to_string(seg) + ": " + to_string(vs.size()) + " vanishing, " + to_string(us.size()) + " unwatchable directories, " + to_string(shim::faults_hit()) + " faults so far: complete");
    }
    cov("faults_injected", shim::faults_hit()), cov("vanished_in_between", vanished), cov("wild_ops", (long)wild_ops);
    shim::clear_faults();
    shim::on_path(nullptr);
    if (! w.close() && ! bad) violation("C10", "close-failed", "after recoverable disturbances only, closing reported failure");
    w.destroy();
    rmtree(outer);
    if (bad) break;
  }
  cov("signals_handled", sig_seen);
}
