// C09: what the process holds before and after, for every way a watch can go.
#include "mut.hpp"
#include "scen.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <map>
#include <sys/inotify.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static long heap() { return (long)__sanitizer_get_current_allocated_bytes(); }
static bool const has_heap = true;
#else
static long heap() { return 0; }
static bool const has_heap = false;
#endif

struct Has { long fds, tasks, groups, heap, marks; };
// kernel marks of all notification descriptors of the process
static long marks()
{
  long n = 0;
  ::DIR* d = opendir("/proc/self/fdinfo");
  if (! d) return 0;
  while (auto* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    FILE* f = fopen((string{"/proc/self/fdinfo/"} + e->d_name).c_str(), "re");
    if (! f) continue;
    char b[512];
    while (fgets(b, sizeof b, f)) n += ! strncmp(b, "inotify wd:", 11) || ! strncmp(b, "fanotify ino:", 13);
    fclose(f);
  }
  closedir(d);
  return n;
}
static Has has()
{
  shim::reap();
  return {open_fds() - shim::open_fds_of_shim(), n_tasks() - shim::threads_of_shim(), shim::live_groups(), heap(), marks()};
}
struct Cnt { CCtx c; std::atomic<long> n{0}, live{0}, die{0}; };
static void c_cb(CEv const& e, CCtx* x)
{
  auto* k = (Cnt*)x;
  k->n++;
  if (e.pt == WATCHER && strstr(e.path, "self/live@")) k->live++;
  if (e.pt == WATCHER && strstr(e.path, "self/die@")) k->die++;
}

// descriptors which aren't closed on exec, and what they are of
static std::map<int, string> inherited()
{
  std::map<int, string> v;
  ::DIR* d = opendir("/proc/self/fd");
  if (! d) return v;
  while (auto* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    int fd = atoi(e->d_name), f = fcntl(fd, F_GETFD);
    char b[512];
    auto n = readlinkat(dirfd(d), e->d_name, b, sizeof b);
    if (f >= 0 && ! (f & FD_CLOEXEC)) v[fd] = string(b, (size_t)std::max<ssize_t>(n, 0));
  }
  closedir(d);
  return v;
}
static long dirs_below(string const& p)
{
  long n = 1;
  std::error_code ec;
  for (auto const& x : std::filesystem::recursive_directory_iterator(p, ec)) n += x.is_directory(ec) && ! x.is_symlink(ec);
  return n;
}
// while a watcher runs, what it holds depends on the tree, not on what happened
static void running(Rng& r, string const& top)
{
  auto c = cfg_of(args.backend, (unsigned)r.r());
  c.delay_permille = 0;
  shim::configure(c);
  shim::reap();
  bool fan = args.backend == "fanotify";
  auto root = top + "/w", outside = top + "/out";
  mkdir(top.c_str(), 0755), mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
  for (int i = 0; i < 10; ++i) mkdir((root + "/d" + to_string(i)).c_str(), 0755);
  auto before = inherited();
  Watcher w{root};
  if (! w.ready()) violation("C09", "watcher-not-ready", w.dump(0));
  for (auto& [fd, what] : inherited())
    if (! before.count(fd)) violation("C09", "inherited-descriptor", "every program started while a watcher is open gets a descriptor of it, and keeps it: " + what);
  cov("exec_checked");
  long base = open_fds() - shim::open_fds_of_shim(), most = base, tasks = n_tasks() - shim::threads_of_shim();
  size_t pos = 0;
  w.take(pos);
  vector<long> held, watched;
  int const rounds = args.num("rounds", 60);
  for (int round = 0; round < rounds; ++round) {
    for (int i = 0; i < 40; ++i) {
      auto p = root + "/d" + to_string(i % 10) + "/f";
      touch_new(p);
      auto q = root + "/d" + to_string((i + 1) % 10) + "/g";
      (void)!::rename(p.c_str(), q.c_str());
      unlink(q.c_str());
      auto dd = root + "/d" + to_string(i % 10) + "/n";
      mkdir(dd.c_str(), 0755);
      if (i % 5 == 0) usleep(200);
      auto d2 = root + "/m";
      if (i % 2) { (void)!::rename(dd.c_str(), d2.c_str()); rmdir(d2.c_str()); }
      else rmdir(dd.c_str());
      if (i % 10 == 0) most = std::max(most, open_fds() - shim::open_fds_of_shim());
    }
    // some leave, and stay where they are; now and then nobody is told
    bool lost = c.pump && args.backend != "direct" && round % 4 == 3;
    auto k = root + "/k" + to_string(round), o = outside + "/k" + to_string(round);
    mkdir(k.c_str(), 0755), mkdir((k + "/in").c_str(), 0755);
    if (! w.barrier()) { violation("C09", "events-stopped", w.dump(w.size() > 5 ? w.size() - 5 : 0)); break; }
    if (lost) shim::lose(0, true);
    if (::rename(k.c_str(), o.c_str())) violation("C09", "harness", "cannot rename " + k);
    if (lost) shim::lose(0, false), shim::inject(0, {shim::RawEv{-1, IN_Q_OVERFLOW, 0, "", false, ""}}), cov("lost_departures");
    if (! w.barrier()) { violation("C09", "events-stopped", w.dump(w.size() > 5 ? w.size() - 5 : 0)); break; }
    w.take(pos);
    { std::lock_guard l{w.mx}; w.log.erase(w.log.begin() + 1, w.log.end() - 1); pos = w.log.size(); }
    if (round % 10 == 9) held.push_back(heap()), watched.push_back(marks());
  }
  long end = open_fds() - shim::open_fds_of_shim(), tasks2 = n_tasks() - shim::threads_of_shim();
  cov("events_while_running", w.count);
  cov_max("descriptors_while_running", most);
  auto all = [](vector<long> const& v) { string s; for (auto x : v) s += " " + to_string(x); return s; };
  if (end > base + 4 || most > base + 40) violation("C09", "descriptors-grow", "from " + to_string(base) + " to " + to_string(end) + ", at most " + to_string(most) + ", over " + to_string(w.count) + " events");
  if (tasks2 > tasks + 2) violation("C09", "threads-grow", "from " + to_string(tasks) + " to " + to_string(tasks2));
  // our stand-in for fanotify keeps what it marked
  long there = dirs_below(root);
  if (! fan && ! watched.empty() && watched.back() > there + 2) violation("C09", "watches-grow", "with " + to_string(there) + " directories there are" + all(watched) + " kernel watches");
  if (! held.empty()) cov_max("marks_while_running", watched.back());
  if (has_heap && ! fan && held.size() > 3) {
    cov_max("heap_growth_running", held.back() - held[1]);
    bool grows = true;
    for (size_t i = 2; i < held.size(); ++i) grows = grows && held[i] >= held[i - 1] + 10 * args.num("per_round", 20);
    if (grows) violation("C09", "memory-grows", "the tree stays as it is, and allocated bytes, every 10 rounds, are" + all(held));
  }
  sample("while running: allocated bytes" + all(held) + ", kernel watches" + all(watched));
  w.check_life = false;
  w.destroy();
  rmtree(top);
}

void scen_leak()
{
  Rng r{args.seed * 33391ull + 1};
  auto outer = mkroot("leak");
  struct F { shim::Fn fn; long nth; int err; };
  static F const faults[] = {
    {shim::F_epoll_create, 1, EMFILE}, {shim::F_epoll_ctl, 1, ENOSPC}, {shim::F_epoll_ctl, 2, ENOMEM}, {shim::F_inotify_init, 1, EMFILE}, {shim::F_eventfd, 1, EMFILE},
    {shim::F_inotify_add_watch, 1, ENOSPC}, {shim::F_inotify_add_watch, 3, ENOSPC}, {shim::F_fanotify_init, 1, EMFILE}, {shim::F_fanotify_mark, 1, ENOSPC}, {shim::F_fanotify_mark, 3, ENOMEM},
    {shim::F_open_by_handle_at, 1, EPERM}, {shim::F_open_by_handle_at, 4, ESTALE}, {shim::F_read, 1, EIO}, {shim::F_read, 3, EIO}, {shim::F_epoll_wait, 1, EBADF}, {shim::F_epoll_wait, 3, EINVAL},
    {shim::F_opendir, 1, EMFILE}, {shim::F_opendir, 2, EACCES}, {shim::F_readlink, 2, ENOENT}, {shim::F_realpath, 1, ENOENT}};
  int const NF = (int)(sizeof faults / sizeof *faults);
  int const K = args.num("cycles", 24);
  int n_var = 8 + NF;
  for (int run = 0; run < args.num("runs", 8); ++run) {
    int var = (run * 5 + (int)(args.seed % 1000)) % n_var;
    bool c_api = r.chance(50), closes = r.chance(80);
    auto c = cfg_of(args.backend, (unsigned)r.r());
    c.delay_permille = 0;
    static char const* const vn[] = {"quick", "waited", "events", "missing", "file", "renames", "vanish", "several"};
    string label = (var < 8 ? string{vn[var]} : string{"fault "} + shim::fn_name[faults[var - 8].fn] + "#" + to_string(faults[var - 8].nth)) + (c_api ? ", C" : ", C++") + (closes ? "" : ", no close");
    auto root = outer + "/" + to_string(run);
    mkdir(root.c_str(), 0755);
    for (int i = 0; i < 8; ++i) mkdir((root + "/d" + to_string(i)).c_str(), 0755);
    put(root + "/file");
    long hits = 0;
    auto cycle = [&](int i) {
      shim::configure(c);
      if (var >= 8) { auto& f = faults[var - 8]; shim::fault(f.fn, f.nth, f.err); }
      string path = var == 3 ? root + "/nope" : var == 4 ? root + "/file" : root;
      auto act = [&] {
        if (var == 0) return;
        if (var == 1) { usleep(300); return; }
        for (int k = 0; k < 12; ++k) {
          auto p = root + "/d" + to_string(k % 8) + "/f" + to_string(k);
          touch_new(p);
          if (var == 5) { auto q = root + "/g" + to_string(k); (void)!::rename(p.c_str(), q.c_str()); p = q; }
          unlink(p.c_str());
        }
        auto p = root + "/new" + to_string(i);
        mkdir(p.c_str(), 0755);
        if (var == 5) { auto q = p + "-"; (void)!::rename(p.c_str(), q.c_str()); p = q; }
        if (var >= 6) usleep(100);
        touch_new(p + "/x");
        unlink((p + "/x").c_str());
        rmdir(p.c_str());
        if (var != 0) usleep(r(600));
      };
      if (c_api) {
        Cnt k;
        k.c.cb = c_cb;
        auto* h = sut::c_open(path.c_str(), &k.c);
        auto end = mono_ms() + 20000;
        if (var) while (! k.live && mono_ms() < end) usleep(20);
        act();
        sut::c_close(h);
        if (r.chance(20)) sut::c_close(h);
        if (k.die != 1 && var) violation("C01", "die-count", label + ": " + to_string(k.die) + " die messages");
      }
      else {
        std::atomic<long> n{0};
        auto* w = sut::open(path, [&](sut::Ev const&) { n++; });
        sut::Watch* w2 = var == 7 ? sut::open(root + "/d1", [&](sut::Ev const&) { n++; }) : nullptr;
        auto end = mono_ms() + 20000;
        if (var) while (! n && mono_ms() < end) usleep(20);
        act();
        if (closes) { sut::close(w); if (r.chance(20)) sut::close(w); }
        sut::destroy(w);
        if (w2) sut::destroy(w2);
      }
      hits += shim::faults_hit();
    };
    for (int i = 0; i < 6; ++i) cycle(i);
    auto h0 = has();
    for (int i = 0; i < K; ++i) cycle(i);
    auto h1 = has();
    for (int i = 0; i < K; ++i) cycle(i);
    auto h2 = has();
    shim::clear_faults();
    cov("cycles", 2 * K);
    if (var >= 8) cov("faults_hit", hits);
    cov_distinct("variants", label + args.backend);
    auto grow = [&](char const* what, long x, long y, long z) {
      if (y > x && z > y) violation("C09", string{"leak-"} + what, label + ": " + what + " went from " + to_string(x) + " to " + to_string(y) + " and " + to_string(z) + " over twice " + to_string(K) + " watches");
    };
    auto same = [&](char const* what, long x, long z) {
      if (z > x) violation("C09", string{"leak-"} + what, label + ": " + what + " went from " + to_string(x) + " to " + to_string(z) + " over " + to_string(2 * K) + " watches");
    };
    same("descriptors", h0.fds, h2.fds);
    grow("threads", h0.tasks, h1.tasks, h2.tasks);
    same("kernel-groups", h0.groups, h2.groups);
    same("kernel-marks", h0.marks, h2.marks);
    if (has_heap && h1.heap - h0.heap >= K * 8 && h2.heap - h1.heap >= K * 8) violation("C09", "leak-memory", label + ": allocated bytes went from " + to_string(h0.heap) + " to " + to_string(h1.heap) + " and " + to_string(h2.heap) + " over twice " + to_string(K) + " watches");
    if (has_heap) cov_max("heap_growth_bytes", h2.heap - h1.heap);
    if (r.chance(30)) sample(label + ": " + to_string(h2.fds) + " descriptors, " + to_string(h2.tasks) + " threads, " + to_string(h2.marks) + " marks, heap " + to_string(h1.heap - h0.heap) + " then " + to_string(h2.heap - h1.heap) + " bytes");
    rmtree(root);
  }
  running(r, outer + "/run");
  rmtree(outer);
}
