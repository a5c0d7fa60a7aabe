#include <time.h>
#include <chrono>
#include "shim.hpp"
#include <algorithm>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <poll.h>
#include <random>
#include <set>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace shim {

char const* const fn_name[F_N] = {
  "read", "epoll_wait", "epoll_create", "epoll_ctl", "inotify_init",
  "inotify_add_watch", "inotify_rm_watch", "fanotify_init", "fanotify_mark",
  "open_by_handle_at", "eventfd", "eventfd_write", "eventfd_read", "readlink",
  "realpath", "opendir", "readdir", "stat", "close"};

Stats stats;
std::atomic<long> max_sut_fds{0};
static Cfg cfg;
static std::atomic<long> n_calls[F_N];
static std::atomic<long> n_threads{0}, n_fds{0}, n_live{0};

// ---- faults -------------------------------------------------------------
struct Fault { Fn fn; long at; long count; int err; std::function<bool(std::string const&)> pred; };
static std::mutex f_mx;
static std::vector<Fault> f_list;
static std::atomic<bool> f_any{false};
static std::atomic<long> f_hit{0};
static std::mutex h_mx;
static std::function<void(std::string const&)> h_marked;
static std::function<void(Fn, std::string const&)> h_path;
static std::atomic<bool> h_any{false};

static thread_local std::minstd_rand t_rng;
static thread_local unsigned t_seeded = 0;
static std::atomic<unsigned> t_next{1};
static std::atomic<unsigned> epoch{1};
static unsigned rnd(unsigned n)
{
  unsigned e = epoch.load(std::memory_order_relaxed);
  if (t_seeded != e) {
    t_seeded = e;
    t_rng.seed(cfg.seed * 7919u + t_next.fetch_add(1, std::memory_order_relaxed));
    t_rng.discard(3);
  }
  return n ? (t_rng() >> 4) % n : 0;
}

void configure(Cfg const& c)
{
  cfg = c;
  for (auto& n : n_calls) n = 0;
  epoch.fetch_add(1);
  t_next = 1;
  clear_faults();
  f_hit = 0;
  std::lock_guard l{h_mx};
  h_marked = nullptr, h_path = nullptr, h_any = false;
}
Cfg const& config() { return cfg; }
void fault(Fn fn, long nth, int err, long count)
{
  std::lock_guard l{f_mx};
  f_list.push_back({fn, n_calls[fn].load() + nth, count, err, nullptr});
  f_any = true;
}
void fault_path(Fn fn, int err, std::function<bool(std::string const&)> pred)
{
  std::lock_guard l{f_mx};
  f_list.push_back({fn, 0, 0, err, std::move(pred)});
  f_any = true;
}
void clear_faults()
{
  std::lock_guard l{f_mx};
  f_list.clear();
  f_any = false;
}
long calls(Fn fn) { return n_calls[fn]; }
long faults_hit() { return f_hit; }
void on_marked(std::function<void(std::string const&)> f) { std::lock_guard l{h_mx}; h_marked = std::move(f); h_any = h_marked || h_path; }
void on_path(std::function<void(Fn, std::string const&)> f) { std::lock_guard l{h_mx}; h_path = std::move(f); h_any = h_marked || h_path; }
static void run_path(Fn fn, char const* p)
{
  if (! h_any.load(std::memory_order_relaxed)) return;
  std::function<void(Fn, std::string const&)> f;
  { std::lock_guard l{h_mx}; f = h_path; }
  if (f) { int e = errno; f(fn, p); errno = e; }
}
static void run_marked(char const* p)
{
  if (! h_any.load(std::memory_order_relaxed)) return;
  std::function<void(std::string const&)> f;
  { std::lock_guard l{h_mx}; f = h_marked; }
  if (f) { int e = errno; f(p); errno = e; }
}
static void pause_()
{
  if (! cfg.delay_permille) return;
  if (rnd(1000) >= cfg.delay_permille) return;
  stats.pauses.fetch_add(1, std::memory_order_relaxed);
  int e = errno;
  usleep(1 + rnd(cfg.delay_us + 1));
  errno = e;
}
// true if the call must fail (errno is set)
static bool enter(Fn fn, char const* path = nullptr)
{
  long n = n_calls[fn].fetch_add(1, std::memory_order_relaxed) + 1;
  pause_();
  if (! f_any.load(std::memory_order_relaxed)) return false;
  std::lock_guard l{f_mx};
  for (auto& f : f_list) {
    if (f.fn != fn) continue;
    bool hit = f.pred ? (path && f.pred(path)) : (n >= f.at && (f.count < 0 || n < f.at + f.count));
    if (hit) { f_hit++; errno = f.err; return true; }
  }
  return false;
}

// ---- groups -------------------------------------------------------------
struct Group {
  std::mutex mx;
  std::condition_variable cv;
  bool fan = false, nonblock = false, open = true, stop = false;
  unsigned iflags = 0;
  int fd = -1;    // what the code under test sees: an eventfd saying "readable"
  int ino = -1;   // the kernel's notifications
  int wake = -1;
  bool ready = false;
  bool ondir = true, onchild = true;
  std::deque<RawEv> q;
  struct W { std::string path; int pin = -1; uint32_t id = 0; dev_t dev = 0; uint32_t mask = 0; };
  std::map<int, W> w;
  std::map<uint32_t, int> id_wd;
  std::thread th;
  unsigned hsz = 8;
  long drained = 0; // how often the pump emptied the kernel's queue
  bool drain_req = false;
  bool losing = false;
};
static constexpr int MAXFD = 1 << 17;
static std::atomic<Group*> by_fd[MAXFD];
static std::mutex g_mx;
static std::deque<Group*> groups;
static std::atomic<bool> held{false};
// handles
struct Pin { int fd; dev_t dev; };
static std::mutex p_mx;
static std::map<uint32_t, Pin> pins;
static uint32_t next_id = 1;

static Group* at(int fd) { return fd >= 0 && fd < MAXFD ? by_fd[fd].load(std::memory_order_acquire) : nullptr; }

static void update(Group* g) // locked
{
  bool want = ! g->q.empty() && ! held;
  if (want && ! g->ready) { eventfd_write(g->fd, 1); g->ready = true; }
  if (! want && g->ready) { eventfd_t x; eventfd_read(g->fd, &x); g->ready = false; }
  if (want) g->cv.notify_all();
}

static void drop_pin(uint32_t id)
{
  std::lock_guard l{p_mx};
  auto i = pins.find(id);
  if (i == pins.end()) return;
  ::close(i->second.fd);
  n_fds--;
  pins.erase(i);
}

static std::atomic<long> n_lost{0};
long lost() { return n_lost; }
static void take(Group* g, char const* b, ssize_t n) // locked
{
  for (ssize_t o = 0; o < n;) {
    auto* e = (inotify_event const*)(b + o);
    o += sizeof(inotify_event) + e->len;
    RawEv r{e->wd, e->mask, e->cookie, e->len ? std::string{e->name} : std::string{}, false, {}};
    if (! g->fan) {
      if (! g->losing) g->q.push_back(r);
      else n_lost++;
      if (e->mask & IN_IGNORED) g->w.erase(e->wd);
      continue;
    }
    if (e->mask & IN_Q_OVERFLOW) { g->q.push_back(r); continue; }
    auto w = g->w.find(e->wd);
    if (w == g->w.end()) continue;
    if (e->mask & IN_IGNORED) {
      drop_pin(w->second.id);
      g->id_wd.erase(w->second.id);
      g->w.erase(w);
      continue;
    }
    if (! e->len) continue;
    if ((e->mask & IN_ISDIR) && ! (w->second.mask & FAN_ONDIR)) continue;
    if ((e->mask & IN_MODIFY) && ! (w->second.mask & FAN_EVENT_ON_CHILD)) continue;
    r.wd = (int)w->second.id;
    if (g->losing) { n_lost++; continue; }
    if (cfg.merge) {
      auto m = std::find_if(g->q.rbegin(), g->q.rend(), [&](RawEv const& o) { return o.wd == r.wd && o.name == r.name && ((o.mask ^ r.mask) & IN_ISDIR) == 0; });
      if (m != g->q.rend()) { m->mask |= r.mask; continue; }
    }
    g->q.push_back(r);
    if (! (g->iflags & FAN_UNLIMITED_QUEUE) && g->q.size() > 16384) {
      g->q.pop_back();
      if (! (g->q.back().mask & IN_Q_OVERFLOW)) g->q.push_back({-1, IN_Q_OVERFLOW, 0, {}, false, {}});
    }
  }
}

static void pump(Group* g)
{
  std::vector<char> buf(1 << 16);
  for (;;) {
    pollfd p[2] = {{g->ino, POLLIN, 0}, {g->wake, POLLIN, 0}};
    ::poll(p, 2, -1);
    if (p[1].revents) { eventfd_t x; eventfd_read(g->wake, &x); }
    {
      std::lock_guard l{g->mx};
      if (g->stop) break;
    }
    if (cfg.gather_us && p[0].revents) usleep(1 + rnd(cfg.gather_us));
    for (;;) {
      std::unique_lock l{g->mx}; // so that a record is never seen before its watch is
      ssize_t n = ::read(g->ino, buf.data(), buf.size());
      if (n > 0) take(g, buf.data(), n);
      update(g);
      if (n <= 0) {
        if (g->drain_req) { g->drain_req = false; g->drained++; g->cv.notify_all(); }
        break;
      }
    }
  }
  n_threads--;
}

static int make_group(bool fan, bool nonblock, unsigned iflags, bool cloexec)
{
  int ino = ::inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
  if (ino < 0) return -1;
  auto* g = new Group;
  g->fan = fan, g->nonblock = nonblock, g->iflags = iflags, g->ino = ino;
  g->fd = ::eventfd(0, EFD_NONBLOCK | (cloexec ? EFD_CLOEXEC : 0));
  g->wake = ::eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
  if (g->fd < 0 || g->wake < 0 || g->fd >= MAXFD) {
    ::close(g->fd), ::close(g->wake), ::close(ino);
    delete g;
    errno = EMFILE;
    return -1;
  }
  n_fds += 2, n_threads++, n_live++;
  g->hsz = 8 + 4 * rnd(5);
  int fd = g->fd;
  {
    std::lock_guard l{g_mx};
    groups.push_back(g);
    g->th = std::thread{pump, g};
  }
  by_fd[fd].store(g, std::memory_order_release);
  return fd;
}

static void close_group(Group* g)
{
  by_fd[g->fd].store(nullptr);
  {
    std::lock_guard l{g->mx};
    g->stop = true, g->open = false;
    eventfd_write(g->wake, 1);
  }
  g->th.join();
  std::lock_guard l{g->mx};
  for (auto& [wd, w] : g->w)
    if (g->fan) drop_pin(w.id);
  g->w.clear(), g->id_wd.clear(), g->q.clear();
  ::close(g->ino), ::close(g->wake);
  g->cv.notify_all();
  n_fds -= 2, n_live--;
}

static std::string enc(Group* g, RawEv const& r)
{
  if (! r.raw.empty()) return r.raw;
  if (! g->fan) {
    size_t nl = r.name.empty() ? 0 : (r.name.size() + 1 + 15) / 16 * 16;
    std::string s(sizeof(inotify_event) + nl, '\0');
    inotify_event h{};
    h.wd = r.wd, h.mask = r.mask, h.cookie = r.cookie, h.len = (uint32_t)nl;
    memcpy(s.data(), &h, sizeof(inotify_event));
    memcpy(s.data() + sizeof(inotify_event), r.name.data(), r.name.size());
    return s;
  }
  fanotify_event_metadata m{};
  m.vers = FANOTIFY_METADATA_VERSION;
  m.metadata_len = sizeof m;
  m.mask = r.mask;
  m.fd = FAN_NOFD;
  m.pid = getpid();
  auto info = [&](uint8_t type, uint32_t id, std::string const* name) {
    std::string h(g->hsz, '\x5a');
    uint32_t v = r.stale ? 0xfffffff0u : id;
    memcpy(h.data(), &v, 4);
    size_t len = sizeof(fanotify_event_info_fid) + sizeof(file_handle) + h.size() + (name ? name->size() + 1 : 0);
    len = (len + 3) / 4 * 4;
    std::string s(len, '\0');
    fanotify_event_info_fid f{};
    f.hdr.info_type = type, f.hdr.len = (uint16_t)len;
    memcpy(s.data(), &f, sizeof f);
    file_handle fh{};
    fh.handle_bytes = g->hsz, fh.handle_type = 0x71;
    memcpy(s.data() + sizeof f, &fh, sizeof fh);
    memcpy(s.data() + sizeof f + sizeof fh, h.data(), h.size());
    if (name) memcpy(s.data() + sizeof f + sizeof fh + h.size(), name->data(), name->size());
    return s;
  };
  std::string s;
  if (! (r.mask & IN_Q_OVERFLOW)) {
    if (g->iflags & FAN_REPORT_NAME)
      s += info(FAN_EVENT_INFO_TYPE_DFID_NAME, (uint32_t)r.wd, &r.name);
    else if (g->iflags & FAN_REPORT_DIR_FID)
      s += info(FAN_EVENT_INFO_TYPE_DFID, (uint32_t)r.wd, nullptr);
    if ((g->iflags & FAN_REPORT_FID) && (r.mask & IN_MODIFY))
      s += info(FAN_EVENT_INFO_TYPE_FID, 0x1000000u + (uint32_t)r.wd, nullptr);
  }
  m.event_len = (uint32_t)(sizeof m + s.size());
  return std::string{(char*)&m, sizeof m} + s;
}

static bool is_pair(RawEv const& a, RawEv const& b)
{
  return a.cookie && a.cookie == b.cookie && (a.mask & IN_MOVED_FROM) && (b.mask & IN_MOVED_TO);
}

static ssize_t group_read(Group* g, void* buf, size_t len)
{
  std::unique_lock l{g->mx};
  while (g->q.empty() || held) {
    if (g->nonblock) { errno = EAGAIN; return -1; }
    if (! g->open) { errno = EBADF; return -1; }
    g->cv.wait_for(l, std::chrono::milliseconds(100));
  }
  long want = cfg.batch == 0 ? 1L << 30 : cfg.batch == 1 ? 1 : 1 + (long)rnd((unsigned)cfg.batch);
  std::string out;
  long n = 0;
  RawEv last;
  while (n < want && ! g->q.empty()) {
    auto& r = g->q.front();
    auto s = enc(g, r);
    bool lone = ! r.raw.empty() && ! r.beside;
    if (lone && n) break;
    if (out.size() + s.size() > len) break;
    if ((r.mask & IN_MOVED_FROM) && r.cookie && ! cfg.split_pairs) {
      // keep both halves of a rename together: wait for the other half. The end
      // of a directory may come in between (whoever had it open closed it only now);
      // it might as well have come before.
      auto half = [&] {
        size_t j = 1;
        while (j < g->q.size() && ! g->fan && g->q[j].mask & (IN_DELETE_SELF | IN_IGNORED)) ++j;
        return j;
      };
      if (half() == g->q.size()) {
        auto t = std::chrono::steady_clock::now() + std::chrono::milliseconds(250);
        while (half() == g->q.size() && g->cv.wait_until(l, t) == std::cv_status::no_timeout) {}
        if (half() == g->q.size()) { // the pump may have been kept from running
          std::vector<char> b(1 << 16);
          ssize_t k = ::read(g->ino, b.data(), b.size());
          if (k > 0) take(g, b.data(), k);
        }
      }
      if (auto j = half(); j > 1 && j < g->q.size() && is_pair(g->q[0], g->q[j])) {
        std::rotate(g->q.begin(), g->q.begin() + 1, g->q.begin() + (long)j);
        stats.between.fetch_add(1, std::memory_order_relaxed);
        continue;
      }
      if (g->q.size() > 1 && is_pair(g->q[0], g->q[1])) {
        auto s2 = enc(g, g->q[1]);
        if (out.size() + s.size() + s2.size() > len && n > 0) break;
        if (out.size() + s.size() + s2.size() <= len) {
          out += s, out += s2;
          g->q.pop_front();
          last = g->q.front();
          g->q.pop_front();
          n += 2;
          stats.pairs_whole.fetch_add(1, std::memory_order_relaxed);
          continue;
        }
      }
    }
    if (n && is_pair(last, r)) stats.pairs_whole.fetch_add(1, std::memory_order_relaxed);
    else if (! n && (r.mask & IN_MOVED_TO)) stats.pairs_split.fetch_add(1, std::memory_order_relaxed);
    if (r.mask & IN_Q_OVERFLOW) stats.overflows.fetch_add(1, std::memory_order_relaxed);
    out += s;
    last = r;
    g->q.pop_front();
    n++;
    if (lone) break;
  }
  update(g);
  if (! n) { errno = EINVAL; return -1; }
  stats.reads.fetch_add(1, std::memory_order_relaxed);
  stats.events.fetch_add(n, std::memory_order_relaxed);
  if (n > 1) stats.multi.fetch_add(1, std::memory_order_relaxed);
  long m = stats.max_batch.load(std::memory_order_relaxed);
  while (n > m && ! stats.max_batch.compare_exchange_weak(m, n)) {}
  memcpy(buf, out.data(), out.size());
  return (ssize_t)out.size();
}

void hold(bool on)
{
  held = on;
  std::lock_guard l{g_mx};
  for (auto* g : groups) {
    std::lock_guard l2{g->mx};
    if (g->open) update(g);
  }
}
int group_count() { std::lock_guard l{g_mx}; return (int)groups.size(); }
int live_groups() { return (int)n_live; }
void reap()
{
  std::lock_guard l{g_mx};
  for (auto i = groups.begin(); i != groups.end();)
    if (! (*i)->open) { delete *i; i = groups.erase(i); }
    else ++i;
}
static Group* nth(int i)
{
  std::lock_guard l{g_mx};
  return i >= 0 && i < (int)groups.size() ? groups[(size_t)i] : nullptr;
}
static void drain(Group* g, std::unique_lock<std::mutex>& l)
{
  g->drain_req = true;
  long d = g->drained;
  eventfd_write(g->wake, 1);
  g->cv.wait(l, [&] { return g->drained > d || ! g->open; });
}
void lose(int gi, bool on)
{
  auto* g = nth(gi);
  if (! g) return;
  std::unique_lock l{g->mx};
  if (! g->open) return;
  drain(g, l);
  g->losing = on;
}
void inject(int gi, std::vector<RawEv> const& v)
{
  auto* g = nth(gi);
  if (! g) return;
  std::unique_lock l{g->mx};
  if (! g->open) return;
  drain(g, l);
  for (auto r : v) {
    if (g->fan && r.wd > 0 && r.raw.empty()) {
      auto i = g->w.find(r.wd);
      if (i != g->w.end()) r.wd = (int)i->second.id;
    }
    g->q.push_back(r);
    stats.injected.fetch_add(1, std::memory_order_relaxed);
  }
  update(g);
}
std::vector<int> wds(int gi)
{
  std::vector<int> v;
  if (auto* g = nth(gi)) {
    std::lock_guard l{g->mx};
    for (auto& [wd, w] : g->w) v.push_back(wd);
  }
  return v;
}
int wd_of(int gi, std::string const& p)
{
  if (auto* g = nth(gi)) {
    std::lock_guard l{g->mx};
    for (auto& [wd, w] : g->w) if (w.path == p) return wd;
  }
  return -1;
}
long watch_count(int gi)
{
  auto* g = nth(gi);
  if (! g) return 0;
  std::lock_guard l{g->mx};
  return (long)g->w.size();
}
long queued(int gi)
{
  auto* g = nth(gi);
  if (! g) return 0;
  std::lock_guard l{g->mx};
  return (long)g->q.size();
}
long open_fds_of_shim() { return n_fds; }
long threads_of_shim() { return n_threads; }
std::string stats_json()
{
  auto& s = stats;
  auto f = [](char const* n, std::atomic<long>& v) { return std::string{"\""} + n + "\":" + std::to_string(v.load()); };
  return "{" + f("reads", s.reads) + "," + f("events", s.events) + "," + f("max_batch", s.max_batch) + ","
       + f("multi_event_reads", s.multi) + "," + f("ep_waits", s.ep_waits) + "," + f("ep_multi", s.ep_multi) + ","
       + f("ep_swapped", s.ep_swapped) + "," + f("pauses", s.pauses) + "," + f("pairs_whole", s.pairs_whole) + ","
       + f("pairs_split", s.pairs_split) + "," + f("between_halves", s.between) + "," + f("overflows", s.overflows) + "," + f("stale", s.stale) + ","
       + f("injected", s.injected) + "," + f("marks", s.marks) + "," + f("replaced", s.replaced) + "}";
}

static std::atomic<long> obh_open{0};
static std::atomic<unsigned char> fd_kind[MAXFD]; // 1: close request eventfd, 2: from open_by_handle_at
static void kind(int fd, unsigned char k) { if (fd >= 0 && fd < MAXFD) fd_kind[fd].store(k, std::memory_order_relaxed); }

} // namespace shim

using namespace shim;

extern "C" {

ssize_t vp_read(int fd, void* b, size_t n)
{
  if (enter(F_read)) return -1;
  if (auto* g = at(fd)) return group_read(g, b, n);
  return ::read(fd, b, n);
}
ssize_t vp_write(int fd, void const* b, size_t n)
{
  if (enter(F_eventfd_write)) return -1;
  return ::write(fd, b, n);
}
static int reorder(epoll_event* ev, int n)
{
  if (n > 1) {
    stats.ep_multi.fetch_add(1, std::memory_order_relaxed);
    int o = cfg.ep_order == 3 ? 1 + (int)rnd(2) : cfg.ep_order;
    auto isreq = [](epoll_event const& e) { int fd = e.data.fd; return fd >= 0 && fd < MAXFD && fd_kind[fd].load(std::memory_order_relaxed) == 1; };
    if (o && n == 2 && isreq(ev[0]) != isreq(ev[1]) && isreq(ev[0]) != (o == 1)) {
      std::swap(ev[0], ev[1]);
      stats.ep_swapped.fetch_add(1, std::memory_order_relaxed);
    }
  }
  return n;
}
int vp_epoll_wait(int ep, epoll_event* ev, int max, int ms)
{
  stats.ep_waits.fetch_add(1, std::memory_order_relaxed);
  if (enter(F_epoll_wait)) return errno ? -1 : 0; // an errno of 0: woken for nothing
  return reorder(ev, ::epoll_wait(ep, ev, max, ms));
}
int vp_epoll_pwait(int ep, epoll_event* ev, int max, int ms, sigset_t const* s)
{
  stats.ep_waits.fetch_add(1, std::memory_order_relaxed);
  if (enter(F_epoll_wait)) return errno ? -1 : 0;
  return reorder(ev, ::epoll_pwait(ep, ev, max, ms, s));
}
int vp_epoll_create(int n) { return enter(F_epoll_create) ? -1 : ::epoll_create(n); }
int vp_epoll_create1(int n) { return enter(F_epoll_create) ? -1 : ::epoll_create1(n); }
int vp_epoll_ctl(int ep, int op, int fd, epoll_event* ev) { return enter(F_epoll_ctl) ? -1 : ::epoll_ctl(ep, op, fd, ev); }
int vp_poll(pollfd* p, nfds_t n, int ms) { return enter(F_epoll_wait) ? (errno ? -1 : 0) : ::poll(p, n, ms); }

static std::atomic<int> top_wd[MAXFD]; // the highest watch descriptor there is
int vp_inotify_init1(int flags)
{
  if (enter(F_inotify_init)) return -1;
  int fd = cfg.backend == REAL || ! cfg.pump ? ::inotify_init1(flags) : make_group(false, flags & IN_NONBLOCK, 0, flags & IN_CLOEXEC);
  if (fd >= 0 && fd < MAXFD) top_wd[fd].store(0, std::memory_order_relaxed);
  return fd;
}
int vp_inotify_init() { return vp_inotify_init1(0); }
// A watch whose mask is replaced asks for nothing while that is done, and the
// kernel looks at it without a lock: what happens then is lost. Rarely; here
// not quite so.
static int add_watch(int fd, int kfd, char const* path, uint32_t mask)
{
  int wd = ::inotify_add_watch(kfd, path, mask);
  if (wd < 0 || fd < 0 || fd >= MAXFD) return wd;
  int top = top_wd[fd].load(std::memory_order_relaxed);
  if (wd > top) top_wd[fd].store(wd, std::memory_order_relaxed);
  else if (! (mask & IN_MASK_ADD) && rnd(3) == 0) {
    stats.replaced.fetch_add(1, std::memory_order_relaxed);
    if (::inotify_add_watch(kfd, path, IN_MOVE_SELF | (mask & (IN_ONLYDIR | IN_DONT_FOLLOW))) == wd) usleep(1 + rnd(150));
    return ::inotify_add_watch(kfd, path, mask);
  }
  return wd;
}
int vp_inotify_add_watch(int fd, char const* path, uint32_t mask)
{
  run_path(F_inotify_add_watch, path);
  if (enter(F_inotify_add_watch, path)) return -1;
  stats.marks.fetch_add(1, std::memory_order_relaxed);
  int wd;
  if (auto* g = at(fd)) {
    std::lock_guard l{g->mx};
    wd = add_watch(fd, g->ino, path, mask);
    if (wd >= 0) g->w[wd].path = path;
  }
  else
    wd = add_watch(fd, fd, path, mask);
  if (wd >= 0) run_marked(path);
  return wd;
}
int vp_inotify_rm_watch(int fd, int wd)
{
  if (enter(F_inotify_rm_watch)) return -1;
  if (auto* g = at(fd)) return ::inotify_rm_watch(g->ino, wd);
  return ::inotify_rm_watch(fd, wd);
}

int vp_fanotify_init(unsigned flags, unsigned evf)
{
  if (enter(F_fanotify_init)) return -1;
  if (cfg.backend == REAL) return ::fanotify_init(flags, evf);
  if (cfg.backend == INOTIFY) { errno = EPERM; return -1; }
  if (cfg.fan_init_errno) { errno = cfg.fan_init_errno; return -1; }
  return make_group(true, flags & FAN_NONBLOCK, flags, flags & FAN_CLOEXEC);
}
int vp_fanotify_mark(int fd, unsigned flags, uint64_t mask, int dirfd, char const* path)
{
  run_path(F_fanotify_mark, path ? path : "");
  if (enter(F_fanotify_mark, path ? path : "")) return -1;
  auto* g = at(fd);
  if (! g) return ::fanotify_mark(fd, flags, mask, dirfd, path);
  if (! g->fan || (flags & ~(unsigned)(FAN_MARK_ADD | FAN_MARK_REMOVE | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW | FAN_MARK_FLUSH))) { errno = EINVAL; return -1; }
  stats.marks.fetch_add(1, std::memory_order_relaxed);
  std::string full;
  if (! path) full = "/proc/self/fd/" + std::to_string(dirfd);
  else if (path[0] == '/' || dirfd == AT_FDCWD) full = path;
  else full = "/proc/self/fd/" + std::to_string(dirfd) + "/" + path;
  uint32_t im = (uint32_t)mask & (IN_CREATE | IN_DELETE | IN_MODIFY | IN_MOVE);
  {
    std::lock_guard l{g->mx};
    int nf = path && (flags & FAN_MARK_DONT_FOLLOW) ? O_NOFOLLOW : 0;
    int pin = ::open(full.c_str(), O_PATH | O_CLOEXEC | nf);
    if (pin < 0) return -1;
    struct stat st;
    if (fstat(pin, &st) || ! S_ISDIR(st.st_mode)) { ::close(pin); errno = ENOTDIR; return -1; }
    std::string pp = "/proc/self/fd/" + std::to_string(pin);
    if (flags & FAN_MARK_REMOVE) {
      for (auto& [wd, w] : g->w) {
        struct stat s2;
        if (! fstat(w.pin, &s2) && s2.st_ino == st.st_ino && s2.st_dev == st.st_dev) {
          ::inotify_rm_watch(g->ino, wd);
          ::close(pin);
          return 0;
        }
      }
      ::close(pin);
      errno = ENOENT;
      return -1;
    }
    if (! (g->iflags & FAN_UNLIMITED_MARKS) && g->w.size() >= 8192) { ::close(pin); errno = ENOSPC; return -1; }
    int wd = im ? ::inotify_add_watch(g->ino, pp.c_str(), im | IN_MASK_ADD | IN_ONLYDIR) : -1;
    if (wd < 0) { int e = errno; ::close(pin); errno = im ? e : EINVAL; return -1; }
    auto [i, fresh] = g->w.try_emplace(wd);
    i->second.path = full;
    i->second.mask |= (uint32_t)mask;
    if (fresh) {
      std::lock_guard l2{p_mx};
      i->second.pin = pin, i->second.dev = st.st_dev, i->second.id = next_id++;
      g->id_wd[i->second.id] = wd;
      pins[i->second.id] = {pin, st.st_dev};
      n_fds++;
    }
    else
      ::close(pin);
  }
  run_marked(full.c_str());
  return 0;
}
static uint32_t const direct_tag = 0xd17ec7u;
int vp_name_to_handle_at(int dirfd, char const* path, file_handle* h, int* mid, int flags)
{
  if (cfg.backend != FANOTIFY) return ::name_to_handle_at(dirfd, path, h, mid, flags);
  if (h->handle_bytes < 16) { h->handle_bytes = 16; errno = EOVERFLOW; return -1; }
  struct stat st;
  if (fstatat(dirfd, path, &st, (flags & AT_SYMLINK_FOLLOW ? 0 : AT_SYMLINK_NOFOLLOW) | (flags & AT_EMPTY_PATH))) return -1;
  h->handle_bytes = 16, h->handle_type = 0x71;
  // resolves to the very directory asked for while that exists
  std::string p = path;
  int pin = *path ? ::openat(dirfd, path, O_PATH | O_CLOEXEC) : fcntl(dirfd, F_DUPFD_CLOEXEC, 0);
  std::lock_guard l{p_mx};
  // a few of these are kept; an inode is not used again while it is pinned
  static std::deque<std::pair<ino_t, uint32_t>> kept;
  uint32_t id = 0;
  for (auto& [ino, k] : kept) if (ino == st.st_ino && pins[k].dev == st.st_dev) id = k;
  if (id) ::close(pin);
  else {
    id = next_id++;
    pins[id] = {pin, st.st_dev};
    n_fds++;
    kept.push_back({st.st_ino, id});
    if (kept.size() > 24) {
      auto o = pins.find(kept.front().second);
      if (o != pins.end()) ::close(o->second.fd), pins.erase(o), n_fds--;
      kept.pop_front();
    }
  }
  memset(h->f_handle, 0, 16);
  memcpy(h->f_handle, &id, 4);
  memcpy(h->f_handle + 4, &direct_tag, 4);
  if (mid) *mid = 1;
  return 0;
}
int vp_open_by_handle_at(int mfd, file_handle* h, int flags)
{
  if (enter(F_open_by_handle_at)) return -1;
  if (cfg.backend != FANOTIFY) return ::open_by_handle_at(mfd, h, flags);
  uint32_t id = 0;
  if (h->handle_type != 0x71 || h->handle_bytes < 8) { errno = ESTALE; return -1; }
  memcpy(&id, h->f_handle, 4);
  struct stat m, st;
  if (mfd != AT_FDCWD && (::fcntl(mfd, F_GETFL) & O_PATH)) { errno = EBADF; return -1; }
  if (mfd == AT_FDCWD ? stat(".", &m) : fstat(mfd, &m)) return -1;
  int fd = -1;
  {
    std::lock_guard l{p_mx};
    auto i = pins.find(id);
    if (i == pins.end() || fstat(i->second.fd, &st) || st.st_nlink == 0 || st.st_dev != m.st_dev) {
      stats.stale.fetch_add(1, std::memory_order_relaxed);
      errno = ESTALE;
      return -1;
    }
    fd = ::open(("/proc/self/fd/" + std::to_string(i->second.fd)).c_str(), (flags & (O_PATH | O_CLOEXEC)) | (flags & O_PATH ? 0 : O_RDONLY | O_DIRECTORY));
  }
  if (fd >= 0) {
    kind(fd, 2);
    long n = obh_open.fetch_add(1, std::memory_order_relaxed) + 1;
    long o = max_sut_fds.load(std::memory_order_relaxed);
    while (n > o && ! max_sut_fds.compare_exchange_weak(o, n)) {}
  }
  return fd;
}
int vp_eventfd(unsigned v, int flags)
{
  if (enter(F_eventfd)) return -1;
  int fd = ::eventfd(v, flags);
  kind(fd, 1);
  return fd;
}
int vp_eventfd_write(int fd, eventfd_t v) { return enter(F_eventfd_write) ? -1 : ::eventfd_write(fd, v); }
int vp_eventfd_read(int fd, eventfd_t* v) { return enter(F_eventfd_read) ? -1 : ::eventfd_read(fd, v); }
ssize_t vp_readlink(char const* p, char* b, size_t n) { return enter(F_readlink, p) ? -1 : ::readlink(p, b, n); }
char* vp_realpath(char const* p, char* b)
{
  run_path(F_realpath, p);
  return enter(F_realpath, p) ? nullptr : ::realpath(p, b);
}
DIR* vp_opendir(char const* p)
{
  run_path(F_opendir, p);
  return enter(F_opendir, p) ? nullptr : ::opendir(p);
}
DIR* vp_fdopendir(int fd) { return enter(F_opendir) ? nullptr : ::fdopendir(fd); }
int vp_open(char const* p, int flags, ...)
{
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list a;
    va_start(a, flags);
    m = (mode_t)va_arg(a, int);
    va_end(a);
  }
  if (flags & O_DIRECTORY) {
    run_path(F_opendir, p);
    if (enter(F_opendir, p)) return -1;
  }
  return ::open(p, flags, m);
}
dirent* vp_readdir(DIR* d)
{
  if (enter(F_readdir)) return nullptr;
  auto* e = ::readdir(d);
  if (e && cfg.no_type_pct && rnd(100) < cfg.no_type_pct) e->d_type = DT_UNKNOWN;
  return e;
}
int vp_stat(char const* p, struct stat* s) { return enter(F_stat, p) ? -1 : ::stat(p, s); }
int vp_close(int fd)
{
  enter(F_close);
  if (fd >= 0 && fd < MAXFD) {
    if (fd_kind[fd].load(std::memory_order_relaxed) == 2) obh_open.fetch_sub(1, std::memory_order_relaxed);
    kind(fd, 0);
  }
  if (auto* g = at(fd)) close_group(g);
  return ::close(fd);
}
uid_t vp_geteuid() { return cfg.backend == REAL ? ::geteuid() : cfg.backend == FANOTIFY ? 0 : 1000; }
uid_t vp_getuid() { return cfg.backend == REAL ? ::getuid() : cfg.backend == FANOTIFY ? 0 : 1000; }

} // extern "C"

static std::atomic<long long> fake_now{0};
void shim::set_clock(long long ns) { fake_now = ns; }
extern "C" {
long long vp_sysclock_now()
{
  if (long long f = fake_now) return f;
  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
}
int vp_clock_gettime(clockid_t c, struct timespec* t)
{
  long long f = fake_now;
  if (f && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = f / 1000000000, t->tv_nsec = f % 1000000000; return 0; }
  return clock_gettime(c, t);
}
}
