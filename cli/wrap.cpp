// Linked (with --wrap) into the command line programs: the log, the clock of the
// made-up watch, the sleep of the main thread (long ones pass in an instant, and
// the steady clock with them), and system calls which fail when VP_FAIL says so.
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <string>
#include <sys/select.h>
#include <sys/syscall.h>
#include <unistd.h>

static std::atomic<long long> fake_now{0}, skipped{0};
static std::atomic<int> reads{0};
void vp_time(long long t) { fake_now = t; }
void vp_put(std::string const& what)
{
  static int fd = [] { auto p = getenv("VP_LOG"); return p ? open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666) : -1; }();
  timespec t{0, 300000};
  if (what == "" || what == "P") { syscall(SYS_nanosleep, &t, nullptr); return; }
  auto s = what + "\n";
  if (fd >= 0 && write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
}
using ll = long long;
static bool ours() { static bool on = ! getenv("VP_REAL_SLEEP"); return on && syscall(SYS_gettid) == getpid(); }
static ll const small = 30000000;
static ll mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static ll add(ll a, ll b) { ll r; return __builtin_add_overflow(a, b, &r) ? LLONG_MAX : r; }
static ll ns(timespec const& t) { ll r; return __builtin_mul_overflow((ll)t.tv_sec, 1000000000ll, &r) ? LLONG_MAX : add(r, t.tv_nsec); }
static bool bad(timespec const& t) { return t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec > 999999999; }
static void nap(ll n) { timespec t{(time_t)(n / 1000000000), (long)(n % 1000000000)}; syscall(SYS_nanosleep, &t, nullptr); }
static void pass(ll n)
{
  vp_put("S " + std::to_string(n));
  if (n <= small) nap(n < 0 ? 0 : n);
  else nap(small), skipped = add(skipped, n - small);
}
extern "C" {
ll __real__ZNSt6chrono3_V212system_clock3nowEv();
ll __wrap__ZNSt6chrono3_V212system_clock3nowEv() { ll f = fake_now; return f ? f : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
ll __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return add(mono(), skipped); }
int __real_nanosleep(timespec const*, timespec*);
int __wrap_nanosleep(timespec const* t, timespec* r)
{
  if (! ours()) return __real_nanosleep(t, r);
  if (bad(*t)) { vp_put("S 0"); errno = EINVAL; return -1; }
  pass(ns(*t));
  return 0;
}
int __real_clock_nanosleep(clockid_t, int, timespec const*, timespec*);
int __wrap_clock_nanosleep(clockid_t c, int f, timespec const* t, timespec* r)
{
  if (! ours()) return __real_clock_nanosleep(c, f, t, r);
  if (bad(*t)) { vp_put("S 0"); return EINVAL; }
  auto n = ns(*t);
  if (f & TIMER_ABSTIME) {
    timespec now; clock_gettime(c, &now);
    n -= ns(now);
    if (c == CLOCK_MONOTONIC) n -= skipped;
  }
  pass(n < 0 ? 0 : n);
  return 0;
}
unsigned __wrap_sleep(unsigned s) { timespec t{(time_t)s, 0}; __wrap_nanosleep(&t, nullptr); return 0; }
int __wrap_usleep(unsigned u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return __wrap_nanosleep(&t, nullptr); }
// Waits which something else might end: a short while, then time jumps.
static int wait_for(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t)
{
  timespec now; clock_gettime(k, &now);
  auto off = k == CLOCK_MONOTONIC ? skipped.load() : 0;
  auto left = ns(*t) - ns(now) - off;
  auto until = add(ns(now), left < small ? (left < 0 ? 0 : left) : small);
  timespec u{(time_t)(until / 1000000000), (long)(until % 1000000000)};
  auto r = pthread_cond_clockwait(c, m, k, &u);
  if (r != ETIMEDOUT) return r;
  vp_put("S " + std::to_string(left));
  if (left > small) skipped = add(skipped, left - small);
  return r;
}
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) { return ours() ? wait_for(c, m, k, t) : __real_pthread_cond_clockwait(c, m, k, t); }
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, timespec const*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return ours() ? wait_for(c, m, CLOCK_REALTIME, t) : __real_pthread_cond_timedwait(c, m, t); }
int __real_poll(pollfd*, nfds_t, int);
int __wrap_poll(pollfd* f, nfds_t n, int ms)
{
  if (! ours() || ms < 30) return __real_poll(f, n, ms);
  auto r = __real_poll(f, n, 30);
  if (r == 0) vp_put("S " + std::to_string(ms * 1000000ll)), skipped = add(skipped, (ms - 30) * 1000000ll);
  return r;
}
int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t)
{
  if (! ours() || ! t) return __real_select(n, r, w, e, t);
  auto all = t->tv_sec * 1000000000ll + t->tv_usec * 1000;
  if (all < small) return __real_select(n, r, w, e, t);
  *t = {0, 30000};
  auto x = __real_select(n, r, w, e, t);
  if (x == 0) vp_put("S " + std::to_string(all)), skipped = add(skipped, all - small);
  return x;
}
static bool fails(char const* what) { auto f = getenv("VP_FAIL"); return f && strstr(f, what); }
int __wrap_fanotify_init(unsigned, unsigned) { errno = EPERM; return -1; }
int __real_inotify_init1(int);
int __wrap_inotify_init1(int f) { return fails("init") ? (errno = EMFILE, -1) : __real_inotify_init1(f); }
int __real_inotify_init();
int __wrap_inotify_init() { return fails("init") ? (errno = EMFILE, -1) : __real_inotify_init(); }
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n)
{
  if (fd > 2 && fails("read") && ++reads > 2) return errno = EIO, -1;
  return __real_read(fd, b, n);
}
}
