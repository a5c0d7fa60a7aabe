// The system-call boundary of the code under test.
//
// Objects compiled from /repo get their undefined system-call symbols renamed
// (objcopy --redefine-syms wraps.txt) from `read` to `vp_read`, and so on. The
// functions defined in shim.cpp pass calls through, record them, inject faults
// and delays, and can stand in for the kernel's fanotify interface, which needs
// privileges that checks do not have.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace shim {

// INOTIFY: the unprivileged backend (geteuid says 1000). FANOTIFY: geteuid says
// 0 and fanotify is stood in for. REAL: nothing is stood in for.
enum Backend { INOTIFY, FANOTIFY, REAL };

enum Fn {
  F_read, F_epoll_wait, F_epoll_create, F_epoll_ctl, F_inotify_init,
  F_inotify_add_watch, F_inotify_rm_watch, F_fanotify_init, F_fanotify_mark,
  F_open_by_handle_at, F_eventfd, F_eventfd_write, F_eventfd_read, F_readlink,
  F_realpath, F_opendir, F_readdir, F_stat, F_close, F_N
};
extern char const* const fn_name[F_N];

struct Cfg {
  Backend backend = INOTIFY;
  bool pump = true;            // inotify: through the batching pump
  int batch = 0;               // 0 as many as fit, 1 one per read, k>1 random 1..k
  bool split_pairs = false;    // may a from/to pair be split over two reads
  int ep_order = 0;            // 0 as the kernel says, 1 close request first, 2 last, 3 random
  unsigned gather_us = 0;      // how long notifications may pile up before being readable
  unsigned delay_permille = 0; // chance of a pause at each boundary
  unsigned delay_us = 0;       // its maximum length
  unsigned seed = 1;
  unsigned no_type_pct = 0;    // share of directory entries whose type the filesystem does not tell
  bool merge = false;          // fanotify: records of one name become one, as in the kernel
  int fan_init_errno = 0;      // fanotify_init fails with this
};
void configure(Cfg const&);    // only while no watcher is open
Cfg const& config();

// Fails the nth..(nth+count-1)th call (1-based, from now on) of `fn` with `err`.
// count<0: all from the nth on.
void fault(Fn fn, long nth, int err, long count = 1);
// Fails calls of `fn` with `err` whenever `pred(path)` holds (functions that take a path).
void fault_path(Fn fn, int err, std::function<bool(std::string const&)> pred);
void clear_faults();
long calls(Fn fn);             // calls since configure()
long faults_hit();

// While held, notifications pile up; on release they are readable at once.
void hold(bool on);

struct RawEv { int wd = 0; uint32_t mask = 0; uint32_t cookie = 0; std::string name; bool stale = false; std::string raw; bool beside = false; }; // raw: read alone, or beside others

// The groups (one per watcher) in order of creation, closed ones included.
int group_count();
int live_groups();
void reap();                   // forget closed groups (group numbers start again)
// Puts a record into group g's stream, after everything the kernel has reported.
void inject(int g, std::vector<RawEv> const&);
// From now on, and after everything reported so far, what the kernel reports to
// group g is lost; ends with lose(g, false), after everything reported until then.
void lose(int g, bool on);
long lost(); // records lost so far
std::vector<int> wds(int g);                // live watch descriptors of the group
int wd_of(int g, std::string const& path);  // -1 if none
long watch_count(int g);
long queued(int g);
// What the code under test takes for the time (ns since the epoch); 0: the real one.
void set_clock(long long ns);
// called (without locks) after a watch has been added for a path, before the call returns
void on_marked(std::function<void(std::string const&)>);
// called before opendir / realpath / add_watch of a path
void on_path(std::function<void(Fn, std::string const&)>);

struct Stats {
  std::atomic<long> reads{0}, events{0}, max_batch{0}, ep_waits{0}, ep_multi{0},
    ep_swapped{0}, pauses{0}, pairs_whole{0}, pairs_split{0}, between{0}, overflows{0},
    stale{0}, injected{0}, multi{0}, marks{0}, replaced{0};
};
extern Stats stats;
std::string stats_json();
long open_fds_of_shim();       // descriptors the shim itself keeps
long threads_of_shim();
extern std::atomic<long> max_sut_fds; // most descriptors the code under test had open by open_by_handle_at

} // namespace shim
