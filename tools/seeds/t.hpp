// Helpers of the demonstrations. Everything happens below the directory given as argv[1].
#pragma once
#include "wtr/watcher.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <mutex>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace fs = std::filesystem;
using pt = enum wtr::event::path_type;
using et = enum wtr::event::effect_type;

struct seen { // all which was delivered, in order
  std::mutex m; std::condition_variable cv; std::vector<wtr::event> evs;
  void add(wtr::event const& e) { { std::lock_guard l{m}; evs.push_back(e); } cv.notify_all(); }
  std::function<void(wtr::event const&)> cb() { return [this](wtr::event const& e) { add(e); }; }
  template<class F> size_t count(F f) { std::lock_guard l{m}; size_t n = 0; for (auto& e : evs) n += f(e); return n; }
  template<class F> bool wait(F f, size_t want = 1, int s = 15) {
    std::unique_lock l{m};
    return cv.wait_for(l, std::chrono::seconds(s), [&] { size_t n = 0; for (auto& e : evs) n += f(e); return n >= want; });
  }
  bool live() { return wait([](wtr::event const& e) { return e.path_type == pt::watcher && e.effect_type == et::create; }); }
  bool die() { return wait([](wtr::event const& e) { return e.path_type == pt::watcher && e.effect_type == et::destroy; }); }
  void show() { std::lock_guard l{m}; int n = 0; for (auto& e : evs) if (n++ < 20) fprintf(stderr, "  %d %d %s%s%s\n", (int)e.effect_type, (int)e.path_type, e.path_name.c_str(), e.associated ? " -> " : "", e.associated ? e.associated->path_name.c_str() : ""); }
};
inline auto is(std::string p) { return [p](wtr::event const& e) { return e.path_name == p; }; }
inline auto is(std::string p, et f) { return [p, f](wtr::event const& e) { return e.path_name == p && e.effect_type == f; }; }
inline auto has(std::string s) { return [s](wtr::event const& e) { return e.path_type == pt::watcher && e.path_name.string().find(s) != std::string::npos; }; }
inline auto any_fs() { return [](wtr::event const& e) { return e.path_type != pt::watcher; }; }
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
inline void touch(std::string p) { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (fd >= 0) close(fd); }
inline void put(std::string p, char const* s = "x") { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0644); if (fd >= 0) { if (write(fd, s, 1) < 0) {} close(fd); } }
inline int open_fds() { int n = 0; for (auto& _ : fs::directory_iterator("/proc/self/fd")) (void)_, ++n; return n; }
struct gate { // holds a callback up until it is opened
  std::mutex m; std::condition_variable cv; bool reached = false, isopen = false;
  void pass() { std::unique_lock l{m}; reached = true; cv.notify_all(); cv.wait_for(l, std::chrono::seconds(40), [&] { return isopen; }); }
  bool wait() { std::unique_lock l{m}; return cv.wait_for(l, std::chrono::seconds(15), [&] { return reached; }); }
  void open() { { std::lock_guard l{m}; isopen = true; } cv.notify_all(); }
};
// As nobody in particular: without fanotify, and with no say over the sandbox.
inline void as_nobody() { if (getuid() == 0 && (setgid(65534) || setuid(65534))) { perror("setuid"); exit(9); } }
[[noreturn]] inline void done(bool ok, seen* s = nullptr, char const* what = "") { if (! ok) { fprintf(stderr, "FAILED %s\n", what); if (s) s->show(); } fflush(stdout); _exit(ok ? 0 : 1); }
