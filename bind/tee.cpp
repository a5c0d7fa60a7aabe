// The C library as a binding sees it: the real one, with everything it delivers
// written down, and beside it a made-up one, for paths "fake:seed:count:flags".
// Flags: u only UTF-8 names, s pauses between events, d dies with an error.
#include "gen.hpp"
#include "wtr/watcher-c.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>

extern "C" void* real_wtr_watcher_open(char const*, wtr_watcher_callback, void*);
extern "C" bool real_wtr_watcher_close(void*);

namespace {
std::mutex log_m;
void put(std::string s)
{
  static int fd = [] { auto p = getenv("VP_LOG"); return p ? open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666) : -1; }();
  s += '\n';
  auto l = std::scoped_lock{log_m};
  for (size_t at = 0; at < s.size();) {
    auto n = write(fd, s.data() + at, s.size() - at);
    if (n <= 0) abort();
    at += n;
  }
}
std::string hex(char const* p)
{
  if (! p) return "-";
  auto s = std::string{"x"};
  for (; *p; ++p) { char b[3]; snprintf(b, 3, "%02x", (unsigned char)*p); s += b; }
  return s;
}
struct W {
  long id; wtr_watcher_callback cb; void* ctx;
  void* real = nullptr;
  bool dies = false;
  std::atomic<bool> stop{false}, closed{false};
  std::thread th;
};
std::mutex all_m;
std::map<void*, std::unique_ptr<W>>& all() { static auto* m = new std::map<void*, std::unique_ptr<W>>; return *m; }
std::atomic<long> ids{0};

// What a callback gets lies in memory of its own, which is gone when it returns.
char* own(char const* p) { return p ? strdup(p) : nullptr; }
void gone(char* p) { if (p) memset(p, 0xdd, strlen(p)), free(p); }
void deliver(W& w, wtr_watcher_event e)
{
  char b[96];
  snprintf(b, sizeof b, "E %ld %lld %d %d ", w.id, (long long)e.effect_time, e.effect_type, e.path_type);
  put(b + hex(e.path_name) + " " + hex(e.associated_path_name));
  auto p = own(e.path_name), a = own(e.associated_path_name);
  e.path_name = p, e.associated_path_name = a;
  w.cb(e, w.ctx);
  gone(p), gone(a);
  put("e " + std::to_string(w.id));
}
void on_real(wtr_watcher_event e, void* c) { deliver(*(W*)c, e); }

using namespace vp_gen;
void fake(W* w, std::string root, unsigned long seed, long count, bool utf8, bool slow, bool dies)
{
  auto r = R(seed);
  auto msg = [&](char const* what, int8_t et) { deliver(*w, {when(r), (what + root).c_str(), nullptr, et, WTR_WATCHER_PATH_WATCHER}); };
  msg("s/self/live@", WTR_WATCHER_EFFECT_CREATE);
  for (long i = 0; i < count && ! w->stop; ++i) {
    auto p = name(r, utf8), a = name(r, utf8);
    auto has = r() % 3 == 0;
    deliver(*w, {when(r), p.c_str(), has ? a.c_str() : nullptr, (int8_t)(r() % 6), (int8_t)(r() % 6)});
    if (slow && r() % 4 == 0) usleep(r() % 1500);
  }
  if (dies) { msg("e/self/die@", WTR_WATCHER_EFFECT_DESTROY); return; }
  put("Q " + std::to_string(w->id));   // all delivered; now idle
  while (! w->stop) usleep(500);
  msg("s/self/die@", WTR_WATCHER_EFFECT_DESTROY);
}
} // namespace

extern "C" void* wtr_watcher_open(char const* const path, wtr_watcher_callback cb, void* ctx)
{
  auto w = std::make_unique<W>();
  auto* p = w.get();
  p->id = ++ids, p->cb = cb, p->ctx = ctx;
  put("O " + std::to_string(p->id) + " " + hex(path));
  unsigned long seed; long count; char flags[16] = "";
  if (path && sscanf(path, "fake:%lu:%ld:%15s", &seed, &count, flags) >= 2) {
    p->dies = strchr(flags, 'd');
    p->th = std::thread(fake, p, std::string{path}, seed, count, !! strchr(flags, 'u'), !! strchr(flags, 's'), p->dies);
  }
  else p->real = real_wtr_watcher_open(path, on_real, p);
  auto handle = (void*)(uintptr_t)p->id;
  { auto l = std::scoped_lock{all_m}; all().emplace(handle, std::move(w)); }
  return handle;
}
extern "C" bool wtr_watcher_close(void* handle)
{
  W* w = nullptr;
  { auto l = std::scoped_lock{all_m}; auto at = all().find(handle); if (at != all().end()) w = at->second.get(); }
  auto id = std::to_string(w ? w->id : -1);
  put("C " + id);
  bool ok = false;
  if (! w) put("X");
  else if (! w->closed.exchange(true)) {
    if (w->real) ok = real_wtr_watcher_close(w->real);
    else { w->stop = true; w->th.join(); ok = ! w->dies; }
  }
  put("c " + id + (ok ? " 1" : " 0"));
  return ok;
}
