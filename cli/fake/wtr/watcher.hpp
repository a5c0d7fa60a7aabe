// Found before the real header by the command line programs: with VP_FAKE set to
// seed:count:flags, their watch is a made-up one that writes down what it delivers.
// Flags: u only UTF-8 names, p plain names, s pauses, d dies with an error,
// b begins with an error.
#pragma once
#include_next "wtr/watcher.hpp"
#include "gen.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <memory>
#include <string>
#include <thread>
void vp_put(std::string const&);
void vp_time(long long);
namespace wtr {
inline namespace watcher {
class vp_watch {
  std::unique_ptr<watch> real;
  std::atomic<bool> stop{false}, closed{false};
  std::thread th;
  bool dies = false, bad = false;
  static std::string hex(std::filesystem::path const& p)
  {
    auto s = std::string{"x"};
    for (unsigned char c : p.native()) { char b[3]; snprintf(b, 3, "%02x", c); s += b; }
    return s;
  }
  static void deliver(event::callback const& cb, event const& e)
  {
    vp_put("E " + std::to_string(e.effect_time) + " " + std::to_string(int(e.effect_type)) + " " + std::to_string(int(e.path_type)) + " " + hex(e.path_name)
      + " " + (e.associated ? hex(e.associated->path_name) + " " + std::to_string(int(e.associated->effect_type)) + " " + std::to_string(int(e.associated->path_type)) + " " + std::to_string(e.associated->effect_time) : "-"));
    cb(e);
  }
  void fake(std::string root, event::callback cb, unsigned long seed, long count, std::string flags)
  {
    auto has = [&](char c) { return flags.find(c) != flags.npos; };
    using et = enum event::effect_type;
    using pt = enum event::path_type;
    auto r = vp_gen::R(seed);
    auto name = [&] { return has('p') ? vp_gen::plain(r) : vp_gen::name(r, has('u')); };
    auto tick = [&] { auto t = vp_gen::when(r); vp_time(t ? t : 1); };
    tick();
    deliver(cb, event{(bad ? "e/self/live@" : "s/self/live@") + root, et::create, pt::watcher});
    for (long i = 0; i < count && ! stop && ! bad; ++i) {
      tick();
      auto a = event{name(), et(r() % 6), pt(r() % 6)};
      tick();
      if (r() % 3) deliver(cb, a);
      else deliver(cb, event{a, event{name(), et(r() % 6), pt(r() % 6)}});
      if (has('s') && r() % 4 == 0) vp_put("P");
    }
    if (! dies && ! bad) { vp_put("Q"); while (! stop) std::this_thread::yield(), vp_put(""); }
    tick();
    deliver(cb, event{(dies || bad ? "e/self/die@" : "s/self/die@") + root, et::destroy, pt::watcher});
    vp_time(0);
  }
public:
  vp_watch(std::filesystem::path const& path, event::callback const& cb)
  {
    vp_put("O " + hex(path));
    auto v = std::getenv("VP_FAKE");
    unsigned long seed; long count; char flags[16] = "";
    if (v && sscanf(v, "%lu:%ld:%15s", &seed, &count, flags) >= 2) {
      dies = strchr(flags, 'd'), bad = strchr(flags, 'b');
      th = std::thread([=, this, f = std::string{flags}] { fake(path.native(), cb, seed, count, f); });
    }
    else real = std::make_unique<watch>(path, cb);
  }
  bool close()
  {
    if (closed.exchange(true)) return false;
    auto ok = real ? real->close() : (stop = true, th.join(), ! dies && ! bad);
    vp_put(ok ? "c 1" : "c 0");
    return ok;
  }
  ~vp_watch() { close(); }
};
} // namespace watcher
} // namespace wtr
#define watch vp_watch
