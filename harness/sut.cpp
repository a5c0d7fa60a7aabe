#include "sut.hpp"
#include "wtr/watcher.hpp"
#include "wtr/watcher-c.h"

namespace sut {
using wev = ::wtr::watcher::event;
static Eff eff(enum wev::effect_type e)
{
  switch (e) {
    case wev::effect_type::rename: return RENAME;
    case wev::effect_type::modify: return MODIFY;
    case wev::effect_type::create: return CREATE;
    case wev::effect_type::destroy: return DESTROY;
    case wev::effect_type::owner: return OWNER;
    default: return OTHER;
  }
}
static Pt pt(enum wev::path_type p)
{
  switch (p) {
    case wev::path_type::dir: return DIR_;
    case wev::path_type::file: return FILE_;
    case wev::path_type::hard_link: return HARD;
    case wev::path_type::sym_link: return SYM;
    case wev::path_type::watcher: return WATCHER;
    default: return POTHER;
  }
}
static Ev conv(wev const& e)
{
  return {e.path_name.string(), eff(e.effect_type), pt(e.path_type), e.effect_time,
          e.associated ? std::make_shared<Ev>(conv(*e.associated)) : nullptr};
}
struct Watch { ::wtr::watcher::watch w; };
Watch* open(std::string const& path, Cb cb)
{
  return new Watch{{path, [cb](wev const& e) { cb(conv(e)); }}};
}
bool close(Watch* w) { return w->w.close(); }
void destroy(Watch* w) { delete w; }
void scoped(std::string const& path, Cb cb, std::function<void()> body)
{
  auto w = ::wtr::watcher::watch(path, [cb](wev const& e) { cb(conv(e)); });
  body();
}
static void c_tramp(struct wtr_watcher_event e, void* v)
{
  auto* c = (CCtx*)v;
  c->cb({e.effect_time, e.path_name, e.associated_path_name, e.effect_type, e.path_type}, c);
}
void* c_open(char const* path, CCtx* ctx) { return wtr_watcher_open(path, c_tramp, ctx); }
CFn c_slot[8];
template <int N> static void c_any(struct wtr_watcher_event e, void* v) { c_slot[N]({e.effect_time, e.path_name, e.associated_path_name, e.effect_type, e.path_type}, v); }
void* c_open_any(char const* path, void* ctx, int slot)
{
  static wtr_watcher_callback const f[8] = {c_any<0>, c_any<1>, c_any<2>, c_any<3>, c_any<4>, c_any<5>, c_any<6>, c_any<7>};
  return wtr_watcher_open(path, f[slot], ctx);
}
bool c_close(void* w) { return wtr_watcher_close(w); }
} // namespace sut
