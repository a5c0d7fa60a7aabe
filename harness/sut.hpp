// The code under test as the harness sees it. sut.cpp is the only file that
// includes the library; it uses nothing but its documented interface.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sut {
enum Eff { RENAME, MODIFY, CREATE, DESTROY, OWNER, OTHER };
enum Pt { DIR_, FILE_, HARD, SYM, WATCHER, POTHER };
extern char const* const eff_name[6];
extern char const* const pt_name[6];
struct Ev {
  std::string path;
  Eff eff;
  Pt pt;
  long long t;
  std::shared_ptr<Ev> assoc;
};
using Cb = std::function<void(Ev const&)>;
struct Watch; // opaque
Watch* open(std::string const& path, Cb cb);
bool close(Watch*);
void destroy(Watch*);
// a watch living on the stack of `body`, closed by its destructor
void scoped(std::string const& path, Cb cb, std::function<void()> body);
// The C library. `ctx` must point at a CCtx; it is handed to the library as it is.
struct CEv { int64_t t; char const* path; char const* assoc; int eff; int pt; };
struct CCtx { void (*cb)(CEv const&, CCtx*); };
void* c_open(char const* path, CCtx* ctx);
bool c_close(void*);
// Any context and a callback of the user's own.
using CFn = std::function<void(CEv const&, void* ctx)>;
void* c_open_any(char const* path, void* ctx, int slot);
extern CFn c_slot[8];
} // namespace sut
