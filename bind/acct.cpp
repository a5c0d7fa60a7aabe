// What the addon allocates, counted: its object file calls these instead of the
// C library's and Node's (objcopy --redefine-sym x=vp_x).
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <node_api.h>
#include <unordered_set>
namespace {
std::mutex m;
std::unordered_set<void*>& live() { static auto* s = new std::unordered_set<void*>; return *s; }
std::atomic<long> refs{0}, tsfns{0}, total{0};
void* in(void* p) { if (p) { auto l = std::scoped_lock{m}; live().insert(p); ++total; } return p; }
void* out(void* p) { if (p) { auto l = std::scoped_lock{m}; live().erase(p); } return p; }
}
extern "C" {
void* vp_malloc(size_t n) { auto p = in(malloc(n)); if (p) memset(p, 0xa5, n); return p; }
void* vp_calloc(size_t n, size_t k) { return in(calloc(n, k)); }
void* vp_realloc(void* p, size_t n) { out(p); return in(realloc(p, n)); }
char* vp_strdup(char const* s) { return (char*)in(strdup(s)); }
char* vp_strndup(char const* s, size_t n) { return (char*)in(strndup(s, n)); }
void vp_free(void* p) { free(out(p)); }
void* vp__Znwm(size_t n) { return in(operator new(n)); }
void* vp__Znam(size_t n) { return in(operator new[](n)); }
void vp__ZdlPv(void* p) { operator delete(out(p)); }
void vp__ZdlPvm(void* p, size_t n) { operator delete(out(p), n); }
void vp__ZdaPv(void* p) { operator delete[](out(p)); }
void vp__ZdaPvm(void* p, size_t) { operator delete[](out(p)); }
napi_status vp_napi_create_reference(napi_env e, napi_value v, uint32_t n, napi_ref* r) { auto s = napi_create_reference(e, v, n, r); if (! s) ++refs; return s; }
napi_status vp_napi_delete_reference(napi_env e, napi_ref r) { auto s = napi_delete_reference(e, r); if (! s) --refs; return s; }
napi_status vp_napi_create_threadsafe_function(napi_env e, napi_value f, napi_value ar, napi_value an, size_t q, size_t n, void* fd, napi_finalize fc, void* c, napi_threadsafe_function_call_js cb, napi_threadsafe_function* r)
{ auto s = napi_create_threadsafe_function(e, f, ar, an, q, n, fd, fc, c, cb, r); if (! s) tsfns += n; return s; }
napi_status vp_napi_acquire_threadsafe_function(napi_threadsafe_function f) { auto s = napi_acquire_threadsafe_function(f); if (! s) ++tsfns; return s; }
napi_status vp_napi_release_threadsafe_function(napi_threadsafe_function f, napi_threadsafe_function_release_mode k) { auto s = napi_release_threadsafe_function(f, k); if (! s) --tsfns; return s; }
__attribute__((visibility("default"))) void vp_outstanding(long* to)
{
  auto l = std::scoped_lock{m};
  to[0] = (long)live().size(), to[1] = refs, to[2] = tsfns, to[3] = total;
}
}
