// outstanding(path of watcher-napi.node): [allocations, references, functions, total]
#define NAPI_VERSION 8
#include <dlfcn.h>
#include <node_api.h>
static napi_value outstanding(napi_env env, napi_callback_info info)
{
  size_t n = 1; napi_value a[1]; char path[4096] = "";
  napi_get_cb_info(env, info, &n, a, nullptr, nullptr);
  napi_get_value_string_utf8(env, a[0], path, sizeof path, nullptr);
  long x[4] = {-1, -1, -1, -1};
  if (auto h = dlopen(path, RTLD_LAZY)) if (auto f = (void (*)(long*))dlsym(h, "vp_outstanding")) f(x);
  napi_value r; napi_create_array(env, &r);
  for (int i = 0; i < 4; ++i) { napi_value v; napi_create_int64(env, x[i], &v); napi_set_element(env, r, i, v); }
  return r;
}
static napi_value init(napi_env env, napi_value exports)
{
  napi_value f; napi_create_function(env, nullptr, 0, outstanding, nullptr, &f);
  napi_set_named_property(env, exports, "outstanding", f);
  return exports;
}
NAPI_MODULE(NODE_GYP_MODULE_NAME, init)
