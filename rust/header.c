/* The header as bindgen would read it: prints watcher_c.rs. */
#include "wtr/watcher-c.h"
#include <stddef.h>
#include <stdio.h>
#define K(n) printf("pub const " #n ": i8 = %d;\n", (int)n);
struct f { char const* name; size_t at, size; int ptr; };
int main(void)
{
  K(WTR_WATCHER_EFFECT_RENAME) K(WTR_WATCHER_EFFECT_MODIFY) K(WTR_WATCHER_EFFECT_CREATE) K(WTR_WATCHER_EFFECT_DESTROY) K(WTR_WATCHER_EFFECT_OWNER) K(WTR_WATCHER_EFFECT_OTHER)
  K(WTR_WATCHER_PATH_DIR) K(WTR_WATCHER_PATH_FILE) K(WTR_WATCHER_PATH_HARD_LINK) K(WTR_WATCHER_PATH_SYM_LINK) K(WTR_WATCHER_PATH_WATCHER) K(WTR_WATCHER_PATH_OTHER)
  typedef struct wtr_watcher_event E;
#define F(n, p) {#n, offsetof(E, n), sizeof(((E*)0)->n), p}
  struct f f[5] = {F(effect_time, 0), F(path_name, 1), F(associated_path_name, 1), F(effect_type, 0), F(path_type, 0)};
  puts("#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct wtr_watcher_event {");
  for (size_t at = 0; at < sizeof(E); ++at)
    for (int i = 0; i < 5; ++i)
      if (f[i].at == at) f[i].ptr ? printf("    pub %s: *const ::std::os::raw::c_char,\n", f[i].name) : printf("    pub %s: i%d,\n", f[i].name, (int)f[i].size * 8);
  puts("}\npub type wtr_watcher_callback = ::std::option::Option<\n    unsafe extern \"C\" fn(event: wtr_watcher_event, context: *mut ::std::os::raw::c_void),\n>;");
}
