From 30ef78a31aa013477a79a99635da3985b64d0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 01/41] fix: keep watching when a signal interrupts epoll_wait

An interrupted wait (EINTR: a signal handler, SIGSTOP and SIGCONT, a
debugger) was taken for a failure of epoll and ended the watcher.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 7 ++++++-
 include/wtr/watcher.hpp                                  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..b465826 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -26,7 +27,11 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      /*  A signal (or a stop and a continue) may
+          interrupt our wait. That isn't an error. */
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..e401e27 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1647,6 +1647,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1663,7 +1664,11 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      /*  A signal (or a stop and a continue) may
+          interrupt our wait. That isn't an error. */
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
-- 
2.43.0


From 7f9dd9ec3bcdf2a94a52c6237b98d839c8f2a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 02/41] fix: do not lose a terminal result to a later event of
 the same wait

When one epoll_wait returned the close request before the kernel's
events, handling the events overwrote the result and the watcher went on.
Under endless traffic that repeated for ever and close() never returned.
An error was lost in the same way to a close request behind it.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index b465826..ed5156d 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -34,7 +34,7 @@ inline auto watch =
       else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index e401e27..e55871e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1671,7 +1671,7 @@ inline auto watch =
       else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From 3c97779ed8b3a0db1664d125733bd3f4add507e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 03/41] fix: mark what is in the tree, however deep, and
 nothing else

walkdir_do kept two PATH_MAX buffers per level on the stack, so a tree
about a thousand directories deep (well within PATH_MAX) overflowed it.
A directory which could not be opened was left unwatched without the
'not watched' message. Filesystems without d_type had none of their
subdirectories watched. And a symbolic link which took the place of a
directory before we came to mark it made us watch whatever it pointed to,
outside the tree.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 20 +++--
 .../watcher/adapter/linux/inotify/watch.hpp   | 17 ++--
 .../wtr/watcher/adapter/linux/sysres.hpp      | 52 ++++++++---
 include/wtr/watcher.hpp                       | 89 +++++++++++++------
 4 files changed, 126 insertions(+), 52 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..62c6e12 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -54,6 +54,13 @@ struct ke_fa_ev {
     | FAN_MOVE
     | FAN_DELETE
     | FAN_EVENT_ON_CHILD;
+  /*  What we might find where a directory was
+      a moment ago (a symbolic link out of our
+      tree, for example) is none of our concern. */
+  static constexpr auto mark_flags
+    = FAN_MARK_ADD
+    | FAN_MARK_ONLYDIR
+    | FAN_MARK_DONT_FOLLOW;
 
   int fd = -1;
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
@@ -72,11 +79,12 @@ inline auto do_mark =
   [](char const* const dirpath, int fa_fd, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
-  char real[PATH_MAX];
-  int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
-      : -1;
+  int anonymous_wd = fanotify_mark(
+    fa_fd,
+    ke_fa_ev::mark_flags,
+    ke_fa_ev::recv_flags,
+    AT_FDCWD,
+    dirpath);
   if (anonymous_wd == 0)
     return result::complete;
   else
@@ -95,7 +103,7 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..2a94a28 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -9,7 +9,6 @@
 
 #include "wtr/watcher.hpp"
 #include <filesystem>
-#include <limits.h>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -85,6 +84,13 @@ struct ke_in_ev {
     | IN_MOVE_SELF
     | IN_MOVED_FROM
     | IN_MOVED_TO;
+  /*  What we might find where a directory was
+      a moment ago (a symbolic link out of our
+      tree, for example) is none of our concern. */
+  static constexpr unsigned mark_mask
+    = recv_mask
+    | IN_ONLYDIR
+    | IN_DONT_FOLLOW;
 
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
@@ -108,12 +114,9 @@ inline auto do_mark =
   [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
-  char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
-           : -1;
+  int wd = inotify_add_watch(dirfd, dirpath, ke_in_ev::mark_mask);
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.emplace(wd, dirpath), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -135,7 +138,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..f0009b7 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -6,8 +6,9 @@
 #include "wtr/watcher.hpp"
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
-#include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -15,6 +16,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -122,10 +124,13 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
   return ep{.fd = fd};
 }
 
-inline auto is_dir(char const* const path) -> bool
+/*  Without symbolic links, or as it was
+    if it can't be resolved (which we will
+    find out about when we try to use it). */
+inline auto resolved(char const* const path) -> std::string
 {
-  struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  char real[PATH_MAX];
+  return realpath(path, real) ? real : path;
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -149,19 +154,40 @@ inline auto is_dir(char const* const path) -> bool
     not having a full picture.
 */
 template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+inline auto walkdir_do(std::string const& path, Fn const& f) -> void
 {
-  if (DIR* d = opendir(path)) {
-    f(path);
+  /*  Symbolic links are not followed, the one
+      at the path we were given included. The
+      directories which we have yet to look at
+      are kept on the heap because a directory
+      tree may be deeper than our stack. */
+  constexpr int ofl = O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC;
+  auto is_dir = [](std::string const& p) -> bool
+  {
+    struct stat s;
+    return lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
+  };
+  auto todo = std::vector<std::string>{path};
+  while (! todo.empty()) {
+    auto const dir = std::move(todo.back());
+    todo.pop_back();
+    int fd = open(dir.c_str(), ofl);
+    /*  Gone, or replaced, since we saw it. If we
+        can't open it for any other reason then it
+        is still a directory someone should mark. */
+    if (fd < 0 && (errno == ENOENT || errno == ENOTDIR)) continue;
+    f(dir.c_str());
+    DIR* d = fd < 0 ? nullptr : fdopendir(fd);
+    if (! d && fd >= 0) close(fd);
+    if (! d) continue;
     while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      auto next = (dir == "/" ? dir : dir + "/") + de->d_name;
+      /*  Not every filesystem tells us the type. */
+      if (de->d_type == DT_UNKNOWN && ! is_dir(next)) continue;
+      todo.push_back(std::move(next));
     }
     (void)closedir(d);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index e55871e..0427de3 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -822,8 +822,9 @@ inline auto watch(
 
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
-#include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -831,6 +832,7 @@ inline auto watch(
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -938,10 +940,13 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
   return ep{.fd = fd};
 }
 
-inline auto is_dir(char const* const path) -> bool
+/*  Without symbolic links, or as it was
+    if it can't be resolved (which we will
+    find out about when we try to use it). */
+inline auto resolved(char const* const path) -> std::string
 {
-  struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  char real[PATH_MAX];
+  return realpath(path, real) ? real : path;
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -965,19 +970,40 @@ inline auto is_dir(char const* const path) -> bool
     not having a full picture.
 */
 template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+inline auto walkdir_do(std::string const& path, Fn const& f) -> void
 {
-  if (DIR* d = opendir(path)) {
-    f(path);
+  /*  Symbolic links are not followed, the one
+      at the path we were given included. The
+      directories which we have yet to look at
+      are kept on the heap because a directory
+      tree may be deeper than our stack. */
+  constexpr int ofl = O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC;
+  auto is_dir = [](std::string const& p) -> bool
+  {
+    struct stat s;
+    return lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
+  };
+  auto todo = std::vector<std::string>{path};
+  while (! todo.empty()) {
+    auto const dir = std::move(todo.back());
+    todo.pop_back();
+    int fd = open(dir.c_str(), ofl);
+    /*  Gone, or replaced, since we saw it. If we
+        can't open it for any other reason then it
+        is still a directory someone should mark. */
+    if (fd < 0 && (errno == ENOENT || errno == ENOTDIR)) continue;
+    f(dir.c_str());
+    DIR* d = fd < 0 ? nullptr : fdopendir(fd);
+    if (! d && fd >= 0) close(fd);
+    if (! d) continue;
     while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      auto next = (dir == "/" ? dir : dir + "/") + de->d_name;
+      /*  Not every filesystem tells us the type. */
+      if (de->d_type == DT_UNKNOWN && ! is_dir(next)) continue;
+      todo.push_back(std::move(next));
     }
     (void)closedir(d);
   }
@@ -1040,6 +1066,13 @@ struct ke_fa_ev {
     | FAN_MOVE
     | FAN_DELETE
     | FAN_EVENT_ON_CHILD;
+  /*  What we might find where a directory was
+      a moment ago (a symbolic link out of our
+      tree, for example) is none of our concern. */
+  static constexpr auto mark_flags
+    = FAN_MARK_ADD
+    | FAN_MARK_ONLYDIR
+    | FAN_MARK_DONT_FOLLOW;
 
   int fd = -1;
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
@@ -1058,11 +1091,12 @@ inline auto do_mark =
   [](char const* const dirpath, int fa_fd, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
-  char real[PATH_MAX];
-  int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
-      : -1;
+  int anonymous_wd = fanotify_mark(
+    fa_fd,
+    ke_fa_ev::mark_flags,
+    ke_fa_ev::recv_flags,
+    AT_FDCWD,
+    dirpath);
   if (anonymous_wd == 0)
     return result::complete;
   else
@@ -1081,7 +1115,7 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1288,7 +1322,6 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
 #include <filesystem>
-#include <limits.h>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -1364,6 +1397,13 @@ struct ke_in_ev {
     | IN_MOVE_SELF
     | IN_MOVED_FROM
     | IN_MOVED_TO;
+  /*  What we might find where a directory was
+      a moment ago (a symbolic link out of our
+      tree, for example) is none of our concern. */
+  static constexpr unsigned mark_mask
+    = recv_mask
+    | IN_ONLYDIR
+    | IN_DONT_FOLLOW;
 
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
@@ -1387,12 +1427,9 @@ inline auto do_mark =
   [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
-  char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
-           : -1;
+  int wd = inotify_add_watch(dirfd, dirpath, ke_in_ev::mark_mask);
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.emplace(wd, dirpath), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1414,7 +1451,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
-- 
2.43.0


From 10eedb0813af95191e21d593ea261f74cb5e5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 04/41] fix: follow directories as they are renamed, moved in
 and moved out (inotify)

The path map kept the old paths of renamed directories, hierarchies which
were moved in (or made faster than we could mark them) were not marked, those
which were moved out were still reported as if they had never left, and the
new half of a rename across directories was given the directory of the old.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 92 +++++++++++++++++--
 include/wtr/watcher.hpp                       | 92 +++++++++++++++++--
 2 files changed, 168 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2a94a28..5d6c215 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -116,11 +116,64 @@ inline auto do_mark =
   auto e = result::w_sys_not_watched;
   int wd = inotify_add_watch(dirfd, dirpath, ke_in_ev::mark_mask);
   if (wd > 0)
-    return dm.emplace(wd, dirpath), result::complete;
+    return dm.insert_or_assign(wd, dirpath), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory, and all the directories
+    in it, at the paths they are at now. A mark
+    on a directory which we already know about
+    does nothing but refresh its path. */
+inline auto do_mark_tree =
+  [](std::string const& path, int dirfd, auto& dm, auto const& cb) -> void
+{ walkdir_do(path, [&](auto dir) { do_mark(dir, dirfd, dm, cb); }); };
+
+inline auto
+is_within(std::filesystem::path const& path, std::filesystem::path const& dir)
+  -> bool
+{
+  auto const& p = path.native();
+  auto const& d = dir.native();
+  return p.compare(0, d.size(), d) == 0
+      && (p.size() == d.size() || p[d.size()] == '/');
+}
+
+/*  Forgets a directory, and all the directories
+    in it, because they have left our tree. */
+inline auto do_unmark_tree =
+  [](std::filesystem::path const& path, int dirfd, auto& dm) -> void
+{
+  for (auto at = dm.begin(); at != dm.end();)
+    if (is_within(at->second, path))
+      inotify_rm_watch(dirfd, at->first), at = dm.erase(at);
+    else
+      ++at;
+};
+
+/*  The marks move with the directories. Only
+    the paths we know them by need to change.
+    There is a directory at the new path if it
+    was overwritten (it will be gone soon) or
+    exchanged. Have a look at what is where if
+    that's the case. */
+inline auto do_move_tree = [](
+                             std::filesystem::path const& from,
+                             std::filesystem::path const& to,
+                             int dirfd,
+                             auto& dm,
+                             auto const& cb) -> void
+{
+  bool is_to_known = false;
+  for (auto& [_, dir] : dm)
+    if (is_within(dir, to))
+      is_to_known = true;
+    else if (is_within(dir, from))
+      dir = to.native() + dir.native().substr(from.native().size());
+  do_mark_tree(to.native(), dirfd, dm, cb);
+  if (is_to_known) do_mark_tree(from.native(), dirfd, dm, cb);
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -138,7 +191,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    do_mark_tree(resolved(base_path), in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -181,7 +234,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -189,7 +242,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -197,7 +250,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -211,6 +267,27 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
+/*  Keeps our path map, and the marks, in step with
+    the directories in the tree. They might not have
+    been empty when they came here, and some other
+    directory may have taken the place of one which
+    left. */
+inline auto do_follow = [](
+                          ::wtr::watcher::event const& ev,
+                          unsigned msk,
+                          ke_in_ev& ke,
+                          auto const& cb) -> void
+{
+  auto const& path = ev.path_name;
+  if (ev.associated)
+    do_move_tree(path, ev.associated->path_name, ke.fd, ke.dm, cb);
+  else if (msk & (IN_CREATE | IN_MOVED_TO))
+    do_mark_tree(path.native(), ke.fd, ke.dm, cb);
+  else if (msk & IN_MOVED_FROM)
+    do_unmark_tree(path, ke.fd, ke.dm),
+      do_mark_tree(path.native(), ke.fd, ke.dm, cb);
+};
+
 struct defer_dm_rm_wd {
   ke_in_ev& ke;
   size_t back_idx = 0;
@@ -345,9 +422,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
+        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0427de3..b0bcff0 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1429,11 +1429,64 @@ inline auto do_mark =
   auto e = result::w_sys_not_watched;
   int wd = inotify_add_watch(dirfd, dirpath, ke_in_ev::mark_mask);
   if (wd > 0)
-    return dm.emplace(wd, dirpath), result::complete;
+    return dm.insert_or_assign(wd, dirpath), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory, and all the directories
+    in it, at the paths they are at now. A mark
+    on a directory which we already know about
+    does nothing but refresh its path. */
+inline auto do_mark_tree =
+  [](std::string const& path, int dirfd, auto& dm, auto const& cb) -> void
+{ walkdir_do(path, [&](auto dir) { do_mark(dir, dirfd, dm, cb); }); };
+
+inline auto
+is_within(std::filesystem::path const& path, std::filesystem::path const& dir)
+  -> bool
+{
+  auto const& p = path.native();
+  auto const& d = dir.native();
+  return p.compare(0, d.size(), d) == 0
+      && (p.size() == d.size() || p[d.size()] == '/');
+}
+
+/*  Forgets a directory, and all the directories
+    in it, because they have left our tree. */
+inline auto do_unmark_tree =
+  [](std::filesystem::path const& path, int dirfd, auto& dm) -> void
+{
+  for (auto at = dm.begin(); at != dm.end();)
+    if (is_within(at->second, path))
+      inotify_rm_watch(dirfd, at->first), at = dm.erase(at);
+    else
+      ++at;
+};
+
+/*  The marks move with the directories. Only
+    the paths we know them by need to change.
+    There is a directory at the new path if it
+    was overwritten (it will be gone soon) or
+    exchanged. Have a look at what is where if
+    that's the case. */
+inline auto do_move_tree = [](
+                             std::filesystem::path const& from,
+                             std::filesystem::path const& to,
+                             int dirfd,
+                             auto& dm,
+                             auto const& cb) -> void
+{
+  bool is_to_known = false;
+  for (auto& [_, dir] : dm)
+    if (is_within(dir, to))
+      is_to_known = true;
+    else if (is_within(dir, from))
+      dir = to.native() + dir.native().substr(from.native().size());
+  do_mark_tree(to.native(), dirfd, dm, cb);
+  if (is_to_known) do_mark_tree(from.native(), dirfd, dm, cb);
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1451,7 +1504,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    do_mark_tree(resolved(base_path), in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -1494,7 +1547,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -1502,7 +1555,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1510,7 +1563,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -1524,6 +1580,27 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
+/*  Keeps our path map, and the marks, in step with
+    the directories in the tree. They might not have
+    been empty when they came here, and some other
+    directory may have taken the place of one which
+    left. */
+inline auto do_follow = [](
+                          ::wtr::watcher::event const& ev,
+                          unsigned msk,
+                          ke_in_ev& ke,
+                          auto const& cb) -> void
+{
+  auto const& path = ev.path_name;
+  if (ev.associated)
+    do_move_tree(path, ev.associated->path_name, ke.fd, ke.dm, cb);
+  else if (msk & (IN_CREATE | IN_MOVED_TO))
+    do_mark_tree(path.native(), ke.fd, ke.dm, cb);
+  else if (msk & IN_MOVED_FROM)
+    do_unmark_tree(path, ke.fd, ke.dm),
+      do_mark_tree(path.native(), ke.fd, ke.dm, cb);
+};
+
 struct defer_dm_rm_wd {
   ke_in_ev& ke;
   size_t back_idx = 0;
@@ -1658,9 +1735,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
+        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From a474836e30e8b75894920db0bb61d4aca6309d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 05/41] fix: announce a queue overflow and find what was missed
 (inotify)

The kernel's overflow record has no watch descriptor, so it was taken for a
phantom event. Directories which came, went or moved while we were blind were
never found out about.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 27 +++++++++++++++----
 include/wtr/watcher.hpp                       | 27 +++++++++++++++----
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 5d6c215..7c1ee7f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -93,6 +93,7 @@ struct ke_in_ev {
     | IN_DONT_FOLLOW;
 
   int fd = -1;
+  std::string base{};
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
@@ -174,6 +175,16 @@ inline auto do_move_tree = [](
   if (is_to_known) do_mark_tree(from.native(), dirfd, dm, cb);
 };
 
+/*  We don't know what we missed. Start over with
+    what is there now, and forget what is not. */
+inline auto do_mark_again = [](ke_in_ev& ke, auto const& cb) -> void
+{
+  auto const was = std::exchange(ke.dm, {});
+  do_mark_tree(ke.base, ke.fd, ke.dm, cb);
+  for (auto const& [wd, _] : was)
+    if (ke.dm.find(wd) == ke.dm.end()) inotify_rm_watch(ke.fd, wd);
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -187,11 +198,12 @@ inline auto make_sysres = [](
     return in_fd;
   };
 
-  auto make_dm = [&](result* ok, int in_fd) -> ke_in_ev::paths
+  auto make_dm =
+    [&](result* ok, int in_fd, std::string const& base) -> ke_in_ev::paths
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    do_mark_tree(resolved(base_path), in_fd, dm, cb);
+    do_mark_tree(base, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -206,12 +218,14 @@ inline auto make_sysres = [](
 
   auto ok = result::pending;
   auto in_fd = make_inotify(&ok);
-  auto dm = make_dm(&ok, in_fd);
+  auto base = resolved(base_path);
+  auto dm = make_dm(&ok, in_fd, base);
   auto ep = make_ep(&ok, in_fd, living.fd);
   return sysres{
     .ok = ok,
     .ke{
         .fd = in_fd,
+        .base = std::move(base),
         .dm = std::move(dm),
         },
     .il = living,
@@ -417,10 +431,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, sr.ke.base, cb),
+          do_mark_again(sr.ke, cb);
+      else if (dmhit == sr.ke.dm.end() && msk & IN_IGNORED)
+        ; // The end of a watch which we already forgot
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, cb);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b0bcff0..b3b20e4 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1406,6 +1406,7 @@ struct ke_in_ev {
     | IN_DONT_FOLLOW;
 
   int fd = -1;
+  std::string base{};
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
@@ -1487,6 +1488,16 @@ inline auto do_move_tree = [](
   if (is_to_known) do_mark_tree(from.native(), dirfd, dm, cb);
 };
 
+/*  We don't know what we missed. Start over with
+    what is there now, and forget what is not. */
+inline auto do_mark_again = [](ke_in_ev& ke, auto const& cb) -> void
+{
+  auto const was = std::exchange(ke.dm, {});
+  do_mark_tree(ke.base, ke.fd, ke.dm, cb);
+  for (auto const& [wd, _] : was)
+    if (ke.dm.find(wd) == ke.dm.end()) inotify_rm_watch(ke.fd, wd);
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1500,11 +1511,12 @@ inline auto make_sysres = [](
     return in_fd;
   };
 
-  auto make_dm = [&](result* ok, int in_fd) -> ke_in_ev::paths
+  auto make_dm =
+    [&](result* ok, int in_fd, std::string const& base) -> ke_in_ev::paths
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    do_mark_tree(resolved(base_path), in_fd, dm, cb);
+    do_mark_tree(base, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -1519,12 +1531,14 @@ inline auto make_sysres = [](
 
   auto ok = result::pending;
   auto in_fd = make_inotify(&ok);
-  auto dm = make_dm(&ok, in_fd);
+  auto base = resolved(base_path);
+  auto dm = make_dm(&ok, in_fd, base);
   auto ep = make_ep(&ok, in_fd, living.fd);
   return sysres{
     .ok = ok,
     .ke{
         .fd = in_fd,
+        .base = std::move(base),
         .dm = std::move(dm),
         },
     .il = living,
@@ -1730,10 +1744,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, sr.ke.base, cb),
+          do_mark_again(sr.ke, cb);
+      else if (dmhit == sr.ke.dm.end() && msk & IN_IGNORED)
+        ; // The end of a watch which we already forgot
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, cb);
-- 
2.43.0


From 9d83e91068031480bfb1fb5c01377d3ab8ff3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 06/41] fix: tell of a directory before telling that it is not
 watched (inotify)

The event is older than the message, so its time went backwards.
---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp       | 11 ++++++++++-
 include/wtr/watcher.hpp                               | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 7c1ee7f..7a7c1a2 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -10,11 +10,13 @@
 #include "wtr/watcher.hpp"
 #include <filesystem>
 #include <string.h>
+#include <string>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
 #include <unistd.h>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::inotify {
 
@@ -439,9 +441,16 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
+        /*  Mark before, tell after: the user may count on
+            the directory being watched, and on times which
+            don't go backwards. */
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, cb);
+        auto msgs = std::vector<::wtr::watcher::event>{};
+        auto later = [&](::wtr::watcher::event const& msg)
+        { msgs.push_back(msg); };
+        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, later);
         cb(ev);
+        for (auto const& msg : msgs) cb(msg);
         in_ev_next = next;
       }
       in_ev = in_ev_next;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b3b20e4..41d4b38 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1323,11 +1323,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 
 #include <filesystem>
 #include <string.h>
+#include <string>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
 #include <unistd.h>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::inotify {
 
@@ -1752,9 +1754,16 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
+        /*  Mark before, tell after: the user may count on
+            the directory being watched, and on times which
+            don't go backwards. */
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, cb);
+        auto msgs = std::vector<::wtr::watcher::event>{};
+        auto later = [&](::wtr::watcher::event const& msg)
+        { msgs.push_back(msg); };
+        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, later);
         cb(ev);
+        for (auto const& msg : msgs) cb(msg);
         in_ev_next = next;
       }
       in_ev = in_ev_next;
-- 
2.43.0


From 2f09af924cf40bf55e819365fdc384fc7779cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 07/41] fix: an interrupted read is not an error (inotify)

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp       | 5 ++++-
 include/wtr/watcher.hpp                                      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 7a7c1a2..a74dbb8 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -8,6 +8,7 @@
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <filesystem>
 #include <string.h>
 #include <string>
@@ -418,7 +419,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
+  if (read_len < 0 && (errno == EAGAIN || errno == EINTR))
+    return result::pending;
+  else if (read_len < 0)
     return result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 41d4b38..9f404e9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1321,6 +1321,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
+#include <errno.h>
 #include <filesystem>
 #include <string.h>
 #include <string>
@@ -1731,7 +1732,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
+  if (read_len < 0 && (errno == EAGAIN || errno == EINTR))
+    return result::pending;
+  else if (read_len < 0)
     return result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
-- 
2.43.0


From 3e7f41b79e54410b50963ca5d93fcbf6bb24c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 08/41] fix: open inotify non-blocking and close it on exec

Programs started while watching inherited the descriptor, and with it the
whole kernel instance. Nothing but a readiness report stood between us and a
read which never returns, during which we can't be closed.
---
 .../include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp  | 2 +-
 include/wtr/watcher.hpp                                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index a74dbb8..cd8c5eb 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -196,7 +196,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 9f404e9..781733b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1509,7 +1509,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
-- 
2.43.0


From 33be6db28ed09ec56d2859f7fcb033f55c960ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 09/41] fix: only report paths which are known and in the tree
 (fanotify)

A directory which could not be found ended the batch, and everything after it
was lost. Handles were looked up in whatever filesystem we work in, deleted
directories were reported by names they never had, directories which were
moved away were still reported, long paths were cut off, a failing readlink
wrote before a buffer and the record after a rename was read from past the
end of another.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 110 +++++++++++-------
 include/wtr/watcher.hpp                       | 110 +++++++++++-------
 2 files changed, 142 insertions(+), 78 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 62c6e12..50187ae 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -11,12 +11,14 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
-#include <stdio.h>
+#include <optional>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
+#include <utility>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -31,6 +33,19 @@ namespace detail::wtr::watcher::adapter::fanotify {
 */
 
 // clang-format off
+/*  Keeps hold of the directory we are watching.
+    File handles mean nothing without a mount, and
+    ours need not be the one we happen to work in. */
+struct base_dir {
+  int fd = -1;
+  inline base_dir() = default;
+  inline explicit base_dir(std::string const& path)
+      : fd{open(path.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC)} {};
+  inline base_dir(base_dir&& from) noexcept
+      : fd{std::exchange(from.fd, -1)} {};
+  inline ~base_dir() { if (fd >= 0) close(fd); };
+};
+
 struct ke_fa_ev {
   static constexpr auto buf_len = 4096;
   static constexpr auto c_ulim = buf_len / sizeof(fanotify_event_metadata);
@@ -63,6 +78,7 @@ struct ke_fa_ev {
     | FAN_MARK_DONT_FOLLOW;
 
   int fd = -1;
+  base_dir base{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -101,6 +117,7 @@ inline auto make_sysres = [](
                             auto const& cb,
                             semabin const& living) -> sysres
 {
+  auto base = base_dir{resolved(base_path)};
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, fa_fd, cb); });
@@ -109,7 +126,7 @@ inline auto make_sysres = [](
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .base = std::move(base)},
     .il = living,
     .ep = ep,
   };
@@ -145,37 +162,44 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+/*  Where the directory at a descriptor is now. Empty
+    if it isn't anywhere anymore. */
+inline auto dirpathof(int fd) -> std::string
+{
+  char path[PATH_MAX];
+  auto link = "/proc/self/fd/" + std::to_string(fd);
+  struct stat s;
+  if (fstat(fd, &s) != 0 || s.st_nlink == 0) return {};
+  auto len = readlink(link.c_str(), path, sizeof(path));
+  return len > 0 && (size_t)len < sizeof(path) ? std::string(path, len)
+                                               : std::string{};
+}
+
+/*  Empty if the event's directory can't be found, or
+    isn't in our tree: Marks stay on the directories
+    which are moved away. */
+inline auto pathof(fanotify_event_metadata const* const mtd, int base_fd)
+  -> std::string
 {
-  constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
-  char path_buf[PATH_MAX];
-  ssize_t file_name_offset = 0;
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
-    *ec = errno;
-    return {};
-  }
-  char fs_ev_pidpath[32] = {0};
-  snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
-  file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  int fd = open_by_handle_at(base_fd, dir_fh, ofl);
+  if (fd < 0) return {};
+  auto dir = dirpathof(fd);
   close(fd);
-  path_buf[file_name_offset] = 0;
-  /*  File name ("Directory entry")
-      If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
-  if (file_name_offset > 0) {
-    char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
-    auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
-  }
-  return {path_buf};
+  auto base = dirpathof(base_fd);
+  auto is_root = base == "/";
+  auto is_ours = ! dir.empty() && ! base.empty()
+              && dir.compare(0, base.size(), base) == 0
+              && (is_root || dir.size() == base.size()
+                  || dir[base.size()] == '/');
+  if (! is_ours) return {};
+  /*  File name ("Directory entry") */
+  char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
+  auto not_selfdir = strcmp(file_name, ".") != 0;
+  return ! not_selfdir ? dir : (dir == "/" ? dir : dir + "/") + file_name;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
@@ -191,13 +215,13 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
 }
 
 struct Parsed {
-  ::wtr::watcher::event ev;
+  std::optional<::wtr::watcher::event> ev{};
   fanotify_event_metadata const* next = nullptr;
   unsigned this_len = 0;
 };
 
 inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
+parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
   -> Parsed
 {
   using ev = ::wtr::watcher::event;
@@ -212,14 +236,25 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  auto evof = [&](auto* m) -> std::optional<ev>
+  {
+    auto path = pathof(m, base_fd);
+    return path.empty() ? std::nullopt : std::make_optional<ev>(path, et, pt);
+  };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  { return {evof(m), n, m->event_len}; };
+  auto assoc = [&](auto* a, auto* b) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto from = evof(a);
+    auto to = evof(b);
+    if (from && to)
+      return {std::make_optional<ev>(*from, ev(*to)), nn, here_to_nnn};
+    else if (from)
+      return {std::move(from), nn, here_to_nnn};
+    else
+      return {std::move(to), nn, here_to_nnn};
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
@@ -286,11 +321,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (! ev_has_dirname(mtd))
         return result::w_sys_bad_meta;
       else {
-        int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base.fd);
+        if (ev) do_mark_if_newdir(*ev, sr.ke.fd, cb), cb(*ev);
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 781733b..d58c70e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1023,12 +1023,14 @@ inline auto walkdir_do(std::string const& path, Fn const& f) -> void
 #include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
-#include <stdio.h>
+#include <optional>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
+#include <utility>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -1043,6 +1045,19 @@ namespace detail::wtr::watcher::adapter::fanotify {
 */
 
 // clang-format off
+/*  Keeps hold of the directory we are watching.
+    File handles mean nothing without a mount, and
+    ours need not be the one we happen to work in. */
+struct base_dir {
+  int fd = -1;
+  inline base_dir() = default;
+  inline explicit base_dir(std::string const& path)
+      : fd{open(path.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC)} {};
+  inline base_dir(base_dir&& from) noexcept
+      : fd{std::exchange(from.fd, -1)} {};
+  inline ~base_dir() { if (fd >= 0) close(fd); };
+};
+
 struct ke_fa_ev {
   static constexpr auto buf_len = 4096;
   static constexpr auto c_ulim = buf_len / sizeof(fanotify_event_metadata);
@@ -1075,6 +1090,7 @@ struct ke_fa_ev {
     | FAN_MARK_DONT_FOLLOW;
 
   int fd = -1;
+  base_dir base{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -1113,6 +1129,7 @@ inline auto make_sysres = [](
                             auto const& cb,
                             semabin const& living) -> sysres
 {
+  auto base = base_dir{resolved(base_path)};
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, fa_fd, cb); });
@@ -1121,7 +1138,7 @@ inline auto make_sysres = [](
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .base = std::move(base)},
     .il = living,
     .ep = ep,
   };
@@ -1157,37 +1174,44 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+/*  Where the directory at a descriptor is now. Empty
+    if it isn't anywhere anymore. */
+inline auto dirpathof(int fd) -> std::string
+{
+  char path[PATH_MAX];
+  auto link = "/proc/self/fd/" + std::to_string(fd);
+  struct stat s;
+  if (fstat(fd, &s) != 0 || s.st_nlink == 0) return {};
+  auto len = readlink(link.c_str(), path, sizeof(path));
+  return len > 0 && (size_t)len < sizeof(path) ? std::string(path, len)
+                                               : std::string{};
+}
+
+/*  Empty if the event's directory can't be found, or
+    isn't in our tree: Marks stay on the directories
+    which are moved away. */
+inline auto pathof(fanotify_event_metadata const* const mtd, int base_fd)
+  -> std::string
 {
-  constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
-  char path_buf[PATH_MAX];
-  ssize_t file_name_offset = 0;
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
-    *ec = errno;
-    return {};
-  }
-  char fs_ev_pidpath[32] = {0};
-  snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
-  file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  int fd = open_by_handle_at(base_fd, dir_fh, ofl);
+  if (fd < 0) return {};
+  auto dir = dirpathof(fd);
   close(fd);
-  path_buf[file_name_offset] = 0;
-  /*  File name ("Directory entry")
-      If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
-  if (file_name_offset > 0) {
-    char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
-    auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
-  }
-  return {path_buf};
+  auto base = dirpathof(base_fd);
+  auto is_root = base == "/";
+  auto is_ours = ! dir.empty() && ! base.empty()
+              && dir.compare(0, base.size(), base) == 0
+              && (is_root || dir.size() == base.size()
+                  || dir[base.size()] == '/');
+  if (! is_ours) return {};
+  /*  File name ("Directory entry") */
+  char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
+  auto not_selfdir = strcmp(file_name, ".") != 0;
+  return ! not_selfdir ? dir : (dir == "/" ? dir : dir + "/") + file_name;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
@@ -1203,13 +1227,13 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
 }
 
 struct Parsed {
-  ::wtr::watcher::event ev;
+  std::optional<::wtr::watcher::event> ev{};
   fanotify_event_metadata const* next = nullptr;
   unsigned this_len = 0;
 };
 
 inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
+parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
   -> Parsed
 {
   using ev = ::wtr::watcher::event;
@@ -1224,14 +1248,25 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  auto evof = [&](auto* m) -> std::optional<ev>
+  {
+    auto path = pathof(m, base_fd);
+    return path.empty() ? std::nullopt : std::make_optional<ev>(path, et, pt);
+  };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  { return {evof(m), n, m->event_len}; };
+  auto assoc = [&](auto* a, auto* b) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto from = evof(a);
+    auto to = evof(b);
+    if (from && to)
+      return {std::make_optional<ev>(*from, ev(*to)), nn, here_to_nnn};
+    else if (from)
+      return {std::move(from), nn, here_to_nnn};
+    else
+      return {std::move(to), nn, here_to_nnn};
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
@@ -1298,11 +1333,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (! ev_has_dirname(mtd))
         return result::w_sys_bad_meta;
       else {
-        int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base.fd);
+        if (ev) do_mark_if_newdir(*ev, sr.ke.fd, cb), cb(*ev);
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From fa46d10d840d55eac9ad071c20ffe6b2e8b06172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 10/41] fix: mark whole hierarchies, and those which are moved
 in (fanotify)

Only a directory which was made was marked, and only itself. Hierarchies made
faster than we could mark them, and those which were moved in, were not
watched. A message about that was older than the event it came before.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 34 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 34 ++++++++++++++-----
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 50187ae..749278b 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -19,6 +19,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -107,6 +108,10 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+inline auto do_mark_tree =
+  [](std::string const& path, int fa_fd, auto const& cb) -> void
+{ walkdir_do(path, [&](auto dir) { do_mark(dir, fa_fd, cb); }); };
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -120,7 +125,7 @@ inline auto make_sysres = [](
   auto base = base_dir{resolved(base_path)};
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  do_mark_tree(resolved(base_path), fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -262,15 +267,19 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
                                     : one(m);
 }
 
+/*  Directories might not be empty when they come
+    here. A rename either brings a directory or is
+    one of a directory which we already marked. */
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  using et = enum ::wtr::watcher::event::effect_type;
+  using pt = enum ::wtr::watcher::event::path_type;
+  auto is_newdir = ev.path_type == pt::dir
+                && (ev.effect_type == et::create
+                    || ev.effect_type == et::rename);
+  auto const& path = ev.associated ? ev.associated->path_name : ev.path_name;
+  if (is_newdir) do_mark_tree(path.native(), fa_fd, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -322,7 +331,14 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::w_sys_bad_meta;
       else {
         auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base.fd);
-        if (ev) do_mark_if_newdir(*ev, sr.ke.fd, cb), cb(*ev);
+        /*  Mark before, tell after: the user may count on
+            the directory being watched, and on times which
+            don't go backwards. */
+        auto msgs = std::vector<::wtr::watcher::event>{};
+        auto later = [&](::wtr::watcher::event const& msg)
+        { msgs.push_back(msg); };
+        if (ev) do_mark_if_newdir(*ev, sr.ke.fd, later), cb(*ev);
+        for (auto const& msg : msgs) cb(msg);
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d58c70e..6533c21 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1031,6 +1031,7 @@ inline auto walkdir_do(std::string const& path, Fn const& f) -> void
 #include <sys/stat.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -1119,6 +1120,10 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+inline auto do_mark_tree =
+  [](std::string const& path, int fa_fd, auto const& cb) -> void
+{ walkdir_do(path, [&](auto dir) { do_mark(dir, fa_fd, cb); }); };
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -1132,7 +1137,7 @@ inline auto make_sysres = [](
   auto base = base_dir{resolved(base_path)};
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(resolved(base_path), [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  do_mark_tree(resolved(base_path), fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1274,15 +1279,19 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
                                     : one(m);
 }
 
+/*  Directories might not be empty when they come
+    here. A rename either brings a directory or is
+    one of a directory which we already marked. */
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  using et = enum ::wtr::watcher::event::effect_type;
+  using pt = enum ::wtr::watcher::event::path_type;
+  auto is_newdir = ev.path_type == pt::dir
+                && (ev.effect_type == et::create
+                    || ev.effect_type == et::rename);
+  auto const& path = ev.associated ? ev.associated->path_name : ev.path_name;
+  if (is_newdir) do_mark_tree(path.native(), fa_fd, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1334,7 +1343,14 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::w_sys_bad_meta;
       else {
         auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base.fd);
-        if (ev) do_mark_if_newdir(*ev, sr.ke.fd, cb), cb(*ev);
+        /*  Mark before, tell after: the user may count on
+            the directory being watched, and on times which
+            don't go backwards. */
+        auto msgs = std::vector<::wtr::watcher::event>{};
+        auto later = [&](::wtr::watcher::event const& msg)
+        { msgs.push_back(msg); };
+        if (ev) do_mark_if_newdir(*ev, sr.ke.fd, later), cb(*ev);
+        for (auto const& msg : msgs) cb(msg);
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From 01e1af3654730c54c017b588ddb47f3368629d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 11/41] fix: the old name comes before the new one (fanotify)

A move into the tree followed by one out of it was taken for a rename of the
latter to the former. So were moves of a file and a directory.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp     | 6 ++++--
 include/wtr/watcher.hpp                                     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 749278b..5dacd6f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -240,7 +240,10 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto evof = [&](auto* m) -> std::optional<ev>
   {
     auto path = pathof(m, base_fd);
@@ -263,7 +266,6 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
                                     : one(m);
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6533c21..3f39eab 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1252,7 +1252,10 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto evof = [&](auto* m) -> std::optional<ev>
   {
     auto path = pathof(m, base_fd);
@@ -1275,7 +1278,6 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int base_fd)
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
                                     : one(m);
 }
 
-- 
2.43.0


From 22f5b292a2b1c737fe14bcb8fa50b954a2deaf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 12/41] fix: tell of overflows and of records we can't use, and
 go on (fanotify)

Such a record ended the batch, untold, and everything after it was lost. A
spurious wake-up was an error, and an error was nothing to worry about.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 27 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 27 ++++++++++++++-----
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 5dacd6f..dcb0f62 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -310,12 +310,21 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   auto ev_info = [](fanotify_event_metadata const* const m)
   { return (fanotify_event_info_fid*)(m + 1); };
   auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
-  { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
+  {
+    return m->event_len > sizeof(*m) + sizeof(fanotify_event_info_fid)
+        && ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
+  };
 
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
+  auto skip = [&]
+  {
+    auto next = peek(mtd, read_len);
+    read_len -= mtd->event_len;
+    mtd = next;
+  };
+  if (read_len < 0 && (errno == EAGAIN || errno == EINTR))
     return result::pending;
   else if (read_len < 0)
     return result::e_sys_api_read;
@@ -325,12 +334,18 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
+      else if (mtd->mask & FAN_Q_OVERFLOW) {
+        /*  We don't know what we missed. Some of
+            it might have been new directories. */
+        auto base = dirpathof(sr.ke.base.fd);
+        send_msg(result::w_sys_q_overflow, base, cb);
+        do_mark_tree(base, sr.ke.fd, cb);
+        skip();
+      }
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        send_msg(result::w_sys_bad_fd, dirpathof(sr.ke.base.fd), cb), skip();
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        send_msg(result::w_sys_bad_meta, dirpathof(sr.ke.base.fd), cb), skip();
       else {
         auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base.fd);
         /*  Mark before, tell after: the user may count on
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3f39eab..4d32509 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1322,12 +1322,21 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   auto ev_info = [](fanotify_event_metadata const* const m)
   { return (fanotify_event_info_fid*)(m + 1); };
   auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
-  { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
+  {
+    return m->event_len > sizeof(*m) + sizeof(fanotify_event_info_fid)
+        && ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
+  };
 
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
+  auto skip = [&]
+  {
+    auto next = peek(mtd, read_len);
+    read_len -= mtd->event_len;
+    mtd = next;
+  };
+  if (read_len < 0 && (errno == EAGAIN || errno == EINTR))
     return result::pending;
   else if (read_len < 0)
     return result::e_sys_api_read;
@@ -1337,12 +1346,18 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
+      else if (mtd->mask & FAN_Q_OVERFLOW) {
+        /*  We don't know what we missed. Some of
+            it might have been new directories. */
+        auto base = dirpathof(sr.ke.base.fd);
+        send_msg(result::w_sys_q_overflow, base, cb);
+        do_mark_tree(base, sr.ke.fd, cb);
+        skip();
+      }
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        send_msg(result::w_sys_bad_fd, dirpathof(sr.ke.base.fd), cb), skip();
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        send_msg(result::w_sys_bad_meta, dirpathof(sr.ke.base.fd), cb), skip();
       else {
         auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.base.fd);
         /*  Mark before, tell after: the user may count on
-- 
2.43.0


From 5485dc30bfb40cadefcb8eeee5d3ba2abebcc620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 13/41] fix: use inotify when fanotify can't watch the
 directory or tell where things are

Some containers allow fanotify but not to open handles, and some filesystems
can't be marked. We were blind there.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 25 +++++++++++++++++--
 include/wtr/watcher.hpp                       | 25 +++++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index dcb0f62..4f2baf5 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -112,6 +112,22 @@ inline auto do_mark_tree =
   [](std::string const& path, int fa_fd, auto const& cb) -> void
 { walkdir_do(path, [&](auto dir) { do_mark(dir, fa_fd, cb); }); };
 
+/*  Being allowed to use `fanotify` does not mean that
+    we are allowed to find out where an event happened,
+    or that the filesystem is able to tell. */
+inline auto is_handle_usable = [](int base_fd) -> bool
+{
+  alignas(file_handle) char buf[sizeof(file_handle) + MAX_HANDLE_SZ]{0};
+  auto fh = (file_handle*)buf;
+  fh->handle_bytes = MAX_HANDLE_SZ;
+  int mount_id = 0;
+  if (name_to_handle_at(base_fd, "", fh, &mount_id, AT_EMPTY_PATH) != 0)
+    return false;
+  int fd = open_by_handle_at(base_fd, fh, O_RDONLY | O_CLOEXEC | O_PATH);
+  if (fd >= 0) close(fd);
+  return fd >= 0;
+};
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -124,10 +140,15 @@ inline auto make_sysres = [](
 {
   auto base = base_dir{resolved(base_path)};
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  auto quiet = [](::wtr::watcher::event const&) {};
+  auto is_usable =
+    fa_fd >= 0 && is_handle_usable(base.fd)
+    && do_mark(resolved(base_path).c_str(), fa_fd, quiet) == result::complete;
+  if (! is_usable && fa_fd >= 0) close(fa_fd);
+  if (! is_usable) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   do_mark_tree(resolved(base_path), fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4d32509..1bfc4a6 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1124,6 +1124,22 @@ inline auto do_mark_tree =
   [](std::string const& path, int fa_fd, auto const& cb) -> void
 { walkdir_do(path, [&](auto dir) { do_mark(dir, fa_fd, cb); }); };
 
+/*  Being allowed to use `fanotify` does not mean that
+    we are allowed to find out where an event happened,
+    or that the filesystem is able to tell. */
+inline auto is_handle_usable = [](int base_fd) -> bool
+{
+  alignas(file_handle) char buf[sizeof(file_handle) + MAX_HANDLE_SZ]{0};
+  auto fh = (file_handle*)buf;
+  fh->handle_bytes = MAX_HANDLE_SZ;
+  int mount_id = 0;
+  if (name_to_handle_at(base_fd, "", fh, &mount_id, AT_EMPTY_PATH) != 0)
+    return false;
+  int fd = open_by_handle_at(base_fd, fh, O_RDONLY | O_CLOEXEC | O_PATH);
+  if (fd >= 0) close(fd);
+  return fd >= 0;
+};
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -1136,10 +1152,15 @@ inline auto make_sysres = [](
 {
   auto base = base_dir{resolved(base_path)};
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  auto quiet = [](::wtr::watcher::event const&) {};
+  auto is_usable =
+    fa_fd >= 0 && is_handle_usable(base.fd)
+    && do_mark(resolved(base_path).c_str(), fa_fd, quiet) == result::complete;
+  if (! is_usable && fa_fd >= 0) close(fa_fd);
+  if (! is_usable) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   do_mark_tree(resolved(base_path), fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-- 
2.43.0


From 5ac9ecc8c1139542b468c39d0776111668d02ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 14/41] fix: say so when there is no thread to watch in

An exception left a noexcept constructor, which ended the program.
---
 devel/include/wtr/watcher-/watch.hpp | 34 +++++++++++++++++++++++++---
 include/wtr/watcher.hpp              | 34 +++++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index d92817d..4b8843a 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -3,6 +3,7 @@
 #include "wtr/watcher.hpp"
 #include <filesystem>
 #include <future>
+#include <system_error>
 
 namespace wtr {
 inline namespace watcher {
@@ -56,12 +57,37 @@ private:
   sb living{};
   std::future<bool> watching{};
 
+  /*  Out of threads, most likely. There
+      is nothing to wait for if we can't
+      begin, and nobody else to say so. */
+  template<class Fn>
+  static inline auto
+  start(Fn const& fn, std::filesystem::path const& path, event::callback const& cb)
+    -> std::future<bool>
+  {
+#ifdef __cpp_exceptions
+    try {
+      return std::async(std::launch::async, fn);
+    } catch (std::system_error const&) {
+      using et = enum event::effect_type;
+      using pt = enum event::path_type;
+      auto ec = std::error_code{};
+      auto at = std::filesystem::absolute(path, ec).string();
+      cb({"e/self/live@" + at, et::create, pt::watcher});
+      cb({"e/sys/api/thread@" + at, et::other, pt::watcher});
+      cb({"e/self/die@" + at, et::destroy, pt::watcher});
+      return {};
+    }
+#else
+    return (void)path, (void)cb, std::async(std::launch::async, fn);
+#endif
+  }
+
 public:
   inline watch(
     std::filesystem::path const& path,
     event::callback const& callback) noexcept
-      : watching{std::async(
-          std::launch::async,
+      : watching{start(
           [this, path, callback]
           {
             using ::detail::wtr::watcher::adapter::watch;
@@ -83,7 +109,9 @@ public:
                event::effect_type::destroy,
                event::path_type::watcher});
             return pre_ok && post_ok;
-          })}
+          },
+          path,
+          callback)}
   {}
 
   inline auto close() noexcept -> bool
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1bfc4a6..9d6cc1b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2422,6 +2422,7 @@ inline auto watch(
 
 #include <filesystem>
 #include <future>
+#include <system_error>
 
 namespace wtr {
 inline namespace watcher {
@@ -2475,12 +2476,37 @@ private:
   sb living{};
   std::future<bool> watching{};
 
+  /*  Out of threads, most likely. There
+      is nothing to wait for if we can't
+      begin, and nobody else to say so. */
+  template<class Fn>
+  static inline auto
+  start(Fn const& fn, std::filesystem::path const& path, event::callback const& cb)
+    -> std::future<bool>
+  {
+#ifdef __cpp_exceptions
+    try {
+      return std::async(std::launch::async, fn);
+    } catch (std::system_error const&) {
+      using et = enum event::effect_type;
+      using pt = enum event::path_type;
+      auto ec = std::error_code{};
+      auto at = std::filesystem::absolute(path, ec).string();
+      cb({"e/self/live@" + at, et::create, pt::watcher});
+      cb({"e/sys/api/thread@" + at, et::other, pt::watcher});
+      cb({"e/self/die@" + at, et::destroy, pt::watcher});
+      return {};
+    }
+#else
+    return (void)path, (void)cb, std::async(std::launch::async, fn);
+#endif
+  }
+
 public:
   inline watch(
     std::filesystem::path const& path,
     event::callback const& callback) noexcept
-      : watching{std::async(
-          std::launch::async,
+      : watching{start(
           [this, path, callback]
           {
             using ::detail::wtr::watcher::adapter::watch;
@@ -2502,7 +2528,9 @@ public:
                event::effect_type::destroy,
                event::path_type::watcher});
             return pre_ok && post_ok;
-          })}
+          },
+          path,
+          callback)}
   {}
 
   inline auto close() noexcept -> bool
-- 
2.43.0


From e0cbbf22215ad5e268b93f2af23cfe1cea111d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 15/41] fix: let close wait for the last event, and close from
 several threads

Without an eventfd the watcher ends by itself, but close did not wait for that
and events came after it. Two threads which closed at the same time raced to
take the result.
---
 devel/include/wtr/watcher-/watch.hpp | 10 ++++++++--
 include/wtr/watcher.hpp              | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index 4b8843a..94c27fd 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -3,6 +3,7 @@
 #include "wtr/watcher.hpp"
 #include <filesystem>
 #include <future>
+#include <mutex>
 #include <system_error>
 
 namespace wtr {
@@ -55,6 +56,7 @@ class watch {
 private:
   using sb = ::detail::wtr::watcher::semabin;
   sb living{};
+  std::mutex closing{};
   std::future<bool> watching{};
 
   /*  Out of threads, most likely. There
@@ -114,10 +116,14 @@ public:
           callback)}
   {}
 
+  /*  Never returns before the last event was sent,
+      however we, or someone else at the same time,
+      came to close. */
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto const only = std::scoped_lock{this->closing};
+    auto const ok = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && ok;
   };
 
   inline ~watch() noexcept { this->close(); }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 9d6cc1b..955f7d0 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2422,6 +2422,7 @@ inline auto watch(
 
 #include <filesystem>
 #include <future>
+#include <mutex>
 #include <system_error>
 
 namespace wtr {
@@ -2474,6 +2475,7 @@ class watch {
 private:
   using sb = ::detail::wtr::watcher::semabin;
   sb living{};
+  std::mutex closing{};
   std::future<bool> watching{};
 
   /*  Out of threads, most likely. There
@@ -2533,10 +2535,14 @@ public:
           callback)}
   {}
 
+  /*  Never returns before the last event was sent,
+      however we, or someone else at the same time,
+      came to close. */
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto const only = std::scoped_lock{this->closing};
+    auto const ok = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && ok;
   };
 
   inline ~watch() noexcept { this->close(); }
-- 
2.43.0


From d06ea028dda29afa9046bd420d875184f575d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 16/41] fix: release failed watchers, and survive being closed
 again (C)

A watcher which failed was never freed, and one which didn't was used after it
was freed if it was closed twice.
---
 watcher-c/src/watcher-c.cpp | 50 +++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..117771c 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -1,5 +1,9 @@
 #include <cstdint>
 #include <cstdio>
+#include <memory>
+#include <mutex>
+#include <unordered_map>
+#include <utility>
 #include "wtr/watcher-c.h"
 #include "wtr/watcher.hpp"
 
@@ -9,6 +13,43 @@
 #include <stringapiset.h>
 #endif
 
+/*  The handles we give out are names, never used
+    again, for watchers which we keep. That's how
+    we know what was closed already.
+    Not destroyed when the program exits: there
+    might be watchers, or users, which outlive us. */
+namespace {
+struct open_watchers {
+  std::mutex mtx{};
+  std::uintptr_t last = 0;
+  std::unordered_map<void*, std::unique_ptr<wtr::watcher::watch>> all{};
+
+  static auto get() -> open_watchers&
+  {
+    static auto* self = new open_watchers{};
+    return *self;
+  }
+
+  auto put(std::unique_ptr<wtr::watcher::watch> watcher) -> void*
+  {
+    auto only = std::scoped_lock{mtx};
+    auto* handle = (void*)++last;
+    all.emplace(handle, std::move(watcher));
+    return handle;
+  }
+
+  auto take(void* handle) -> std::unique_ptr<wtr::watcher::watch>
+  {
+    auto only = std::scoped_lock{mtx};
+    auto at = all.find(handle);
+    if (at == all.end()) return nullptr;
+    auto watcher = std::move(at->second);
+    all.erase(at);
+    return watcher;
+  }
+};
+} // namespace
+
 extern "C" {
 
 #ifdef _WIN32
@@ -63,15 +104,14 @@ void* wtr_watcher_open(
     ev_view.effect_time = ev_owned.effect_time;
     callback(ev_view, context);
   };
-  return (void*)new wtr::watcher::watch(path, wrapped_callback);
+  return open_watchers::get().put(
+    std::make_unique<wtr::watcher::watch>(path, wrapped_callback));
 }
 
 bool wtr_watcher_close(void* watcher)
 {
-  if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
-  delete (wtr::watcher::watch*)watcher;
-  return true;
+  auto open = open_watchers::get().take(watcher);
+  return open && open->close();
 }
 
 }  // extern "C"
-- 
2.43.0


From 979490173638780a62339ef66d83a8b6b2754a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 17/41] fix: exactly the digits of a number, and all of them

Numbers were padded with null characters to 19 of them, and negative numbers
as long as that were nothing at all.
---
 devel/include/wtr/watcher-/event.hpp | 12 +++++++-----
 include/wtr/watcher.hpp              | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..48989f8 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  One more than digits10 for the first digit, and one for a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 955f7d0..fd43fd9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  One more than digits10 for the first digit, and one for a sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From eaf3cf3cbcb7b17b2c39bcb3c5e422572c3f8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 18/41] fix: escape paths in json, and make wide strings of any
 path

Quotes, backslashes and control characters in a path made json which isn't,
or says something else. A path which isn't utf-8 ended the program when it was
made a wide string.
---
 devel/include/wtr/watcher-/event.hpp | 70 ++++++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 70 ++++++++++++++++++++++++++--
 2 files changed, 134 insertions(+), 6 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 48989f8..7039c72 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -10,7 +10,9 @@
 #include <memory>
 #include <string>
 #include <string_view>
+#include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace wtr {
 inline namespace watcher {
@@ -172,7 +174,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name))   + Lit"\"";   \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +185,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name))   + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -244,6 +246,68 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   }
 };
 
+/*  The code point at the beginning of some text in utf-8, and how long
+    it is there. Not every path is text: A byte which isn't part of any
+    is a "lone surrogate" between 0xdc80 and 0xdcff. It can't be mistaken
+    for anything else, and it is what Python and others do about this. */
+inline auto utf8_front(std::string_view from) noexcept -> std::pair<char32_t, std::size_t> {
+  auto at = [&](std::size_t i) { return static_cast<unsigned char>(from[i]); };
+  auto first = at(0);
+  auto len = first < 0x80 ? 1u : first < 0xc2 ? 0u : first < 0xe0 ? 2u : first < 0xf0 ? 3u : first < 0xf5 ? 4u : 0u;
+  auto invalid = std::pair<char32_t, std::size_t>{0xdc00u | first, 1};
+  if (len == 1) return {first, 1};
+  if (len == 0 || len > from.size()) return invalid;
+  auto c = static_cast<char32_t>(first & (0xffu >> (len + 1)));
+  for (std::size_t i = 1; i < len; ++i) {
+    if ((at(i) & 0xc0) != 0x80) return invalid;
+    c = c << 6 | (at(i) & 0x3fu);
+  }
+  auto is_overlong = (len == 3 && c < 0x800) || (len == 4 && c < 0x10000);
+  auto is_surrogate = c >= 0xd800 && c <= 0xdfff;
+  return is_overlong || is_surrogate || c > 0x10ffff ? invalid : std::pair<char32_t, std::size_t>{c, len};
+};
+
+inline auto path_to_wstr(std::filesystem::path const& from) -> std::wstring {
+#ifdef _WIN32
+  return from.wstring();
+#else
+  auto into = std::wstring{};
+  auto rest = std::string_view{from.native()};
+  while (! rest.empty()) {
+    auto [c, len] = utf8_front(rest);
+    into += static_cast<wchar_t>(c);
+    rest.remove_prefix(len);
+  }
+  return into;
+#endif
+};
+
+/*  What belongs between the quotes of a json string. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from) -> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  auto escape = [&](unsigned c) {
+    into += Char{'\\'};
+    into += Char{'u'};
+    for (int shift = 12; shift >= 0; shift -= 4)
+      into += static_cast<Char>("0123456789abcdef"[c >> shift & 0xf]);
+  };
+  for (std::size_t i = 0, len = 1; i < from.size(); i += len) {
+    char32_t c = 0;
+    if constexpr (sizeof(Char) == 1)
+      std::tie(c, len) = utf8_front(std::string_view{from}.substr(i));
+    else
+      c = static_cast<char32_t>(from[i]);
+    if (c < 0x20 || (c >= 0xd800 && c <= 0xdfff))
+      escape(c);
+    else if (c == '"' || c == '\\')
+      into += Char{'\\'}, into += static_cast<Char>(c);
+    else
+      into.append(from, i, len);
+  }
+  return into;
+};
+
 } /*  namespace */
 
 /*  We use function templates, as opposed to class templates with an
@@ -304,7 +368,7 @@ template<> inline           auto to<std::basic_string     <char>>   (         ::
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string_view<wchar_t> { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string_view<wchar_t> { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string<wchar_t>      { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
-template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     from.wstring()               };  }
+template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return path_to_wstr                  (from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::effect_time)      from) noexcept -> std::basic_string<wchar_t>      { return num_to_str           <wchar_t>(from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(         ::wtr::event             const& from) noexcept -> std::basic_string<wchar_t>      { wtr_event_to_str_cls_as_json(wchar_t, from,  L""          );  }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index fd43fd9..74d423a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -11,7 +11,9 @@
 #include <memory>
 #include <string>
 #include <string_view>
+#include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace wtr {
 inline namespace watcher {
@@ -173,7 +175,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name))   + Lit"\"";   \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +186,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name))   + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -245,6 +247,68 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   }
 };
 
+/*  The code point at the beginning of some text in utf-8, and how long
+    it is there. Not every path is text: A byte which isn't part of any
+    is a "lone surrogate" between 0xdc80 and 0xdcff. It can't be mistaken
+    for anything else, and it is what Python and others do about this. */
+inline auto utf8_front(std::string_view from) noexcept -> std::pair<char32_t, std::size_t> {
+  auto at = [&](std::size_t i) { return static_cast<unsigned char>(from[i]); };
+  auto first = at(0);
+  auto len = first < 0x80 ? 1u : first < 0xc2 ? 0u : first < 0xe0 ? 2u : first < 0xf0 ? 3u : first < 0xf5 ? 4u : 0u;
+  auto invalid = std::pair<char32_t, std::size_t>{0xdc00u | first, 1};
+  if (len == 1) return {first, 1};
+  if (len == 0 || len > from.size()) return invalid;
+  auto c = static_cast<char32_t>(first & (0xffu >> (len + 1)));
+  for (std::size_t i = 1; i < len; ++i) {
+    if ((at(i) & 0xc0) != 0x80) return invalid;
+    c = c << 6 | (at(i) & 0x3fu);
+  }
+  auto is_overlong = (len == 3 && c < 0x800) || (len == 4 && c < 0x10000);
+  auto is_surrogate = c >= 0xd800 && c <= 0xdfff;
+  return is_overlong || is_surrogate || c > 0x10ffff ? invalid : std::pair<char32_t, std::size_t>{c, len};
+};
+
+inline auto path_to_wstr(std::filesystem::path const& from) -> std::wstring {
+#ifdef _WIN32
+  return from.wstring();
+#else
+  auto into = std::wstring{};
+  auto rest = std::string_view{from.native()};
+  while (! rest.empty()) {
+    auto [c, len] = utf8_front(rest);
+    into += static_cast<wchar_t>(c);
+    rest.remove_prefix(len);
+  }
+  return into;
+#endif
+};
+
+/*  What belongs between the quotes of a json string. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from) -> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  auto escape = [&](unsigned c) {
+    into += Char{'\\'};
+    into += Char{'u'};
+    for (int shift = 12; shift >= 0; shift -= 4)
+      into += static_cast<Char>("0123456789abcdef"[c >> shift & 0xf]);
+  };
+  for (std::size_t i = 0, len = 1; i < from.size(); i += len) {
+    char32_t c = 0;
+    if constexpr (sizeof(Char) == 1)
+      std::tie(c, len) = utf8_front(std::string_view{from}.substr(i));
+    else
+      c = static_cast<char32_t>(from[i]);
+    if (c < 0x20 || (c >= 0xd800 && c <= 0xdfff))
+      escape(c);
+    else if (c == '"' || c == '\\')
+      into += Char{'\\'}, into += static_cast<Char>(c);
+    else
+      into.append(from, i, len);
+  }
+  return into;
+};
+
 } /*  namespace */
 
 /*  We use function templates, as opposed to class templates with an
@@ -305,7 +369,7 @@ template<> inline           auto to<std::basic_string     <char>>   (         ::
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string_view<wchar_t> { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string_view<wchar_t> { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string<wchar_t>      { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
-template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     from.wstring()               };  }
+template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return path_to_wstr                  (from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::effect_time)      from) noexcept -> std::basic_string<wchar_t>      { return num_to_str           <wchar_t>(from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(         ::wtr::event             const& from) noexcept -> std::basic_string<wchar_t>      { wtr_event_to_str_cls_as_json(wchar_t, from,  L""          );  }
-- 
2.43.0


From 423fc64198eb84253a1c71c6e50e1318118dffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 19/41] fix: escape paths in the json of the command line
 program

---
 src/wtr/watcher/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..427e6d4 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -95,7 +95,7 @@ auto json(event const& e) -> string
                ? json(*e.associated)
                : "null";
   auto s = [](auto a) { return to<string>(a); };
-  auto q = [&](auto a) { return '"' + s(a) + '"'; };
+  auto q = [&](auto a) { return '"' + json_escaped(s(a)) + '"'; };
   return "{\"path_type\":"   + q(e.path_type)
        + ",\"path_name\":"   + q(e.path_name)
        + ",\"effect_type\":" + q(e.effect_type)
-- 
2.43.0


From b3ab5582613d960a9e10fe2781ce333ec89508d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 20/41] fix: take every positive time, and no other (command
 line)

Times above a few hundred years overflowed, and were no time at all. Fractions
of a unit were rounded to whole ones. A unit which doesn't exist was taken for
milliseconds, and something which isn't a time was forever.
---
 src/wtr/watcher/main.cpp | 41 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 427e6d4..c429dc3 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -61,29 +61,34 @@ struct Args {
       : nullopt;
 
     auto time = [&]() -> optional<nanoseconds> {
-      auto st = argc > 3 ? argv[3] : "0";
-      auto stend = st + strlen(st);
+      auto st = argc > 3 ? argv[3] : "";
+      auto stend = st;
       auto targis = [&](auto a) { return argis(2, a); };
-      long long ttons
-        = targis("-nanoseconds")  || targis("-ns")  ?                      1e0
-        : targis("-microseconds") || targis("-us")  ?                      1e3
-        : targis("-milliseconds") || targis("-ms")  ?                      1e6
-        : targis("-seconds")      || targis("-s")   ?                      1e9
-        : targis("-minutes")      || targis("-m")   ?                 60 * 1e9
-        : targis("-hours")        || targis("-h")   ?            60 * 60 * 1e9
-        : targis("-days")         || targis("-d")   ?       24 * 60 * 60 * 1e9
-        : targis("-weeks")        || targis("-w")   ? 7   * 24 * 60 * 60 * 1e9
-        : targis("-months")       || targis("-mts") ? 30  * 24 * 60 * 60 * 1e9
-        : targis("-years")        || targis("-y")   ? 365 * 24 * 60 * 60 * 1e9
-                                                    :                      1e6;
-      auto td = strtod(st, (char**)&stend);
-      if (is_help || td == HUGE_VAL || td <= 0)
+      long double ttons
+        = targis("-nanoseconds")  || targis("-ns")  ?                      1e0L
+        : targis("-microseconds") || targis("-us")  ?                      1e3L
+        : targis("-milliseconds") || targis("-ms")  ?                      1e6L
+        : targis("-seconds")      || targis("-s")   ?                      1e9L
+        : targis("-minutes")      || targis("-m")   ?                 60 * 1e9L
+        : targis("-hours")        || targis("-h")   ?            60 * 60 * 1e9L
+        : targis("-days")         || targis("-d")   ?       24 * 60 * 60 * 1e9L
+        : targis("-weeks")        || targis("-w")   ? 7   * 24 * 60 * 60 * 1e9L
+        : targis("-months")       || targis("-mts") ? 30  * 24 * 60 * 60 * 1e9L
+        : targis("-years")        || targis("-y")   ? 365 * 24 * 60 * 60 * 1e9L
+                                                    :                      0;
+      auto ns = strtold(st, (char**)&stend) * ttons;
+      /*  As long as we can count is as good as forever. */
+      if (is_help || stend == st || *stend || ! (ns > 0))
         return nullopt;
+      else if (ns >= (long double)nanoseconds::max().count())
+        return nanoseconds::max();
       else
-        return nanoseconds(llroundl(td) * ttons);
+        return nanoseconds((long long)ceill(ns));
     }();
 
-    return is_help || path || time
+    bool is_usable = path && (argc < 3 || time);
+
+    return is_help || is_usable
            ? optional(Args{is_help, path, time})
            : nullopt;
   }
-- 
2.43.0


From 8b53086aaa485ce8f87e69c5a8def3ab174aabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 21/41] fix: take paths which are not utf-8 (Python)

Their events were lost to a UnicodeDecodeError in the callback bridge.
---
 watcher-py/watcher/watcher.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..a3b5487 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -59,15 +59,17 @@ def _lazy_static_solib_handle() -> ctypes.CDLL:
     return _LIB
 
 
+# Not every path is text. Bytes which aren't become what `os.fsdecode` makes
+# of them, so that the path still leads to the same place.
 def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if s is None:
         return ""
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return s.tobytes().decode("utf-8", "surrogateescape")
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return s.decode("utf-8", "surrogateescape")
     raise TypeError()
 
 
@@ -174,7 +176,7 @@ class Watch:
             callback(py_event)
 
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = path.encode("utf-8", "surrogateescape")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From 4e6f0353b1bee32550d83f701ab2e28ca1f97f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 22/41] fix: escape paths in json (Python)

---
 watcher-py/watcher/watcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index a3b5487..ff33ad0 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -143,10 +144,11 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
+        pn = json.dumps(self.path_name)
+        apn = json.dumps(self.associated_path_name)
         return f'{{\
 "effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
+"path_name":{pn},\
 "associated_path_name":{apn},\
 "effect_type":"{_ET_TO_S[self.effect_type]}",\
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
-- 
2.43.0


From a7bfde0a1d4604b6d36cb9dd560cc55e53828663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 23/41] fix: don't fail again in the destructor of a watch
 which failed to open (Python)

---
 watcher-py/watcher/watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index ff33ad0..0924845 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -177,6 +177,7 @@ class Watch:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
 
+        self._watcher = None
         self._lib = _lazy_static_solib_handle()
         self._path = path.encode("utf-8", "surrogateescape")
         self._c_callback = _CCallback(callback_bridge)
-- 
2.43.0


From 267c92313252aaf78b9464111ad6d77a1e518960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 24/41] fix: don't lose events while JavaScript is busy
 (Node.js)

More than 1024 of them were dropped, and never freed.
---
 watcher-nodejs/lib/watcher-napi.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..51fb3d6 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -48,21 +48,34 @@ static napi_value event_to_js_obj(napi_env env, wtr_watcher_event* event)
   return event_obj;
 }
 
+static void event_free(wtr_watcher_event* event)
+{
+  free((void*)event->path_name);
+  free((void*)event->associated_path_name);
+  free(event);
+}
+
 /*  Called by the callback bridge when an event is ready.
     Forwards event to js-land for the user.
     Expects an "owned" event, which will be freed in this scope. */
 static void callback_js_receiver(napi_env env, napi_value js_callback, void* _unused, void* ctx)
 {
   wtr_watcher_event* event = (wtr_watcher_event*)ctx;
+  /*  Called without an env for what is left in the
+      queue when the environment is torn down. */
+  if (! env) {
+#if WITH_TSFN_NONBLOCKING
+    event_free(event);
+#endif
+    return;
+  }
   napi_value event_obj = event_to_js_obj(env, event);
   napi_value global = NULL;
   napi_get_global(env, &global);
   napi_value result = NULL;
   napi_call_function(env, global, js_callback, 1, &event_obj, &result);
 #if WITH_TSFN_NONBLOCKING
-  free((void*)event->path_name);
-  free((void*)event->associated_path_name);
-  free(event);
+  event_free(event);
 #endif
 }
 
@@ -79,8 +92,12 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
+  napi_status status = napi_closing;
   if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+    status = napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+  }
+  if (status != napi_ok) {
+    event_free(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
@@ -142,7 +159,8 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  /*  Unlimited. We can't ask the watcher to come back later. */
+  size_t work_queue_size = 0;
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From 510067b4fb80273d4503b3e505b4dcc88a7cdf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 25/41] fix: don't make a path of nothing when it is not utf-8
 (Rust)

---
 watcher-rs/src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..201c2b7 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -7,7 +7,6 @@ use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -53,13 +52,12 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_string(ptr: *const c_char) -> Option<String> {
     match ptr.is_null() {
         true => None,
         false => {
-            let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
-            Some(s)
+            let c = unsafe { CStr::from_ptr(ptr) };
+            Some(c.to_string_lossy().into_owned())
         }
     }
 }
@@ -93,8 +91,8 @@ fn path_type_from_c(path_type: i8) -> PathType {
 fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
-        path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        path_name: c_chars_as_string(ev.path_name).unwrap_or_default(),
+        associated_path_name: c_chars_as_string(ev.associated_path_name),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From 4650f4d400952496754eec2367c3bd7aac493019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 26/41] fix: return an error, don't panic, for a path which
 can't be (Rust)

---
 watcher-rs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 201c2b7..4bf1e33 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -113,7 +113,7 @@ pub struct Watch {
 
 impl Watch {
     pub fn try_new(path: &str) -> Result<Watch, &'static str> {
-        let p = CString::new(path).unwrap();
+        let p = CString::new(path).map_err(|_| "path has a null character")?;
         let (tx, rx) = async_channel();
         let tx = Box::new(tx);
         let rx = Box::pin(rx);
-- 
2.43.0


From b7e466972f475c5bc3545511c842654fdd2ee4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 27/41] fix: report what changes, and only that, and don't stop
 (warthog)

The bucket was filled again whenever it was empty, which swallowed what
was created since the last scan. Entries which vanished or could not be
read during a scan ended the whole scan with an exception, in a noexcept
function. Files in the bucket were compared against directories. The
removal of a file was reported as the removal of whatever the base is.
---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 245 ++++++++----------
 include/wtr/watcher.hpp                       | 245 ++++++++----------
 2 files changed, 206 insertions(+), 284 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index c5637c2..d88a6c3 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -13,10 +13,13 @@
 #include <chrono>
 #include <filesystem>
 #include <functional>
+#include <optional>
 #include <string>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 namespace detail {
 namespace wtr {
@@ -25,165 +28,122 @@ namespace adapter {
 namespace {
 
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
 
-using bucket_type =
-  std::unordered_map<std::string, std::filesystem::file_time_type>;
+struct entry {
+  std::filesystem::file_time_type last_write_time{};
+  enum ::wtr::watcher::event::path_type type {};
+};
+
+using bucket_type = std::unordered_map<std::string, entry>;
+
+/*  What is at a path, if it is something we keep an eye on. The tree
+    may change while we look at it, which isn't an error of anyone. */
+inline auto look_at(std::filesystem::path const& path) noexcept
+  -> std::optional<entry>
+{
+  using namespace std::filesystem;
+  using pt = enum ::wtr::watcher::event::path_type;
+  auto ec = std::error_code{};
+  auto st = status(path, ec);
+  if (ec || ! (is_regular_file(st) || is_directory(st))) return std::nullopt;
+  auto lwt = last_write_time(path, ec);
+  if (ec) return std::nullopt;
+  return entry{lwt, is_directory(st) ? pt::dir : pt::file};
+}
+
+/*  Calls `f` with everything in the tree at `path`. Skips what
+    vanishes, or isn't readable, while we look at it, and only that.
+    Returns false if there isn't anything there. */
+template<class Fn>
+inline bool walk(std::filesystem::path const& path, Fn const& f) noexcept
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  if (! is_directory(path, ec)) {
+    auto is = look_at(path);
+    if (is) f(path, *is);
+    return is.has_value();
+  }
+  auto todo = std::vector<std::filesystem::path>{path};
+  while (! todo.empty()) {
+    auto dir = std::move(todo.back());
+    todo.pop_back();
+    auto at = directory_iterator(dir, scan_dir_opts, ec);
+    for (; ! ec && at != directory_iterator{}; at.increment(ec)) {
+      auto const& file = at->path();
+      auto stat_ec = std::error_code{};
+      if (is_directory(at->symlink_status(stat_ec))) todo.push_back(file);
+      if (auto is = look_at(file)) f(file, *is);
+    }
+  }
+  return true;
+}
 
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
     - Returns false if the file tree cannot be scanned. */
+template<class Fn>
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Fn const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  - Scans a (single) file for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the file cannot be scanned. */
-  auto scan_file =
-    [&](std::filesystem::path const& file, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    if (exists(file) && is_regular_file(file)) {
-      auto ec = std::error_code{};
-      /*  grabbing the file's last write time */
-      auto timestamp = last_write_time(file, ec);
-      if (ec) {
-        /*  the file changed while we were looking at it.
-            so, we call the closure, indicating destruction,
-            and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
-      }
-      /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
-        /*  we put it in there and call the closure,
-            indicating creation. */
-        bucket[file] = timestamp;
+  using namespace ::wtr::watcher;
+  return walk(
+    path,
+    [&](std::filesystem::path const& file, entry const& is)
+    {
+      if (is.type != event::path_type::file) return;
+      auto was = bucket.find(file.string());
+      /*  if it's not in our bucket, we put it in there
+          and call the closure, indicating creation. */
+      if (was == bucket.end()) {
+        bucket[file.string()] = is;
         send_event(
           event{file, event::effect_type::create, event::path_type::file});
       }
-      /*  otherwise, it is already in our bucket. */
-      else {
-        /*  we update the file's last write time, */
-        if (bucket[file] != timestamp) {
-          bucket[file] = timestamp;
-          /*  and call the closure on them,
-              indicating modification */
-          send_event(
-            event{file, event::effect_type::modify, event::path_type::file});
-        }
+      /*  otherwise, we update the file's last write time
+          and call the closure, indicating modification. */
+      else if (was->second.last_write_time != is.last_write_time) {
+        was->second = is;
+        send_event(
+          event{file, event::effect_type::modify, event::path_type::file});
       }
-      return true;
-    }
-    else
-      return false; /*  if the path doesn't exist, nudge the caller. */
-  };
-
-  /*  - Scans a (single) directory for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the directory cannot be scanned. */
-  auto const& scan_directory =
-    [&](std::filesystem::path const& dir, auto const& send_event) -> bool
-  {
-    using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
-      return true;
-    }
-    else
-      return false;
-  };
-
-  return scan_directory(path, send_event) ? true
-       : scan_file(path, send_event)      ? true
-                                          : false;
+    });
 };
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
-inline bool tend_bucket(
-  std::filesystem::path const& path,
-  auto const& send_event,
-  bucket_type& bucket) noexcept
+/*  Creates a file map, the "bucket", from `path`. */
+inline bool
+populate(std::filesystem::path const& path, bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
-  {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
-      return false;
-    else if (! is_directory(path))
-      bucket[path] = last_write_time(path);
-    else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
-      return true;
-    }
-  };
-
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
-    }
-    return true;
-  };
+  return walk(
+    path,
+    [&](std::filesystem::path const& file, entry const& is)
+    { bucket[file.string()] = is; });
+};
 
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
+/*  Removes what no longer exists from our bucket, or what
+    isn't what it was, and calls the closure, indicating
+    destruction. What we can't look at any more stays. */
+template<class Fn>
+inline void prune(Fn const& send_event, bucket_type& bucket) noexcept
+{
+  using namespace ::wtr::watcher;
+  using namespace std::filesystem;
+  for (auto it = bucket.begin(); it != bucket.end();) {
+    auto ec = std::error_code{};
+    auto st = status(it->first, ec);
+    auto same = it->second.type == event::path_type::dir ? is_directory(st)
+                                                         : is_regular_file(st);
+    if (same || ! status_known(st))
+      ++it;
+    else
+      send_event(
+        event{it->first, event::effect_type::destroy, it->second.type}),
+        it = bucket.erase(it);
+  }
 };
 
 } /* namespace */
@@ -202,8 +162,9 @@ inline auto watch(
         - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
+  if (! populate(path, bucket)) return false;
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 74d423a..336c1e3 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2282,10 +2282,13 @@ inline auto watch(
 #include <chrono>
 #include <filesystem>
 #include <functional>
+#include <optional>
 #include <string>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 namespace detail {
 namespace wtr {
@@ -2294,165 +2297,122 @@ namespace adapter {
 namespace {
 
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
+
+struct entry {
+  std::filesystem::file_time_type last_write_time{};
+  enum ::wtr::watcher::event::path_type type {};
+};
+
+using bucket_type = std::unordered_map<std::string, entry>;
+
+/*  What is at a path, if it is something we keep an eye on. The tree
+    may change while we look at it, which isn't an error of anyone. */
+inline auto look_at(std::filesystem::path const& path) noexcept
+  -> std::optional<entry>
+{
+  using namespace std::filesystem;
+  using pt = enum ::wtr::watcher::event::path_type;
+  auto ec = std::error_code{};
+  auto st = status(path, ec);
+  if (ec || ! (is_regular_file(st) || is_directory(st))) return std::nullopt;
+  auto lwt = last_write_time(path, ec);
+  if (ec) return std::nullopt;
+  return entry{lwt, is_directory(st) ? pt::dir : pt::file};
+}
 
-using bucket_type =
-  std::unordered_map<std::string, std::filesystem::file_time_type>;
+/*  Calls `f` with everything in the tree at `path`. Skips what
+    vanishes, or isn't readable, while we look at it, and only that.
+    Returns false if there isn't anything there. */
+template<class Fn>
+inline bool walk(std::filesystem::path const& path, Fn const& f) noexcept
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  if (! is_directory(path, ec)) {
+    auto is = look_at(path);
+    if (is) f(path, *is);
+    return is.has_value();
+  }
+  auto todo = std::vector<std::filesystem::path>{path};
+  while (! todo.empty()) {
+    auto dir = std::move(todo.back());
+    todo.pop_back();
+    auto at = directory_iterator(dir, scan_dir_opts, ec);
+    for (; ! ec && at != directory_iterator{}; at.increment(ec)) {
+      auto const& file = at->path();
+      auto stat_ec = std::error_code{};
+      if (is_directory(at->symlink_status(stat_ec))) todo.push_back(file);
+      if (auto is = look_at(file)) f(file, *is);
+    }
+  }
+  return true;
+}
 
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
     - Returns false if the file tree cannot be scanned. */
+template<class Fn>
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Fn const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  - Scans a (single) file for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the file cannot be scanned. */
-  auto scan_file =
-    [&](std::filesystem::path const& file, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    if (exists(file) && is_regular_file(file)) {
-      auto ec = std::error_code{};
-      /*  grabbing the file's last write time */
-      auto timestamp = last_write_time(file, ec);
-      if (ec) {
-        /*  the file changed while we were looking at it.
-            so, we call the closure, indicating destruction,
-            and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
-      }
-      /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
-        /*  we put it in there and call the closure,
-            indicating creation. */
-        bucket[file] = timestamp;
+  using namespace ::wtr::watcher;
+  return walk(
+    path,
+    [&](std::filesystem::path const& file, entry const& is)
+    {
+      if (is.type != event::path_type::file) return;
+      auto was = bucket.find(file.string());
+      /*  if it's not in our bucket, we put it in there
+          and call the closure, indicating creation. */
+      if (was == bucket.end()) {
+        bucket[file.string()] = is;
         send_event(
           event{file, event::effect_type::create, event::path_type::file});
       }
-      /*  otherwise, it is already in our bucket. */
-      else {
-        /*  we update the file's last write time, */
-        if (bucket[file] != timestamp) {
-          bucket[file] = timestamp;
-          /*  and call the closure on them,
-              indicating modification */
-          send_event(
-            event{file, event::effect_type::modify, event::path_type::file});
-        }
+      /*  otherwise, we update the file's last write time
+          and call the closure, indicating modification. */
+      else if (was->second.last_write_time != is.last_write_time) {
+        was->second = is;
+        send_event(
+          event{file, event::effect_type::modify, event::path_type::file});
       }
-      return true;
-    }
-    else
-      return false; /*  if the path doesn't exist, nudge the caller. */
-  };
-
-  /*  - Scans a (single) directory for changes.
-      - Updates our bucket to match the changes.
-      - Calls `send_event` when changes happen.
-      - Returns false if the directory cannot be scanned. */
-  auto const& scan_directory =
-    [&](std::filesystem::path const& dir, auto const& send_event) -> bool
-  {
-    using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
-      return true;
-    }
-    else
-      return false;
-  };
-
-  return scan_directory(path, send_event) ? true
-       : scan_file(path, send_event)      ? true
-                                          : false;
+    });
 };
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
-inline bool tend_bucket(
-  std::filesystem::path const& path,
-  auto const& send_event,
-  bucket_type& bucket) noexcept
+/*  Creates a file map, the "bucket", from `path`. */
+inline bool
+populate(std::filesystem::path const& path, bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
-  {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
-      return false;
-    else if (! is_directory(path))
-      bucket[path] = last_write_time(path);
-    else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
-      return true;
-    }
-  };
-
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
-    }
-    return true;
-  };
+  return walk(
+    path,
+    [&](std::filesystem::path const& file, entry const& is)
+    { bucket[file.string()] = is; });
+};
 
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
+/*  Removes what no longer exists from our bucket, or what
+    isn't what it was, and calls the closure, indicating
+    destruction. What we can't look at any more stays. */
+template<class Fn>
+inline void prune(Fn const& send_event, bucket_type& bucket) noexcept
+{
+  using namespace ::wtr::watcher;
+  using namespace std::filesystem;
+  for (auto it = bucket.begin(); it != bucket.end();) {
+    auto ec = std::error_code{};
+    auto st = status(it->first, ec);
+    auto same = it->second.type == event::path_type::dir ? is_directory(st)
+                                                         : is_regular_file(st);
+    if (same || ! status_known(st))
+      ++it;
+    else
+      send_event(
+        event{it->first, event::effect_type::destroy, it->second.type}),
+        it = bucket.erase(it);
+  }
 };
 
 } /* namespace */
@@ -2471,8 +2431,9 @@ inline auto watch(
         - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
+  if (! populate(path, bucket)) return false;
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
-- 
2.43.0


From 1c9c57d17b899f972a5c68143a5869c989cf7234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 28/41] fix: let WATER_WATCHER_USE_WARTHOG select warthog

It left Linux, where we ask for it to be defined on old kernels, without
any adapter.
---
 devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp | 5 +++--
 include/wtr/watcher.hpp                                    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index d88a6c3..3ede0ee 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -6,8 +6,9 @@
       - Only support `kqueue` (`warthog` beats `kqueue`)
       - Only support the C++ standard library */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if defined(WATER_WATCHER_USE_WARTHOG)                                    \
+  || (! defined(__linux__) && ! defined(__ANDROID_API__) \
+      && ! defined(__APPLE__) && ! defined(_WIN32))
 
 #include "wtr/watcher.hpp"
 #include <chrono>
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 336c1e3..2d73e89 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2276,8 +2276,9 @@ inline auto watch(
       - Only support `kqueue` (`warthog` beats `kqueue`)
       - Only support the C++ standard library */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if defined(WATER_WATCHER_USE_WARTHOG)                                    \
+  || (! defined(__linux__) && ! defined(__ANDROID_API__) \
+      && ! defined(__APPLE__) && ! defined(_WIN32))
 
 #include <chrono>
 #include <filesystem>
-- 
2.43.0


From c17acf9725216ce812c0b28e82342369a79d3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 29/41] fix: close Node.js watchers which are open when their
 environment ends (C20)

---
 watcher-nodejs/lib/watcher-napi.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 51fb3d6..0f9ac39 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -104,6 +104,16 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
 #endif
 }
 
+/*  Called when the environment goes away and the user isn't done with
+    the watcher, before the function which the watcher calls goes too. */
+static void close_with_env(void* ctx)
+{
+  watcher_lifetime* w = (watcher_lifetime*)ctx;
+  wtr_watcher_close(w->watcher);
+  napi_release_threadsafe_function(w->tsfn, napi_tsfn_release);
+  free(w);
+}
+
 /*  Should be called by the user when they are done with the watcher.
     Ends event processing and releases any owned resources. */
 static napi_value close(napi_env env, napi_callback_info func_arg_info)
@@ -116,6 +126,7 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
     return result;
   }
   watcher_lifetime* w = (watcher_lifetime*)ctx;
+  napi_remove_env_cleanup_hook(env, close_with_env, w);
   bool closed_ok = wtr_watcher_close(w->watcher);
   napi_get_boolean(env, closed_ok, &result);
   if (w->tsfn) {
@@ -178,6 +189,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
+  napi_add_env_cleanup_hook(env, close_with_env, wrapper);
   napi_value watcher_obj = NULL;
   napi_create_object(env, &watcher_obj);
   napi_value close_func = NULL;
-- 
2.43.0


From 094bb255a53d8d2c79cfb672823f8858a15f2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 30/41] fix: don't miss what happens in a directory while
 marking it again (C04)

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp     | 7 ++++++-
 include/wtr/watcher.hpp                                    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index cd8c5eb..9f14261 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -89,9 +89,14 @@ struct ke_in_ev {
     | IN_MOVED_TO;
   /*  What we might find where a directory was
       a moment ago (a symbolic link out of our
-      tree, for example) is none of our concern. */
+      tree, for example) is none of our concern.
+      A mark which is replaced, as opposed to one
+      which is added to, asks for nothing at all
+      for a moment. We mark some directories more
+      than once, and events might be lost then. */
   static constexpr unsigned mark_mask
     = recv_mask
+    | IN_MASK_ADD
     | IN_ONLYDIR
     | IN_DONT_FOLLOW;
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2d73e89..860cff6 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1554,9 +1554,14 @@ struct ke_in_ev {
     | IN_MOVED_TO;
   /*  What we might find where a directory was
       a moment ago (a symbolic link out of our
-      tree, for example) is none of our concern. */
+      tree, for example) is none of our concern.
+      A mark which is replaced, as opposed to one
+      which is added to, asks for nothing at all
+      for a moment. We mark some directories more
+      than once, and events might be lost then. */
   static constexpr unsigned mark_mask
     = recv_mask
+    | IN_MASK_ADD
     | IN_ONLYDIR
     | IN_DONT_FOLLOW;
 
-- 
2.43.0


From 0b6ffd1ca9e8b9b8f26cb67510e176f17ee62ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 31/41] fix: the command line program ends with its help when a
 path can't be looked at, instead of aborting

---
 src/wtr/watcher/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index c429dc3..0b7da6a 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -54,10 +54,11 @@ struct Args {
 
     bool is_help = argis(1, "-h") || argis(1, "--help");
 
+    auto ec = error_code{};
     auto path =
       is_help ? nullopt
-      : argc < 2 ? optional(fs::current_path())
-      : fs::exists(argv[1]) ? optional(fs::path(argv[1]))
+      : argc < 2 ? optional(fs::current_path(ec))
+      : fs::exists(argv[1], ec) ? optional(fs::path(argv[1]))
       : nullopt;
 
     auto time = [&]() -> optional<nanoseconds> {
@@ -86,7 +87,7 @@ struct Args {
         return nanoseconds((long long)ceill(ns));
     }();
 
-    bool is_usable = path && (argc < 3 || time);
+    bool is_usable = path && ! ec && (argc < 3 || time);
 
     return is_help || is_usable
            ? optional(Args{is_help, path, time})
-- 
2.43.0


From 4b5b6c9b76611d890ec5edb2f02603079283656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 32/41] fix: refuse to watch a path with a null character,
 instead of watching what's before it (Python)

---
 watcher-py/watcher/watcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 0924845..5d93e00 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -180,6 +180,8 @@ class Watch:
         self._watcher = None
         self._lib = _lazy_static_solib_handle()
         self._path = path.encode("utf-8", "surrogateescape")
+        if b"\0" in self._path:
+            raise ValueError("The path has a null character")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From 1deac0931cf190c6331c6f8553bf6d6112330ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 33/41] fix: refuse to watch a path which is too long or has a
 null character, instead of watching a part of it (Node.js)

---
 watcher-nodejs/lib/watcher-napi.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 0f9ac39..3ae61e8 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -164,7 +164,16 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   char path[4096];
   memset(path, 0, sizeof(path));
   size_t path_len = 0;
+  napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len);
+  if (path_len >= sizeof(path)) {
+    napi_throw_error(env, NULL, "The path is too long");
+    return NULL;
+  }
   napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
+  if (strlen(path) != path_len) {
+    napi_throw_error(env, NULL, "The path has a null character");
+    return NULL;
+  }
   watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
   napi_value js_callback = args[1];
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
-- 
2.43.0


From 88abb79f5bd23c5ef7b933abd3453f013f0f3951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 34/41] fix: don't lose what happens in a directory which is
 renamed, when the halves of the rename aren't read together

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 42 ++++++++++++++++---
 include/wtr/watcher.hpp                       | 42 ++++++++++++++++---
 2 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 9f14261..82fcc63 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -104,6 +104,13 @@ struct ke_in_ev {
   std::string base{};
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
+  /*  A directory which was moved, as far as we
+      know, out of our tree. The other half of
+      a rename may yet come. */
+  struct {
+    unsigned cookie = 0;
+    std::filesystem::path path{};
+  } away{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
   int rm_wd_buf[buf_len]{0};
 
@@ -188,6 +195,7 @@ inline auto do_move_tree = [](
 inline auto do_mark_again = [](ke_in_ev& ke, auto const& cb) -> void
 {
   auto const was = std::exchange(ke.dm, {});
+  ke.away = {};
   do_mark_tree(ke.base, ke.fd, ke.dm, cb);
   for (auto const& [wd, _] : was)
     if (ke.dm.find(wd) == ke.dm.end()) inotify_rm_watch(ke.fd, wd);
@@ -291,23 +299,44 @@ inline auto parse_ev = [](
 
 /*  Keeps our path map, and the marks, in step with
     the directories in the tree. They might not have
-    been empty when they came here, and some other
-    directory may have taken the place of one which
-    left. */
+    been empty when they came here. */
 inline auto do_follow = [](
                           ::wtr::watcher::event const& ev,
                           unsigned msk,
+                          unsigned cookie,
                           ke_in_ev& ke,
                           auto const& cb) -> void
 {
   auto const& path = ev.path_name;
   if (ev.associated)
     do_move_tree(path, ev.associated->path_name, ke.fd, ke.dm, cb);
+  else if (msk & IN_MOVED_TO && cookie && cookie == ke.away.cookie)
+    do_move_tree(std::exchange(ke.away, {}).path, path, ke.fd, ke.dm, cb);
   else if (msk & (IN_CREATE | IN_MOVED_TO))
     do_mark_tree(path.native(), ke.fd, ke.dm, cb);
   else if (msk & IN_MOVED_FROM)
-    do_unmark_tree(path, ke.fd, ke.dm),
-      do_mark_tree(path.native(), ke.fd, ke.dm, cb);
+    ke.away = {cookie, path};
+};
+
+/*  The two halves of a rename aren't always next to
+    each other. But nothing happens in a directory
+    which is moved, and nothing takes its place, in
+    between. If we are told so (by the directory, at
+    last) then it has left our tree, and some other
+    one may have taken its place. */
+inline auto do_leave_if_away =
+  [](inotify_event const& in, ke_in_ev& ke, auto const& cb) -> void
+{
+  auto at = ke.dm.find(in.wd);
+  if (! ke.away.cookie || at == ke.dm.end()) return;
+  if (in.mask & IN_MOVED_TO && in.cookie == ke.away.cookie) return;
+  auto path = in.len ? at->second / in.name : at->second;
+  bool is_next = in.mask & IN_MOVED_FROM && in.mask & IN_ISDIR;
+  bool is_about = is_within(path, ke.away.path) || is_within(ke.away.path, path);
+  if (! is_next && ! is_about) return;
+  auto const left = std::exchange(ke.away, {}).path;
+  do_unmark_tree(left, ke.fd, ke.dm);
+  do_mark_tree(left.native(), ke.fd, ke.dm, cb);
 };
 
 struct defer_dm_rm_wd {
@@ -436,6 +465,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     while (in_ev && in_ev < in_ev_tail) {
       auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
+      do_leave_if_away(*in_ev, sr.ke, cb);
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
@@ -456,7 +486,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         auto msgs = std::vector<::wtr::watcher::event>{};
         auto later = [&](::wtr::watcher::event const& msg)
         { msgs.push_back(msg); };
-        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, later);
+        if (msk & IN_ISDIR) do_follow(ev, msk, in_ev->cookie, sr.ke, later);
         cb(ev);
         for (auto const& msg : msgs) cb(msg);
         in_ev_next = next;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 860cff6..9488265 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1569,6 +1569,13 @@ struct ke_in_ev {
   std::string base{};
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
+  /*  A directory which was moved, as far as we
+      know, out of our tree. The other half of
+      a rename may yet come. */
+  struct {
+    unsigned cookie = 0;
+    std::filesystem::path path{};
+  } away{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
   int rm_wd_buf[buf_len]{0};
 
@@ -1653,6 +1660,7 @@ inline auto do_move_tree = [](
 inline auto do_mark_again = [](ke_in_ev& ke, auto const& cb) -> void
 {
   auto const was = std::exchange(ke.dm, {});
+  ke.away = {};
   do_mark_tree(ke.base, ke.fd, ke.dm, cb);
   for (auto const& [wd, _] : was)
     if (ke.dm.find(wd) == ke.dm.end()) inotify_rm_watch(ke.fd, wd);
@@ -1756,23 +1764,44 @@ inline auto parse_ev = [](
 
 /*  Keeps our path map, and the marks, in step with
     the directories in the tree. They might not have
-    been empty when they came here, and some other
-    directory may have taken the place of one which
-    left. */
+    been empty when they came here. */
 inline auto do_follow = [](
                           ::wtr::watcher::event const& ev,
                           unsigned msk,
+                          unsigned cookie,
                           ke_in_ev& ke,
                           auto const& cb) -> void
 {
   auto const& path = ev.path_name;
   if (ev.associated)
     do_move_tree(path, ev.associated->path_name, ke.fd, ke.dm, cb);
+  else if (msk & IN_MOVED_TO && cookie && cookie == ke.away.cookie)
+    do_move_tree(std::exchange(ke.away, {}).path, path, ke.fd, ke.dm, cb);
   else if (msk & (IN_CREATE | IN_MOVED_TO))
     do_mark_tree(path.native(), ke.fd, ke.dm, cb);
   else if (msk & IN_MOVED_FROM)
-    do_unmark_tree(path, ke.fd, ke.dm),
-      do_mark_tree(path.native(), ke.fd, ke.dm, cb);
+    ke.away = {cookie, path};
+};
+
+/*  The two halves of a rename aren't always next to
+    each other. But nothing happens in a directory
+    which is moved, and nothing takes its place, in
+    between. If we are told so (by the directory, at
+    last) then it has left our tree, and some other
+    one may have taken its place. */
+inline auto do_leave_if_away =
+  [](inotify_event const& in, ke_in_ev& ke, auto const& cb) -> void
+{
+  auto at = ke.dm.find(in.wd);
+  if (! ke.away.cookie || at == ke.dm.end()) return;
+  if (in.mask & IN_MOVED_TO && in.cookie == ke.away.cookie) return;
+  auto path = in.len ? at->second / in.name : at->second;
+  bool is_next = in.mask & IN_MOVED_FROM && in.mask & IN_ISDIR;
+  bool is_about = is_within(path, ke.away.path) || is_within(ke.away.path, path);
+  if (! is_next && ! is_about) return;
+  auto const left = std::exchange(ke.away, {}).path;
+  do_unmark_tree(left, ke.fd, ke.dm);
+  do_mark_tree(left.native(), ke.fd, ke.dm, cb);
 };
 
 struct defer_dm_rm_wd {
@@ -1901,6 +1930,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     while (in_ev && in_ev < in_ev_tail) {
       auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
+      do_leave_if_away(*in_ev, sr.ke, cb);
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
@@ -1921,7 +1951,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         auto msgs = std::vector<::wtr::watcher::event>{};
         auto later = [&](::wtr::watcher::event const& msg)
         { msgs.push_back(msg); };
-        if (msk & IN_ISDIR) do_follow(ev, msk, sr.ke, later);
+        if (msk & IN_ISDIR) do_follow(ev, msk, in_ev->cookie, sr.ke, later);
         cb(ev);
         for (auto const& msg : msgs) cb(msg);
         in_ev_next = next;
-- 
2.43.0


From 359afd66b5411a9ecd3437c3c847b7f3b9217139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 35/41] fix: know where a directory is which was moved into one
 that is new (inotify)

A directory which is moved into a directory which was just made is found
there when that is marked, before we are told that it moved. Its path
changed too early, for everything that was still to be read, and it was
forgotten when the move was read.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 72 +++++++++++++------
 include/wtr/watcher.hpp                       | 72 +++++++++++++------
 2 files changed, 102 insertions(+), 42 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 82fcc63..4b2f1ac 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -102,7 +102,15 @@ struct ke_in_ev {
 
   int fd = -1;
   std::string base{};
-  using paths = std::unordered_map<int, std::filesystem::path>;
+  /*  Where a directory is, as far as we were told,
+      and where we have seen it since, if that is
+      somewhere else: We may look at a directory a
+      while after it, or what is in it, came there. */
+  struct place {
+    std::filesystem::path path{};
+    std::string seen{};
+  };
+  using paths = std::unordered_map<int, place>;
   paths dm{};
   /*  A directory which was moved, as far as we
       know, out of our tree. The other half of
@@ -127,23 +135,40 @@ struct sysres {
 };
 
 inline auto do_mark =
-  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
+  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> int
 {
-  auto e = result::w_sys_not_watched;
   int wd = inotify_add_watch(dirfd, dirpath, ke_in_ev::mark_mask);
   if (wd > 0)
-    return dm.insert_or_assign(wd, dirpath), result::complete;
+    dm.try_emplace(wd, ke_in_ev::place{dirpath});
   else
-    return send_msg(e, dirpath, cb), e;
+    send_msg(result::w_sys_not_watched, dirpath, cb);
+  return wd;
 };
 
 /*  Marks a directory, and all the directories
-    in it, at the paths they are at now. A mark
-    on a directory which we already know about
-    does nothing but refresh its path. */
+    in it, at the paths they are at now. What
+    we already know to be somewhere else stays
+    there until we are told that it moved. But
+    if that's the directory itself then we were
+    just told so. What was in it came with it. */
 inline auto do_mark_tree =
   [](std::string const& path, int dirfd, auto& dm, auto const& cb) -> void
-{ walkdir_do(path, [&](auto dir) { do_mark(dir, dirfd, dm, cb); }); };
+{
+  auto was = std::string{};
+  walkdir_do(
+    path,
+    [&](auto dir)
+    {
+      auto at = dm.find(do_mark(dir, dirfd, dm, cb));
+      if (at == dm.end()) return;
+      auto& place = at->second;
+      auto const& known = place.path.native();
+      if (dir == path) was = known;
+      auto is_there = known == dir || known == was + (dir + path.size());
+      if (is_there) place.path = dir;
+      place.seen = is_there ? "" : dir;
+    });
+};
 
 inline auto
 is_within(std::filesystem::path const& path, std::filesystem::path const& dir)
@@ -156,15 +181,20 @@ is_within(std::filesystem::path const& path, std::filesystem::path const& dir)
 }
 
 /*  Forgets a directory, and all the directories
-    in it, because they have left our tree. */
+    in it, because they have left our tree. Not
+    those which we have seen elsewhere in it. */
 inline auto do_unmark_tree =
   [](std::filesystem::path const& path, int dirfd, auto& dm) -> void
 {
-  for (auto at = dm.begin(); at != dm.end();)
-    if (is_within(at->second, path))
-      inotify_rm_watch(dirfd, at->first), at = dm.erase(at);
-    else
-      ++at;
+  auto left = std::vector<std::pair<int, std::string>>{};
+  for (auto const& [wd, place] : dm)
+    if (is_within(place.path, path)) left.emplace_back(wd, place.seen);
+  for (auto const& [wd, _] : left) dm.erase(wd);
+  auto quiet = [](::wtr::watcher::event const&) {};
+  for (auto const& [wd, seen] : left) {
+    if (! seen.empty()) do_mark(seen.c_str(), dirfd, dm, quiet);
+    if (dm.find(wd) == dm.end()) inotify_rm_watch(dirfd, wd);
+  }
 };
 
 /*  The marks move with the directories. Only
@@ -181,11 +211,11 @@ inline auto do_move_tree = [](
                              auto const& cb) -> void
 {
   bool is_to_known = false;
-  for (auto& [_, dir] : dm)
-    if (is_within(dir, to))
+  for (auto& [_, place] : dm)
+    if (is_within(place.path, to))
       is_to_known = true;
-    else if (is_within(dir, from))
-      dir = to.native() + dir.native().substr(from.native().size());
+    else if (is_within(place.path, from))
+      place.path = to.native() + place.path.native().substr(from.native().size());
   do_mark_tree(to.native(), dirfd, dm, cb);
   if (is_to_known) do_mark_tree(from.native(), dirfd, dm, cb);
 };
@@ -272,7 +302,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd).path / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -330,7 +360,7 @@ inline auto do_leave_if_away =
   auto at = ke.dm.find(in.wd);
   if (! ke.away.cookie || at == ke.dm.end()) return;
   if (in.mask & IN_MOVED_TO && in.cookie == ke.away.cookie) return;
-  auto path = in.len ? at->second / in.name : at->second;
+  auto path = in.len ? at->second.path / in.name : at->second.path;
   bool is_next = in.mask & IN_MOVED_FROM && in.mask & IN_ISDIR;
   bool is_about = is_within(path, ke.away.path) || is_within(ke.away.path, path);
   if (! is_next && ! is_about) return;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 9488265..0fa6c17 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1567,7 +1567,15 @@ struct ke_in_ev {
 
   int fd = -1;
   std::string base{};
-  using paths = std::unordered_map<int, std::filesystem::path>;
+  /*  Where a directory is, as far as we were told,
+      and where we have seen it since, if that is
+      somewhere else: We may look at a directory a
+      while after it, or what is in it, came there. */
+  struct place {
+    std::filesystem::path path{};
+    std::string seen{};
+  };
+  using paths = std::unordered_map<int, place>;
   paths dm{};
   /*  A directory which was moved, as far as we
       know, out of our tree. The other half of
@@ -1592,23 +1600,40 @@ struct sysres {
 };
 
 inline auto do_mark =
-  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
+  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> int
 {
-  auto e = result::w_sys_not_watched;
   int wd = inotify_add_watch(dirfd, dirpath, ke_in_ev::mark_mask);
   if (wd > 0)
-    return dm.insert_or_assign(wd, dirpath), result::complete;
+    dm.try_emplace(wd, ke_in_ev::place{dirpath});
   else
-    return send_msg(e, dirpath, cb), e;
+    send_msg(result::w_sys_not_watched, dirpath, cb);
+  return wd;
 };
 
 /*  Marks a directory, and all the directories
-    in it, at the paths they are at now. A mark
-    on a directory which we already know about
-    does nothing but refresh its path. */
+    in it, at the paths they are at now. What
+    we already know to be somewhere else stays
+    there until we are told that it moved. But
+    if that's the directory itself then we were
+    just told so. What was in it came with it. */
 inline auto do_mark_tree =
   [](std::string const& path, int dirfd, auto& dm, auto const& cb) -> void
-{ walkdir_do(path, [&](auto dir) { do_mark(dir, dirfd, dm, cb); }); };
+{
+  auto was = std::string{};
+  walkdir_do(
+    path,
+    [&](auto dir)
+    {
+      auto at = dm.find(do_mark(dir, dirfd, dm, cb));
+      if (at == dm.end()) return;
+      auto& place = at->second;
+      auto const& known = place.path.native();
+      if (dir == path) was = known;
+      auto is_there = known == dir || known == was + (dir + path.size());
+      if (is_there) place.path = dir;
+      place.seen = is_there ? "" : dir;
+    });
+};
 
 inline auto
 is_within(std::filesystem::path const& path, std::filesystem::path const& dir)
@@ -1621,15 +1646,20 @@ is_within(std::filesystem::path const& path, std::filesystem::path const& dir)
 }
 
 /*  Forgets a directory, and all the directories
-    in it, because they have left our tree. */
+    in it, because they have left our tree. Not
+    those which we have seen elsewhere in it. */
 inline auto do_unmark_tree =
   [](std::filesystem::path const& path, int dirfd, auto& dm) -> void
 {
-  for (auto at = dm.begin(); at != dm.end();)
-    if (is_within(at->second, path))
-      inotify_rm_watch(dirfd, at->first), at = dm.erase(at);
-    else
-      ++at;
+  auto left = std::vector<std::pair<int, std::string>>{};
+  for (auto const& [wd, place] : dm)
+    if (is_within(place.path, path)) left.emplace_back(wd, place.seen);
+  for (auto const& [wd, _] : left) dm.erase(wd);
+  auto quiet = [](::wtr::watcher::event const&) {};
+  for (auto const& [wd, seen] : left) {
+    if (! seen.empty()) do_mark(seen.c_str(), dirfd, dm, quiet);
+    if (dm.find(wd) == dm.end()) inotify_rm_watch(dirfd, wd);
+  }
 };
 
 /*  The marks move with the directories. Only
@@ -1646,11 +1676,11 @@ inline auto do_move_tree = [](
                              auto const& cb) -> void
 {
   bool is_to_known = false;
-  for (auto& [_, dir] : dm)
-    if (is_within(dir, to))
+  for (auto& [_, place] : dm)
+    if (is_within(place.path, to))
       is_to_known = true;
-    else if (is_within(dir, from))
-      dir = to.native() + dir.native().substr(from.native().size());
+    else if (is_within(place.path, from))
+      place.path = to.native() + place.path.native().substr(from.native().size());
   do_mark_tree(to.native(), dirfd, dm, cb);
   if (is_to_known) do_mark_tree(from.native(), dirfd, dm, cb);
 };
@@ -1737,7 +1767,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd).path / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1795,7 +1825,7 @@ inline auto do_leave_if_away =
   auto at = ke.dm.find(in.wd);
   if (! ke.away.cookie || at == ke.dm.end()) return;
   if (in.mask & IN_MOVED_TO && in.cookie == ke.away.cookie) return;
-  auto path = in.len ? at->second / in.name : at->second;
+  auto path = in.len ? at->second.path / in.name : at->second.path;
   bool is_next = in.mask & IN_MOVED_FROM && in.mask & IN_ISDIR;
   bool is_about = is_within(path, ke.away.path) || is_within(ke.away.path, path);
   if (! is_next && ! is_about) return;
-- 
2.43.0


From 3ded4967b1dc52ff9a0972ee3e1d97cb8df85d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 36/41] fix: close fanotify on exec

Programs which were started while a watcher was open kept it, and its
queue, for as long as they ran.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 3 ++-
 include/wtr/watcher.hpp                                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 4f2baf5..69e0c2b 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -61,7 +61,8 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
-    | FAN_NONBLOCK;
+    | FAN_NONBLOCK
+    | FAN_CLOEXEC;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
     = FAN_ONDIR
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0fa6c17..2f574a3 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1139,7 +1139,8 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
-    | FAN_NONBLOCK;
+    | FAN_NONBLOCK
+    | FAN_CLOEXEC;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
     = FAN_ONDIR
-- 
2.43.0


From 879160bd678c6b0bb98e39bc20d80336c9a0a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 37/41] fix: Windows: a long path overran a buffer nobody used

---
 devel/include/detail/wtr/watcher/adapter/windows/watch.hpp | 2 --
 include/wtr/watcher.hpp                                    | 2 --
 2 files changed, 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index 90bf77e..39d8c24 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -24,7 +24,6 @@ public:
   static constexpr auto event_buf_len_max = 8192;
   bool is_valid = true;
   std::filesystem::path path = {};
-  wchar_t path_name[256] = {L""};
   HANDLE path_handle = nullptr;
   HANDLE event_completion_token = nullptr;
   HANDLE event_token = CreateEventW(nullptr, true, false, nullptr);
@@ -35,7 +34,6 @@ public:
   watch_event_proxy(std::filesystem::path const& path) noexcept
       : path{path}
   {
-    memcpy(path_name, path.c_str(), path.string().size());
     this->path_handle = CreateFileW(
       path.c_str(),
       FILE_LIST_DIRECTORY,
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2f574a3..4f3fc2b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2115,7 +2115,6 @@ public:
   static constexpr auto event_buf_len_max = 8192;
   bool is_valid = true;
   std::filesystem::path path = {};
-  wchar_t path_name[256] = {L""};
   HANDLE path_handle = nullptr;
   HANDLE event_completion_token = nullptr;
   HANDLE event_token = CreateEventW(nullptr, true, false, nullptr);
@@ -2126,7 +2125,6 @@ public:
   watch_event_proxy(std::filesystem::path const& path) noexcept
       : path{path}
   {
-    memcpy(path_name, path.c_str(), path.string().size());
     this->path_handle = CreateFileW(
       path.c_str(),
       FILE_LIST_DIRECTORY,
-- 
2.43.0


From 93890350db32321f831b923c5e80d8b1b6a997b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:09 +0000
Subject: [PATCH 38/41] fix: Windows: closing left the directory open and the
 system writing to memory which was gone

---
 .../wtr/watcher/adapter/windows/watch.hpp       | 17 ++++++++++++++---
 include/wtr/watcher.hpp                         | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index 39d8c24..c032a38 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -22,9 +22,11 @@ public:
   /*  I think the default page size in Windows is 64kb,
       so 65536 might also work well. */
   static constexpr auto event_buf_len_max = 8192;
-  bool is_valid = true;
+  bool is_valid = false;
+  /*  The system may write to the buffer while a read is pending. */
+  bool is_reading = false;
   std::filesystem::path path = {};
-  HANDLE path_handle = nullptr;
+  HANDLE path_handle = INVALID_HANDLE_VALUE;
   HANDLE event_completion_token = nullptr;
   HANDLE event_token = CreateEventW(nullptr, true, false, nullptr);
   OVERLAPPED event_overlap = {};
@@ -42,7 +44,7 @@ public:
       OPEN_EXISTING,
       FILE_FLAG_BACKUP_SEMANTICS | FILE_FLAG_OVERLAPPED,
       nullptr);
-    if (path_handle)
+    if (path_handle != INVALID_HANDLE_VALUE)
       this->event_completion_token =
         CreateIoCompletionPort(INVALID_HANDLE_VALUE, nullptr, 0, 0);
     if (event_completion_token)
@@ -56,6 +58,12 @@ public:
 
   ~watch_event_proxy() noexcept
   {
+    if (is_reading) {
+      DWORD bytes_returned = 0;
+      CancelIoEx(path_handle, &event_overlap);
+      GetOverlappedResult(path_handle, &event_overlap, &bytes_returned, true);
+    }
+    if (path_handle != INVALID_HANDLE_VALUE) CloseHandle(path_handle);
     if (event_token) CloseHandle(event_token);
     if (event_completion_token) CloseHandle(event_completion_token);
   }
@@ -87,12 +95,14 @@ inline auto do_event_recv(
     &w.event_overlap,
     nullptr);
   if (read_ok) {
+    w.is_reading = true;
     w.event_buf_len_ready = bytes_returned > 0 ? bytes_returned : 0;
     return true;
   }
   else {
     switch (GetLastError()) {
       case ERROR_IO_PENDING :
+        w.is_reading = true;
         w.event_buf_len_ready = 0;
         w.is_valid = false;
         callback(
@@ -229,6 +239,7 @@ inline auto watch(
       &completion_key,
       &overlap,
       w.delay_ms);
+    if (overlap) w.is_reading = false;
     if (complete && overlap) {
       while (w.is_valid && has_event(w)) {
         do_event_send(w, callback);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4f3fc2b..7735165 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2113,9 +2113,11 @@ public:
   /*  I think the default page size in Windows is 64kb,
       so 65536 might also work well. */
   static constexpr auto event_buf_len_max = 8192;
-  bool is_valid = true;
+  bool is_valid = false;
+  /*  The system may write to the buffer while a read is pending. */
+  bool is_reading = false;
   std::filesystem::path path = {};
-  HANDLE path_handle = nullptr;
+  HANDLE path_handle = INVALID_HANDLE_VALUE;
   HANDLE event_completion_token = nullptr;
   HANDLE event_token = CreateEventW(nullptr, true, false, nullptr);
   OVERLAPPED event_overlap = {};
@@ -2133,7 +2135,7 @@ public:
       OPEN_EXISTING,
       FILE_FLAG_BACKUP_SEMANTICS | FILE_FLAG_OVERLAPPED,
       nullptr);
-    if (path_handle)
+    if (path_handle != INVALID_HANDLE_VALUE)
       this->event_completion_token =
         CreateIoCompletionPort(INVALID_HANDLE_VALUE, nullptr, 0, 0);
     if (event_completion_token)
@@ -2147,6 +2149,12 @@ public:
 
   ~watch_event_proxy() noexcept
   {
+    if (is_reading) {
+      DWORD bytes_returned = 0;
+      CancelIoEx(path_handle, &event_overlap);
+      GetOverlappedResult(path_handle, &event_overlap, &bytes_returned, true);
+    }
+    if (path_handle != INVALID_HANDLE_VALUE) CloseHandle(path_handle);
     if (event_token) CloseHandle(event_token);
     if (event_completion_token) CloseHandle(event_completion_token);
   }
@@ -2178,12 +2186,14 @@ inline auto do_event_recv(
     &w.event_overlap,
     nullptr);
   if (read_ok) {
+    w.is_reading = true;
     w.event_buf_len_ready = bytes_returned > 0 ? bytes_returned : 0;
     return true;
   }
   else {
     switch (GetLastError()) {
       case ERROR_IO_PENDING :
+        w.is_reading = true;
         w.event_buf_len_ready = 0;
         w.is_valid = false;
         callback(
@@ -2320,6 +2330,7 @@ inline auto watch(
       &completion_key,
       &overlap,
       w.delay_ms);
+    if (overlap) w.is_reading = false;
     if (complete && overlap) {
       while (w.is_valid && has_event(w)) {
         do_event_send(w, callback);
-- 
2.43.0


From af6e31b1d48835c9fbb5e713bdd0be71a6708a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:16 +0000
Subject: [PATCH 39/41] fix: Windows: a full buffer or a failed read made the
 watcher blind without a word

---
 .../wtr/watcher/adapter/windows/watch.hpp     | 45 ++++++++++++-------
 include/wtr/watcher.hpp                       | 45 ++++++++++++-------
 2 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index c032a38..8038e82 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -74,6 +74,17 @@ inline auto has_event(watch_event_proxy& w) noexcept -> bool
   return w.event_buf_len_ready != 0;
 }
 
+inline auto send_msg(
+  char const* msg,
+  watch_event_proxy const& w,
+  ::wtr::watcher::event::callback const& callback) noexcept -> void
+{
+  callback(
+    {std::filesystem::path{msg} += w.path,
+     ::wtr::event::effect_type::other,
+     ::wtr::event::path_type::watcher});
+}
+
 inline auto do_event_recv(
   watch_event_proxy& w,
   ::wtr::watcher::event::callback const& callback) noexcept -> bool
@@ -105,16 +116,10 @@ inline auto do_event_recv(
         w.is_reading = true;
         w.event_buf_len_ready = 0;
         w.is_valid = false;
-        callback(
-          {"e/sys/read/pending",
-           ::wtr::event::effect_type::other,
-           ::wtr::event::path_type::watcher});
+        send_msg("e/sys/read/pending@", w, callback);
         break;
       default :
-        callback(
-          {"e/sys/read",
-           ::wtr::event::effect_type::other,
-           ::wtr::event::path_type::watcher});
+        send_msg("e/sys/read@", w, callback);
         break;
     }
     return false;
@@ -228,8 +233,7 @@ inline auto watch(
   using namespace ::wtr::watcher;
   auto w = watch_event_proxy{path};
   if (! w.is_valid) return false;
-  do_event_recv(w, callback);
-  while (w.is_valid && has_event(w)) do_event_send(w, callback);
+  if (! do_event_recv(w, callback)) return false;
   while (living.state() == semabin::state::pending) {
     ULONG_PTR completion_key = 0;
     LPOVERLAPPED overlap = nullptr;
@@ -239,13 +243,20 @@ inline auto watch(
       &completion_key,
       &overlap,
       w.delay_ms);
-    if (overlap) w.is_reading = false;
-    if (complete && overlap) {
-      while (w.is_valid && has_event(w)) {
-        do_event_send(w, callback);
-        do_event_recv(w, callback);
-      }
-    }
+    DWORD err = complete ? ERROR_SUCCESS : GetLastError();
+    if (overlap)
+      w.is_reading = false;
+    else if (err == WAIT_TIMEOUT)
+      continue;
+    /*  Nothing to read (or this error) means that
+        there was more to tell than could be kept. */
+    if (err == ERROR_NOTIFY_ENUM_DIR || (complete && ! has_event(w)))
+      send_msg("w/sys/q_overflow@", w, callback);
+    else if (complete)
+      do_event_send(w, callback);
+    else
+      return send_msg("e/sys/read@", w, callback), false;
+    if (! do_event_recv(w, callback)) return false;
   }
   return true;
 }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 7735165..39434ed 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2165,6 +2165,17 @@ inline auto has_event(watch_event_proxy& w) noexcept -> bool
   return w.event_buf_len_ready != 0;
 }
 
+inline auto send_msg(
+  char const* msg,
+  watch_event_proxy const& w,
+  ::wtr::watcher::event::callback const& callback) noexcept -> void
+{
+  callback(
+    {std::filesystem::path{msg} += w.path,
+     ::wtr::event::effect_type::other,
+     ::wtr::event::path_type::watcher});
+}
+
 inline auto do_event_recv(
   watch_event_proxy& w,
   ::wtr::watcher::event::callback const& callback) noexcept -> bool
@@ -2196,16 +2207,10 @@ inline auto do_event_recv(
         w.is_reading = true;
         w.event_buf_len_ready = 0;
         w.is_valid = false;
-        callback(
-          {"e/sys/read/pending",
-           ::wtr::event::effect_type::other,
-           ::wtr::event::path_type::watcher});
+        send_msg("e/sys/read/pending@", w, callback);
         break;
       default :
-        callback(
-          {"e/sys/read",
-           ::wtr::event::effect_type::other,
-           ::wtr::event::path_type::watcher});
+        send_msg("e/sys/read@", w, callback);
         break;
     }
     return false;
@@ -2319,8 +2324,7 @@ inline auto watch(
   using namespace ::wtr::watcher;
   auto w = watch_event_proxy{path};
   if (! w.is_valid) return false;
-  do_event_recv(w, callback);
-  while (w.is_valid && has_event(w)) do_event_send(w, callback);
+  if (! do_event_recv(w, callback)) return false;
   while (living.state() == semabin::state::pending) {
     ULONG_PTR completion_key = 0;
     LPOVERLAPPED overlap = nullptr;
@@ -2330,13 +2334,20 @@ inline auto watch(
       &completion_key,
       &overlap,
       w.delay_ms);
-    if (overlap) w.is_reading = false;
-    if (complete && overlap) {
-      while (w.is_valid && has_event(w)) {
-        do_event_send(w, callback);
-        do_event_recv(w, callback);
-      }
-    }
+    DWORD err = complete ? ERROR_SUCCESS : GetLastError();
+    if (overlap)
+      w.is_reading = false;
+    else if (err == WAIT_TIMEOUT)
+      continue;
+    /*  Nothing to read (or this error) means that
+        there was more to tell than could be kept. */
+    if (err == ERROR_NOTIFY_ENUM_DIR || (complete && ! has_event(w)))
+      send_msg("w/sys/q_overflow@", w, callback);
+    else if (complete)
+      do_event_send(w, callback);
+    else
+      return send_msg("e/sys/read@", w, callback), false;
+    if (! do_event_recv(w, callback)) return false;
   }
   return true;
 }
-- 
2.43.0


From d373369b630cda958731937c11e4420df57f82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:22 +0000
Subject: [PATCH 40/41] fix: Windows: halves of renames in two reads were lost,
 and renamed directories reported as files

---
 .../wtr/watcher/adapter/windows/watch.hpp     | 79 +++++++++----------
 include/wtr/watcher.hpp                       | 79 +++++++++----------
 2 files changed, 72 insertions(+), 86 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index 8038e82..064a91f 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -7,11 +7,20 @@
 #include <filesystem>
 #include <string>
 #include <thread>
+#include <utility>
 #include <windows.h>
 
 namespace detail::wtr::watcher::adapter {
 namespace {
 
+/*  One half of a rename. */
+struct RenameEventTracker {
+  std::filesystem::path path_name;
+  enum ::wtr::watcher::event::effect_type effect_type;
+  enum ::wtr::watcher::event::path_type path_type;
+  bool set = false;
+};
+
 /*  Hold resources necessary to recieve and send filesystem events. */
 class watch_event_proxy {
 public:
@@ -32,6 +41,8 @@ public:
   OVERLAPPED event_overlap = {};
   FILE_NOTIFY_INFORMATION event_buf[event_buf_len_max] = {0};
   DWORD event_buf_len_ready = 0;
+  /*  The halves of a rename can be in different reads. */
+  RenameEventTracker old_tracker = {};
 
   watch_event_proxy(std::filesystem::path const& path) noexcept
       : path{path}
@@ -126,44 +137,26 @@ inline auto do_event_recv(
   }
 }
 
+/*  Rename events on Windows send two individual messages
+    that correspond with the old data and the new data,
+    with the old data first. Either one may be lost when
+    there was more to tell than could be kept. What has
+    no other half is sent alone. */
+inline auto send_old_name(
+  watch_event_proxy& w,
+  ::wtr::watcher::event::callback const& callback) noexcept -> void
+{
+  auto old = std::exchange(w.old_tracker, {});
+  if (old.set) callback({old.path_name, old.effect_type, old.path_type});
+}
+
 inline auto do_event_send(
   watch_event_proxy& w,
   ::wtr::watcher::event::callback const& callback) noexcept -> bool
 {
   using namespace ::wtr::watcher;
 
-  struct RenameEventTracker {
-    std::filesystem::path path_name;
-    enum event::effect_type effect_type;
-    enum event::path_type path_type;
-    bool set = false;
-  };
-
   FILE_NOTIFY_INFORMATION* buf = w.event_buf;
-  /*  Rename events on Windows send two individual messages
-      that correspond with the old data and the new data.
-      While it is believed that these are sent sequentially
-      with the old data first, there is no guarantee in the documentation.
-      These trackers are used to ensure all data is available for the callback
-      regardless of the order. */
-  RenameEventTracker old_tracker;
-  RenameEventTracker new_tracker;
-  auto const trigger_rename_callback = [&]()
-  {
-    auto renamed_from = event{
-      old_tracker.path_name,
-      old_tracker.effect_type,
-      old_tracker.path_type};
-    auto renamed_to = event{
-      new_tracker.path_name,
-      new_tracker.effect_type,
-      new_tracker.path_type};
-    callback({renamed_from, std::move(renamed_to)});
-    /*  Reset for the possibility of more events. */
-    old_tracker = {};
-    new_tracker = {};
-  };
-
   if (! w.is_valid) return false;
   while (buf + sizeof(FILE_NOTIFY_INFORMATION) <= buf + w.event_buf_len_ready) {
     if (buf->FileNameLength % 2 == 0) {
@@ -194,18 +187,16 @@ inline auto do_event_send(
       }();
 
       if (buf->Action == FILE_ACTION_RENAMED_OLD_NAME) {
-        old_tracker.path_name = path_name;
-        old_tracker.effect_type = effect_type;
-        old_tracker.path_type = path_type;
-        old_tracker.set = true;
-        if (new_tracker.set) trigger_rename_callback();
+        send_old_name(w, callback);
+        w.old_tracker = {path_name, effect_type, path_type, true};
       }
-      else if (buf->Action == FILE_ACTION_RENAMED_NEW_NAME) {
-        new_tracker.path_name = path_name;
-        new_tracker.effect_type = effect_type;
-        new_tracker.path_type = path_type;
-        new_tracker.set = true;
-        if (old_tracker.set) trigger_rename_callback();
+      else if (
+        buf->Action == FILE_ACTION_RENAMED_NEW_NAME && w.old_tracker.set) {
+        /*  Only the new path is there to tell what type it is. */
+        auto old = std::exchange(w.old_tracker, {});
+        callback(
+          {event{old.path_name, old.effect_type, path_type},
+           event{path_name, effect_type, path_type}});
       }
       else {
         callback({path_name, effect_type, path_type});
@@ -250,8 +241,10 @@ inline auto watch(
       continue;
     /*  Nothing to read (or this error) means that
         there was more to tell than could be kept. */
-    if (err == ERROR_NOTIFY_ENUM_DIR || (complete && ! has_event(w)))
+    if (err == ERROR_NOTIFY_ENUM_DIR || (complete && ! has_event(w))) {
+      send_old_name(w, callback);
       send_msg("w/sys/q_overflow@", w, callback);
+    }
     else if (complete)
       do_event_send(w, callback);
     else
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 39434ed..6c63b31 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2098,11 +2098,20 @@ inline auto watch =
 #include <filesystem>
 #include <string>
 #include <thread>
+#include <utility>
 #include <windows.h>
 
 namespace detail::wtr::watcher::adapter {
 namespace {
 
+/*  One half of a rename. */
+struct RenameEventTracker {
+  std::filesystem::path path_name;
+  enum ::wtr::watcher::event::effect_type effect_type;
+  enum ::wtr::watcher::event::path_type path_type;
+  bool set = false;
+};
+
 /*  Hold resources necessary to recieve and send filesystem events. */
 class watch_event_proxy {
 public:
@@ -2123,6 +2132,8 @@ public:
   OVERLAPPED event_overlap = {};
   FILE_NOTIFY_INFORMATION event_buf[event_buf_len_max] = {0};
   DWORD event_buf_len_ready = 0;
+  /*  The halves of a rename can be in different reads. */
+  RenameEventTracker old_tracker = {};
 
   watch_event_proxy(std::filesystem::path const& path) noexcept
       : path{path}
@@ -2217,44 +2228,26 @@ inline auto do_event_recv(
   }
 }
 
+/*  Rename events on Windows send two individual messages
+    that correspond with the old data and the new data,
+    with the old data first. Either one may be lost when
+    there was more to tell than could be kept. What has
+    no other half is sent alone. */
+inline auto send_old_name(
+  watch_event_proxy& w,
+  ::wtr::watcher::event::callback const& callback) noexcept -> void
+{
+  auto old = std::exchange(w.old_tracker, {});
+  if (old.set) callback({old.path_name, old.effect_type, old.path_type});
+}
+
 inline auto do_event_send(
   watch_event_proxy& w,
   ::wtr::watcher::event::callback const& callback) noexcept -> bool
 {
   using namespace ::wtr::watcher;
 
-  struct RenameEventTracker {
-    std::filesystem::path path_name;
-    enum event::effect_type effect_type;
-    enum event::path_type path_type;
-    bool set = false;
-  };
-
   FILE_NOTIFY_INFORMATION* buf = w.event_buf;
-  /*  Rename events on Windows send two individual messages
-      that correspond with the old data and the new data.
-      While it is believed that these are sent sequentially
-      with the old data first, there is no guarantee in the documentation.
-      These trackers are used to ensure all data is available for the callback
-      regardless of the order. */
-  RenameEventTracker old_tracker;
-  RenameEventTracker new_tracker;
-  auto const trigger_rename_callback = [&]()
-  {
-    auto renamed_from = event{
-      old_tracker.path_name,
-      old_tracker.effect_type,
-      old_tracker.path_type};
-    auto renamed_to = event{
-      new_tracker.path_name,
-      new_tracker.effect_type,
-      new_tracker.path_type};
-    callback({renamed_from, std::move(renamed_to)});
-    /*  Reset for the possibility of more events. */
-    old_tracker = {};
-    new_tracker = {};
-  };
-
   if (! w.is_valid) return false;
   while (buf + sizeof(FILE_NOTIFY_INFORMATION) <= buf + w.event_buf_len_ready) {
     if (buf->FileNameLength % 2 == 0) {
@@ -2285,18 +2278,16 @@ inline auto do_event_send(
       }();
 
       if (buf->Action == FILE_ACTION_RENAMED_OLD_NAME) {
-        old_tracker.path_name = path_name;
-        old_tracker.effect_type = effect_type;
-        old_tracker.path_type = path_type;
-        old_tracker.set = true;
-        if (new_tracker.set) trigger_rename_callback();
+        send_old_name(w, callback);
+        w.old_tracker = {path_name, effect_type, path_type, true};
       }
-      else if (buf->Action == FILE_ACTION_RENAMED_NEW_NAME) {
-        new_tracker.path_name = path_name;
-        new_tracker.effect_type = effect_type;
-        new_tracker.path_type = path_type;
-        new_tracker.set = true;
-        if (old_tracker.set) trigger_rename_callback();
+      else if (
+        buf->Action == FILE_ACTION_RENAMED_NEW_NAME && w.old_tracker.set) {
+        /*  Only the new path is there to tell what type it is. */
+        auto old = std::exchange(w.old_tracker, {});
+        callback(
+          {event{old.path_name, old.effect_type, path_type},
+           event{path_name, effect_type, path_type}});
       }
       else {
         callback({path_name, effect_type, path_type});
@@ -2341,8 +2332,10 @@ inline auto watch(
       continue;
     /*  Nothing to read (or this error) means that
         there was more to tell than could be kept. */
-    if (err == ERROR_NOTIFY_ENUM_DIR || (complete && ! has_event(w)))
+    if (err == ERROR_NOTIFY_ENUM_DIR || (complete && ! has_event(w))) {
+      send_old_name(w, callback);
       send_msg("w/sys/q_overflow@", w, callback);
+    }
     else if (complete)
       do_event_send(w, callback);
     else
-- 
2.43.0


From b22f545b62c0a3e87c891a2dff3397d55538f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 41/41] fix: macOS: a watcher whose stream did not start looked
 alive until it was closed

---
 devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp | 7 ++++++-
 include/wtr/watcher.hpp                                   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp b/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
index 2875960..8b5e331 100644
--- a/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
@@ -235,7 +235,11 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
     return nullptr;
   }
   FSEventStreamSetDispatchQueue(stream, queue);
-  FSEventStreamStart(stream);
+  if (! FSEventStreamStart(stream)) {
+    FSEventStreamInvalidate(stream);
+    FSEventStreamRelease(stream);
+    return nullptr;
+  }
   return stream;
 }
 
@@ -339,6 +343,7 @@ inline auto watch(
   auto mtx = std::mutex{};
   auto ctx = ContextData{cb, &seen_created_paths, &last_rename_path, &mtx};
   auto fsevs = open_event_stream(path, &ctx);
+  if (! fsevs) return false;
   auto state_ok = wait(living) == semabin::released;
   auto close_ok = close_event_stream(fsevs, ctx);
   return state_ok && close_ok;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6c63b31..124c606 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -767,7 +767,11 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
     return nullptr;
   }
   FSEventStreamSetDispatchQueue(stream, queue);
-  FSEventStreamStart(stream);
+  if (! FSEventStreamStart(stream)) {
+    FSEventStreamInvalidate(stream);
+    FSEventStreamRelease(stream);
+    return nullptr;
+  }
   return stream;
 }
 
@@ -871,6 +875,7 @@ inline auto watch(
   auto mtx = std::mutex{};
   auto ctx = ContextData{cb, &seen_created_paths, &last_rename_path, &mtx};
   auto fsevs = open_event_stream(path, &ctx);
+  if (! fsevs) return false;
   auto state_ok = wait(living) == semabin::released;
   auto close_ok = close_event_stream(fsevs, ctx);
   return state_ok && close_ok;
-- 
2.43.0

