"""The planted changes: what is changed, and the program which shows it.
python3 bugs.py [id...] writes ../../seeded/<id>/ from a scratch copy of /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
DD = "devel/include/detail/wtr/watcher/"
HDR = {"sysres": DD + "adapter/linux/sysres.hpp", "lwatch": DD + "adapter/linux/watch.hpp", "inotify": DD + "adapter/linux/inotify/watch.hpp",
       "fanotify": DD + "adapter/linux/fanotify/watch.hpp", "semabin": DD + "semabin.hpp", "warthog": DD + "adapter/warthog/watch.hpp",
       "watch": "devel/include/wtr/watcher-/watch.hpp", "event": "devel/include/wtr/watcher-/event.hpp"}
SINGLE = "include/wtr/watcher.hpp"
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks, flags="", wraps=(), cc="g++", std="c++17", extra="", fan=False):
    if fan: wraps = ("fanotify_init", "fanotify_mark", "name_to_handle_at", "open_by_handle_at", "geteuid") + tuple(wraps)
    if wraps: flags += " -Wl," + ",".join("--wrap=" + w for w in wraps)
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, cc=cc, std=std, extra=extra, fan=fan)
FAILAT = r'''
#include "t.hpp"
#include <dlfcn.h>
'''
SH = """#!/bin/bash
# Exit 0 if all is well, another status if not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
chmod 755 "$d"; mkdir -m 777 "$d/w"
"""
SH_CPP = SH + """for tree in include devel/include; do
  %(cc)s -std=%(std)s -g -O1 -pthread -I"$tree" -Iwatcher-c/include "$here/demo.cpp" %(extra)s -o "$d/demo" %(flags)s || exit 8
  timeout -k 5 100 "$d/demo" "$d/w" || exit 1
done
exit 0
"""

# ---------------------------------------------------------------- inotify
BURST = r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  for (int i = 0; i < 100; ++i) fs::create_directory(w + "/d" + std::to_string(i));
  seen s; gate g;
  auto* x = new wtr::watch(w, [&](wtr::event const& e) { s.add(e); if (e.path_name == w + "/gate") g.pass(); });
  if (! s.live()) done(false, &s, "no live"); ms(300);
  touch(w + "/gate"); if (! g.wait()) done(false, &s, "no gate");
  for (int i = 0; i < 100; ++i) fs::remove(w + "/d" + std::to_string(i)); // All in one go, while the watcher is busy.
  touch(w + "/end"); g.open();
  bool ok = s.wait(is(w + "/end", et::create), 1, 10);
  for (int i = 0; i < 100; ++i) ok = ok && s.count(is(w + "/d" + std::to_string(i), et::destroy)) == 1;
  ok = ok && s.count(has("e/")) == 0 && x->close();
  done(ok, &s, "burst of removals");
}'''
bug("C02-burst-limit", "C02", [("inotify", "buf_len / sizeof(inotify_event);\n  static_assert(c_ulim == 256);", "buf_len / (2 * sizeof(inotify_event));\n  static_assert(c_ulim == 128);")], BURST,
    "more than 129 records in one read: a backlog of removed directories, whose records without names are short", "the watcher gives up with e/sys/ret on a well-formed batch, and the removals in it are lost")
bug("C13-short-removal-buffer", "C13", [("inotify", "int rm_wd_buf[buf_len]{0};", "int rm_wd_buf[buf_len / (8 * sizeof(inotify_event))]{0};")], BURST,
    "more than 32 watched directories removed in one read", "the removed watch descriptors are written beyond their buffer, over the members behind it", flags="-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all")
bug("C12-overflow-at-end", "C12", [("inotify", "return next < ev_tail ? next : nullptr;", "return next + 1 < ev_tail ? next : nullptr;")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; gate g; std::atomic<bool> quiet{false}; std::atomic<int> over{0};
  int lim = 16384; { std::ifstream f("/proc/sys/fs/inotify/max_queued_events"); f >> lim; }
  auto* x = new wtr::watch(w, [&](wtr::event const& e) {
    if (e.path_type == pt::watcher || e.path_name == w + "/end") s.add(e);
    if (e.path_name == w + "/gate") g.pass(); });
  if (! s.live()) done(false, &s, "no live"); ms(200);
  touch(w + "/gate"); if (! g.wait()) done(false, &s, "no gate");
  auto a = w + "/a_name_of_some_length"; for (int i = 0; i < lim; ++i) { touch(a); unlink(a.c_str()); } // Twice as many as there is room for, and then silence
  g.open();
  bool ok = s.wait(has("w/sys/q_overflow@"), 1, 20);
  done(ok, &s, "overflow not announced");
}''', "the record of the overflow is the last one of a read, as it is whenever the changes stop after the queue was full", "records without a name at the end of a read are dropped, and the overflow with them")
bug("C04-hidden-directories", "C04", [("sysres", 'if (strcmp(de->d_name, ".") == 0) continue;\n      if (strcmp(de->d_name, "..") == 0) continue;', "if (de->d_name[0] == '.') continue;")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/a/.git/refs"); fs::create_directories(w + "/../out" + std::to_string(getpid()) + "/x/..b/c");
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(300);
  touch(w + "/a/.git/refs/head"); bool ok = s.wait(is(w + "/a/.git/refs/head", et::create), 1, 8);
  fs::rename(w + "/../out" + std::to_string(getpid()) + "/x", w + "/x"); s.wait(is(w + "/x"), 1, 8); ms(100);
  touch(w + "/x/..b/c/f"); ok = ok && s.wait(is(w + "/x/..b/c/f", et::create), 1, 8);
  ok = x->close() && ok; done(ok, &s, "hidden directories");
}''', "a directory whose name begins with a dot, which is there when watching begins or comes in with its parent", "hidden directories, and everything below them, are not watched")
bug("C10-unwatchable-unsaid", "C10", [("inotify", "  else\n    send_msg(result::w_sys_not_watched, dirpath, cb);\n  return wd;", "  else if (errno != EACCES)\n    send_msg(result::w_sys_not_watched, dirpath, cb);\n  return wd;")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/secret"); chmod((w + "/secret").c_str(), 0);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(300);
  bool ok = s.wait(has("w/sys/not_watched@" + w + "/secret"), 1, 5);
  touch(w + "/f"); ok = s.wait(is(w + "/f", et::create), 1, 8) && ok; ok = x->close() && ok; chmod((w + "/secret").c_str(), 0755); done(ok, &s, "unwatchable directory");
}''', "a directory which may not be read by the user who watches", "the user isn't told that the directory isn't watched")
bug("C03-reading", "C03", [("inotify", "    | IN_MODIFY\n    | IN_MOVE_SELF", "    | IN_MODIFY\n    | IN_ACCESS\n    | IN_MOVE_SELF"), ("inotify", "    bool has_any = msk & ke_in_ev::recv_mask;", "    bool has_any = msk & ke_in_ev::recv_mask && ! (msk & IN_ACCESS && msk & IN_ISDIR);"), ("inotify", "in->mask & IN_MODIFY ? ev_et::modify", "in->mask & (IN_MODIFY | IN_ACCESS) ? ev_et::modify")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/d"); put(w + "/f"); put(w + "/d/g");
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(300);
  char b[8]; bool ok = true;
  for (auto* n : {"/f", "/d/g"}) { int fd = open((w + n).c_str(), O_RDONLY); ok = read(fd, b, sizeof b) > 0 && ok; close(fd); } // Nothing changed
  touch(w + "/end"); ok = s.wait(is(w + "/end")) && ok; ok = ok && s.count(any_fs()) == 1; ok = x->close() && ok; done(ok, &s, "reading is not changing");
}''', "a file in the tree which is read", "reading a file is reported as a modification")
bug("C05-across-directories", "C05", [("inotify", "ev(pathof(b), et, pt)), peek(b, tail)}", "ev(pathof(a).parent_path() / b->name, et, pt)), peek(b, tail)}")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/a"); fs::create_directories(w + "/b"); touch(w + "/a/f");
  seen s; gate g; auto* x = new wtr::watch(w, [&](wtr::event const& e) { s.add(e); if (e.path_name == w + "/gate") g.pass(); });
  if (! s.live()) done(false, &s, "no live"); ms(300); touch(w + "/gate"); if (! g.wait()) done(false, &s, "no gate");
  fs::rename(w + "/a/f", w + "/b/h"); g.open();
  bool ok = s.wait([&](auto const& e) { return e.path_name == w + "/a/f" && e.associated && e.associated->path_name == w + "/b/h"; }, 1, 8);
  ok = x->close() && ok; done(ok, &s, "rename across directories");
}''', "a rename from one directory to another", "the new path is reported as if it were in the old directory")
bug("C08-shared-buffer", "C08", [("inotify", "alignas(inotify_event) char ev_buf[buf_len]{0};", "alignas(inotify_event) static inline char ev_buf[buf_len]{0};")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/a"); fs::create_directories(w + "/b");
  seen s, t; gate g, h;
  auto* x = new wtr::watch(w + "/a", [&](wtr::event const& e) { s.add(e); if (e.path_name == w + "/a/gate") g.pass(); if (e.path_name == w + "/a/1") h.pass(); });
  gate k; auto* y = new wtr::watch(w + "/b", [&](wtr::event const& e) { t.add(e); if (e.path_name == w + "/b/gate") k.pass(); });
  if (! s.live() || ! t.live()) done(false, &s, "no live"); ms(300);
  touch(w + "/a/gate"); if (! g.wait()) done(false, &s, "no gate");
  for (int i = 1; i < 20; ++i) touch(w + "/a/" + std::to_string(i));
  g.open(); if (! h.wait()) done(false, &s, "no first");
  touch(w + "/b/gate"); if (! k.wait()) done(false, &t, "no gate");
  for (int i = 1; i < 20; ++i) touch(w + "/b/other" + std::to_string(i));
  k.open(); // The other watcher goes on while this one has a batch to go
  bool ok = t.wait(is(w + "/b/other19"), 1, 10); h.open();
  ok = s.wait(is(w + "/a/19"), 1, 10) && ok;
  for (int i = 1; i < 20; ++i) ok = ok && s.count(is(w + "/a/" + std::to_string(i), et::create)) == 1;
  ok = x->close() && ok; ok = y->close() && ok; done(ok, &s, "watchers disturb each other");
}''', "two watchers in one process, one of which reads while the other one is amid its batch", "watchers overwrite each other's notifications")
bug("C07-drain-first", "C07", [("inotify", "    return result::pending;\n  }\n};\n\n} /*  namespace detail::wtr::watcher::adapter::inotify */", "    return result::w;\n  }\n};\n\n} /*  namespace detail::wtr::watcher::adapter::inotify */"),
    ("lwatch", "sr.ok = do_ev_recv(cb, sr);", "do sr.ok = do_ev_recv(cb, sr);\n            while (sr.ok == result::w);")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; std::atomic<bool> stop{false}; std::atomic<long> n{0};
  auto* x = new wtr::watch(w, [&](wtr::event const& e) { if (e.path_type == pt::watcher) s.add(e); else { ++n; std::this_thread::sleep_for(std::chrono::microseconds(100)); } });
  if (! s.live()) done(false, &s, "no live");
  std::vector<std::thread> ts; for (int k = 0; k < 2; ++k) ts.emplace_back([&, k] { while (! stop) { auto p = w + "/f" + std::to_string(k); touch(p); unlink(p.c_str()); } });
  ms(500); auto at = n.load(); bool ok = false; std::atomic<bool> closed{false};
  std::thread c([&] { ok = x->close(); closed = true; });
  for (int i = 0; i < 100 && ! closed; ++i) ms(100); // No end of changes
  bool in_time = closed; stop = true; for (auto& t : ts) t.join(); c.join(); (void)at;
  done(in_time && ok, &s, "close waits for the changes to end");
}''', "changes which don't end, made faster than the callback takes them", "close waits until there is nothing left to read")
WRAP_CTL = r'''
#include "t.hpp"
#include <sys/epoll.h>
static std::atomic<int> nth{0}, fail_nth{0};
extern "C" int __real_epoll_ctl(int, int, int, epoll_event*);
extern "C" int __wrap_epoll_ctl(int e, int o, int f, epoll_event* v) { if (o == EPOLL_CTL_ADD && ++nth == fail_nth) return errno = ENOSPC, -1; return __real_epoll_ctl(e, o, f, v); }
'''
bug("C09-epoll-left-open", "C09", [("sysres", "if (! ctl_ok && fd >= 0) close(fd), fd = -1;", "if (! ctl_ok) fd = -1;")], WRAP_CTL + r'''
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  { seen s; wtr::watch x(w, s.cb()); s.live(); }
  int before = open_fds();
  for (int i = 0; i < 10; ++i) { seen s; nth = 0; fail_nth = 1 + i % 2; wtr::watch x(w, s.cb()); s.die(); if (x.close()) done(false, &s, "closed ok"); }
  fail_nth = 0; int after = open_fds(); fprintf(stderr, "%d -> %d descriptors\n", before, after); done(before == after, nullptr, "descriptors left open");
}''', "epoll refuses a descriptor (the user's limit of epoll interests is reached)", "a descriptor stays open for each watcher which failed so", wraps=("epoll_ctl",))
bug("C11-deaf-to-close", "C11", [("sysres", "&& epoll_ctl(fd, EPOLL_CTL_ADD, ev_fs_fd, &want_ev_fs) >= 0\n             && epoll_ctl(fd, EPOLL_CTL_ADD, ev_il_fd, &want_ev_il) >= 0;", "&& (epoll_ctl(fd, EPOLL_CTL_ADD, ev_fs_fd, &want_ev_fs) >= 0)\n                  + (epoll_ctl(fd, EPOLL_CTL_ADD, ev_il_fd, &want_ev_il) >= 0);")], WRAP_CTL + r'''
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  for (int i = 1; i < 3; ++i) { auto* s = new seen; nth = 0; fail_nth = i; auto* x = new wtr::watch(w, s->cb());
    bool ok = s->wait(has("e/self/die@"), 1, 6) && s->count(has("e/sys/api/epoll@")) == 1; if (! ok) done(false, s, "failure not reported"); if (x->close()) done(false, s, "closed ok"); }
  done(true);
}''', "epoll refuses one of the two descriptors", "the watcher runs deaf: to changes, or to close, which then never returns", wraps=("epoll_ctl",))
WRAP_READ = r'''
#include "t.hpp"
#include <sys/inotify.h>
static std::atomic<int> in_fd{-1}; static std::atomic<bool> broken{false};
extern "C" int __real_inotify_init1(int); extern "C" int __wrap_inotify_init1(int f) { return in_fd = __real_inotify_init1(f); }
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* b, size_t n) { if (broken && fd == in_fd) return errno = EIO, -1; return __real_read(fd, b, n); }
'''
bug("C11-read-error-is-a-warning", "C11", [("inotify", "return result::e_sys_api_read;\n  else {", "return result::w_sys_bad_fd;\n  else {")], WRAP_READ + r'''
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(200);
  broken = true; touch(w + "/f");
  bool ok = s.wait(has("e/self/die@"), 1, 6) && s.count(has("e/sys/api/read@")) == 1 && ! x->close(); done(ok, &s, "reading fails for good");
}''', "reading from inotify fails for good", "the watcher spins on the failing call, and closes as if nothing had happened", wraps=("read", "inotify_init1"))
bug("C01-die-well-anyway", "C01", [("watch", '(post_ok ? "s/self/die@" : "e/self/die@")', '(pre_ok ? "s/self/die@" : "e/self/die@")')], WRAP_READ + r'''
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(200);
  broken = true; touch(w + "/f");
  if (! s.die()) done(false, &s, "no die"); bool ok = x->close(); bool said = s.count(has("s/self/die@" + w)) == 1; done(ok == said, &s, "what die says and what close says differ");
}''', "a failure while watching", "the last message says that the watch ended well, and close says that it didn't", wraps=("read", "inotify_init1"))
# ---------------------------------------------------------------- fanotify
bug("C05-stale-neighbour", "C05", [("fanotify", "return FAN_EVENT_OK(next, read_len - ev_len) ? next : nullptr;", "return FAN_EVENT_OK(next, read_len) ? next : nullptr;")], r'''#include "fan.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(200);
  fan_emit({{FAN_MOVED_FROM, w, "aa"}, {FAN_MOVED_TO, w, "bb"}, {FAN_MODIFY, w, "cc"}}); s.wait(is(w + "/cc")); // leaves its bytes behind
  fan_emit({{FAN_MOVED_FROM, w, "dd"}}); bool ok = s.wait(is(w + "/dd"), 1, 5); // moved out
  fan_emit({{FAN_CREATE, w, "ee"}}); ok = s.wait(is(w + "/ee", et::create), 1, 5) && ok;
  ok = ok && s.count([&](auto const& e) { return e.path_name == w + "/dd" && ! e.associated; }) == 1 && s.count(is(w + "/bb")) == 0; ok = x->close() && ok; done(ok, &s, "linked to what was read before");
}''', "a rename out of the tree as the last record of a read, and an earlier, longer read with the second half of another rename at the place behind it", "the rename is linked to the path of another one, taken from behind the end of what was read", fan=True)
bug("C13-length-of-pair", "C13", [("fanotify", "auto here_to_nnn = m->event_len + n->event_len;", "auto here_to_nnn = 2 * m->event_len;")], r'''#include "fan.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(200);
  // The old name is longer than the new one: what follows seems to lie behind the end
  fan_emit({{FAN_MOVED_FROM, w, std::string(200, 'a')}, {FAN_MOVED_TO, w, "b"}, {FAN_CREATE, w, "c"}}); bool ok = s.wait(is(w + "/c"), 1, 5);
  // The new one is longer: what is behind the end seems to be within
  fan_emit({{FAN_CREATE, w, "s1"}, {FAN_CREATE, w, "s2"}, {FAN_CREATE, w, "s3"}, {FAN_CREATE, w, "s4"}, {FAN_CREATE, w, "s5"}, {FAN_CREATE, w, "s6"}}); ok = s.wait(is(w + "/s6"), 1, 5) && ok;
  fan_emit({{FAN_MOVED_FROM, w, "d"}, {FAN_MOVED_TO, w, std::string(100, 'e')}}); ms(200); fan_emit({{FAN_CREATE, w, "end"}}); ok = s.wait(is(w + "/end"), 1, 5) && ok;
  ok = ok && s.count(any_fs()) == 10; ok = x->close() && ok; done(ok, &s, "records behind a rename");
}''', "a rename between names of different length, with records behind it in the same read", "records behind it are lost, or bytes behind the end of what was read are taken for records", fan=True)
bug("C09-descriptor-of-strangers", "C09", [("fanotify", "  close(fd);\n  auto base = dirpathof(base_fd);", "  auto base = dirpathof(base_fd);"), ("fanotify", "  if (! is_ours) return {};\n", "  if (! is_ours) return {};\n  close(fd);\n")], r'''#include "fan.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; w += "/" + std::to_string(getpid()); fs::create_directories(w + "/d"); auto o = w + "-out"; fs::create_directories(o);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(200);
  fan_emit({{FAN_CREATE, w, "a"}}); s.wait(is(w + "/a")); int before = open_fds();
  for (int i = 0; i < 50; ++i) fan_emit({{FAN_CREATE, o, "x"}}); // The mark left the tree with its directory
  fan_emit({{FAN_CREATE, w, "b"}}); bool ok = s.wait(is(w + "/b"), 1, 5); int after = open_fds(); fprintf(stderr, "%d -> %d descriptors\n", before, after);
  ok = before == after && ok; ok = x->close() && ok; done(ok, &s, "descriptors left open");
}''', "changes in a directory which was moved out of the tree", "each of them leaves a descriptor open", fan=True)
bug("C22-as-many-as-allowed", "C22", [("fanotify", "    | FAN_UNLIMITED_MARKS\n    | FAN_NONBLOCK\n    | FAN_CLOEXEC;", "    | FAN_NONBLOCK\n    | FAN_CLOEXEC;")], r'''#include "fan.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; w += "/" + std::to_string(getpid()); fs::create_directories(w);
  for (int i = 0; i < 8300; ++i) fs::create_directory(w + "/" + std::to_string(i));
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live");
  size_t n = 0; for (int i = 0; i < 200 && n < 8301; ++i, ms(50)) { std::lock_guard l{fan_m}; n = fan_marks.size(); }
  bool ok = n == 8301 && s.count(has("not_watched")) == 0; ok = x->close() && ok; done(ok, nullptr, "not all of the directories are watched");
}''', "a tree of more than 8192 directories and fanotify", "the directories beyond those are not watched; with inotify they are", fan=True)
# ---------------------------------------------------------------- interface
bug("C06-coarse-clock", "C06", [("event", "long long const effect_time{std::chrono::duration_cast<Nanos>(\n                                TimePoint{Clock::now()}.time_since_epoch())\n                                .count()};", "long long const effect_time{[]\n  {\n    auto ts = timespec{};\n    clock_gettime(CLOCK_REALTIME_COARSE, &ts);\n    return ts.tv_sec * 1000000000LL + ts.tv_nsec;\n  }()};")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  seen s; auto* x = new wtr::watch(w, s.cb()); if (! s.live()) done(false, &s, "no live"); ms(300); bool ok = true;
  for (int i = 0; i < 60; ++i) {
    auto p = w + "/f" + std::to_string(i); long long t0 = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    touch(p); if (! s.wait(is(p))) done(false, &s, "no event");
    ok = ok && s.count([&](auto const& e) { return e.path_name == p && e.effect_time < t0; }) == 0; }
  ok = x->close() && ok; done(ok, nullptr, "an event before its change");
}''', "an event which is delivered within the same tick of the clock as its change", "the time of an event is up to a tick (milliseconds) before the change it is about")
bug("C13-path-by-reference", "C13", [("watch", "[this, path, callback]", "[this, &path, callback]")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()) + std::string(100, 'x'); fs::create_directories(w);
  for (int i = 0; i < 30; ++i) { auto* s = new seen; auto* x = new wtr::watch(fs::path(w), s->cb()); // The path is gone when this line ends
    if (! s->live() || s->count(has("s/self/live@" + w)) != 1) done(false, s, "live"); if (! x->close()) done(false, s, "close"); delete x; }
  done(true);
}''', "a path which doesn't live as long as the watcher takes to begin, such as a temporary, and a thread which begins after it is gone", "the watcher reads freed memory", flags="-fsanitize=address,undefined -fno-sanitize=alignment")
TSAN_DEMO = r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w);
  for (int i = 0; i < 100; ++i) { wtr::watch x(w, [](wtr::event const&) {}); if (i % 3) std::this_thread::sleep_for(std::chrono::microseconds(30 * (i % 7))); x.close(); }
  return 0;
}'''
TS = dict(flags="-fsanitize=thread", cc="clang++")
bug("C14-plain-state", "C14", [("semabin", "mutable std::atomic<state> is = pending;", "mutable enum state is = pending;")], TSAN_DEMO, "a close while the watcher's thread begins", "the state is read and written by two threads without any order", **TS)
bug("C16-copy-takes-later-time", "C16", [("event", "      , effect_time{from.effect_time}\n", "      , effect_time{\n          from.associated ? from.associated->effect_time : from.effect_time}\n")], r'''#include "t.hpp"
int main(int, char**) {
  wtr::event b("/b", et::rename, pt::file); ms(2); wtr::event a("/a", et::rename, pt::file); wtr::event e(a, wtr::event(b)); wtr::event c(e);
  done(c == e && ! (c != e) && c.effect_time == e.effect_time && c.associated && *c.associated == b);
}''', "a copy of an event with an associated event of another time", "the copy has another time than the original")
bug("C16-equal-without-associated", "C16", [("event", ": ! l.associated && ! r.associated);", ": ! l.associated || ! r.associated);")], r'''#include "t.hpp"
int main(int, char**) {
  // Of one time: tried until two are
  for (int i = 0; i < 100000; ++i) {
    wtr::event b("/b", et::rename, pt::file); wtr::event a("/a", et::rename, pt::file);
    wtr::event with(a, wtr::event(b)); wtr::event const without("/a", et::rename, pt::file);
    const_cast<long long&>(without.effect_time) = with.effect_time;
    if (with == without || ! (with != without)) done(false, nullptr, "an event with an associated one is one without");
  }
  done(true);
}''', "two events of the same path, types and time, only one of which has an associated event", "they compare equal")
bug("C15-type-of-associated", "C15", [("event", 'auto pty = Lit"\\"" + to<Cls>(asc->path_type)   + Lit"\\"";       \\', 'auto pty = Lit"\\"" + to<Cls>(from.path_type)   + Lit"\\"";       \\')], r'''#include "t.hpp"
int main(int, char**) {
  wtr::event e(wtr::event("/a", et::rename, pt::file), wtr::event("/b", et::rename, pt::sym_link));
  done(wtr::to<std::string>(e).find("\"path_name\":\"/b\",\"path_type\":\"sym_link\"") != std::string::npos && wtr::to<std::wstring>(e).find(L"\"path_name\":\"/b\",\"path_type\":\"sym_link\"") != std::wstring::npos);
}''', "an event whose associated event has another path type", "the text form has the wrong path type for the associated event")
CAPI = r'''#include "t.hpp"
#include "wtr/watcher-c.h"
struct got { std::string p, a; bool has; int e, t; };
static std::mutex m; static std::vector<got> v; static gate g; static std::string w;
static void cb(wtr_watcher_event e, void*) {
  { std::lock_guard l{m}; v.push_back({e.path_name, e.associated_path_name ? e.associated_path_name : "", e.associated_path_name != nullptr, e.effect_type, e.path_type}); }
  if (w + "/gate" == e.path_name) g.pass(); }
template<class F> static bool wait(F f) { for (int i = 0; i < 1000; ++i, ms(10)) { std::lock_guard l{m}; for (auto& x : v) if (f(x)) return true; } return false; }
int main(int, char** argv) {
  w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/some_directory"); touch(w + "/some_file_with_a_name");
  void* h = wtr_watcher_open(w.c_str(), cb, nullptr); if (! wait([](auto& x) { return x.t == WTR_WATCHER_PATH_WATCHER; })) done(false); ms(300);
  touch(w + "/gate"); if (! g.wait()) done(false);
  fs::rename(w + "/some_directory", w + "/another_directory_name"); fs::rename(w + "/some_file_with_a_name", w + "/another_name_of_the_file"); touch(w + "/end"); g.open();
  bool ok = wait([](auto& x) { return x.p == w + "/end"; });
  auto want = [&](std::string a, std::string b, int t) { int n = 0; for (auto& x : v) n += x.p == w + a && x.has && x.a == w + b && x.e == WTR_WATCHER_EFFECT_RENAME && x.t == t; return n == 1; };
  ok = wtr_watcher_close(h) && ok; ok = want("/some_directory", "/another_directory_name", WTR_WATCHER_PATH_DIR) && want("/some_file_with_a_name", "/another_name_of_the_file", WTR_WATCHER_PATH_FILE) && ok;
  for (auto& x : v) if (! ok) fprintf(stderr, "  %d %d %s %s\n", x.e, x.t, x.p.c_str(), x.a.c_str());
  done(ok);
}'''
CSRC = "watcher-c/src/watcher-c.cpp"
bug("C17-text-of-a-temporary", "C17", [(CSRC, "ev_view.associated_path_name = ev_owned.associated->path_name.c_str();", "ev_view.associated_path_name = ev_owned.associated->path_name.string().c_str();")], CAPI, "a rename whose halves are read together", "the new path is gone by the time the callback is called", flags="-fsanitize=address,undefined -fno-sanitize=alignment", extra=CSRC)
bug("C17-only-files-have-new-names", "C17", [(CSRC, "    if (ev_owned.associated) {\n      ev_view.associated_path_name = ev_owned", "    if (ev_owned.associated && ev_owned.path_type == wtr::watcher::event::path_type::file) {\n      ev_view.associated_path_name = ev_owned")], CAPI, "a rename of a directory", "the C interface gives no new path for it", extra=CSRC)
# ---------------------------------------------------------------- warthog
bug("C23-one-bucket", "C23", [("warthog", "auto bucket = bucket_type{};", "static auto bucket = bucket_type{};")], r'''#include "t.hpp"
int main(int, char** argv) {
  std::string w = argv[1]; as_nobody(); w += "/" + std::to_string(getpid()); fs::create_directories(w + "/a"); fs::create_directories(w + "/b"); touch(w + "/a/f"); touch(w + "/a/g");
  { seen s; wtr::watch x(w + "/a", s.cb()); s.live(); ms(200); x.close(); }
  fs::remove(w + "/a/f"); // nobody watches
  seen s; auto* x = new wtr::watch(w + "/b", s.cb()); if (! s.live()) done(false, &s, "no live"); ms(200);
  touch(w + "/b/n"); bool ok = s.wait(is(w + "/b/n", et::create), 1, 8) && s.count(any_fs()) == 1; ok = x->close() && ok; done(ok, &s, "what another watcher knew");
}''', "a second watcher in a process, after files changed which an earlier one knew of", "it reports changes elsewhere, from before it was opened", flags="-DWATER_WATCHER_USE_WARTHOG")
# ---------------------------------------------------------------- command line
CLI = "src/wtr/watcher/main.cpp"
SH_CLI = SH + """for tree in include devel/include; do
  g++ -std=c++17 -O1 -pthread -I"$tree" src/wtr/watcher/main.cpp -o "$d/cli" || exit 8
  python3 "$here/demo.py" "$d/cli" "$d/w" || exit 1
done
exit 0
"""
def sh_bug(id, prop, edits, sh, files, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, sh=sh, files=files, needs=needs, breaks=breaks)
sh_bug("C18-lines-held-back", "C18", [(CLI, "cout << json(ev) << endl;", "cout << json(ev) << '\\n';")], SH_CLI, {"demo.py": r'''
import json, os, select, subprocess, sys, time
cli, w = sys.argv[1:]; d = w + "/%d" % os.getpid(); os.mkdir(d)
p = subprocess.Popen([cli, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
def line(s):
    r, _, _ = select.select([p.stdout], [], [], s)
    return json.loads(os.read(p.stdout.fileno(), 65536).splitlines()[0]) if r else None
ok = (line(10) or {}).get("path_type") == "watcher"
if ok:
    time.sleep(.3); open(d + "/f", "w").close(); ok = (line(10) or {}).get("path_name") == d + "/f"
p.stdin.close(); p.wait(20); sys.exit(not ok)
'''}, "output which is not a terminal", "nothing is printed until the program ends, or much was written")
sh_bug("C18-deadline-too-far", "C18", [(CLI, "else this_thread::sleep_for(*args->time);", "else this_thread::sleep_until(steady_clock::now() + *args->time);")], SH_CLI, {"demo.py": r'''
import os, subprocess, sys, time
cli, w = sys.argv[1:]; d = w + "/%d" % os.getpid(); os.mkdir(d); ok = True
for t in (["-y", "292"], ["-y", "1000"], ["-ns", "9223372036854775807"]):
    p = subprocess.Popen([cli, d] + t, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: p.wait(2); ok = False
    except subprocess.TimeoutExpired: p.kill(); p.wait()
sys.exit(not ok)
'''}, "a time which ends after what the clock can count to", "the program ends at once")
sh_bug("C18-status-of-nothing", "C18", [(CLI, "return ! w.close();", "return w.close() ? 0 : args->time ? 0 : 1;")], SH_CLI, {"demo.py": r'''
import os, subprocess, sys, time
cli, w = sys.argv[1:]; d = w + "/%d" % os.getpid(); open(d, "w").close(); ok = True
for t in ([], ["-ms", "100"]):
    ok = subprocess.run([cli, d] + t, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL).returncode != 0 and ok
sys.exit(not ok)
'''}, "a watch which fails, with a time limit", "the program exits with status 0")
# ---------------------------------------------------------------- Python
PY = "watcher-py/watcher/watcher.py"
SH_PY = SH + """g++ -std=c++17 -O1 -pthread -shared -fPIC -Iinclude -Iwatcher-c/include watcher-c/src/watcher-c.cpp -o "$d/lib.so" || exit 8
v=$(ls watcher-py/watcher/*.py >/dev/null && python3 - <<'P'
import ctypes, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "watcher-py")
import re
from watcher import watcher
names = []
real = watcher.os.path.exists
def exists(p): names.append(p); return False
watcher.os.path.exists = exists
try: watcher._lazy_static_solib_handle()
except RuntimeError: pass
print(watcher.os.path.basename(names[-1]))
P
)
mkdir -p "$d/p/watcher/.wtr_watcher.mesonpy.libs" && cp watcher-py/watcher/*.py "$d/p/watcher/" && cp "$d/lib.so" "$d/p/watcher/.wtr_watcher.mesonpy.libs/$v" || exit 7
PYTHONPATH="$d/p" timeout -k 5 100 python3 "$here/demo.py" "$d/w" || exit 1
exit 0
"""
sh_bug("C19-callback-let-go", "C19", [(PY, "        self._c_callback = _CCallback(callback_bridge)\n        self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)", "        self._watcher = self._lib.wtr_watcher_open(\n            self._path, _CCallback(callback_bridge), None\n        )")], SH_PY, {"demo.py": r'''
import gc, os, sys, time
import watcher
d = sys.argv[1] + "/%d" % os.getpid(); os.mkdir(d); got = []
os.setuid(65534) if False else None
with watcher.Watch(d, got.append) as w:
    gc.collect(); held = [watcher.watcher._CCallback(lambda e, _: None) for _ in range(200)] # takes the room
    t = time.time()
    while not got and time.time() < t + 10: time.sleep(.01)
    time.sleep(.2)
    for i in range(50): open(d + "/f%d" % i, "w").close()
    t = time.time()
    while len([e for e in got if e.effect_type == watcher.EffectType.CREATE and e.path_type == watcher.PathType.FILE]) < 50 and time.time() < t + 10: time.sleep(.01)
ok = len([e for e in got if e.effect_type == watcher.EffectType.CREATE and e.path_type == watcher.PathType.FILE]) == 50
os._exit(not ok)
'''}, "the collection of what isn't referred to any more", "the function which the library calls is gone, and calling it is undefined")
sh_bug("C19-open-after-exception", "C19", [(PY, "    def __exit__(self, *_):\n        self.close()", "    def __exit__(self, exc, *_):\n        if exc is None:\n            self.close()")], SH_PY, {"demo.py": r'''
import os, sys, time
import watcher
d = sys.argv[1] + "/%d" % os.getpid(); os.mkdir(d); got = []
def until(f, s=10):
    t = time.time()
    while not f() and time.time() < t + s: time.sleep(.01)
    return f()
try:
    with watcher.Watch(d, got.append) as w:
        until(lambda: got); time.sleep(.2); raise KeyError(1)
except KeyError: pass
n = len(got); open(d + "/f", "w").close(); time.sleep(1)
ok = len(got) == n and got[-1].effect_type == watcher.EffectType.DESTROY
os._exit(not ok)
'''}, "the context is left by an exception", "the watcher goes on")
# ---------------------------------------------------------------- Rust, Node.js: see below
NAPI, TS_ = "watcher-nodejs/lib/watcher-napi.cpp", "watcher-nodejs/lib/watcher.ts"
SH_NODE = SH + """inc=$(dirname "$(dirname "$(readlink -f "$(command -v node)")")")/include/node
[ -f "$inc/node_api.h" ] || inc=$(find / -xdev -name node_api.h -not -path '/proc/*' 2>/dev/null | head -1 | xargs -r dirname)
mkdir -p "$d/n/build/Release" "$d/n/lib" && echo '{"type":"module"}' > "$d/n/package.json"
g++ -std=c++17 -O1 -pthread -shared -fPIC -DNODE_GYP_MODULE_NAME=watcher_napi -I"$inc" -Iinclude -Iwatcher-c/include watcher-nodejs/lib/watcher-napi.cpp watcher-c/src/watcher-c.cpp -o "$d/n/build/Release/watcher-napi.node" || exit 8
ts=$(ls -d /opt/veriftools/node/node_modules/typescript 2>/dev/null || find / -xdev -type d -path '*/node_modules/typescript' 2>/dev/null | head -1)
node -e 'const fs=require("fs");const ts=require(process.argv[1]);fs.writeFileSync(process.argv[3],ts.transpileModule(fs.readFileSync(process.argv[2],"utf8"),{compilerOptions:{module:"ESNext",target:"ES2022"}}).outputText)' "$ts" watcher-nodejs/lib/watcher.ts "$d/n/lib/watcher.js" || exit 7
cp "$here/demo.mjs" "$d/n/demo.mjs"
timeout -k 5 100 node --expose-gc "$d/n/demo.mjs" "$d/w" || exit 1
exit 0
"""
sh_bug("C20-reference-kept", "C20", [(NAPI, "    napi_delete_reference(env, w->js_callback_ref);\n    w->js_callback_ref = NULL;", "    w->js_callback_ref = NULL;")], SH_NODE, {"demo.mjs": r'''
import { watch } from "./lib/watcher.js"; import fs from "node:fs";
const d = process.argv[2] + "/" + process.pid; fs.mkdirSync(d); let gone = 0;
const reg = new FinalizationRegistry(() => { gone++; });
const one = () => { const big = { a: new Array(1000).fill(1) }; const cb = () => { big.a.length; }; reg.register(big, 0); const w = watch(d, cb); w.close(); };
for (let i = 0; i < 20; i++) { one(); await new Promise(r => setTimeout(r, 5)); }
for (let i = 0; i < 50 && gone < 18; i++) { globalThis.gc(); await new Promise(r => setTimeout(r, 40)); }
process.exit(gone >= 18 ? 0 : 1);
'''}, "many watchers opened and closed", "the callback, and all it refers to, is kept for each of them")
sh_bug("C20-one-event-object", "C20", [(TS_, "  let typedCb: null | ((_: CEvent) => void) = (cEvent) => {\n    let event: Event = {\n", "  let event = {} as Event;\n  let typedCb: null | ((_: CEvent) => void) = (cEvent) => {\n    Object.assign(event, {\n"), (TS_, "as PathType,\n    };\n    cb(event);", "as PathType,\n    });\n    cb(event);")], SH_NODE, {"demo.mjs": r'''
import { watch } from "./lib/watcher.js"; import fs from "node:fs";
const d = process.argv[2] + "/" + process.pid; fs.mkdirSync(d); const got = []; const sleep = ms => new Promise(r => setTimeout(r, ms));
const w = watch(d, e => got.push(e));
for (let i = 0; i < 500 && !got.length; i++) await sleep(20);
await sleep(300);
for (let i = 0; i < 10; i++) fs.mkdirSync(d + "/f" + i);
const names = () => new Set(got.filter(e => e.pathType === "dir").map(e => e.pathName)).size;
for (let i = 0; i < 250 && got.length < 11; i++) await sleep(20);
const ok = names() === 10; w.close();
process.exit(ok ? 0 : 1);
'''}, "a user who keeps an event beyond the next one", "all the events of a watcher are one object, which changes with each of them")
RS = "watcher-rs/src/lib.rs"
SH_RS = SH + """here_c=$d/c; mkdir -p "$here_c/src"
gcc -Iwatcher-c/include "$here/header.c" -o "$d/header" && "$d/header" > "$here_c/header.rs" && cat "$here/extern.rs" >> "$here_c/header.rs" || exit 8
g++ -std=c++17 -O1 -g -pthread -fPIC -shared -Iinclude -Iwatcher-c/include watcher-c/src/watcher-c.cpp -o "$d/libwatcher_c_demo.so" || exit 8
cp "$here/main.rs" "$here_c/src/"
cat > "$here_c/build.rs" <<R
fn main() {
    std::fs::copy("header.rs", std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("watcher_c.rs")).unwrap();
    println!("cargo:rustc-link-arg-bins=$d/libwatcher_c_demo.so");
    println!("cargo:rustc-link-arg-bins=-Wl,-rpath,$d");
}
R
cat > "$here_c/Cargo.toml" <<R
[package]
name = "wtr-watcher"
version = "0.0.0"
edition = "2021"
build = "build.rs"
[lib]
name = "wtr_watcher"
path = "$PWD/watcher-rs/src/lib.rs"
[[bin]]
name = "demo"
path = "src/main.rs"
[features]
serde = ["dep:serde"]
default = ["serde"]
[dependencies]
futures = { version = "0", features = ["alloc", "std"], default-features = false }
serde = { version = "1", features = ["derive"], optional = true }
R
(cd "$here_c" && CARGO_TARGET_DIR=$d/target cargo build -q --offline 2>"$d/err") || { tail -20 "$d/err"; exit 8; }
timeout -k 5 100 "$d/target/debug/demo" "$d/w" || exit 1
exit 0
"""
RSF = {n: open(os.path.join(D, "../../rust", n)).read() for n in ("header.c", "extern.rs")}
RS_MAIN = r"""
use futures::{task::noop_waker, Stream};
use std::{fs, path::Path, pin::Pin, process::exit, task::{Context, Poll}, thread::sleep, time::{Duration, Instant}};
use wtr_watcher::{EffectType, Event, PathType, Watch};
fn next(w: &mut Watch, ms: u64) -> Option<Event> {
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let t = Instant::now();
    loop {
        match Pin::new(&mut *w).poll_next(&mut cx) {
            Poll::Ready(e) => return e,
            Poll::Pending if t.elapsed() > Duration::from_millis(ms) => return None,
            Poll::Pending => sleep(Duration::from_millis(1)),
        }
    }
}
"""
sh_bug("C21-backlog-thrown-away", "C21", [(RS, "    let _ = tx.unbounded_send(ev);\n", "    if tx.len() < 4096 {\n        let _ = tx.unbounded_send(ev);\n    }\n")], SH_RS, dict(RSF, **{"main.rs": RS_MAIN + r"""
fn main() {
    let d = format!("{}/d", std::env::args().nth(1).unwrap());
    fs::create_dir(&d).unwrap();
    let mut w = Watch::try_new(&d).unwrap();
    if next(&mut w, 10000).is_none() { exit(1); }
    sleep(Duration::from_millis(300));
    let n = 6000;
    for i in 0..n { fs::create_dir(Path::new(&d).join(format!("{i}"))).unwrap(); }
    sleep(Duration::from_millis(1500)); // Nobody asks for a while
    let mut got = 0;
    while let Some(e) = next(&mut w, 3000) {
        if matches!(e.path_type, PathType::Dir) && matches!(e.effect_type, EffectType::Create) { got += 1; }
        if got == n { break; }
    }
    eprintln!("{got} of {n}");
    exit((got != n) as i32);
}
"""}), "more than 4096 events which nobody has asked for yet", "the events after those are lost without a word")
sh_bug("C21-last-words-unheard", "C21", [(RS, "    pub fn close(&self) -> Result<(), &'static str> {\n", "    pub fn close(&self) -> Result<(), &'static str> {\n        self.tx.close_channel();\n")], SH_RS, dict(RSF, **{"main.rs": RS_MAIN + r"""
fn main() {
    let d = format!("{}/d", std::env::args().nth(1).unwrap());
    fs::create_dir(&d).unwrap();
    let mut w = Watch::try_new(&d).unwrap();
    if next(&mut w, 10000).is_none() { exit(1); }
    sleep(Duration::from_millis(300));
    if w.close().is_err() { exit(1); }
    let e = next(&mut w, 3000);
    eprintln!("{e:?}");
    exit(!matches!(e, Some(Event { path_type: PathType::Watcher, effect_type: EffectType::Destroy, .. })) as i32);
}
"""}), "close while the receiver is kept", "what the library delivers during close, the die message among it, never comes out of the stream")
# ---------------------------------------------------------------- Windows and macOS
HDR["windows"], HDR["darwin"] = DD + "adapter/windows/watch.hpp", DD + "adapter/darwin/watch.hpp"
SH_ELSEWHERE = SH + """mkdir -p "$d/inc/CoreFoundation" "$d/inc/CoreServices" "$d/inc/dispatch"
for f in windows.h CoreFoundation/CoreFoundation.h CoreServices/CoreServices.h dispatch/dispatch.h; do : > "$d/inc/$f"; done
for tree in include devel/include; do
  g++ -std=c++17 -g -O1 -pthread -I"$tree" -I"$d/inc" "$here/demo.cpp" -o "$d/demo" || exit 8
  timeout -k 5 100 "$d/demo" "$d/w" || exit 1
done
exit 0
"""
STD = r"""#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <ios>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <sys/stat.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
using namespace std::chrono_literals;
"""
USER = r"""
std::mutex em; std::vector<std::string> got;
void on(wtr::event const& e)
{
  std::lock_guard l{em};
  got.push_back(std::to_string((int)e.effect_type) + " " + e.path_name.string() + (e.associated ? " -> " + e.associated->path_name.string() : ""));
  fprintf(stderr, "%s\n", got.back().c_str());
}
long count(std::string const& s) { std::lock_guard l{em}; long n = 0; for (auto& g : got) n += g == s; return n; }
template<class F> bool wait(F f) { for (int i = 0; i < 5000; ++i, std::this_thread::sleep_for(1ms)) if (f()) return true; return false; }
"""
WIN = STD + r"""
// As much of Windows as it takes: one directory, one port.
using DWORD = uint32_t; using BOOL = int; using ULONG_PTR = uintptr_t; using HANDLE = void*; using WCHAR = wchar_t;
struct OVERLAPPED { ULONG_PTR Internal, InternalHigh; DWORD Offset, OffsetHigh; HANDLE hEvent; }; using LPOVERLAPPED = OVERLAPPED*;
struct FILE_NOTIFY_INFORMATION { DWORD NextEntryOffset, Action, FileNameLength; WCHAR FileName[1]; };
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
enum : DWORD { FILE_LIST_DIRECTORY = 1, FILE_SHARE_READ = 1, FILE_SHARE_WRITE = 2, FILE_SHARE_DELETE = 4, OPEN_EXISTING = 3, FILE_FLAG_BACKUP_SEMANTICS = 0x02000000, FILE_FLAG_OVERLAPPED = 0x40000000,
  FILE_NOTIFY_CHANGE_FILE_NAME = 1, FILE_NOTIFY_CHANGE_DIR_NAME = 2, FILE_NOTIFY_CHANGE_ATTRIBUTES = 4, FILE_NOTIFY_CHANGE_SIZE = 8, FILE_NOTIFY_CHANGE_LAST_WRITE = 16, FILE_NOTIFY_CHANGE_LAST_ACCESS = 32, FILE_NOTIFY_CHANGE_CREATION = 64, FILE_NOTIFY_CHANGE_SECURITY = 256,
  FILE_ACTION_ADDED = 1, FILE_ACTION_REMOVED, FILE_ACTION_MODIFIED, FILE_ACTION_RENAMED_OLD_NAME, FILE_ACTION_RENAMED_NEW_NAME,
  ERROR_SUCCESS = 0, ERROR_INVALID_HANDLE = 6, WAIT_TIMEOUT = 258, ERROR_OPERATION_ABORTED = 995, ERROR_IO_INCOMPLETE = 996, ERROR_IO_PENDING = 997, ERROR_NOTIFY_ENUM_DIR = 1022, ERROR_NOT_FOUND = 1168 };
#define TRUE 1
#define FALSE 0
std::mutex wm; std::condition_variable wc; thread_local DWORD last;
void* buf = nullptr; OVERLAPPED* ov = nullptr; bool pending = false; struct fin { DWORD n, err; OVERLAPPED* o; }; std::deque<fin> done_; int reads = 0; DWORD fail_next = 0;
DWORD GetLastError() { return last; }
HANDLE CreateEventW(void*, BOOL, BOOL, WCHAR const*) { return (HANDLE)8; }
BOOL ResetEvent(HANDLE h) { return h != nullptr; }
HANDLE CreateFileW(char const*, DWORD, DWORD, void*, DWORD, DWORD, HANDLE) { return (HANDLE)16; }
HANDLE CreateIoCompletionPort(HANDLE, HANDLE p, ULONG_PTR, DWORD) { return p ? p : (HANDLE)24; }
BOOL CloseHandle(HANDLE) { return TRUE; }
BOOL ReadDirectoryChangesW(HANDLE, void* b, DWORD, BOOL, DWORD, DWORD*, OVERLAPPED* o, void*) { std::lock_guard l{wm}; if (fail_next) { last = fail_next; return FALSE; } buf = b, ov = o, pending = true, reads++; wc.notify_all(); return TRUE; }
BOOL GetQueuedCompletionStatus(HANDLE, DWORD* n, ULONG_PTR*, LPOVERLAPPED* o, DWORD ms) { std::unique_lock l{wm}; *o = nullptr; if (! wc.wait_for(l, std::chrono::milliseconds(ms), [] { return ! done_.empty(); })) { last = WAIT_TIMEOUT; return FALSE; } auto d = done_.front(); done_.pop_front(); *n = d.n, *o = d.o, last = d.err; return d.err == 0; }
BOOL CancelIoEx(HANDLE, OVERLAPPED*) { std::lock_guard l{wm}; pending = false; wc.notify_all(); return TRUE; }
BOOL CancelIo(HANDLE) { return CancelIoEx(nullptr, nullptr); }
BOOL GetOverlappedResult(HANDLE, OVERLAPPED*, DWORD* n, BOOL) { *n = 0; last = ERROR_OPERATION_ABORTED; return FALSE; }
struct rec { DWORD action; std::wstring name; };
bool give(std::vector<rec> v)
{
  std::unique_lock l{wm};
  if (! wc.wait_for(l, 5s, [] { return pending; })) return false;
  size_t at = 0, was = 0; auto* b = (char*)buf;
  for (auto& r : v) {
    FILE_NOTIFY_INFORMATION i{}; i.Action = r.action, i.FileNameLength = (DWORD)(2 * r.name.size());
    if (at) { DWORD x = (DWORD)(at - was); memcpy(b + was, &x, 4); }
    memcpy(b + at, &i, 12), memcpy(b + at + 12, r.name.data(), r.name.size() * sizeof(WCHAR)), was = at, at += 12 + r.name.size() * sizeof(WCHAR);
  }
  pending = false, done_.push_back({(DWORD)at, 0, ov}), wc.notify_all();
  return true;
}
#undef __linux__
#define _WIN32 1
#include "wtr/watcher.hpp"
""" + USER
MAC = STD + r"""
// As much of macOS as it takes: one stream, called by us.
using CFTypeRef = void const*; using CFStringRef = void const*; using CFArrayRef = void const*; struct CFArrayCallBacks { long v; }; CFArrayCallBacks const kCFTypeArrayCallBacks{0};
enum : uint32_t { kCFStringEncodingUTF8 = 0x08000100 };
CFStringRef CFStringCreateWithCString(void const*, char const*, uint32_t) { return "s"; }
CFArrayRef CFArrayCreate(void const*, void const**, long, CFArrayCallBacks const*) { return "a"; }
void CFRelease(CFTypeRef) {}
using FSEventStreamRef = struct Str*; using ConstFSEventStreamRef = struct Str const*; using FSEventStreamEventId = uint64_t;
struct FSEventStreamContext { long version; void* info; void const* (*retain)(void const*); void (*release)(void const*); CFStringRef (*copyDescription)(void const*); };
using FSEventStreamCallback = void (*)(ConstFSEventStreamRef, void*, size_t, void*, unsigned const*, FSEventStreamEventId const*);
enum : uint32_t { kFSEventStreamCreateFlagFileEvents = 16, kFSEventStreamEventFlagItemCreated = 0x100, kFSEventStreamEventFlagItemRemoved = 0x200, kFSEventStreamEventFlagItemInodeMetaMod = 0x400, kFSEventStreamEventFlagItemRenamed = 0x800,
  kFSEventStreamEventFlagItemModified = 0x1000, kFSEventStreamEventFlagItemFinderInfoMod = 0x2000, kFSEventStreamEventFlagItemChangeOwner = 0x4000, kFSEventStreamEventFlagItemXattrMod = 0x8000, kFSEventStreamEventFlagItemIsFile = 0x10000,
  kFSEventStreamEventFlagItemIsDir = 0x20000, kFSEventStreamEventFlagItemIsSymlink = 0x40000, kFSEventStreamEventFlagItemIsHardlink = 0x100000, kFSEventStreamEventFlagItemIsLastHardlink = 0x200000 };
constexpr FSEventStreamEventId kFSEventStreamEventIdSinceNow = ~0ull;
struct Str { FSEventStreamCallback f; void* x; }; Str the{}; std::atomic<bool> up{false};
FSEventStreamRef FSEventStreamCreate(void const*, FSEventStreamCallback f, FSEventStreamContext* c, CFArrayRef, FSEventStreamEventId, double, uint32_t) { the = {f, c->info}; return &the; }
using dispatch_queue_t = void*; struct Sem { std::mutex m; std::condition_variable c; int n = 0; }; using dispatch_semaphore_t = Sem*;
enum { QOS_CLASS_USER_INITIATED = 25 };
#define DISPATCH_TIME_FOREVER (~0ull)
dispatch_queue_t dispatch_get_global_queue(long, unsigned long) { return &the; }
dispatch_semaphore_t dispatch_semaphore_create(long) { return new Sem; }
long dispatch_semaphore_signal(Sem* s) { std::lock_guard l{s->m}; s->n++; s->c.notify_all(); return 1; }
long dispatch_semaphore_wait(Sem* s, uint64_t) { std::unique_lock l{s->m}; s->c.wait(l, [&] { return s->n > 0; }); s->n--; return 0; }
void FSEventStreamSetDispatchQueue(Str*, void*) {}
unsigned char FSEventStreamStart(Str*) { up = true; return 1; }
void FSEventStreamFlushSync(Str*) {}
void FSEventStreamStop(Str*) { up = false; }
void FSEventStreamInvalidate(Str*) {}
void FSEventStreamRelease(Str*) {}
struct item { std::string p; unsigned f; };
void give(std::vector<item> v) { std::vector<char const*> p; std::vector<unsigned> f; std::vector<uint64_t> id(v.size()); for (auto& i : v) p.push_back(i.p.c_str()), f.push_back(i.f); the.f(&the, the.x, v.size(), p.data(), f.data(), id.data()); }
#undef __linux__
#define __APPLE__ 1
#include "wtr/watcher.hpp"
""" + USER
sh_bug("C24-said-already", "C24", [("windows", "      else {\n        callback({path_name, effect_type, path_type});\n      }\n", """      else {
        /*  Windows often says the same thing twice in a row. */
        auto next = (FILE_NOTIFY_INFORMATION*)((uint8_t*)buf + buf->NextEntryOffset);
        auto again = next != buf && next->Action == buf->Action
                  && next->FileNameLength == buf->FileNameLength
                  && memcmp(next->FileName, buf->FileName, buf->FileNameLength) == 0;
        if (! again) callback({path_name, effect_type, path_type});
      }
""")], SH_ELSEWHERE, {"demo.cpp": WIN + r"""
int main(int, char** argv)
{
  std::string w = argv[1];
  wtr::watch x(w, on);
  bool ok = give({{FILE_ACTION_MODIFIED, L"file"}}) && give({{FILE_ACTION_MODIFIED, L"file"}, {FILE_ACTION_MODIFIED, L"file"}, {FILE_ACTION_MODIFIED, L"other"}, {FILE_ACTION_ADDED, L"end"}})
         && wait([&] { return count("2 " + w + "/end"); });
  ok = ok && count("1 " + w + "/file") == 3 && count("1 " + w + "/other") == 1;
  return ! (x.close() && ok);
}
"""}, "two equal records next to each other in one read", "changes of a file while the watcher is busy are one event too few")
sh_bug("C24-names-with-extension", "C24", [("windows", "if (buf->FileNameLength % 2 == 0) {", "if (buf->FileNameLength % 2 == 0\n        && buf->Action <= FILE_ACTION_RENAMED_NEW_NAME) {"), ("windows", "return std::filesystem::is_directory(path_name)\n", "return std::filesystem::is_directory(\n                   path_name.has_extension() ? path_name.parent_path() / path_name.stem() : path_name)\n")], SH_ELSEWHERE, {"demo.cpp": WIN + r"""
int main(int, char** argv)
{
  std::string w = argv[1];
  mkdir((w + "/dir").c_str(), 0755); mkdir((w + "/dir.d").c_str(), 0755);
  std::mutex m; std::map<std::string, int> pt;
  wtr::watch x(w, [&](wtr::event const& e) { on(e); std::lock_guard l{m}; pt[e.path_name.string()] = (int)e.path_type; });
  bool ok = give({{FILE_ACTION_ADDED, L"dir"}, {FILE_ACTION_ADDED, L"dir.d"}, {FILE_ACTION_ADDED, L"dir.txt"}, {FILE_ACTION_ADDED, L"end"}}) && wait([&] { return count("2 " + w + "/end"); });
  ok = x.close() && ok;
  return ! (ok && pt[w + "/dir"] == 0 && pt[w + "/dir.d"] == 0 && pt[w + "/dir.txt"] == 1);
}
"""}, "a file which has the name of a directory and an extension, or a directory whose name has one", "the type of the path is wrong")
sh_bug("C25-forget-between-deliveries", "C25", [("darwin", "  for (unsigned long i = 0; i < count; i++)\n", "  ctx.last_rename_path->clear();\n  for (unsigned long i = 0; i < count; i++)\n")], SH_ELSEWHERE, {"demo.cpp": MAC + r"""
int main(int, char** argv)
{
  std::string w = argv[1], a = w + "/a", b = w + "/b", c = w + "/c";
  auto f = kFSEventStreamEventFlagItemRenamed | kFSEventStreamEventFlagItemIsFile;
  wtr::watch x(w, on);
  bool ok = wait([] { return up.load(); });
  close(open(a.c_str(), O_CREAT | O_WRONLY, 0644)); rename(a.c_str(), b.c_str());
  give({{a, f}, {b, f}});
  rename(b.c_str(), c.c_str());
  give({{b, f}}); give({{c, f}});
  ok = ok && count("0 " + a + " -> " + b) == 1 && count("0 " + b + " -> " + c) == 1;
  return ! (x.close() && ok);
}
"""}, "a rename whose two items are in different deliveries", "the rename is not reported")
sh_bug("C25-made-and-gone", "C25", [("darwin", "      ctx.seen_created_paths->erase(at);\n      ctx.callback({path, ety::destroy, pt});", "      ctx.callback({path, ety::destroy, pt});\n      /*  The flags of both are repeated with the next change of this path. */\n      if (! (flags & fsev_flag_effect_create)) ctx.seen_created_paths->erase(at);")], SH_ELSEWHERE, {"demo.cpp": MAC + r"""
int main(int, char** argv)
{
  std::string w = argv[1], a = w + "/a";
  unsigned c = kFSEventStreamEventFlagItemCreated, r = kFSEventStreamEventFlagItemRemoved, f = kFSEventStreamEventFlagItemIsFile;
  wtr::watch x(w, on);
  bool ok = wait([] { return up.load(); });
  give({{a, c | r | f}}); give({{a, c | f}}); give({{a, r | f}});
  ok = ok && count("2 " + a) == 2 && count("3 " + a) == 2;
  return ! (x.close() && ok);
}
"""}, "a file made, removed within the same item, and made again", "the second creation is not reported")
if __name__ == "__main__":
    out = os.path.join(D, "../../seeded"); os.makedirs(out, exist_ok=True)
    for id in sys.argv[1:] or BUGS:
        b = BUGS[id]; t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.run("git -C /repo archive HEAD | tar x -C " + t, shell=True, check=True)
            subprocess.run("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % t, shell=True, check=True)
            for f, a, z in b["edits"]:
                for p in ([HDR[f], SINGLE] if f in HDR else [f]):
                    s = open(t + "/" + p).read()
                    at = s
                    if f in HDR and p == SINGLE and s.count(a) > 1: # The one of this header
                        part = open(t + "/" + HDR[f]).read()
                        mark = {"inotify": "namespace detail::wtr::watcher::adapter::inotify {", "fanotify": "namespace detail::wtr::watcher::adapter::fanotify {"}.get(f)
                        i = s.index(mark) if mark else 0
                        j = s.index(a, i); s2 = s[:j] + z + s[j + len(a):]
                    else:
                        assert s.count(a) == 1, (id, p, a, s.count(a)); s2 = s.replace(a, z)
                    open(t + "/" + p, "w").write(s2)
            o = os.path.join(out, id); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            open(o + "/patch.diff", "w").write(subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, check=True).stdout.decode())
            if "sh" in b:
                open(o + "/demo.sh", "w").write(b["sh"])
                for n, s in b["files"].items(): open(o + "/" + n, "w").write(s)
            else:
                open(o + "/demo.sh", "w").write(SH_CPP % b); open(o + "/demo.cpp", "w").write(b["demo"] + "\n")
                shutil.copy(D + "/t.hpp", o)
                if b["fan"]: shutil.copy(D + "/fan.hpp", o)
            os.chmod(o + "/demo.sh", 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
            print("wrote", id)
        finally: shutil.rmtree(t)
