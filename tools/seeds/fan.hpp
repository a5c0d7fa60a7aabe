// A stand-in for fanotify: records are made up, the directories in them are real.
// Link with -Wl,--wrap= each of the functions below.
#pragma once
#include "t.hpp"
#include <cstring>
#include <errno.h>
#include <map>
#include <sys/fanotify.h>
inline int fan_w = -1; inline unsigned fan_flags = 0; inline std::mutex fan_m; inline std::vector<std::string> fan_dirs; inline std::map<std::string, unsigned long long> fan_marks;
extern "C" {
int __real_open(char const*, int, ...);
int __wrap_fanotify_init(unsigned flags, unsigned) { int p[2]; fan_flags = flags; if (pipe2(p, O_DIRECT | O_NONBLOCK | O_CLOEXEC)) return -1; fan_w = p[1]; return p[0]; }
int __wrap_fanotify_mark(int, unsigned, uint64_t mask, int, char const* path) {
  struct stat s; if (lstat(path, &s)) return -1; if (! S_ISDIR(s.st_mode)) return errno = ENOTDIR, -1;
  std::lock_guard l{fan_m}; if (! (fan_flags & FAN_UNLIMITED_MARKS) && fan_marks.size() >= 8192 && ! fan_marks.count(path)) return errno = ENOSPC, -1;
  fan_marks[path] |= mask; return 0; }
int __wrap_name_to_handle_at(int fd, char const*, file_handle* fh, int* mnt, int) {
  char b[4096]; auto n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof b); if (n <= 0) return -1;
  std::lock_guard l{fan_m}; fan_dirs.emplace_back(b, n); unsigned i = fan_dirs.size() - 1; fh->handle_bytes = 4; fh->handle_type = 1; memcpy(fh->f_handle, &i, 4); *mnt = 1; return 0; }
int __wrap_open_by_handle_at(int, file_handle* fh, int fl) {
  unsigned i; memcpy(&i, fh->f_handle, 4); std::string p; { std::lock_guard l{fan_m}; if (i >= fan_dirs.size()) return errno = ESTALE, -1; p = fan_dirs[i]; }
  return open(p.c_str(), fl); }
uid_t __wrap_geteuid() { return 0; }
}
struct frec { unsigned long long mask; std::string dir, name; };
inline std::string fan_bytes(std::vector<frec> const& rs) {
  std::string out;
  for (auto& r : rs) {
    unsigned i; { std::lock_guard l{fan_m}; fan_dirs.push_back(r.dir); i = fan_dirs.size() - 1; }
    size_t info = sizeof(fanotify_event_info_fid) + sizeof(file_handle) + 4 + r.name.size() + 1; info = (info + 3) / 4 * 4;
    std::string b(sizeof(fanotify_event_metadata) + info, '\0');
    auto m = (fanotify_event_metadata*)b.data(); m->event_len = b.size(); m->vers = FANOTIFY_METADATA_VERSION; m->metadata_len = sizeof *m; m->mask = r.mask; m->fd = FAN_NOFD; m->pid = 1;
    auto f = (fanotify_event_info_fid*)(m + 1); f->hdr.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME; f->hdr.len = info;
    auto h = (file_handle*)f->handle; h->handle_bytes = 4; h->handle_type = 1; memcpy(h->f_handle, &i, 4); memcpy(h->f_handle + 4, r.name.c_str(), r.name.size() + 1);
    out += b;
  }
  return out;
}
// All in one read.
inline void fan_emit(std::vector<frec> const& rs) { auto b = fan_bytes(rs); for (int i = 0; i < 10000; ++i, ms(1)) if (write(fan_w, b.data(), b.size()) == (ssize_t)b.size()) return; abort(); }
