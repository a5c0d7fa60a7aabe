// A mutator: random changes in established directories, with the history they make.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <linux/fs.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <unistd.h>
using namespace sut;

inline int rename2(string const& a, string const& b, unsigned fl) { return renameat2(AT_FDCWD, a.c_str(), AT_FDCWD, b.c_str(), fl); }

struct Mut {
  Rng r;
  vector<string> dirs;         // established, its own
  string outside;
  struct F { string path; Pt pt; bool reg; };
  vector<F> f;                 // what exists
  vector<string> gone;         // names to be used again
  Hist h;
  unsigned p_ren = 0, p_noise = 0, p_dir = 12;
  bool whole = false, fan = false;
  int last_out = 0;            // what left last, with nothing said since: 1 a file, 2 a directory
  vector<F> out;               // what exists outside
  std::set<string> used;
  explicit Mut(uint64_t s) : r{s} {}
  string newpath()
  {
    if (! gone.empty() && r.chance(35)) {
      size_t i = r((unsigned)gone.size());
      auto p = gone[i];
      gone.erase(gone.begin() + (long)i);
      return p;
    }
    auto& d = dirs[r((unsigned)dirs.size())];
    return d + "/" + fresh_name(r);
  }
  F* pick(bool reg)
  {
    if (f.empty()) return nullptr;
    for (int i = 0; i < 6; ++i) {
      auto& x = f[r((unsigned)f.size())];
      if (! reg || x.reg) return &x;
    }
    return nullptr;
  }
  void drop(string const& p) { f.erase(std::find_if(f.begin(), f.end(), [&](F& x) { return x.path == p; })); }
  void create()
  {
    auto p = newpath();
    ll t = now_ns();
    bool ok = false;
    Pt pt = FILE_;
    bool reg = true;
    unsigned k = r(100);
    if (k < p_dir) { ok = mkdir(p.c_str(), 0755) == 0; pt = DIR_, reg = false; cov("op_mkdir"); }
    else if (k < p_dir + 50) { int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644); ok = fd >= 0; if (ok) ::close(fd); cov("op_create"); }
    else if (k < p_dir + 60) {
      int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_CLOEXEC, 0644);
      ok = fd >= 0;
      if (ok) {
        h.one(CREATE, FILE_, p, t);
        int n = 1 + (int)r(4);
        for (int i = 0; i < n; ++i) if (::write(fd, "hello", 5) == 5) h.one(MODIFY, FILE_, p, t);
        ::close(fd);
        f.push_back({p, FILE_, true});
        cov("op_create_write");
        return;
      }
    }
    else if (k < p_dir + 66) { ok = mkfifo(p.c_str(), 0644) == 0; reg = false; cov("op_fifo"); }
    else if (k < p_dir + 74) { ok = symlink(r.chance(50) ? "nowhere" : outside.c_str(), p.c_str()) == 0; reg = false; cov("op_symlink"); }
    else if (k < p_dir + 80) {
      auto* x = pick(true);
      if (! x) { gone.push_back(p); return; }
      ok = link(x->path.c_str(), p.c_str()) == 0;
      cov("op_link");
    }
    else { ok = touch_new(p); cov("op_mknod"); }
    if (! ok) { if (getenv("VP_DBG")) fprintf(stderr, "op failed: %s %s\n", p.c_str(), strerror(errno)); return; }
    h.one(CREATE, pt, p, t);
    f.push_back({p, pt, reg});
  }
  void remove()
  {
    auto* x = pick(false);
    if (! x) return;
    ll t = now_ns();
    auto c = *x;
    bool ok = c.pt == DIR_ ? rmdir(c.path.c_str()) == 0 : unlink(c.path.c_str()) == 0;
    if (! ok) return;
    h.one(DESTROY, c.pt, c.path, t);
    drop(c.path);
    gone.push_back(c.path);
    cov("op_remove");
  }
  void write()
  {
    auto* x = pick(true);
    if (! x) return;
    ll t = now_ns();
    switch (r(4)) {
      case 2: {
        struct stat s;
        if (stat(x->path.c_str(), &s) || s.st_size == 0) return;
        int fd = ::open(x->path.c_str(), O_WRONLY | O_TRUNC | O_CLOEXEC);
        if (fd < 0) return;
        h.one(MODIFY, FILE_, x->path, t);
        ::close(fd);
        break;
      }
      case 0: {
        int fd = ::open(x->path.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC);
        int n = 1 + (int)r(3);
        for (int i = 0; i < n; ++i) if (::write(fd, "more", 4) == 4) h.one(MODIFY, FILE_, x->path, t);
        ::close(fd);
        break;
      }
      case 1: {
        int fd = ::open(x->path.c_str(), O_RDWR | O_CLOEXEC);
        if (pwrite(fd, "z", 1, (off_t)r(5000)) == 1) h.one(MODIFY, FILE_, x->path, t);
        ::close(fd);
        break;
      }
      default:
        if (truncate(x->path.c_str(), (off_t)(100 + r(1000))) == 0) h.one(MODIFY, FILE_, x->path, t);
    }
    cov("op_write");
  }
  void rename()
  {
    unsigned k = r(100);
    ll t = now_ns();
    if (k < 15) { // into the tree
      if (out.empty()) return;
      size_t i = r((unsigned)out.size());
      auto c = out[i];
      if (fan && last_out == (c.pt == DIR_ ? 2 : 1)) {
        // without cookies nobody could tell this from a rename of what just left
        ll tc = now_ns();
        auto q = dirs[r((unsigned)dirs.size())] + "/" + fresh_name(r);
        if (! touch_new(q)) return;
        h.one(CREATE, FILE_, q, tc);
        f.push_back({q, FILE_, true});
        last_out = 0;
        t = now_ns();
      }
      if (last_out) cov("op_out_then_in");
      last_out = 0;
      auto p = newpath();
      if (rename2(c.path, p, RENAME_NOREPLACE)) return;
      out.erase(out.begin() + (long)i);
      h.one(RENAME, c.pt, p, t);
      f.push_back({p, c.pt, c.reg});
      cov("op_move_in");
      return;
    }
    auto* x = pick(false);
    if (! x) return;
    auto c = *x;
    if (k < 30) { // out of the tree
      auto p = outside + "/" + to_string(r.r() % 1000000000);
      if (rename2(c.path, p, RENAME_NOREPLACE)) return;
      h.one(RENAME, c.pt, c.path, t);
      drop(c.path);
      out.push_back({p, c.pt, c.reg});
      last_out = c.pt == DIR_ ? 2 : 1;
      cov("op_move_out");
      return;
    }
    if (k < 36) { // nothing happens
      if (::rename(c.path.c_str(), c.path.c_str()) == 0) cov("op_rename_noop");
      return;
    }
    if (k < 50) { // over something which exists
      auto* y = pick(false);
      if (! y || y->path == c.path || (y->pt == DIR_) != (c.pt == DIR_)) return;
      auto d = *y;
      struct stat a, b;
      if (lstat(c.path.c_str(), &a) || lstat(d.path.c_str(), &b) || a.st_ino == b.st_ino) return;
      if (::rename(c.path.c_str(), d.path.c_str())) return;
      h.pair(c.pt, c.path, d.path, t, whole);
      drop(c.path), drop(d.path);
      f.push_back({d.path, c.pt, c.reg});
      gone.push_back(c.path);
      cov("op_rename_over");
      return;
    }
    if (k < 56) { // exchange
      auto* y = pick(false);
      if (! y || y->path == c.path || y->pt == DIR_ || c.pt == DIR_) return;
      auto d = *y;
      struct stat a, b;
      if (lstat(c.path.c_str(), &a) || lstat(d.path.c_str(), &b) || a.st_ino == b.st_ino) return;
      if (rename2(c.path, d.path, RENAME_EXCHANGE)) return;
      h.pair(c.pt, c.path, d.path, t, whole);
      h.pair(d.pt, d.path, c.path, t, whole);
      for (auto& z : f) {
        if (z.path == c.path) z.pt = d.pt, z.reg = d.reg;
        else if (z.path == d.path) z.pt = c.pt, z.reg = c.reg;
      }
      cov("op_exchange");
      return;
    }
    string p = k < 75 ? dir_name(c.path) + "/" + fresh_name(r) : newpath();
    if (rename2(c.path, p, RENAME_NOREPLACE)) return;
    h.pair(c.pt, c.path, p, t, whole);
    drop(c.path);
    f.push_back({p, c.pt, c.reg});
    gone.push_back(c.path);
    cov(dir_name(p) == dir_name(c.path) ? "op_rename_same_dir" : "op_rename_across");
  }
  // nothing here may be reported
  void noise()
  {
    cov("op_noise");
    char b[64];
    switch (r(19)) {
      case 13: if (auto* x = pick(true)) { int fd = ::open(x->path.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC); (void)!::write(fd, b, 0); (void)!flock(fd, LOCK_EX | LOCK_NB); (void)!fsync(fd); ::close(fd); } break;
      case 14: if (auto* x = pick(true)) { int fd = ::open(x->path.c_str(), O_RDONLY | O_CLOEXEC); void* m = mmap(nullptr, 4096, PROT_READ, MAP_PRIVATE, fd, 0); if (m != MAP_FAILED) munmap(m, 4096); ::close(fd); } break;
      case 15: { auto& q = dirs[r((unsigned)dirs.size())]; (void)!setxattr(q.c_str(), "user.vp", "2", 1, 0); (void)!removexattr(q.c_str(), "user.vp"); (void)!chown(q.c_str(), geteuid(), getegid()); break; }
      case 16: if (::DIR* d = opendir(dirs[r((unsigned)dirs.size())].c_str())) { while (readdir(d)) {} closedir(d); } break;
      case 17: if (auto* x = pick(false)) { (void)!readlink(x->path.c_str(), b, sizeof b); timespec t[2] = {{5, 6}, {7, 8}}; utimensat(AT_FDCWD, x->path.c_str(), t, AT_SYMLINK_NOFOLLOW); } break;
      case 0: if (auto* x = pick(false)) { struct stat s; (void)!lstat(x->path.c_str(), &s); (void)!access(x->path.c_str(), R_OK); } break;
      case 1: if (auto* x = pick(true)) { int fd = ::open(x->path.c_str(), O_RDONLY | O_CLOEXEC); (void)!::read(fd, b, sizeof b); ::close(fd); } break;
      case 2: if (auto* x = pick(true)) { int fd = ::open(x->path.c_str(), O_RDWR | O_CLOEXEC); ::close(fd); } break;
      case 3: if (auto* x = pick(true)) (void)!chmod(x->path.c_str(), r.chance(50) ? 0600 : 0644); break;
      case 4: (void)!chmod(dirs[r((unsigned)dirs.size())].c_str(), r.chance(50) ? 0700 : 0755); break;
      case 5: if (auto* x = pick(true)) { timespec t[2] = {{1, 2}, {3, 4}}; utimensat(AT_FDCWD, x->path.c_str(), t, 0); } break;
      case 6: { timespec t[2] = {{1, 2}, {3, 4}}; utimensat(AT_FDCWD, dirs[r((unsigned)dirs.size())].c_str(), t, 0); break; }
      case 7: if (auto* x = pick(true)) (void)!setxattr(x->path.c_str(), "user.vp", "1", 1, 0); break;
      case 8: { int fd = ::open(dirs[r((unsigned)dirs.size())].c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC); (void)!::read(fd, b, 0); (void)!fsync(fd); ::close(fd); break; }
      case 9: if (auto* x = pick(false)) (void)!lchown(x->path.c_str(), geteuid(), getegid()); break;
      case 10: { // changes next to the tree
        auto p = outside + "/n" + to_string(r.r() % 1000000000);
        put(p, "abc");
        (void)!::rename(p.c_str(), (p + "x").c_str());
        unlink((p + "x").c_str());
        break;
      }
      case 11: { // below a directory next to the tree whose name begins like it
        auto p = outside + "/d" + to_string(r.r() % 1000000000);
        mkdir(p.c_str(), 0755);
        put(p + "/q");
        unlink((p + "/q").c_str());
        rmdir(p.c_str());
        break;
      }
      case 12: // a failing change
        if (auto* x = pick(false)) { (void)!mkdir(x->path.c_str(), 0755); (void)!unlink((x->path + "-no").c_str()); (void)!::rename((x->path + "-no").c_str(), x->path.c_str()); }
        break;
      default: // the file's other name is outside
        if (auto* x = pick(true)) {
          auto p = outside + "/l" + to_string(r.r() % 1000000000);
          if (link(x->path.c_str(), p.c_str()) == 0) { put(p, "via the other name"); unlink(p.c_str()); }
        }
    }
  }
  void op()
  {
    unsigned k = r(100);
    if (k < p_ren) rename();
    else if (k < p_ren + p_noise) noise();
    else {
      unsigned q = r(100);
      size_t n = h.a.size();
      if (q < 45 || f.empty()) create();
      else if (q < 70) remove();
      else write();
      if (h.a.size() > n) last_out = 0;
    }
  }
};

