// C13: whatever the kernel may say, and whatever lies in the filesystem: no
// memory error, no undefined operation, no end of the process. The sanitizers
// (or memcheck) judge; here is only what they get to see.
#include "mut.hpp"
#include "scen.hpp"
#include <filesystem>
#include <string.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>

static string raw_inotify(Rng& r, vector<int> const& wds, uint32_t& cookie)
{
  static uint32_t const M[] = {IN_ACCESS, IN_ATTRIB, IN_CLOSE_WRITE, IN_CLOSE_NOWRITE, IN_CREATE, IN_DELETE, IN_DELETE_SELF, IN_MODIFY, IN_MOVE_SELF, IN_MOVED_FROM, IN_MOVED_TO, IN_OPEN, IN_UNMOUNT, IN_IGNORED, IN_Q_OVERFLOW};
  string s;
  size_t total = r.chance(50) ? 4096 : 64 + r(2000);
  // only whole records, as many as the kernel would put there
  for (int i = 0; i < 300; ++i) {
    inotify_event e{};
    e.mask = M[r(15)];
    if (e.mask == IN_Q_OVERFLOW) e.wd = -1;
    else e.wd = r.chance(80) && ! wds.empty() ? wds[r((unsigned)wds.size())] : r.chance(50) ? 1 + (int)r(100000) : 0x7fffffff;
    bool self = e.mask & (IN_DELETE_SELF | IN_MOVE_SELF | IN_UNMOUNT | IN_IGNORED | IN_Q_OVERFLOW);
    if (! self && r.chance(40)) e.mask |= IN_ISDIR;
    if (e.mask & IN_MOVE) { if (r.chance(50)) cookie++; e.cookie = cookie; }
    string name;
    if (! self && ! (r.chance(10) && ! (e.mask & (IN_CREATE | IN_DELETE | IN_MOVE)))) {
      unsigned len = r.chance(20) ? 255 : 1 + r(40);
      if (r.chance(10)) len = 15 + r(3);
      for (unsigned k = 0; k < len; ++k) { char c = (char)(1 + r(255)); name += c == '/' ? 'x' : c; }
    }
    size_t nl = name.empty() ? 0 : (name.size() + 1 + 15) / 16 * 16;
    e.len = (uint32_t)nl;
    if (s.size() + sizeof e + nl > total) { if (r.chance(70)) continue; break; }
    s.append((char*)&e, sizeof e);
    name.resize(nl, '\0');
    s += name;
  }
  return s;
}

static string raw_fanotify(Rng& r, uint32_t known)
{
  string out;
  size_t total = r.chance(50) ? 4096 : 64 + r(2000);
  for (int i = 0; i < 200; ++i) {
    fanotify_event_metadata m{};
    static uint64_t const M[] = {FAN_CREATE, FAN_DELETE, FAN_MODIFY, FAN_MOVED_FROM, FAN_MOVED_TO, FAN_CREATE | FAN_DELETE, FAN_MODIFY | FAN_CREATE, FAN_MOVED_FROM | FAN_MOVED_TO, FAN_Q_OVERFLOW, FAN_ATTRIB, FAN_OPEN};
    m.vers = FANOTIFY_METADATA_VERSION;
    m.metadata_len = sizeof m;
    m.mask = M[r(11)];
    if (m.mask != FAN_Q_OVERFLOW && r.chance(40)) m.mask |= FAN_ONDIR;
    m.fd = FAN_NOFD;
    m.pid = getpid();
    string body;
    auto info = [&](uint8_t type, bool name, unsigned hb) {
      fanotify_event_info_fid f{};
      file_handle fh{};
      fh.handle_bytes = hb;
      fh.handle_type = r.chance(90) ? 0x71 : (int)r(255);
      string h(hb, (char)r(256)), n;
      if (hb >= 4) { uint32_t v = r.chance(80) ? known : r(100000); memcpy(h.data(), &v, 4); }
      if (name) {
        unsigned len = r.chance(20) ? 255 : r.chance(10) ? 0 : 1 + r(30);
        if (r.chance(10)) n = ".";
        else for (unsigned k = 0; k < len; ++k) { char c = (char)(1 + r(255)); n += c == '/' ? 'x' : c; }
        n += '\0';
      }
      size_t len = (sizeof f + sizeof fh + hb + n.size() + 3) / 4 * 4;
      f.hdr.info_type = type, f.hdr.len = (uint16_t)len;
      string x(len, '\0');
      memcpy(x.data(), &f, sizeof f), memcpy(x.data() + sizeof f, &fh, sizeof fh);
      memcpy(x.data() + sizeof f + sizeof fh, h.data(), hb);
      memcpy(x.data() + sizeof f + sizeof fh + hb, n.data(), n.size());
      body += x;
    };
    static unsigned const HB[] = {8, 12, 16, 20, 24, 32, 64, 128};
    if (m.mask != FAN_Q_OVERFLOW)
      switch (r(8)) {
        case 0: info(FAN_EVENT_INFO_TYPE_DFID, false, HB[r(8)]); break;
        case 1: info(FAN_EVENT_INFO_TYPE_FID, false, HB[r(8)]); break;
        case 2: break; // what is reported for errors and inodes without one
        case 3: info(FAN_EVENT_INFO_TYPE_DFID_NAME, true, HB[r(8)]); info(FAN_EVENT_INFO_TYPE_FID, false, HB[r(8)]); break;
        case 4: info(FAN_EVENT_INFO_TYPE_DFID_NAME, true, 0); break;
        default: info(FAN_EVENT_INFO_TYPE_DFID_NAME, true, HB[r(8)]);
      }
    m.event_len = (uint32_t)(sizeof m + body.size());
    if (out.size() + m.event_len > total) { if (r.chance(70)) continue; break; }
    out.append((char*)&m, sizeof m);
    out += body;
  }
  return out;
}

static void records(Rng& r)
{
  auto c = cfg_of(args.backend, (unsigned)r.r());
  bool fan = args.backend == "fanotify";
  shim::configure(c);
  shim::reap();
  auto root = mkroot("hostile");
  for (int i = 0; i < 10; ++i) std::filesystem::create_directories(root + "/d" + to_string(i) + "/e/f");
  Watcher w{root};
  w.check_life = true;
  if (! w.ready()) { violation("C13", "watcher-not-ready", w.dump(0)); return; }
  uint32_t cookie = 1000;
  int n = args.num("records", 60);
  for (int i = 0; i < n; ++i) {
    auto wds = shim::wds(0);
    auto s = fan ? raw_fanotify(r, r(24)) : raw_inotify(r, wds, cookie);
    if (s.empty()) continue;
    shim::RawEv e;
    e.raw = s;
    if (r.chance(10)) { shim::fault(shim::F_open_by_handle_at, 1 + r(5), ESTALE, 1 + r(5)); }
    if (r.chance(10)) { shim::fault(shim::F_readlink, 1 + r(5), ENOENT, 1 + r(5)); }
    if (r.chance(10)) { shim::fault(shim::F_opendir, 1 + r(5), r.chance(50) ? ENOENT : EMFILE, 1 + r(5)); }
    if (r.chance(10)) { shim::fault(fan ? shim::F_fanotify_mark : shim::F_inotify_add_watch, 1 + r(5), ENOSPC, 1 + r(5)); }
    if (r.chance(10)) { shim::fault(shim::F_inotify_rm_watch, 1 + r(5), EINVAL, 1 + r(5)); }
    if (r.chance(10)) { shim::fault(shim::F_stat, 1 + r(5), ENOENT, 1 + r(5)); }
    if (r.chance(30)) { auto p = root + "/d" + to_string(r(10)); (void)!::rename(p.c_str(), (p + "/../m" + to_string(r(10))).c_str()); }
    if (r.chance(30)) { auto p = root + "/d" + to_string(r(10)) + "/e"; std::error_code ec; if (r.chance(50)) std::filesystem::remove_all(p, ec); else std::filesystem::create_directories(p + "/f", ec); }
    shim::inject(0, {e});
    cov("raw_reads"), cov("raw_bytes", (long)s.size());
    cov_distinct("raw_sizes", to_string(s.size()));
  }
  // all of it has been looked at, or it gave up for a reason it told
  auto end = mono_ms() + 30000;
  while (shim::queued(0) && ! w.died() && mono_ms() < end) usleep(500);
  if (! w.died() && shim::queued(0)) violation("C13", "stuck", "it neither handles its notifications nor ends");
  shim::clear_faults();
  w.close();
  w.destroy();
  cov("events", w.count);
  for (auto& x : w.log) cov_distinct("outcomes", string{eff_name[x.e.eff]} + pt_name[x.e.pt] + (x.e.pt == WATCHER ? x.e.path.substr(0, x.e.path.find('@')) : ""));
  rmtree(root);
}

// as deep as paths can be, and deeper
static void deep(Rng& r)
{
  auto c = cfg_of(args.backend, (unsigned)r.r());
  c.delay_permille = 0;
  shim::configure(c);
  shim::reap();
  auto root = mkroot("deep");
  int cwd = ::open(".", O_PATH | O_CLOEXEC);
  auto dig = [&](string const& at, int levels, string const& name) {
    int fd = ::open(at.c_str(), O_PATH | O_CLOEXEC), made = 0;
    for (int i = 0; i < levels && fd >= 0; ++i) {
      if (mkdirat(fd, name.c_str(), 0755)) break;
      made++;
      if (i % 7 == 3) { int f = openat(fd, ("f" + to_string(i)).c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (f >= 0) ::close(f); }
      int n = openat(fd, name.c_str(), O_PATH | O_CLOEXEC);
      ::close(fd);
      fd = n;
    }
    if (fd >= 0) ::close(fd);
    cov_max("levels", made);
  };
  auto undig = [&](string const& at) {
    // std::filesystem copes by itself only below the limit on paths
    std::function<void(int)> rm = [&](int fd) {
      if (fd < 0) return;
      ::DIR* d = fdopendir(fd);
      vector<string> sub;
      while (auto* e = readdir(d)) { string n = e->d_name; if (n == "." || n == "..") continue; if (e->d_type == DT_DIR) sub.push_back(n); else unlinkat(dirfd(d), n.c_str(), 0); }
      for (auto& n : sub) { rm(openat(dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC)); unlinkat(dirfd(d), n.c_str(), AT_REMOVEDIR); }
      closedir(d);
    };
    // one level at a time from the top, so that few descriptors are open
    int base = ::open(at.c_str(), O_PATH | O_CLOEXEC);
    for (;;) {
      ::DIR* d = opendir(at.c_str());
      string top;
      while (auto* e = readdir(d)) { string n = e->d_name; if (n != "." && n != "..") { top = n; break; } }
      closedir(d);
      if (top.empty()) break;
      if (unlinkat(base, top.c_str(), 0) == 0) continue;
      int fd = openat(base, top.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
      ::DIR* t = fdopendir(fd);
      vector<string> in;
      while (auto* e = readdir(t)) { string n = e->d_name; if (n != "." && n != "..") in.push_back(n); }
      static long k = 0;
      for (auto& n : in) if (unlinkat(dirfd(t), n.c_str(), 0)) renameat(dirfd(t), n.c_str(), base, (".u" + to_string(k++)).c_str());
      unlinkat(base, top.c_str(), AT_REMOVEDIR);
      closedir(t);
    }
    ::close(base);
    (void)rm;
  };
  string lng(250, 'l');
  switch (r(3)) {
    case 0: dig(root, 1990, "a"); break;
    case 1: dig(root, 2300, "bb"); break;
    default: dig(root, 40, lng);
  }
  Watcher w{root};
  if (! w.ready(60000)) violation("C13", "watcher-not-ready", w.dump(0).substr(0, 1000));
  // more arrives while it runs, deep already and out of reach
  auto outside = mkroot("deep-out");
  dig(outside, r.chance(50) ? 1990 : 30, r.chance(50) ? "c" : lng);
  ::rename(outside.c_str(), (root + "/in").c_str());
  if (! w.barrier()) violation("C13", "events-stopped", "after a deep tree was moved in nothing is reported");
  auto mid = root;
  for (int i = 0; i < 100; ++i) mid += r.chance(50) ? "/a" : "/bb";
  mid = root + "/a/a/a";
  mkdir((root + "/x").c_str(), 0755);
  (void)!::rename((root + "/in").c_str(), (root + "/x/in-a-directory-with-a-longer-name").c_str());
  if (! w.barrier()) violation("C13", "events-stopped", "after a deep tree was renamed nothing is reported");
  (void)!::rename((root + "/x").c_str(), (root + "/y" + lng.substr(0, 200)).c_str());
  if (! w.barrier()) violation("C13", "events-stopped", "after a deep tree was renamed nothing is reported");
  cov("events", w.count), cov("deep_trees");
  w.close();
  w.destroy();
  ::close(cwd);
  undig(root);
  rmtree(root);
  rmtree(outside);
}

// paths no directory has
static void paths(Rng& r)
{
  auto c = cfg_of(args.backend, (unsigned)r.r());
  shim::configure(c);
  shim::reap();
  auto root = mkroot("paths");
  (void)!symlink("loop", (root + "/loop").c_str());
  (void)!symlink((root + "/l2").c_str(), (root + "/l1").c_str()), (void)!symlink((root + "/l1").c_str(), (root + "/l2").c_str());
  vector<string> v{"", string(300, 'n'), string(5000, 'p'), root + "/" + string(256, 'q'), "/" + string(4095, '/'), root + "/loop", root + "/l1/x", string("a\0b", 3), "\xff\xfe", root + string(4000, '/') + ".", "/proc/self/mem", "/dev/null", root + "/loop/.."};
  for (int i = 0; i < 200; ++i) v.back() += "/..";
  for (auto& p : v) {
    Watcher w{p};
    w.wait([](auto& lg) { return ! lg.empty(); }, 5000);
    w.close();
    w.destroy();
    struct Ctx : CCtx { std::atomic<int> n{0}; } k;
    k.cb = [](CEv const& e, CCtx* x) { volatile size_t l = strlen(e.path) + (e.assoc ? strlen(e.assoc) : 0); (void)l; ((Ctx*)x)->n++; };
    auto* h = sut::c_open(p.c_str(), &k);
    usleep(200);
    sut::c_close(h);
    cov("odd_paths");
  }
  rmtree(root);
}

void scen_hostile()
{
  Rng r{args.seed * 90007ull + 11};
  bool vg = args.num("small", 0);
  for (int i = 0; i < args.num("runs", vg ? 1 : 3); ++i) {
    if (args.backend != "direct") records(r);
    if (! vg && (i == 0 || args.backend == "direct")) deep(r);
    paths(r);
  }
}
