#include "core.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

Args args;
char const* const SENT = ".vp-s-";
namespace sut {
char const* const eff_name[6] = {"rename", "modify", "create", "destroy", "owner", "other"};
char const* const pt_name[6] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
} // namespace sut
using namespace sut;

ll now_ns() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
// The time in which something could have happened: everyone who waits polls,
// so a gap is one in which the process (or the machine) did not run.
ll mono_ms()
{
  static std::mutex mx;
  static ll last = 0, sum = 0;
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  ll now = t.tv_sec * 1000000ll + t.tv_nsec / 1000;
  std::lock_guard l{mx};
  if (last && now > last) sum += std::min(now - last, 100000ll);
  last = now;
  return sum / 1000;
}

static size_t utf8_len(string const& s, size_t i)
{
  auto c = (unsigned char)s[i];
  size_t n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
  if (! n || i + n > s.size()) return 0;
  for (size_t k = 1; k < n; ++k) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return 0;
  auto c1 = n > 1 ? (unsigned char)s[i + 1] : 0;
  if (c == 0xe0 && c1 < 0xa0) return 0;
  if (c == 0xed && c1 > 0x9f) return 0;
  if (c == 0xf0 && c1 < 0x90) return 0;
  if (c == 0xf4 && c1 > 0x8f) return 0;
  return n;
}
string jstr(string const& s)
{
  string o = "\"";
  for (size_t i = 0; i < s.size();) {
    auto c = (unsigned char)s[i];
    char b[8];
    size_t n = utf8_len(s, i);
    if (n > 1) { o += s.substr(i, n); i += n; continue; }
    if (c == '"' || c == '\\') o += '\\', o += (char)c;
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
    ++i;
  }
  return o + "\"";
}
static string shorten(string const& p)
{
  if (p.size() < 160) return p;
  return p.substr(0, 60) + "…[" + to_string(p.size()) + "]…" + p.substr(p.size() - 60);
}
string show(Ev const& e)
{
  string s = string{eff_name[e.eff]} + " " + pt_name[e.pt] + " " + shorten(e.path);
  if (e.assoc) s += " -> " + shorten(e.assoc->path) + (e.assoc->pt != e.pt || e.assoc->eff != e.eff ? string{" ("} + eff_name[e.assoc->eff] + " " + pt_name[e.assoc->pt] + ")" : "");
  return s;
}
static std::mutex o_mx;
void out(string const& line)
{
  std::lock_guard l{o_mx};
  fputs((line + "\n").c_str(), stdout);
  fflush(stdout);
}
static std::atomic<long> n_viol{0};
static std::mutex c_mx;
static std::map<string, long> c_sum, c_max;
static std::map<string, std::set<string>> c_set;
static vector<string> c_samples;
static std::map<string, int> c_viol;
void violation(string const& prop, string const& key, string const& detail)
{
  n_viol++;
  {
    std::lock_guard l{c_mx};
    if (c_viol[prop + key]++ >= 3) return;
  }
  out("{\"viol\":{\"prop\":" + jstr(prop) + ",\"key\":" + jstr(key) + ",\"detail\":" + jstr(detail.substr(0, 4000)) + "}}");
}
long violations() { return n_viol; }
void cov(string const& n, long a) { std::lock_guard l{c_mx}; c_sum[n] += a; }
void cov_max(string const& n, long v) { std::lock_guard l{c_mx}; c_max[n] = std::max(c_max[n], v); }
void cov_distinct(string const& s, string const& v) { std::lock_guard l{c_mx}; auto& x = c_set[s]; if (x.size() < 20000) x.insert(v); }
void sample(string const& s) { std::lock_guard l{c_mx}; if (c_samples.size() < 8) c_samples.push_back(s.substr(0, 600)); }
void finish()
{
  std::lock_guard l{c_mx};
  string s = "{\"cov\":{\"sum\":{";
  bool f = true;
  for (auto& [k, v] : c_sum) s += (f ? "" : ",") + jstr(k) + ":" + to_string(v), f = false;
  s += "},\"max\":{";
  f = true;
  for (auto& [k, v] : c_max) s += (f ? "" : ",") + jstr(k) + ":" + to_string(v), f = false;
  s += "},\"distinct\":{";
  f = true;
  for (auto& [k, v] : c_set) {
    s += (f ? "" : ",") + jstr(k) + ":[";
    bool g = true;
    for (auto& x : v) s += (g ? "" : ",") + to_string(std::hash<string>{}(x) % 1000000007), g = false;
    s += "]";
    f = false;
  }
  s += "},\"samples\":[";
  f = true;
  for (auto& x : c_samples) s += (f ? "" : ",") + jstr(x), f = false;
  s += "],\"shim\":" + shim::stats_json() + "}}";
  out(s);
  out("{\"done\":true}");
}
void give_up(string const& why)
{
  out("{\"error\":" + jstr(why) + "}");
  _exit(3);
}

// ---- names -----------------------------------------------------------------------
static std::atomic<long> serial{0};
std::atomic<long> name_serial{0};
static string b36(long n) { string s; do s += "0123456789abcdefghijklmnopqrstuvwxyz"[n % 36]; while (n /= 36); return s; }
string fresh_name(Rng& r, bool utf8, int maxlen)
{
  string id = b36(++name_serial);
  string s;
  switch (r(14)) {
    case 0: case 1: case 2: s = id; break;
    case 3: s = "f." + id; break;
    case 4: s = "." + id; break;
    case 5: s = "a b  " + id + " "; break;
    case 6: s = id + "\"\\'`$<>&|;*?"; break;
    case 7: s = "\n\t\x01" + id + "\x1f\x7f\r"; break;
    case 8: s = "ü漢字😀" + id; break;
    case 9: s = utf8 ? "é" + id : "\xff\xfe\x80" + id + "\xc3"; break;
    case 10: { // around the alignment boundaries of kernel records
      static int const L[] = {14, 15, 16, 17, 30, 31, 32, 33, 47, 48, 63, 64, 127, 128, 251, 252, 253, 254, 255};
      size_t n = (size_t)L[r(sizeof L / sizeof *L)];
      s = id + "_";
      while (s.size() < n) s += (char)('a' + s.size() % 26);
      s.resize(n);
      break;
    }
    case 11: { size_t n = 1 + r(255); s = id + "~"; while (s.size() < n) s += 'z'; break; }
    case 12: s = "-" + id + "..."; break;
    default: {
      s = id + ":";
      int n = 1 + (int)r(20);
      for (int i = 0; i < n; ++i) { auto c = (char)(utf8 ? 1 + r(126) : 1 + r(255)); s += c == '/' ? '_' : c; }
    }
  }
  if ((int)s.size() > maxlen) { s = s.substr(0, (size_t)maxlen); if (utf8) s = id; else if (s.find(id) == string::npos) s = id; }
  return s;
}

// ---- paths -----------------------------------------------------------------------
string base_name(string const& p) { auto i = p.rfind('/'); return i == string::npos ? p : p.substr(i + 1); }
string dir_name(string const& p) { auto i = p.rfind('/'); return i == string::npos ? "" : p.substr(0, i); }
bool is_sent(string const& p) { return base_name(p).compare(0, strlen(SENT), SENT) == 0; }
bool under(string const& p, string const& d) { return p == d || (p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'); }

// ---- Watcher ---------------------------------------------------------------------
Watcher::Watcher(string const& r, std::function<void(Ev const&)> hk, bool now) : root{r}, hook{std::move(hk)}
{
  char b[PATH_MAX];
  real = ::realpath(r.c_str(), b) ? b : r;
  if (now) open();
}
void Watcher::open()
{
  opened_at = now_ns();
  h = sut::open(root, [this](Ev const& e) { on(e); });
}
void Watcher::on(Ev const& e)
{
  ll t = now_ns();
  if (inside.fetch_add(1) != 0) overlap++;
  if (closed) after++;
  while (block) usleep(500);
  {
    std::lock_guard l{mx};
    log.push_back({e, t});
  }
  count++;
  if (hook) hook(e);
  inside.fetch_sub(1);
  cv.notify_all();
}
bool Watcher::close()
{
  bool ok = sut::close(h);
  if (ok) said = 1;
  else { int none = -1; said.compare_exchange_strong(none, 0); }
  closed = true;
  return ok;
}
void Watcher::destroy()
{
  if (! h) return;
  block = false;
  sut::destroy(h);
  h = nullptr;
  closed = true;
  check_history();
}
Watcher::~Watcher() { destroy(); }
size_t Watcher::size() { std::lock_guard l{mx}; return log.size(); }
bool Watcher::wait(std::function<bool(std::deque<Rec> const&)> const& pred, int ms)
{
  std::unique_lock l{mx};
  // `ms` without any event arriving
  size_t n = log.size();
  auto until = mono_ms() + ms;
  while (! pred(log)) {
    cv.wait_for(l, std::chrono::milliseconds(20));
    if (log.size() != n) n = log.size(), until = mono_ms() + ms;
    if (mono_ms() > until) return pred(log);
  }
  return true;
}
bool Watcher::wait_path(string const& path, Eff eff, int ms, size_t from)
{
  size_t seen = from;
  return wait([&](auto& lg) {
    for (; seen < lg.size(); ++seen) {
      auto& e = lg[seen].e;
      if (e.eff == eff && (e.path == path || (e.assoc && e.assoc->path == path))) return true;
    }
    return false;
  }, ms);
}
bool Watcher::died()
{
  std::lock_guard l{mx};
  return ! log.empty() && log.back().e.pt == WATCHER && log.back().e.eff == DESTROY;
}
bool Watcher::ready(int ms)
{
  auto end = mono_ms() + ms;
  size_t seen = 0;
  int step = 2;
  while (mono_ms() < end) {
    string p = real + "/" + SENT + "p" + to_string(++serial);
    touch_new(p);
    bool ok = wait([&](auto& lg) {
      for (; seen < lg.size(); ++seen)
        if (lg[seen].e.pt != WATCHER) return true;
      return false;
    }, step);
    unlink(p.c_str());
    if (ok) return barrier(ms);
    if (died()) return false;
    step = std::min(step * 2, 200);
  }
  return false;
}
bool Watcher::barrier(int ms, string const& dir)
{
  string p = (dir.empty() ? real : dir) + "/" + SENT + "b" + to_string(++serial);
  touch_new(p);
  bool ok = wait_path(p, CREATE, ms);
  unlink(p.c_str());
  return ok;
}
vector<Rec> Watcher::take(size_t& pos)
{
  std::lock_guard l{mx};
  vector<Rec> v;
  for (; pos < log.size(); ++pos)
    if (! is_sent(log[pos].e.path)) v.push_back(log[pos]);
  return v;
}
string Watcher::dump(size_t from, size_t max)
{
  std::lock_guard l{mx};
  string s;
  for (size_t i = from; i < log.size() && i < from + max; ++i) s += show(log[i].e) + "; ";
  return s;
}
void Watcher::check_history()
{
  std::lock_guard l{mx};
  if (after) violation("C07", "callback-after-close", to_string(after.load()) + " callbacks ran after close or destruction had returned");
  if (overlap) violation("C02", "overlapping-callbacks", to_string(overlap.load()) + " callbacks of one watcher overlapped");
  ll prev = 0;
  for (auto& r : log) {
    cov("times");
    auto& e = r.e;
    if (e.t < opened_at) violation("C06", "time-before-open", show(e) + " at " + to_string(e.t) + " but opened at " + to_string(opened_at));
    if (e.t > r.at) violation("C06", "time-in-the-future", show(e) + " at " + to_string(e.t) + " but delivered at " + to_string(r.at));
    if (e.t < prev) violation("C06", "time-goes-backwards", show(e) + " at " + to_string(e.t) + " after " + to_string(prev));
    prev = e.t;
    for (auto a = e.assoc; a; a = a->assoc)
      if (a->t > r.at || a->t < opened_at)
        violation("C06", "associated-time", show(e) + ": associated event at " + to_string(a->t));
  }
  if (! check_life) return;
  if (log.empty()) { violation("C01", "no-live", "no event at all"); return; }
  size_t lives = 0, dies = 0;
  for (size_t i = 0; i < log.size(); ++i) {
    auto& e = log[i].e;
    if (e.pt != WATCHER) continue;
    bool live = e.path.find("/self/live@") == 1, die = e.path.find("/self/die@") == 1;
    if (live) {
      lives++;
      if (i != 0) violation("C01", "live-not-first", "live message at place " + to_string(i));
      if (e.eff != CREATE) violation("C01", "live-effect", show(e));
    }
    if (die) {
      dies++;
      if (i + 1 != log.size()) violation("C01", "die-not-last", to_string(log.size() - 1 - i) + " events after the die message; next: " + show(log[i + 1].e));
      if (e.eff != DESTROY) violation("C01", "die-effect", show(e));
      cov("dies_judged");
      if (said >= 0 && (said == 1) != (e.path[0] == 's')) violation("C01", "die-vs-close", show(e) + ", but closing reported " + (said == 1 ? "success" : "failure"));
    }
  }
  if (lives != 1) violation("C01", "live-count", to_string(lives) + " live messages");
  if (dies != 1) violation("C01", "die-count", to_string(dies) + " die messages");
}

// ---- histories -------------------------------------------------------------------
string Atom::str() const
{
  string s = string{eff_name[eff]} + " " + pt_name[pt] + " " + shorten(path);
  if (kind == PAIR) s += " -> " + shorten(path2);
  if (min == 0) s += " (optional)";
  if (max > 1) s += " x" + to_string(min) + ".." + to_string(max);
  return s;
}
void Hist::one(Eff e, Pt p, string const& path, ll t0, bool optional)
{
  if (e == MODIFY && ! a.empty()) {
    auto& l = a.back();
    if (l.kind == Atom::ONE && l.eff == e && l.path == path && l.pt == p && (l.min == 0) == optional) { l.max++; return; }
  }
  Atom x;
  x.eff = e, x.pt = p, x.path = path, x.t0 = t0, x.min = optional ? 0 : 1;
  a.push_back(x);
}
void Hist::pair(Pt p, string const& from, string const& to, ll t0, bool whole, bool optional)
{
  Atom x;
  x.kind = Atom::PAIR, x.eff = RENAME, x.pt = p, x.path = from, x.path2 = to, x.t0 = t0, x.whole = whole, x.min = optional ? 0 : 1;
  a.push_back(x);
}

string align(vector<Atom> const& A, vector<Rec> const& R, string& key)
{
  using S = std::pair<size_t, int>;
  size_t n = A.size();
  auto done = [&](S s) {
    auto& a = A[s.first];
    return a.kind == Atom::PAIR ? (s.second == 2 || (s.second == 0 && a.min == 0) || (s.second == 1 && a.half)) : s.second >= a.min;
  };
  auto close = [&](std::set<S>& f) {
    vector<S> todo(f.begin(), f.end());
    while (! todo.empty()) {
      auto s = todo.back();
      todo.pop_back();
      if (s.first < n && done(s)) {
        S t{s.first + 1, 0};
        if (f.insert(t).second) todo.push_back(t);
      }
    }
  };
  std::set<S> f{{0, 0}};
  close(f);
  for (size_t j = 0; j < R.size(); ++j) {
    auto& e = R[j].e;
    std::set<S> g;
    for (auto& s : f) {
      if (s.first >= n) continue;
      auto& a = A[s.first];
      if (e.t < a.t0) { /* judged by the time monitor */ }
      if (a.kind == Atom::ONE) {
        if (s.second < a.max && ! e.assoc && e.eff == a.eff && e.pt == a.pt && e.path == a.path) g.insert({s.first, s.second + 1});
      }
      else if (s.second == 0) {
        if (e.eff == RENAME && e.pt == a.pt && e.path == a.path) {
          if (e.assoc) {
            if (e.assoc->path == a.path2 && e.assoc->eff == RENAME && e.assoc->pt == a.pt && ! e.assoc->assoc) g.insert({s.first, 2});
          }
          else if (! a.whole) g.insert({s.first, 1});
        }
      }
      else if (s.second == 1) {
        if (e.eff == RENAME && e.pt == a.pt && ! e.assoc && e.path == a.path2) g.insert({s.first, 2});
      }
    }
    close(g);
    if (g.empty()) {
      // name the disagreement
      string want;
      size_t lo = n;
      int k = 0;
      for (auto& s : f) {
        lo = std::min(lo, s.first);
        if (s.first < n && k++ < 4) want += "[" + A[s.first].str() + "] ";
      }
      bool later = false, earlier = false, samepath = false, wrongkind = false;
      for (size_t i = 0; i < n; ++i) {
        bool p = A[i].path == e.path || (A[i].kind == Atom::PAIR && A[i].path2 == e.path);
        bool k2 = p && A[i].eff == e.eff && A[i].pt == e.pt;
        if (k2 && i >= lo) later = true;
        if (k2 && i < lo) earlier = true;
        if (p) samepath = true;
        if (p && ! k2) wrongkind = true;
      }
      string ek = string{eff_name[e.eff]} + "-" + pt_name[e.pt] + (e.assoc ? "-assoc" : "");
      key = later ? "lost-or-reordered" : earlier ? "repeated:" + ek : (samepath && wrongkind) ? "wrong-kind:" + ek : "unexpected:" + ek;
      string ctx;
      for (size_t i = j >= 3 ? j - 3 : 0; i < R.size() && i < j + 4; ++i) ctx += (i == j ? ">>> " : "") + show(R[i].e) + "; ";
      return "event " + to_string(j) + " of " + to_string(R.size()) + " is `" + show(e) + "` but expected " + (want.empty() ? "nothing more" : want) + "; around it: " + ctx;
    }
    f = std::move(g);
  }
  if (f.count({n, 0}) || n == 0) return "";
  size_t hi = 0;
  for (auto& s : f) hi = std::max(hi, s.first);
  string ctx;
  for (size_t i = R.size() >= 4 ? R.size() - 4 : 0; i < R.size(); ++i) ctx += show(R[i].e) + "; ";
  key = string{"lost:"} + eff_name[A[hi].eff] + "-" + pt_name[A[hi].pt];
  return "never reported: [" + A[hi].str() + "] (atom " + to_string(hi) + " of " + to_string(n) + "); the last events were: " + ctx;
}

// ---- files -----------------------------------------------------------------------
string mkroot(string const& name)
{
  string p = args.scratch + "/" + name + to_string(++serial);
  if (mkdir(p.c_str(), 0755)) give_up("mkdir " + p + ": " + strerror(errno));
  return p;
}
void rmtree(string const& p)
{
  if (! under(p, args.scratch)) give_up("refusing to remove " + p);
  std::error_code ec;
  std::filesystem::remove_all(p, ec);
}
bool put(string const& path, string const& bytes)
{
  int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
  if (fd < 0) return false;
  bool ok = ::write(fd, bytes.data(), bytes.size()) == (ssize_t)bytes.size();
  ::close(fd);
  return ok;
}
bool touch_new(string const& path) { return mknod(path.c_str(), S_IFREG | 0644, 0) == 0; }
int open_fds()
{
  int n = 0;
  if (::DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) ++n;
    closedir(d);
  }
  return n - 3;
}
int n_tasks()
{
  int n = 0;
  if (::DIR* d = opendir("/proc/self/task")) {
    while (readdir(d)) ++n;
    closedir(d);
  }
  return n - 2;
}
shim::Cfg cfg_of(string const& backend, unsigned seed)
{
  shim::Cfg c;
  Rng r{seed * 31u + 7};
  c.seed = seed;
  c.backend = backend == "fanotify" ? shim::FANOTIFY : backend == "real" ? shim::REAL : shim::INOTIFY;
  c.pump = backend != "direct" && backend != "real";
  static int const B[] = {0, 0, 1, 2, 3, 7, 16};
  c.batch = B[r(7)];
  static unsigned const G[] = {0, 0, 200, 2000};
  c.gather_us = G[r(4)];
  c.ep_order = (int)r(4);
  if (r.chance(25)) c.no_type_pct = r.chance(50) ? 100 : 50;
  if (r.chance(30)) c.delay_permille = 20, c.delay_us = 300;
  return c;
}
