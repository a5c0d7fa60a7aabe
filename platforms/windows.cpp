// C24: the Windows adapter, over a system made up from its documentation: one
// which keeps records of changes while nobody reads, up to the size of the
// first read's buffer, writes them to the reader's memory whenever there are
// some, until that is cancelled or the handle closed, and then says so.
// Arguments: seed= scratch= rounds=.
#include <array>
#include <atomic>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <functional>
#include <future>
#include <ios>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <string_view>
#include <sys/stat.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <utility>
#include <vector>
#include "fake/windows.h"
#undef __linux__
#define _WIN32 1
#include "wtr/watcher.hpp"

using S = std::string;
using namespace std::chrono_literals;
using Clock = std::chrono::steady_clock;
static S esc(S const& s)
{
  S o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') o += '\\', o += c; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static std::atomic<int> viols;
static void viol(S const& key, S const& detail) { static std::mutex m; auto l = std::scoped_lock{m}; if (++viols < 20) std::cout << "{\"viol\":{\"prop\":\"C24\",\"key\":\"" << key << "\",\"detail\":\"" << esc(detail) << "\"}}" << std::endl; }
struct Rng { std::mt19937_64 r; explicit Rng(uint64_t s) : r{s * 0x9e3779b97f4a7c15ull + 7} {} unsigned operator()(unsigned n) { return n ? (unsigned)(r() % n) : 0; } bool chance(unsigned p) { return (*this)(100) < p; } };
static std::map<S, long> sums;
static std::mutex sums_mx;
static void cov(S const& k, long n = 1) { auto l = std::scoped_lock{sums_mx}; sums[k] += n; }

// ---- the system ----------------------------------------------------------------
struct Rec { DWORD action; std::wstring name; };
struct Obj {
  enum { EVENT, DIR, PORT } k;
  bool open = true;
  // of a directory
  S path;
  Obj* port = nullptr;
  ULONG_PTR key = 0;
  DWORD size = 0;          // of the first read's buffer; 0: nobody has read
  bool overflowed = false, pending = false, odd = false;
  DWORD fails = 0;         // every read fails with this
  std::deque<Rec> kept;
  void* buf = nullptr; DWORD len = 0; OVERLAPPED* ov = nullptr;
  // of a port
  struct Done { DWORD bytes; ULONG_PTR key; OVERLAPPED* ov; DWORD error; Obj* dir; };
  std::deque<Done> done;
};
static std::mutex sys_mx;
static std::condition_variable sys_cv;
static std::set<Obj*> objs;
static thread_local DWORD last_error;
static std::map<S, std::pair<int, DWORD>> faults;   // function -> nth call from now, error
static std::atomic<bool> odd_overflows{false};
static std::atomic<unsigned> pause_us{0};
static std::atomic<long> most_in_one_read{0};
static void maybe_pause() { if (auto p = pause_us.load()) { static std::atomic<unsigned> n{0}; if (++n % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(n * 7919u % p)); } }
static bool faulty(char const* f)
{
  auto i = faults.find(f);
  if (i == faults.end() || --i->second.first > 0) return false;
  last_error = i->second.second;
  cov("faults");
  return true;
}
static Obj* of(HANDLE h, int k, char const* f)
{
  auto* o = (Obj*)h;
  if (! h || h == INVALID_HANDLE_VALUE) { last_error = ERROR_INVALID_HANDLE; return nullptr; }
  if (! objs.count(o) || ! o->open || (k >= 0 && o->k != k)) { viol("bad-handle", S{f} + " was given a handle which " + (objs.count(o) ? o->open ? "is of another kind" : "is closed" : "never was one")); last_error = ERROR_INVALID_HANDLE; return nullptr; }
  return o;
}
static Obj* make(decltype(Obj::k) k) { auto* o = new Obj; o->k = k; objs.insert(o); return o; }
DWORD GetLastError() { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
HANDLE CreateEventW(void*, BOOL, BOOL, WCHAR const*) { auto l = std::scoped_lock{sys_mx}; if (faulty("CreateEventW")) return nullptr; return make(Obj::EVENT); }
BOOL ResetEvent(HANDLE h) { auto l = std::scoped_lock{sys_mx}; return of(h, Obj::EVENT, "ResetEvent") != nullptr; }
BOOL SetEvent(HANDLE h) { return ResetEvent(h); }
DWORD WaitForSingleObject(HANDLE, DWORD) { return WAIT_FAILED; }
HANDLE CreateFileW(char const* p, DWORD acc, DWORD share, void*, DWORD how, DWORD fl, HANDLE)
{
  auto l = std::scoped_lock{sys_mx};
  if (faulty("CreateFileW")) return INVALID_HANDLE_VALUE;
  struct stat s;
  if (stat(p, &s) || ! S_ISDIR(s.st_mode)) { last_error = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
  if (! (acc & FILE_LIST_DIRECTORY) || how != OPEN_EXISTING || ! (fl & FILE_FLAG_BACKUP_SEMANTICS)) { last_error = ERROR_INVALID_PARAMETER; return INVALID_HANDLE_VALUE; }
  if (! (fl & FILE_FLAG_OVERLAPPED)) viol("not-overlapped", "the directory is opened for reads that cannot be given up");
  if (~share & (FILE_SHARE_READ | FILE_SHARE_WRITE | FILE_SHARE_DELETE)) viol("not-shared", "nobody else can rename or remove the watched directory");
  auto* o = make(Obj::DIR);
  o->path = p, o->odd = odd_overflows;
  return o;
}
HANDLE CreateIoCompletionPort(HANDLE file, HANDLE port, ULONG_PTR key, DWORD)
{
  auto l = std::scoped_lock{sys_mx};
  if (faulty("CreateIoCompletionPort")) return nullptr;
  if (file == INVALID_HANDLE_VALUE) {
    if (port) { last_error = ERROR_INVALID_PARAMETER; return nullptr; }
    return make(Obj::PORT);
  }
  auto *f = of(file, Obj::DIR, "CreateIoCompletionPort"), *p = port ? of(port, Obj::PORT, "CreateIoCompletionPort") : make(Obj::PORT);
  if (! f || ! p) return nullptr;
  f->port = p, f->key = key;
  return p;
}
// what is pending has ended
static void end(Obj* d, DWORD bytes, DWORD error)
{
  d->pending = false;
  d->ov->Internal = error, d->ov->InternalHigh = bytes;
  if (d->port) d->port->done.push_back({bytes, d->key, d->ov, error, d});
  sys_cv.notify_all();
}
static size_t size_of(Rec const& r) { return (offsetof(FILE_NOTIFY_INFORMATION, FileName) + r.name.size() * sizeof(WCHAR) + 3) / 4 * 4; }
// there, a character is half as big
static size_t size_there(Rec const& r) { return (12 + r.name.size() * 2 + 3) / 4 * 4; }
static void give(Obj* d)
{
  if (! d->pending) return;
  // there are file systems which say it in this way
  if (d->overflowed) { d->overflowed = false, d->kept.clear(); cov("overflows_given"); return end(d, 0, d->odd ? (DWORD)ERROR_NOTIFY_ENUM_DIR : 0); }
  if (d->kept.empty()) return;
  size_t at = 0, was = 0;
  long n = 0;
  auto* b = (char*)d->buf;
  while (! d->kept.empty()) {
    auto& r = d->kept.front();
    auto s = size_of(r);
    if (at + s > d->len) break;
    FILE_NOTIFY_INFORMATION i{};
    i.Action = r.action, i.FileNameLength = (DWORD)(r.name.size() * 2);
    memcpy(b + at, &i, offsetof(FILE_NOTIFY_INFORMATION, FileName));
    memcpy(b + at + offsetof(FILE_NOTIFY_INFORMATION, FileName), r.name.data(), r.name.size() * sizeof(WCHAR));
    // and nothing after the name
    if (n) { DWORD x = (DWORD)(at - was); memcpy(b + was, &x, sizeof x); }
    was = at, at += s, n++;
    d->kept.pop_front();
  }
  if (! n) { d->kept.clear(); return end(d, 0, 0); }
  cov("reads"), cov("records_given", n);
  if (n > most_in_one_read) most_in_one_read = n;
  end(d, (DWORD)at, 0);
}
BOOL ReadDirectoryChangesW(HANDLE h, void* buf, DWORD len, BOOL sub, DWORD filter, DWORD*, OVERLAPPED* ov, void*)
{
  maybe_pause();
  auto l = std::scoped_lock{sys_mx};
  auto* d = of(h, Obj::DIR, "ReadDirectoryChangesW");
  if (! d) return FALSE;
  if (d->fails) { last_error = d->fails; cov("failed_reads"); return FALSE; }
  if (faulty("ReadDirectoryChangesW")) return FALSE;
  if ((uintptr_t)buf % 4) { last_error = ERROR_INVALID_PARAMETER; return FALSE; }
  if (d->pending) { viol("two-reads", "a read into a buffer which is being read into"); return FALSE; }
  if (! sub) viol("not-recursive", "only the top of the tree is watched");
  if ((filter & 0x15f) != 0x15f) viol("filter", "not all kinds of changes are asked for");
  if (! ov) { viol("not-overlapped", "a read that cannot be given up"); return FALSE; }
  if (! d->size) d->size = len;
  d->buf = buf, d->len = len, d->ov = ov, d->pending = true;
  ov->Internal = 0x103;
  give(d);
  return TRUE;
}
BOOL GetQueuedCompletionStatus(HANDLE h, DWORD* bytes, ULONG_PTR* key, LPOVERLAPPED* ov, DWORD ms)
{
  maybe_pause();
  std::unique_lock l{sys_mx};
  *ov = nullptr;
  auto* p = of(h, Obj::PORT, "GetQueuedCompletionStatus");
  if (! p) return FALSE;
  if (faulty("GetQueuedCompletionStatus")) return FALSE;
  auto until = Clock::now() + std::chrono::milliseconds(ms);
  while (p->done.empty())
    if (sys_cv.wait_until(l, until) == std::cv_status::timeout && p->done.empty()) { last_error = WAIT_TIMEOUT; return FALSE; }
  auto d = p->done.front();
  p->done.pop_front();
  *bytes = d.bytes, *key = d.key, *ov = d.ov;
  last_error = d.error;
  return d.error == 0;
}
BOOL CancelIoEx(HANDLE h, OVERLAPPED* ov)
{
  auto l = std::scoped_lock{sys_mx};
  auto* d = of(h, Obj::DIR, "CancelIoEx");
  if (! d) return FALSE;
  if (! d->pending || (ov && ov != d->ov)) { last_error = ERROR_NOT_FOUND; return FALSE; }
  // not before it is done
  std::thread([d] { std::this_thread::sleep_for(300us); auto l2 = std::scoped_lock{sys_mx}; if (d->pending) end(d, 0, ERROR_OPERATION_ABORTED); }).detach();
  return TRUE;
}
BOOL CancelIo(HANDLE h) { return CancelIoEx(h, nullptr) || last_error == ERROR_NOT_FOUND; }
BOOL GetOverlappedResult(HANDLE h, OVERLAPPED* ov, DWORD* bytes, BOOL wait)
{
  std::unique_lock l{sys_mx};
  auto* d = of(h, Obj::DIR, "GetOverlappedResult");
  if (! d) return FALSE;
  if (d->pending && ! wait) { last_error = ERROR_IO_INCOMPLETE; return FALSE; }
  while (d->pending) sys_cv.wait(l);
  *bytes = (DWORD)ov->InternalHigh, last_error = (DWORD)ov->Internal;
  return last_error == 0;
}
BOOL CloseHandle(HANDLE h)
{
  auto l = std::scoped_lock{sys_mx};
  auto* o = of(h, -1, "CloseHandle");
  if (! o) { if (h == INVALID_HANDLE_VALUE) viol("bad-handle", "CloseHandle was given INVALID_HANDLE_VALUE"); return FALSE; }
  // the read ends some time after the handle was closed
  if (o->k == Obj::DIR && o->pending) {
    viol("buffer-in-use", "the directory is closed while the system may write to the reader's memory, with nobody waiting for the end of that");
    end(o, 0, ERROR_OPERATION_ABORTED);
  }
  o->open = false;
  return TRUE;
}
// somebody changes something
static void changed(std::vector<Rec> const& v, S const& path)
{
  auto l = std::scoped_lock{sys_mx};
  for (auto* d : objs) {
    if (d->k != Obj::DIR || ! d->open || d->path != path || ! d->size) continue;
    for (auto& r : v) {
      size_t n = 0;
      for (auto& k : d->kept) n += size_there(k);
      if (! d->overflowed && n + size_there(r) <= d->size) d->kept.push_back(r);
      else { if (! d->overflowed) cov("overflows"); d->overflowed = true; d->kept.clear(); }
    }
    give(d);
  }
}
static size_t left_open(S& what)
{
  auto l = std::scoped_lock{sys_mx};
  size_t n = 0;
  for (auto* o : objs) if (o->open) n++, what += o->k == Obj::EVENT ? " an event" : o->k == Obj::DIR ? " a directory" : " a port";
  return n;
}
static size_t still_pending()
{
  auto l = std::scoped_lock{sys_mx};
  size_t n = 0;
  for (auto* o : objs) n += o->k == Obj::DIR && o->pending;
  return n;
}
static bool reading(S const& path) { auto l = std::scoped_lock{sys_mx}; for (auto* o : objs) if (o->k == Obj::DIR && o->open && o->path == path && o->size) return true; return false; }
static bool idle(S const& path) { auto l = std::scoped_lock{sys_mx}; for (auto* o : objs) if (o->k == Obj::DIR && o->open && o->path == path) return o->pending && o->kept.empty() && ! o->overflowed; return false; }

// ---- the user -------------------------------------------------------------------
struct Ev { S path, path2; int et, pt, pt2; bool assoc; };
static char const* ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
static char const* PT[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
static S show(Ev const& e) { return S(ET[e.et]) + " " + PT[e.pt] + " " + e.path + (e.assoc ? S(" -> ") + PT[e.pt2] + " " + e.path2 : ""); }
struct User {
  S root; std::mutex m; std::vector<Ev> seen; std::atomic<bool> closed{false}; std::atomic<long> after{0}; std::atomic<int> inside{0}; std::atomic<unsigned> slow{0};
  std::unique_ptr<wtr::watch> w;
  User(S r) : root{r} {}
  void open()
  {
    w = std::make_unique<wtr::watch>(root, [this](wtr::event const& e) {
      if (closed) after++;
      if (inside++) viol("overlapping", "two callbacks of one watcher at once");
      if (auto s = slow.load()) std::this_thread::sleep_for(std::chrono::microseconds(s));
      { auto l = std::scoped_lock{m}; seen.push_back({e.path_name.string(), e.associated ? e.associated->path_name.string() : "", (int)e.effect_type, (int)e.path_type, e.associated ? (int)e.associated->path_type : 5, e.associated != nullptr}); }
      inside--;
    });
  }
  size_t n() { auto l = std::scoped_lock{m}; return seen.size(); }
  bool died() { auto l = std::scoped_lock{m}; return ! seen.empty() && seen.back().pt == 4 && seen.back().et == 3; }
  std::vector<Ev> from(size_t i) { auto l = std::scoped_lock{m}; return {seen.begin() + (long)i, seen.end()}; }
  S dump(size_t i = 0) { S s; for (auto& e : from(i)) s += show(e) + "; "; return s.substr(0, 1500); }
};
template<class F> static bool wait(F f, int s = 20) { for (auto t = Clock::now(); Clock::now() - t < std::chrono::seconds(s); std::this_thread::sleep_for(300us)) if (f()) return true; return f(); }
static S narrow(std::wstring const& w)
{
  S s;
  for (auto x : w) { auto c = (unsigned long)x; if (c < 0x80) s += (char)c; else if (c < 0x800) s += (char)(0xc0 | c >> 6), s += (char)(0x80 | (c & 63)); else if (c < 0x10000) s += (char)(0xe0 | c >> 12), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63)); else s += (char)(0xf0 | c >> 18), s += (char)(0x80 | (c >> 12 & 63)), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63)); }
  return s;
}
static std::set<S> shapes, kinds;
static std::vector<S> samples;

struct Round {
  Rng r; S root; User u; std::vector<std::wstring> dirs; int serial = 0; bool bad = false;
  std::vector<Ev> want;
  Round(uint64_t s, S rt) : r{s}, root{rt}, u{rt} {}
  std::wstring name()
  {
    std::wstring n;
    if (! dirs.empty() && r.chance(50)) n = dirs[r((unsigned)dirs.size())] + L"/";
    // almost as a directory's
    else if (! dirs.empty() && r.chance(30)) return dirs[r((unsigned)dirs.size())] + (r.chance(50) ? L".txt" : L"") + std::to_wstring(serial++);
    n += L"n" + std::to_wstring(serial++);
    switch (r(7)) {
      case 0: n += std::wstring(r(230), L'x'); break;
      case 1: n += L"\u00e9\u4e16"; break;
      case 2: n += L" b.txt"; break;
      case 3: n += L"\U0001f600"; break;
      case 4: n += L"."; break;
      default: break;
    }
    return n;
  }
  int type(std::wstring const& n) { for (auto& d : dirs) if (d == n) return 0; return 1; }
  S at(std::wstring const& n) { return root + "/" + narrow(n); }
  Rec rec(DWORD a, std::wstring const& n) { return {a, n}; }
  // one change, as one or two records
  std::vector<Rec> change()
  {
    auto some = [&] { return dirs.empty() || r.chance(75) ? name() : dirs[r((unsigned)dirs.size())]; };
    auto n = some();
    static int const E[] = {2, 3, 1};
    static DWORD const A[] = {FILE_ACTION_ADDED, FILE_ACTION_REMOVED, FILE_ACTION_MODIFIED};
    auto k = r(4);
    if (k < 3) { want.push_back({at(n), "", E[k], type(n), 5, false}); return {rec(A[k], n)}; }
    n = name();
    auto m = name();
    want.push_back({at(n), at(m), 0, 1, 1, true});
    return {rec(FILE_ACTION_RENAMED_OLD_NAME, n), rec(FILE_ACTION_RENAMED_NEW_NAME, m)};
  }
  void fail(S const& k, S const& d) { if (! bad) viol(k, d); bad = true; }
  void judge(S const& what, std::vector<Ev> const& got)
  {
    S sh;
    for (size_t i = 0; i < std::max(got.size(), want.size()) && ! bad; ++i) {
      if (i >= got.size()) { fail("lost", what + ": " + show(want[i]) + " was not reported (" + std::to_string(got.size()) + " of " + std::to_string(want.size()) + ")"); break; }
      auto& g = got[i];
      if (i >= want.size()) { fail("unexpected", what + ": " + show(g) + " was reported"); break; }
      auto& w = want[i];
      if (g.path != w.path || g.et != w.et || g.pt != w.pt || g.assoc != w.assoc || (g.assoc && (g.path2 != w.path2 || g.pt2 != w.pt2)))
        fail(g.path != w.path ? "lost-or-reordered" : g.assoc != w.assoc ? "association" : "wrong", what + ": event " + std::to_string(i) + " is " + show(g) + " instead of " + show(w));
      sh += ET[g.et][0], sh += PT[g.pt][0];
      if (g.assoc) sh += "+";
    }
    cov("events", (long)got.size());
    if (sh.size() > 6) { auto l = std::scoped_lock{sums_mx}; shapes.insert(sh); }
    if (samples.size() < 4 && got.size() > 2 && ! bad) samples.push_back(what + ": " + std::to_string(got.size()) + " events as expected, e.g. " + show(got[got.size() / 2]));
    want.clear();
  }
  void run(std::string kind)
  {
    kinds.insert(kind);
    cov("rounds");
    odd_overflows = r.chance(30);
    pause_us = r.chance(30) ? 1 + r(2000) : 0;
    struct stat s;
    if (stat(root.c_str(), &s)) mkdir(root.c_str(), 0755);
    for (unsigned i = 0, n = r(5); i < n; ++i) { auto d = (dirs.empty() || r.chance(50) ? L"" : dirs[r((unsigned)dirs.size())] + L"/") + (r.chance(25) ? L"\u4e16 " : L"d") + std::to_wstring(i) + (r.chance(30) ? L".d" : r.chance(20) ? L" x" : L""); mkdir(at(d).c_str(), 0755); dirs.push_back(d); }
    faults.clear();
    struct F { char const* f; int n; DWORD e; };
    static F const starts[] = {{"CreateEventW", 1, ERROR_NOT_ENOUGH_MEMORY}, {"CreateFileW", 1, ERROR_ACCESS_DENIED}, {"CreateIoCompletionPort", 1, ERROR_TOO_MANY_OPEN_FILES}, {"CreateIoCompletionPort", 2, ERROR_NOT_ENOUGH_MEMORY}, {"ReadDirectoryChangesW", 1, ERROR_ACCESS_DENIED}, {"ReadDirectoryChangesW", 1, ERROR_INVALID_PARAMETER}};
    if (kind == "fails-to-start") {
      auto& f = starts[r(6)];
      { auto l = std::scoped_lock{sys_mx}; faults[f.f] = {f.n, f.e}; }
      kinds.insert(kind + " " + f.f + std::to_string(f.n));
      u.open();
      if (! wait([&] { return u.died(); })) fail("keeps-running", S("20 s after ") + f.f + " failed there is no e/self/die: " + u.dump());
      auto ok = u.w->close();
      u.closed = true;
      if (ok) fail("close-succeeds", S(f.f) + " failed, closing reported success: " + u.dump());
      else if (u.from(u.n() - 1)[0].path[0] != 'e') fail("die-succeeds", u.dump());
      return done();
    }
    if (kind == "at-once") {
      u.open();
      std::this_thread::sleep_for(std::chrono::microseconds(r(3) ? r(300) : 0));
      u.w->close();
      u.closed = true;
      return done();
    }
    u.open();
    if (! wait([&] { return reading(root); })) { fail("not-reading", "nobody asked for changes within 20 s: " + u.dump()); return done(); }
    wait([&] { return idle(root); });
    size_t pos = u.n();
    if (pos != 1 || u.from(0)[0].path != "s/self/live@" + root || u.from(0)[0].et != 2) fail("live", "it began with: " + u.dump());
    if (kind == "fails-later") {
      if (r.chance(25)) { auto l = std::scoped_lock{sys_mx}; faults["GetQueuedCompletionStatus"] = {1 + (int)r(3), ERROR_INVALID_HANDLE}; kinds.insert(kind + " port"); }
      else { auto l = std::scoped_lock{sys_mx}; for (auto* o : objs) if (o->open && o->path == root) {
        o->fails = r.chance(50) ? ERROR_ACCESS_DENIED : ERROR_INVALID_HANDLE;
        if (o->pending && r.chance(60)) end(o, 0, ERROR_ACCESS_DENIED); } }
      changed({{FILE_ACTION_ADDED, L"last"}}, root);
      if (! wait([&] { return u.died(); })) fail("keeps-running", "20 s after reading failed there is no e/self/die: " + u.dump());
      auto ok = u.w->close();
      u.closed = true;
      bool told = false;
      for (auto& e : u.from(0)) told |= e.pt == 4 && e.path.rfind("e/", 0) == 0 && e.path.rfind("e/self/", 0) != 0 && e.path.find("@" + root) != S::npos;
      if (ok) fail("close-succeeds", "reading failed, closing reported success: " + u.dump());
      else if (! told) fail("not-told", "reading failed, but there is no e/...@" + root + ": " + u.dump());
      return done();
    }
    for (int seg = 0; seg < 3 && ! bad; ++seg) {
      if (! dirs.empty() && kind != "overflow" && r.chance(50)) {
        // a directory with nothing in it
        size_t i = r((unsigned)dirs.size());
        auto from = dirs[i];
        bool leaf = true;
        for (auto& d : dirs) leaf = leaf && d.rfind(from + L"/", 0) != 0;
        if (leaf) {
          auto to = from + L"m" + std::to_wstring(serial++);
          rename(at(from).c_str(), at(to).c_str());
          dirs[i] = to;
          auto was = u.n();
          changed({rec(FILE_ACTION_RENAMED_OLD_NAME, from)}, root);
          if (r.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(r(2000)));
          changed({rec(FILE_ACTION_RENAMED_NEW_NAME, to)}, root);
          want.push_back({at(from), at(to), 0, 0, 0, true});
          wait([&] { return u.n() > was; });
          cov("directories_renamed");
        }
      }
      u.slow = kind == "slow" ? 200 + r(800) : kind == "overflow" && r.chance(80) ? 100 + r(3000) : 0;
      int n = kind == "overflow" ? 1000 : 1 + (int)r(60);
      std::vector<Rec> pending;
      auto overflows = [] { auto l = std::scoped_lock{sums_mx}; return sums["overflows"]; };
      auto over_was = overflows();
      for (int i = 0; i < n; ++i) {
        for (auto& x : change()) {
          pending.push_back(x);
          if (r.chance(kind == "torn" ? 90 : 40)) { changed(pending, root), pending.clear(); if (r.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(r(400))); }
          // no more than is kept
          if (kind != "overflow") { size_t k = 0; { auto l = std::scoped_lock{sys_mx}; for (auto* o : objs) if (o->open && o->path == root) for (auto& q : o->kept) k += size_there(q); } for (auto& q : pending) k += size_there(q); if (k > 3000) { changed(pending, root), pending.clear(); wait([&] { return idle(root); }); } }
        }
      }
      changed(pending, root);
      bool over = overflows() > over_was;
      wait([&] { return idle(root); });
      // what tells us that it got this far
      auto w = L"mark" + std::to_wstring(serial++);
      changed({{FILE_ACTION_ADDED, w}}, root);
      Ev m{at(w), "", 2, 1, 5, false};
      if (! wait([&] { for (auto& e : u.from(pos)) if (e.path == m.path) return true; return false; })) { fail("events-stopped", kind + ": a change was not reported within 20 s; last: " + u.dump(u.n() > 5 ? u.n() - 5 : 0)); break; }
      auto got = u.from(pos);
      pos += got.size();
      if (kind == "overflow") {
        // in order, nothing made up, and the gap announced
        bool said = false;
        size_t at = 0;
        want.push_back(m);
        for (auto& e : got) {
          if (e.pt == 4) { said |= e.path == "w/sys/q_overflow@" + root; if (e.path[0] == 'e') fail("overflow-is-an-error", u.dump()); continue; }
          // or one half of a rename whose other half was dropped
          auto half = [&](Ev const& w) { return over && w.assoc && ! e.assoc && e.et == 0 && (e.path == w.path || e.path == w.path2); };
          while (at < want.size() && ! half(want[at]) && (want[at].path != e.path || want[at].et != e.et || want[at].path2 != e.path2)) at++;
          if (at == want.size()) {
            fail("unexpected", "around an overflow: " + show(e) + " was reported");
            break;
          }
          if (half(want[at])) cov("lone_halves");
          at++;
        }
        if (over && ! said && got.size() < want.size()) fail("overflow-not-said", std::to_string(want.size() - got.size()) + " changes were lost, nothing says so");
        cov("events", (long)got.size());
        want.clear();
      }
      else {
        want.push_back(m);
        judge(kind, got);
      }
    }
    if (kind == "close-in-traffic") {
      std::atomic<bool> stop{false};
      std::thread t{[&] { Rng q{7}; for (int i = 0; ! stop && i < 100000; ++i) { changed({{FILE_ACTION_MODIFIED, L"traffic"}}, root); if (q.chance(10)) std::this_thread::sleep_for(100us); } }};
      std::this_thread::sleep_for(std::chrono::microseconds(r(3000)));
      if (! u.w->close()) fail("close-failed", u.dump(u.n() - 2));
      u.closed = true;
      std::this_thread::sleep_for(2ms);
      stop = true;
      t.join();
    }
    else if (! u.w->close()) fail("close-failed", "closing a healthy watcher reported failure: " + u.dump(u.n() - 2));
    u.closed = true;
    if (! u.died() || u.from(u.n() - 1)[0].path != "s/self/die@" + root) fail("die", "it ended with: " + u.dump(u.n() - 2));
    done();
  }
  void done()
  {
    S what;
    if (auto n = still_pending()) fail("buffer-in-use", "after close the system may still write to the memory of " + std::to_string(n) + " watchers");
    u.w.reset();
    if (auto n = left_open(what)) fail("handles-left", std::to_string(n) + " handles are still open:" + what);
    if (u.after) fail("callback-after-close", std::to_string(u.after.load()) + " callbacks after close had returned");
    for (auto& e : u.seen) if (e.pt == 4 && e.path.find("@" + root) == S::npos) fail("message-form", "a message without the path: " + e.path);
    std::this_thread::sleep_for(1ms);
    auto l = std::scoped_lock{sys_mx};
    static auto& forgotten = *new std::vector<Obj*>;
    forgotten.insert(forgotten.end(), objs.begin(), objs.end());
    for (auto* o : objs) o->kept = {};
    objs.clear();
    faults.clear();
  }
};

int main(int argc, char** argv)
{
  S scratch; int rounds = 20; unsigned long seed = 1;
  for (int i = 1; i < argc; ++i) {
    S a = argv[i];
    if (a.rfind("seed=", 0) == 0) seed = std::stoul(a.substr(5));
    if (a.rfind("scratch=", 0) == 0) scratch = a.substr(8);
    if (a.rfind("rounds=", 0) == 0) rounds = std::stoi(a.substr(7));
  }
  std::setlocale(LC_ALL, "C.UTF-8");
  std::locale::global(std::locale("C.UTF-8"));
  Rng r{seed};
  char const* const K[] = {"plain", "torn", "slow", "overflow", "close-in-traffic", "at-once", "fails-to-start", "fails-later"};
  for (int i = 0; i < rounds && viols < 5; ++i) {
    auto root = scratch + "/w" + std::to_string(i) + (r.chance(20) ? "/" + S(240, 'p') + "/" + S(240, 'q') + "/" + S(240, 'r') + "/" + S(240, 's') + "/" + S(240, 't') : r.chance(20) ? S("/\xc3\xa9 \xe4\xb8\x96") : "");
    std::filesystem::create_directories(root);
    Round d{r.r(), root};
    d.run(K[r(8)]);
  }
  sums["most_in_one_read"] = 0;
  std::cout << "{\"cov\":{\"sum\":{\"watchers\":" << sums["rounds"];
  for (auto const& [k, v] : sums) if (k != "most_in_one_read") std::cout << ",\"" << k << "\":" << v;
  std::cout << "},\"max\":{\"records_in_one_read\":" << most_in_one_read << "},\"distinct\":{\"segment_shapes\":[";
  bool first = true;
  for (auto const& s : shapes) std::cout << (first ? "" : ",") << '"' << s << '"', first = false;
  std::cout << "],\"kinds\":[";
  first = true;
  for (auto const& s : kinds) std::cout << (first ? "" : ",") << '"' << s << '"', first = false;
  std::cout << "]},\"samples\":[";
  first = true;
  for (auto const& s : samples) std::cout << (first ? "\"" : ",\"") << esc(s) << '"', first = false;
  std::cout << "]}}\n{\"done\":true}" << std::endl;
}
