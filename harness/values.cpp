// C15 and C16: events as values and as text, for many of them. The clock the
// library asks is ours (linked with --wrap), so times can be anything.
#include "wtr/watcher.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <locale>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using std::string;
using std::to_string;
using std::vector;
using wtr::event;
using Eff = enum event::effect_type;
using Pt = enum event::path_type;

static long long fake = 0;
extern "C" long long __real__ZNSt6chrono3_V212system_clock3nowEv();
extern "C" long long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return fake ? fake : __real__ZNSt6chrono3_V212system_clock3nowEv(); }

static string jstr(string const& s)
{
  string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 0x20 || c == '"' || c == '\\' || c > 0x7e) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static std::map<string, long> sums;
static std::map<string, std::set<string>> sets;
static vector<string> samples;
static string prop;
static void violation(string const& p, string const& key, string const& detail)
{
  static std::map<string, int> seen;
  if (seen[p + key]++ > 2) return;
  printf("{\"viol\":{\"prop\":%s,\"key\":%s,\"detail\":%s}}\n", jstr(p).c_str(), jstr(key).c_str(), jstr(detail.substr(0, 2000)).c_str());
  fflush(stdout);
}
static void cov(string const& k, long n = 1) { sums[k] += n; }
static void cov_distinct(string const& k, string const& v) { if (sets[k].size() < 5000) sets[k].insert(v); }
static std::mt19937_64 rng;
static unsigned R(unsigned n) { return (unsigned)(rng() % n); }

static char const* const EN[] = {"rename", "modify", "create", "destroy", "owner", "other"};
static char const* const PN[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
static Eff const E[] = {Eff::rename, Eff::modify, Eff::create, Eff::destroy, Eff::owner, Eff::other};
static Pt const P[] = {Pt::dir, Pt::file, Pt::hard_link, Pt::sym_link, Pt::watcher, Pt::other};

// ---- a strict reader of JSON, narrow or wide, written from RFC 8259 ------------
struct Js { enum { NUL, STR, NUM, OBJ, BOOL, ARR } k = NUL; string s; std::map<string, Js> o; };
struct Bad { string why; };
template <class C> struct Reader {
  std::basic_string<C> const& t;
  size_t i = 0;
  [[noreturn]] void bad(string w) { throw Bad{w + " at " + to_string(i)}; }
  unsigned long at() { if (i >= t.size()) bad("ends early"); return (unsigned long)(std::make_unsigned_t<C>)t[i]; }
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) i++; }
  static void put(string& s, unsigned long c)
  {
    // a byte that was no text stands as a lone surrogate
    if (c >= 0xdc80 && c <= 0xdcff) s += (char)(c - 0xdc00);
    else if (c < 0x80) s += (char)c;
    else if (c < 0x800) s += (char)(0xc0 | c >> 6), s += (char)(0x80 | (c & 63));
    else if (c < 0x10000) s += (char)(0xe0 | c >> 12), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
    else s += (char)(0xf0 | c >> 18), s += (char)(0x80 | (c >> 12 & 63)), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
  }
  unsigned long hex4()
  {
    unsigned long v = 0;
    for (int k = 0; k < 4; ++k, ++i) {
      auto c = at();
      if (c > 127 || ! isxdigit((int)c)) bad("bad escape");
      v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    }
    return v;
  }
  // the text itself must be UTF-8, or, if wide, code points
  unsigned long point()
  {
    unsigned long c = at();
    i++;
    if (sizeof(C) > 1) { if (c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) bad("not a character"); return c; }
    if (c < 0x80) return c;
    int n = c >= 0xf0 && c < 0xf5 ? 3 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xc2 && c < 0xe0 ? 1 : 0;
    if (! n) bad("not UTF-8");
    unsigned long v = c & (0x3ful >> n);
    for (int k = 0; k < n; ++k, ++i) { auto d = at(); if ((d & 0xc0) != 0x80) bad("not UTF-8"); v = v << 6 | (d & 63); }
    if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) bad("not UTF-8");
    return v;
  }
  string str()
  {
    if (at() != '"') bad("no string");
    i++;
    string s;
    for (;;) {
      auto c = at();
      if (c == '"') { i++; return s; }
      if (c < 0x20) bad("control character in a string");
      if (c != '\\') { put(s, point()); continue; }
      i++;
      auto e = at();
      i++;
      switch (e) {
        case '"': case '\\': case '/': s += (char)e; break;
        case 'b': s += '\b'; break;
        case 'f': s += '\f'; break;
        case 'n': s += '\n'; break;
        case 'r': s += '\r'; break;
        case 't': s += '\t'; break;
        case 'u': {
          auto u = hex4();
          if (u >= 0xd800 && u < 0xdc00 && i + 1 < t.size() && t[i] == '\\' && t[i + 1] == 'u') {
            auto k = i;
            i += 2;
            auto l = hex4();
            if (l >= 0xdc00 && l < 0xe000) u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
            else i = k;
          }
          put(s, u);
          break;
        }
        default: bad("bad escape");
      }
    }
  }
  Js val(int depth = 0)
  {
    if (depth > 3000) bad("too deep");
    Js v;
    ws();
    auto c = at();
    if (c == '"') { v.k = Js::STR; v.s = str(); }
    else if (c == '{') {
      v.k = Js::OBJ;
      i++;
      ws();
      if (at() == '}') { i++; return v; }
      for (;;) {
        ws();
        auto k = str();
        ws();
        if (at() != ':') bad("no colon");
        i++;
        if (v.o.count(k)) bad("key twice: " + k);
        v.o[k] = val(depth + 1);
        ws();
        if (at() == ',') { i++; continue; }
        if (at() == '}') { i++; break; }
        bad("no comma");
      }
    }
    else if (c == 'n') { for (char x : string{"null"}) { if (at() != (unsigned long)x) bad("no value"); i++; } }
    else if (c == '-' || (c >= '0' && c <= '9')) {
      v.k = Js::NUM;
      if (c == '-') v.s += '-', i++;
      if (at() == '0') { v.s += '0', i++; }
      else if (at() >= '1' && at() <= '9') while (i < t.size() && t[i] >= '0' && t[i] <= '9') v.s += (char)t[i++];
      else bad("no number");
    }
    else bad("no value");
    return v;
  }
};
template <class C> static Js read_json(std::basic_string<C> const& t)
{
  Reader<C> r{t};
  auto v = r.val();
  r.ws();
  if (r.i != t.size()) r.bad("more than one value");
  return v;
}

// ---- what events are made of --------------------------------------------------------
static string a_path()
{
  string s;
  switch (R(12)) {
    case 0: return "";
    case 1: return "/";
    case 2: return "/a/b.txt";
    case 3: { int n = (int)R(40); for (int i = 0; i < n; ++i) s += (char)(1 + R(255)); return s; }
    case 4: { int n = 1 + (int)R(6); for (int i = 0; i < n; ++i) s += "\"\\/\b\f\n\r\t\x01\x1f\x7f '{}[]:,"[R(19)]; return "/" + s; }
    case 5: { // text of all lengths of encoding, at their limits
      static char const* const T[] = {"a", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xef\xbb\xbf"};
      for (int n = 1 + (int)R(8); n > 0; --n) s += T[R(13)];
      return s;
    }
    case 6: { // nearly text
      static char const* const T[] = {"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe0\xa0", "\xed\xa0\x80", "\xed\xb2\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xfe", "\xff", "\xe2\x28\xa1", "\xf0\x28\x8c\xbc"};
      for (int n = 1 + (int)R(5); n > 0; --n) { s += T[R(20)]; if (R(2)) s += "x"; }
      return "/d/" + s;
    }
    case 7: return "/" + string(1 + R(4000), "xy\"\\\n\xc3"[R(6)]);
    case 8: return "s/self/live@/tmp/" + to_string(R(100));
    case 9: return "rel/../a//b/.";
    case 10: return "\\u0041\\n\\\"" + to_string(R(1000));
    default: return "/home/u/" + to_string(R(1000000)) + ".x";
  }
}
static long long a_time()
{
  static long long const T[] = {1, 9, 10, 99, 100, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 999999999999999999ll, 1000000000000000000ll, 9223372036854775807ll, -1, -9, -10, -9223372036854775807ll, -9223372036854775807ll - 1, 9007199254740993ll, 1700000000123456789ll};
  switch (R(4)) {
    case 0: return T[R(19)];
    case 1: { long long v = 1; for (unsigned i = 0, n = R(18); i < n; ++i) v *= 10; return (v + (long long)R(3) - 1) * (R(2) ? 1 : -1); }
    case 2: return (long long)(rng() >> R(64)) | 1;
    default: return (long long)rng() | 1;
  }
}
struct Want { string path; int e, p; long long t; };
// events cannot be made otherwise: the time is what the clock says
static std::unique_ptr<event> make(Want const& w)
{
  fake = w.t;
  auto r = std::make_unique<event>(std::filesystem::path{w.path}, E[w.e], P[w.p]);
  fake = 0;
  return r;
}
static std::unique_ptr<event> chain(vector<Want> const& w)
{
  std::unique_ptr<event> e;
  for (size_t i = w.size(); i-- > 0;) {
    auto b = make(w[i]);
    if (e) { fake = w[i].t; auto c = std::make_unique<event>(*b, std::move(*e)); fake = 0; e = std::move(c); }
    else e = std::move(b);
  }
  return e;
}
static Want a_want() { auto t = a_time(); return {a_path(), (int)R(6), (int)R(6), t ? t : 1}; }

// ---- C15 ------------------------------------------------------------------------------
static bool clock_is_ours = true;
static void fields(string const& where, Js const& j, Want const& w)
{
  auto get = [&](char const* k) -> string { auto i = j.o.find(k); if (i == j.o.end() || i->second.k != Js::STR) { violation("C15", string{"no-"} + k, where + ": no " + k); return "\1none"; } return i->second.s; };
  auto cmp = [&](char const* k, string const& want) { auto g = get(k); if (g != "\1none" && g != want) violation("C15", string{"wrong-"} + k, where + ": " + k + " is " + g + " instead of " + want); };
  cmp("effect_type", EN[w.e]), cmp("path_type", PN[w.p]), cmp("path_name", w.path);
}
template <class C> static void form(string const& where, std::basic_string<C> const& text, event const& e, vector<Want> const& w)
{
  cov("forms");
  std::basic_string<C> t;
  t += (C)'{', t += text, t += (C)'}';
  Js j;
  try { j = read_json(t); }
  catch (Bad const& b) {
    string n;
    for (auto c : text) n += (unsigned long)c < 127 ? (char)c : '?';
    violation("C15", "not-json", where + ": " + b.why + ": " + n);
    return;
  }
  if (j.k != Js::OBJ || j.o.size() != 1) { violation("C15", "not-one-event", where + ": " + to_string(j.o.size()) + " members"); return; }
  auto& [key, body] = *j.o.begin();
  if (key != to_string(e.effect_time)) violation("C15", "wrong-time", where + ": the time is " + key + " instead of " + to_string(e.effect_time));
  fields(where, body, w[0]);
  bool has = body.o.count("associated") && body.o["associated"].k != Js::NUL;
  if (has != (w.size() > 1)) violation("C15", "associated-presence", where + (has ? ": an associated event out of nowhere" : ": the associated event is missing"));
  if (has && w.size() > 1) { fields(where + " (associated)", body.o["associated"], w[1]); cov("associated"); }
}
struct Sep : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\3"; } };
struct WSep : std::numpunct<wchar_t> { wchar_t do_thousands_sep() const override { return L'.'; } string do_grouping() const override { return "\3"; } };
static string narrow(std::wstring const& w) { string s; for (auto c : w) Reader<char>::put(s, (unsigned long)c); return s; }

static void text_of_events(int n)
{
  for (int i = 0; i < n; ++i) {
    vector<Want> w;
    for (int k = R(3) ? 1 + (int)R(2) : 1 + (int)R(4); k > 0; --k) w.push_back(a_want());
    auto e = chain(w);
    if (e->effect_time != w[0].t) clock_is_ours = false;
    using wtr::to;
    form("to<string>", to<string>(*e), *e, w);
    form("to<wstring>", to<std::wstring>(*e), *e, w);
    std::ostringstream os;
    std::wostringstream ws;
    if (R(2)) { os << std::hex << std::showbase << std::uppercase; ws << std::hex << std::showpos; }
    if (R(2)) { os.imbue(std::locale(os.getloc(), new Sep)); ws.imbue(std::locale(ws.getloc(), new WSep)); }
    os << *e;
    ws << *e;
    form("<<", os.str(), *e, w);
    form("wide <<", ws.str(), *e, w);
    // the parts
    auto part = [&](char const* what, string const& got, string const& want) { cov("parts"); if (got != want) violation("C15", string{"part:"} + what, string{what} + " is " + got + " instead of " + want); };
    part("to<string>(effect)", to<string>(e->effect_type), EN[w[0].e]);
    part("to<string>(path type)", to<string>(e->path_type), PN[w[0].p]);
    part("to<string_view>(effect)", string{to<std::string_view>(e->effect_type)}, EN[w[0].e]);
    part("to<string_view>(path type)", string{to<std::string_view>(e->path_type)}, PN[w[0].p]);
    part("to<wstring>(effect)", narrow(to<std::wstring>(e->effect_type)), EN[w[0].e]);
    part("to<wstring>(path type)", narrow(to<std::wstring>(e->path_type)), PN[w[0].p]);
    part("to<wstring_view>(effect)", narrow(std::wstring{to<std::wstring_view>(e->effect_type)}), EN[w[0].e]);
    part("to<wstring_view>(path type)", narrow(std::wstring{to<std::wstring_view>(e->path_type)}), PN[w[0].p]);
    part("to<string>(path)", to<string>(e->path_name), w[0].path);
    part("to<wstring>(path)", narrow(to<std::wstring>(e->path_name)), w[0].path);
    part("to<string>(time)", to<string>(e->effect_time), to_string(e->effect_time));
    part("to<wstring>(time)", narrow(to<std::wstring>(e->effect_time)), to_string(e->effect_time));
    std::ostringstream a, b;
    std::wostringstream c, d;
    a << e->effect_type, b << e->path_type, c << e->effect_type, d << e->path_type;
    part("<< effect", a.str(), EN[w[0].e]);
    part("<< path type", b.str(), PN[w[0].p]);
    part("wide << effect", narrow(c.str()), EN[w[0].e]);
    part("wide << path type", narrow(d.str()), PN[w[0].p]);
    string cls;
    for (unsigned char x : w[0].path) { char k = x < 32 ? 'c' : x == '"' || x == '\\' ? 'q' : x < 127 ? 'a' : x < 0xc0 ? 't' : x < 0xe0 ? '2' : x < 0xf0 ? '3' : '4'; if (cls.empty() || cls.back() != k) cls += k; if (cls.size() > 12) break; }
    cov_distinct("shapes", cls + "/" + to_string(w.size()) + EN[w[0].e][0] + PN[w[0].p][0]);
    cov("events");
    if (samples.size() < 4 && R(50) == 0) samples.push_back(to<string>(*e).substr(0, 300));
  }
}
static void numbers(int n)
{
  using wtr::to;
  auto one = [&](long long v) {
    auto want = to_string(v);
    auto a = to<string>(v);
    auto b = narrow(to<std::wstring>(v));
    if (a != want || b != want) violation("C15", "number", to_string(v) + " became " + a + " and " + b);
    cov("numbers");
  };
  for (long long v = -1100; v <= 1100; ++v) one(v);
  for (int s = 0; s < 64; ++s) for (int d = -2; d <= 2; ++d) { auto v = (long long)((1ull << s) + (unsigned long long)d); one(v); one((long long)-(unsigned long long)v); }
  unsigned long long p = 1;
  for (int k = 0; k < 19; ++k, p *= 10) for (int d = -2; d <= 2; ++d) { one((long long)(p + (unsigned long long)d)); one((long long)-(p + (unsigned long long)d)); }
  for (int i = 0; i < n; ++i) one(a_time()), one((long long)(rng() >> R(64)));
}

// ---- C16 ------------------------------------------------------------------------------
static vector<Want> read_back(event const& e)
{
  vector<Want> v;
  for (auto* p = &e; p; p = p->associated.get()) {
    int a = 0, b = 0;
    for (int i = 0; i < 6; ++i) { if (p->effect_type == E[i]) a = i; if (p->path_type == P[i]) b = i; }
    v.push_back({p->path_name.string(), a, b, p->effect_time});
  }
  return v;
}
static bool alike(Want const& a, Want const& b) { return std::filesystem::path{a.path} == std::filesystem::path{b.path} && a.e == b.e && a.p == b.p && a.t == b.t; }
static bool alike(vector<Want> const& a, vector<Want> const& b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (! alike(a[i], b[i])) return false;
  return true;
}
static void judge(event const& a, event const& b, bool want, string const& what)
{
  cov("comparisons");
  auto put = [&](bool ok, char const* key) { if (! ok) violation("C16", key, what + ": " + wtr::to<string>(a).substr(0, 600) + " and " + wtr::to<string>(b).substr(0, 600)); };
  put((a == b) == want, want ? "equal-denied" : "unequal-missed");
  put((b == a) == want, want ? "equal-denied" : "unequal-missed");
  put((a != b) == ! want, "inequality");
  put((b != a) == ! want, "inequality");
}
static void by_value(event e, vector<Want> const& w) { if (! alike(read_back(e), w)) violation("C16", "copy-differs", "passed by value"); }
static void values(int n)
{
  for (int i = 0; i < n; ++i) {
    int depth = R(60) == 0 ? 100 + (int)R(900) : R(3) == 0 ? 3 + (int)R(20) : 1 + (int)R(3);
    vector<Want> w;
    for (int k = 0; k < depth; ++k) w.push_back(a_want());
    auto e = chain(w);
    w = read_back(*e);
    if ((int)w.size() != depth) violation("C16", "chain-length", to_string(w.size()) + " instead of " + to_string(depth));
    cov("chains");
    cov_distinct("depths", to_string(depth));
    judge(*e, *e, true, "itself");
    // copies, and copies of copies, in all kinds of places
    auto c1 = std::make_unique<event>(*e);
    judge(*e, *c1, true, "a copy");
    auto* heap = new event{*c1};
    vector<event> v;
    v.reserve(1);
    v.push_back(*heap);
    v.push_back(v[0]);
    v.emplace_back(*c1);
    event on_stack{v.back()};
    auto const fn = [x = event{*e}] { return event{x}; };
    event ret = fn();
    by_value(*e, w);
    // the original goes, and its memory is used otherwise
    e.reset();
    vector<string> junk;
    for (int k = 0; k < 20; ++k) junk.push_back(string(16 + R(200), '\xee'));
    delete heap;
    auto check = [&](event const& x, char const* who) {
      cov("copies");
      if (! alike(read_back(x), w)) violation("C16", "copy-differs", string{who} + ": " + wtr::to<string>(x).substr(0, 500));
    };
    check(*c1, "a copy"), check(v[0], "in a vector"), check(v[1], "a copy in the same vector"), check(v[2], "in a vector"), check(on_stack, "on the stack"), check(ret, "returned");
    judge(*c1, v[1], true, "two copies"), judge(on_stack, ret, true, "two copies");
    // one field of one member of the chain is another
    for (int k = 0; k < 6; ++k) {
      auto u = w;
      auto at = R(2) ? u.size() - 1 : R((unsigned)u.size());
      auto& x = u[at];
      string what;
      switch (R(8)) {
        case 0: x.e = (x.e + 1 + (int)R(5)) % 6; what = "effect type"; break;
        case 1: x.p = (x.p + 1 + (int)R(5)) % 6; what = "path type"; break;
        case 2: x.path += "x"; what = "path name"; break;
        case 3: x.t = R(2) ? x.t ^ (long long)(1ull << R(63)) : (long long)((unsigned long long)x.t + (R(2) ? 2 : -2)); if (! x.t) x.t = 77; what = "time"; break;
        case 4: u.resize(at ? at : 1); what = "length"; break;
        case 5: u.push_back(R(2) ? u.back() : a_want()); what = "length"; break;
        case 6: if (u.size() > 1) std::swap(u[0], u[u.size() - 1]); what = "order"; break;
        default: if (! x.path.empty()) x.path[R((unsigned)x.path.size())] ^= 1; what = "path name"; break;
      }
      auto o = chain(u);
      auto uo = read_back(*o);
      judge(*c1, *o, alike(w, uo), "another " + what + " at " + to_string(at) + " of " + to_string(w.size()));
      cov_distinct("differences", what + (at ? "-deep" : ""));
      if (! alike(w, uo)) cov("unequal");
      // and the other has not touched this one
    }
    check(*c1, "a copy");
    // with associated ones of their own the parts stay what they were
    auto a = make(a_want());
    event moved{*c1};
    auto before = read_back(*c1);
    event both{*a, std::move(moved)};
    auto all = read_back(both);
    if (all[0].path != a->path_name.string() || E[all[0].e] != a->effect_type || P[all[0].p] != a->path_type) violation("C16", "base-differs", "joined: " + wtr::to<string>(both).substr(0, 500) + " of " + wtr::to<string>(*a).substr(0, 500));
    if (all.size() != before.size() + 1 || ! alike(vector<Want>(all.begin() + 1, all.end()), before)) violation("C16", "associated-differs", "joined: " + wtr::to<string>(both).substr(0, 500));
    if (samples.size() < 4 && R(40) == 0) samples.push_back("chain of " + to_string(depth) + ", first " + wtr::to<string>(*c1).substr(0, 200));
  }
}
// copies are made and dropped by many threads at once
static void threads()
{
  vector<Want> w;
  for (int k = 0; k < 5; ++k) w.push_back(a_want());
  auto e = chain(w);
  w = read_back(*e);
  vector<std::thread> t;
  std::atomic<int> bad{0};
  for (int i = 0; i < 6; ++i)
    t.emplace_back([&] {
      for (int k = 0; k < 300; ++k) {
        event c{*e};
        event d{c};
        if (! (d == *e) || d != c) bad++;
        (void)wtr::to<string>(d);
      }
    });
  for (auto& x : t) x.join();
  cov("copies", 3600);
  if (bad) violation("C16", "equal-denied", "copies in several threads differ");
}

int main(int argc, char** argv)
{
  unsigned seed = 1;
  int n = 3000;
  for (int i = 1; i < argc; ++i) {
    string s = argv[i];
    if (s.find("seed=") == 0) seed = (unsigned)strtoul(s.c_str() + 5, nullptr, 10);
    if (s.find("prop=") == 0) prop = s.substr(5);
    if (s.find("size=") == 0) n = atoi(s.c_str() + 5);
  }
  rng.seed(seed * 7919ull + 5);
  if (prop == "C15") text_of_events(n), numbers(n * 2);
  else values(n / 10), threads();
  sums["clock_ours"] = clock_is_ours;
  string o = "{\"cov\":{\"sum\":{";
  bool first = true;
  for (auto& [k, v] : sums) o += (first ? "" : ",") + jstr(k) + ":" + to_string(v), first = false;
  o += "},\"max\":{},\"distinct\":{";
  first = true;
  for (auto& [k, v] : sets) {
    o += (first ? "" : ",") + jstr(k) + ":[", first = false;
    bool f = true;
    for (auto& x : v) o += (f ? "" : ",") + jstr(x), f = false;
    o += "]";
  }
  o += "},\"samples\":[";
  first = true;
  for (auto& s : samples) o += (first ? "" : ",") + jstr(s), first = false;
  printf("%s]}}\n{\"done\":true}\n", o.c_str());
}
