#include "scen.hpp"
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sut;

void check_message(Ev const& e, Watcher& w)
{
  auto at = e.path.find('@');
  if (at == string::npos) { violation("C10", "message-form", "watcher message without '@': " + show(e)); return; }
  auto what = e.path.substr(0, at), path = e.path.substr(at + 1);
  cov_distinct("messages", what);
  if (what == "w/sys/not_watched" && shim::faults_hit() == 0) {
    struct stat s;
    if (stat(path.c_str(), &s) == 0 && S_ISDIR(s.st_mode) && args.opt.count("ntol") == 0) {
      // it may have been gone when it was to be watched; only a directory which
      // has been there all the time says something
      cov("not_watched_but_there");
    }
  }
  (void)w;
}
void check_times(vector<Atom> const& a, vector<Rec> const& r)
{
  // a path that occurs in one atom only has one history
  std::map<string, std::pair<int, ll>> once;
  for (auto& x : a) {
    auto& o = once[x.path];
    o.first++, o.second = x.t0;
    if (x.kind == Atom::PAIR) { auto& q = once[x.path2]; q.first++, q.second = x.t0; }
  }
  for (auto& x : r) {
    auto i = once.find(x.e.path);
    if (i == once.end() || i->second.first != 1) continue;
    cov("times_vs_change");
    if (x.e.t < i->second.second) violation("C06", "time-before-change", show(x.e) + ": time " + to_string(x.e.t) + " but the change began at " + to_string(i->second.second));
    if (x.e.assoc && x.e.assoc->t < i->second.second) violation("C06", "associated-time-before-change", show(x.e));
  }
}

int main(int argc, char** argv)
{
  signal(SIGPIPE, SIG_IGN);
  args.scen = argc > 1 ? argv[1] : "";
  for (int i = 2; i < argc; ++i) {
    string s = argv[i];
    auto e = s.find('=');
    if (e == string::npos) give_up("argument " + s);
    auto k = s.substr(0, e), v = s.substr(e + 1);
    if (k == "seed") args.seed = (unsigned)strtoul(v.c_str(), nullptr, 10);
    else if (k == "scratch") args.scratch = v;
    else if (k == "prop") args.prop = v;
    else if (k == "backend") args.backend = v;
    else args.opt[k] = v;
  }
  if (args.scratch.empty()) give_up("no scratch directory");
  rlimit l;
  if (! getrlimit(RLIMIT_NOFILE, &l)) { l.rlim_cur = std::min<rlim_t>(l.rlim_max, 100000); setrlimit(RLIMIT_NOFILE, &l); }
  struct { char const* n; void (*f)(); } S[] = {
#define SC(x) {#x, scen_##x},
#include "scen_list.inc"
#undef SC
  };
  for (auto& s : S)
    if (args.scen == s.n) {
      s.f();
      finish();
      return 0;
    }
  give_up("no scenario " + args.scen);
}
