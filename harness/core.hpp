// Recorder, reference model and history checker used by all scenarios.
#pragma once
#include "shim.hpp"
#include "sut.hpp"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>

using std::string;
using std::to_string;
using std::vector;
using ll = long long;

struct Args {
  string scen, scratch, prop = "?", backend = "inotify";
  unsigned seed = 1;
  int scale = 1;
  std::map<string, string> opt;
  int num(string const& k, int d) const { auto i = opt.find(k); return i == opt.end() ? d : atoi(i->second.c_str()); }
  bool has(string const& k) const { return opt.count(k); }
};
extern Args args;

ll now_ns();   // system clock
ll mono_ms();
string jstr(string const&);  // as a JSON string; bytes that are not UTF-8 as \u00XX
string show(sut::Ev const&);
void out(string const& line);
// `key` names the failure in a way that does not depend on paths or numbers.
void violation(string const& prop, string const& key, string const& detail);
long violations();
void cov(string const& name, long add = 1);
void cov_max(string const& name, long v);
void cov_distinct(string const& set, string const& value);
void sample(string const& s);
void finish();
[[noreturn]] void give_up(string const& why); // the harness cannot decide

struct Rng {
  std::mt19937_64 r;
  explicit Rng(uint64_t s) : r{s * 0x9e3779b97f4a7c15ull + 12345} { r.discard(4); }
  unsigned operator()(unsigned n) { return n ? (unsigned)(r() % n) : 0; }
  bool chance(unsigned pct) { return (*this)(100) < pct; }
};
// a new entry name: any bytes but '/' and NUL, 1..255 of them, never seen before in this run
extern std::atomic<long> name_serial; // set it back to get the same names again
string fresh_name(Rng&, bool utf8 = false, int maxlen = 255);

// ---- watching --------------------------------------------------------------
struct Rec { sut::Ev e; ll at; };

struct Watcher {
  string root;            // as given
  string real;            // its real path
  sut::Watch* h = nullptr;
  std::mutex mx;
  std::condition_variable cv;
  std::deque<Rec> log;
  std::atomic<bool> closed{false};      // close() has returned
  std::atomic<int> said{-1};            // what the closes said: -1 none yet, 0 all false, 1 one of them true
  std::atomic<int> inside{0};
  std::atomic<long> count{0}, after{0}, overlap{0};
  std::atomic<bool> block{false};       // the callback waits while set
  std::function<void(sut::Ev const&)> hook;
  ll opened_at = 0;
  bool check_life = true;
  Watcher(string const& root, std::function<void(sut::Ev const&)> hook = nullptr, bool open_now = true);
  ~Watcher();
  void open();
  void on(sut::Ev const&);
  bool close();
  void destroy();          // closes if needed, then checks the whole history
  bool wait(std::function<bool(std::deque<Rec> const&)> const& pred, int ms = 30000);
  bool wait_path(string const& path, sut::Eff, int ms = 30000, size_t from = 0);
  bool died();
  // Creates files until one is reported. False if the watcher does not come up.
  bool ready(int ms = 30000);
  // All changes made before this call have been delivered when it returns true.
  bool barrier(int ms = 30000, string const& dir = "");
  vector<Rec> take(size_t& pos);   // everything since pos
  size_t size();
  void check_history();
  string dump(size_t from, size_t max = 30);
};
extern char const* const SENT;     // prefix of sentinel names
bool is_sent(string const& path);
string base_name(string const&);
string dir_name(string const&);
bool under(string const& p, string const& dir); // p == dir or below

// ---- expected histories ------------------------------------------------------
struct Atom {
  enum Kind { ONE, PAIR } kind = ONE;
  sut::Eff eff = sut::CREATE;
  sut::Pt pt = sut::FILE_;
  string path, path2;
  int min = 1, max = 1;   // PAIR: min 0 means optional
  ll t0 = 0;
  bool whole = false;     // PAIR: must come as one associated event
  bool half = false;      // PAIR: the second half needn't come
  string str() const;
};
struct Hist {
  vector<Atom> a;
  void one(sut::Eff e, sut::Pt p, string const& path, ll t0, bool optional = false);
  void pair(sut::Pt p, string const& from, string const& to, ll t0, bool whole, bool optional = false);
};
// Are the events an interleaving-free run through the atoms? "" or why not.
// key receives a stable name of the disagreement.
string align(vector<Atom> const&, vector<Rec> const&, string& key);

// ---- filesystem helpers --------------------------------------------------------
string mkroot(string const& name);   // a new directory in the scratch area
void rmtree(string const&);
bool put(string const& path, string const& bytes = "x");
bool touch_new(string const& path);
int open_fds();
int n_tasks();
shim::Cfg cfg_of(string const& backend, unsigned seed);
