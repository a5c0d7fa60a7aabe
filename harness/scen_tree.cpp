// The set of watched directories itself changes: directories appear, move
// (with everything in them), leave, come back, vanish and are made again.
#include "core.hpp"
#include "scen.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <linux/fs.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sut;

namespace {
struct Tree {
  Rng r;
  Watcher& w;
  string root, outside;
  bool fan, whole;
  std::set<string> dirs;        // established, with the root
  std::set<string> files;
  Hist h;
  size_t pos = 0;
  bool bad = false;
  int steps = 0;
  size_t mark = 0; // no earlier event can be meant by told()
  Tree(uint64_t s, Watcher& w_) : r{s}, w{w_} {}

  string any_dir(bool not_root = false)
  {
    vector<string> v;
    for (auto& d : dirs) if (d.size() < 2500 && ! (not_root && d == root)) v.push_back(d);
    return v.empty() ? "" : v[r((unsigned)v.size())];
  }
  string name() { return fresh_name(r, false, 80); }
  // where a directory may be made, often with the name of a neighbour and more
  string in(string const& d)
  {
    if (r.chance(25))
      for (auto i = dirs.lower_bound(d + "/"); i != dirs.end() && under(*i, d); ++i)
        if (dir_name(*i) == d && base_name(*i).size() < 60) return *i + name();
    return d + "/" + name();
  }
  void fail(string const& key, string const& why) { if (! bad) violation(args.prop, key, why); bad = true; }
  void settle() { if (! bad && ! w.barrier()) fail("events-stopped", "a file created in the root was not reported; last: " + w.dump(w.size() > 12 ? w.size() - 12 : 0)); }
  void told(string const& p, Eff e)
  {
    if (bad) return;
    if (! w.wait_path(p, e, 20000, mark)) {
      string key;
      auto p0 = pos;
      auto ev = w.take(p0);
      fail(string{"not-told:"} + eff_name[e], "the directory's appearance was never reported: " + p + "; last: " + w.dump(w.size() > 12 ? w.size() - 12 : 0));
    }
  }
  // changes in the directory which must all be reported
  void poke(string const& d, int n)
  {
    for (int i = 0; i < n; ++i) {
      auto p = d + "/" + name();
      ll t = now_ns();
      if (! touch_new(p)) continue;
      h.one(CREATE, FILE_, p, t);
      cov("pokes");
      switch (r(args.has("nomerge") ? 1 : 4)) {
        case 0: files.insert(p); break;
        case 1: if (put(p, "data")) h.one(MODIFY, FILE_, p, now_ns()); files.insert(p); break;
        case 2: {
          auto q = d + "/" + name();
          t = now_ns();
          if (::rename(p.c_str(), q.c_str()) == 0) { h.pair(FILE_, p, q, t, whole); files.insert(q); }
          break;
        }
        default: t = now_ns(); if (unlink(p.c_str()) == 0) h.one(DESTROY, FILE_, p, t);
      }
    }
  }
  void poke_all(string const& top, int n)
  {
    vector<string> v;
    for (auto& d : dirs) if (under(d, top)) v.push_back(d);
    std::shuffle(v.begin(), v.end(), r.r);
    if (v.size() > 12) v.resize(12);
    for (auto& d : v) poke(d, n);
  }
  void check()
  {
    settle();
    if (bad) return;
    auto all = w.take(pos);
    vector<Rec> ev;
    for (auto& x : all)
      if (x.e.pt == WATCHER) { cov("messages"); check_message(x.e, w); if (x.e.path.find("w/sys/not_watched@") == 0) missed(x.e.path.substr(18)); }
      else ev.push_back(x);
    string key;
    auto why = align(h.a, ev, key);
    cov("atoms", (long)h.a.size()), cov("events", (long)ev.size());
    if (! why.empty()) { fail(key, "after `" + did + "`: " + why); return; }
    check_times(h.a, ev);
    string sh;
    for (auto& e : ev) { sh += eff_name[e.e.eff][0]; sh += pt_name[e.e.pt][0]; if (e.e.assoc) sh += '+'; }
    cov_distinct("segment_shapes", sh);
    if (ev.size() > 2) sample(did + ": " + to_string(ev.size()) + " events as expected, among them " + show(ev[ev.size() / 2].e));
    h.a.clear();
  }
  void missed(string const& p)
  {
    if (dirs.count(p) && shim::faults_hit() == 0) fail("not-watched-without-reason", "a directory that was there all the time is announced as not watched: " + p);
  }
  string did;
  void move_model(string const& a, string const& b)
  {
    auto mv = [&](std::set<string>& s) {
      std::set<string> n;
      for (auto& x : s) n.insert(under(x, a) ? b + x.substr(a.size()) : x);
      s.swap(n);
    };
    mv(dirs), mv(files);
  }
  void forget(string const& a)
  {
    auto rm = [&](std::set<string>& s) { for (auto i = s.begin(); i != s.end();) if (under(*i, a)) i = s.erase(i); else ++i; };
    rm(dirs), rm(files);
  }

  // one directory after the other, each used as soon as it was reported
  void grow()
  {
    did = "grow";
    auto d = any_dir();
    int n = 1 + (int)r(6);
    for (int i = 0; i < n && ! bad; ++i) {
      auto p = in(d);
      ll t = now_ns();
      if (mkdir(p.c_str(), 0755)) return;
      h.one(CREATE, DIR_, p, t);
      told(p, CREATE);
      dirs.insert(p);
      poke(p, 1 + (int)r(3));
      if (r.chance(70)) d = p;
    }
  }
  // a hierarchy made as fast as possible
  void burst()
  {
    did = "burst";
    auto d = any_dir();
    vector<string> made;
    auto top = in(d);
    ll t = now_ns();
    if (mkdir(top.c_str(), 0755)) return;
    h.one(CREATE, DIR_, top, t);
    made.push_back(top);
    int n = 1 + (int)r(25);
    for (int i = 0; i < n; ++i) {
      auto& q = made[r.chance(60) ? made.size() - 1 : r((unsigned)made.size())];
      auto p = q + "/" + name();
      if (p.size() > 3000) continue;
      if (r.chance(30)) { if (touch_new(p)) { h.one(CREATE, FILE_, p, t, true); files.insert(p); } }
      else if (mkdir(p.c_str(), 0755) == 0) { h.one(CREATE, DIR_, p, t, true); made.push_back(p); }
      if (r.chance(5)) usleep(r(400));
    }
    settle();
    for (auto& p : made) dirs.insert(p);
    poke_all(top, 1);
  }
  // many levels or many neighbours: all there at once (moved in), or made
  // where the watcher is
  void big(int many = 0)
  {
    bool deep = ! many && r.chance(50), in = r.chance(60);
    did = string{deep ? "deep" : "wide"} + (in ? "-moved-in" : "-made");
    auto d = any_dir();
    if (d.size() > 300) d = root;
    auto src = (in ? outside : d) + "/" + name();
    vector<string> made{src};
    ll t = now_ns();
    if (mkdir(src.c_str(), 0755)) return;
    if (! in) h.one(CREATE, DIR_, src, t);
    int n = many ? many : deep ? 20 << r(6) : 30 << r(6);
    for (int i = 0; i < n; ++i) {
      auto p = (deep ? made.back() : src) + "/" + to_string(i % 10) + (deep ? "" : "_" + to_string(i));
      if (p.size() > 3000) break;
      if (mkdir(p.c_str(), 0755)) give_up("cannot make " + p);
      if (! in) h.one(CREATE, DIR_, p, t, true);
      made.push_back(p);
    }
    cov_max(deep ? "levels" : "neighbours", n);
    auto b = src;
    if (in) {
      b = d + "/" + name();
      mark = w.size();
      t = now_ns();
      if (::rename(src.c_str(), b.c_str())) return;
      h.one(RENAME, DIR_, b, t);
      told(b, RENAME);
    }
    settle();
    for (auto& m : made) m = b + m.substr(src.size());
    for (auto& m : made) dirs.insert(m);
    // the ends, and some between them
    poke(made.back(), 1), poke(made[made.size() / 2], 1);
    for (int i = 0; i < 8; ++i) poke(made[r((unsigned)made.size())], 1);
    check();
    if (bad) return;
    // and not for all of the steps to come
    if (! (fan && deep) && r.chance(50)) { settle(); for (auto i = made.rbegin(); i != made.rend() && ! bad; ++i) { if (fan && *i == b) settle(); remove_here(*i); } settle(); }
    else {
      did = "big-moved-out";
      mark = w.size();
      auto o = outside + "/" + name();
      t = now_ns();
      if (::rename(b.c_str(), o.c_str())) return;
      h.one(RENAME, DIR_, b, t);
      told(b, RENAME);
      forget(b);
      settle();
      for (int i = 0; i < 4; ++i) touch_new(o + made[r((unsigned)made.size())].substr(b.size()) + "/" + name());
      settle();
    }
  }
  // the directory, which no longer has directories in it
  void remove_here(string const& a)
  {
    bool had = false;
    for (auto i = files.lower_bound(a + "/"); i != files.end() && under(*i, a);) {
      ll t = now_ns();
      if (unlink(i->c_str()) == 0) h.one(DESTROY, FILE_, *i, t);
      i = files.erase(i), had = true;
    }
    if (fan && had) settle();
    ll t = now_ns();
    if (rmdir(a.c_str())) give_up("cannot remove " + a);
    h.one(DESTROY, DIR_, a, t);
    dirs.erase(a);
  }
  void rename_dir()
  {
    auto a = any_dir(true);
    if (a.empty()) return;
    auto to = any_dir();
    if (under(to, a)) to = dir_name(a);
    string b = in(to);
    if (r.chance(20)) { // over an empty directory
      for (auto& d : dirs)
        if (d != root && ! under(d, a) && ! under(a, d)) {
          bool empty = true;
          for (auto& x : dirs) if (x != d && under(x, d)) empty = false;
          for (auto& x : files) if (under(x, d)) empty = false;
          if (empty) { b = d; break; }
        }
    }
    bool over = dirs.count(b);
    did = over ? "rename-dir-over" : dir_name(a) == dir_name(b) ? "rename-dir" : "rename-dir-across";
    if (b.size() - a.size() > 200 && b.size() > 2000) return;
    if (fan) settle();
    mark = w.size();
    ll t = now_ns();
    if (::rename(a.c_str(), b.c_str())) return;
    if (over) dirs.erase(b);
    h.pair(DIR_, a, b, t, whole);
    move_model(a, b);
    if (fan || r.chance(70)) told(b, RENAME);
    poke_all(b, 1 + (int)r(2));
  }
  // a directory renamed several times in a row, used in between
  void rename_chain()
  {
    if (fan) return;
    auto a = any_dir(true);
    if (a.empty()) return;
    did = "rename-chain";
    int n = 2 + (int)r(3);
    for (int i = 0; i < n; ++i) {
      auto b = in(dir_name(a));
      ll t = now_ns();
      if (::rename(a.c_str(), b.c_str())) return;
      h.pair(DIR_, a, b, t, whole);
      move_model(a, b);
      poke_all(b, 1);
      a = b;
    }
  }
  // into directories which were just made, which nobody knows of yet
  void move_into_new()
  {
    if (fan) return;
    did = "move-into-new";
    auto a = any_dir(true);
    if (a.empty()) return;
    auto at = any_dir();
    if (under(at, a)) at = dir_name(a);
    if (at.size() + a.size() > 2200) return;
    if (r.chance(50)) poke_all(a, 1);
    vector<string> made;
    for (int i = 0, n = 1 + (int)r(3); i < n; ++i) {
      auto p = (made.empty() ? at : made[r((unsigned)made.size())]) + "/" + name();
      ll t = now_ns();
      if (mkdir(p.c_str(), 0755)) give_up("cannot make " + p);
      h.one(CREATE, DIR_, p, t, ! made.empty());
      made.push_back(p);
      if (r.chance(50)) poke_all(a, 1);
    }
    auto b = made[r((unsigned)made.size())] + "/" + name();
    ll t = now_ns();
    if (::rename(a.c_str(), b.c_str())) return;
    h.pair(DIR_, a, b, t, false);
    h.a.back().half = true;
    move_model(a, b);
    poke_all(b, 1);
    for (auto& m : made) dirs.insert(m);
    told(made[0], CREATE);
    settle();
    poke_all(made[0], 1);
  }
  // renamed before anyone may have had a look at it
  void make_and_rename()
  {
    did = "make-and-rename";
    auto d = any_dir();
    auto p = in(d);
    ll t = now_ns();
    if (mkdir(p.c_str(), 0755)) return;
    h.one(CREATE, DIR_, p, t);
    for (int i = 0, n = 1 + (int)r(3); i < n; ++i) {
      auto q = in(i && r.chance(50) ? d : dir_name(p));
      t = now_ns();
      if (r.chance(30)) usleep(r(300));
      if (::rename(p.c_str(), q.c_str())) return fail("harness", "cannot rename " + p);
      h.pair(DIR_, p, q, t, whole);
      p = q;
    }
    auto m = p + "/" + name();
    t = now_ns();
    if (r.chance(50) && mkdir(m.c_str(), 0755) == 0) h.one(CREATE, DIR_, m, t, true), dirs.insert(m);
    told(p, RENAME);
    settle();
    dirs.insert(p);
    poke_all(p, 1);
  }
  // what was a directory is a link out of the tree when it's looked at
  void swap_for_link()
  {
    if (shim::config().backend == shim::REAL || shim::config().merge) return;
    did = "swap-for-link";
    auto p = any_dir() + "/" + name(), o = outside + "/" + name();
    mkdir(o.c_str(), 0755), mkdir((o + "/in").c_str(), 0755);
    std::atomic<bool> swapped{false};
    bool early = r.chance(40);
    shim::on_path([&, p, o, early](shim::Fn fn, string const& at) {
      if (at != p || swapped || (! early && fn != shim::F_inotify_add_watch && fn != shim::F_fanotify_mark)) return;
      if (rmdir(p.c_str()) == 0 && symlink(o.c_str(), p.c_str()) == 0) swapped = true;
    });
    ll t = now_ns();
    if (mkdir(p.c_str(), 0755)) return;
    h.one(CREATE, DIR_, p, t);
    told(p, CREATE);
    settle();
    shim::on_path(nullptr);
    if (! swapped) return fail("harness", "nobody looked at " + p);
    cov("swapped");
    h.one(DESTROY, DIR_, p, t);
    h.one(CREATE, FILE_, p, t);
    touch_new(o + "/" + name()), touch_new(o + "/in/" + name());
    put(o + "/f", "x"), unlink((o + "/f").c_str()), rmdir((o + "/in").c_str());
    settle();
    t = now_ns();
    if (unlink(p.c_str())) return fail("harness", "cannot remove " + p);
    h.one(DESTROY, FILE_, p, t);
  }
  // what left the tree is used, changed and moved on out there: not our concern
  vector<string> gone;
  void left(string const& o, vector<string> const& sub)
  {
    for (auto& s : sub) gone.push_back(o + s);
    while (gone.size() > 60) gone.erase(gone.begin() + r((unsigned)gone.size()));
  }
  void outside_life()
  {
    for (int i = 0, n = (int)r(4); i < n && ! gone.empty(); ++i) {
      auto g = gone[r((unsigned)gone.size())];
      auto p = g + "/" + name();
      cov("outside_pokes");
      switch (r(7)) {
        case 0: { // a directory in there, moved on to another one
          auto o = gone[r((unsigned)gone.size())];
          if (under(o, g) || o.size() > 2500) break;
          auto q = o + "/" + name();
          if (::rename(g.c_str(), q.c_str()) == 0)
            for (auto& x : gone) if (under(x, g)) x = q + x.substr(g.size());
          break;
        }
        case 1: if (rmdir(g.c_str()) == 0) gone.erase(std::find(gone.begin(), gone.end(), g)); break;
        case 2: if (touch_new(p)) (void)!::rename(p.c_str(), (outside + "/" + name()).c_str()); break;
        case 3: if (mkdir(p.c_str(), 0755) == 0) gone.push_back(p); break;
        default: touch_new(p), put(p, "out here"); if (r.chance(50)) unlink(p.c_str());
      }
    }
  }
  // files, and a directory, which come and go at once; from where we once were, too
  void traffic()
  {
    did = "traffic";
    auto d = any_dir();
    vector<string> fs;
    string base = name().substr(0, 40);
    for (int i = 0; i < 6; ++i) {
      auto p = d + "/" + base + to_string(i) + "_" + to_string(++name_serial);
      ll t = now_ns();
      if (touch_new(p)) h.one(CREATE, FILE_, p, t), fs.push_back(p);
    }
    if (fs.size() < 6) return;
    if (r.chance(50)) settle();
    auto move = [&](string const& a, string const& b) { ll t = now_ns(); if (::rename(a.c_str(), b.c_str())) give_up("cannot move " + a); return t; };
    // names of one length: what one notification left behind, another finds
    auto twin = fs[0]; twin[d.size() + 1] = twin[d.size() + 1] == 'T' ? 'U' : 'T';
    mark = w.size();
    ll t = move(fs[0], twin);
    h.pair(FILE_, fs[0], twin, t, whole);
    files.insert(twin);
    told(twin, RENAME);
    if (bad) return;
    t = move(fs[1], outside + "/" + name());
    h.one(RENAME, FILE_, fs[1], t);
    told(fs[1], RENAME);
    if (bad) return;
    // out with a file, in with a directory
    auto n1 = outside + "/" + name(), in1 = in(d);
    mkdir(n1.c_str(), 0755);
    t = move(fs[2], outside + "/" + name());
    h.one(RENAME, FILE_, fs[2], t);
    t = move(n1, in1);
    h.one(RENAME, DIR_, in1, t);
    told(in1, RENAME);
    if (bad) return;
    dirs.insert(in1);
    poke(in1, 1);
    // out with a directory, in with a file
    if (fan) settle();
    auto n2 = (gone.empty() || r.chance(50) ? outside : gone[r((unsigned)gone.size())]) + "/" + name(), o2 = outside + "/" + name();
    touch_new(n2);
    t = move(in1, o2);
    h.one(RENAME, DIR_, in1, t);
    forget(in1);
    auto in2 = d + "/" + name();
    t = move(n2, in2);
    h.one(RENAME, FILE_, in2, t);
    files.insert(in2);
    left(o2, {""});
    for (size_t i = 3; i < fs.size(); ++i) files.insert(fs[i]);
    settle();
  }
  // only a part of what left comes back
  void part_back()
  {
    if (gone.empty()) return move_in();
    auto g = gone[r((unsigned)gone.size())];
    vector<string> sub;
    for (auto& x : gone) if (under(x, g)) sub.push_back(x.substr(g.size()));
    did = "part-back";
    auto b = in(any_dir());
    if (b.size() > 2500) return;
    // a record of what was done out there would be looked up in here
    if (fan) settle();
    mark = w.size();
    ll t = now_ns();
    if (::rename(g.c_str(), b.c_str())) return;
    h.one(RENAME, DIR_, b, t);
    gone.erase(std::remove_if(gone.begin(), gone.end(), [&](string const& x) { return under(x, g); }), gone.end());
    if (r.chance(70)) told(b, RENAME);
    else settle();
    for (auto& s : sub) dirs.insert(b + s);
    poke_all(b, 1);
  }
  void move_in()
  {
    did = "move-in";
    auto src = outside + "/" + name();
    vector<string> made{src};
    mkdir(src.c_str(), 0755);
    int n = (int)r(12);
    for (int i = 0; i < n; ++i) {
      auto p = made[r((unsigned)made.size())] + "/" + name();
      if (p.size() > 2500) continue;
      if (r.chance(25)) touch_new(p);
      else if (mkdir(p.c_str(), 0755) == 0) made.push_back(p);
    }
    auto b = any_dir() + "/" + name();
    ll t = now_ns();
    if (::rename(src.c_str(), b.c_str())) return;
    h.one(RENAME, DIR_, b, t);
    told(b, RENAME);
    for (auto& m : made) dirs.insert(b + m.substr(src.size()));
    poke_all(b, 1 + (int)r(2));
  }
  // out of the tree: silence; and back again: as before
  void move_out()
  {
    auto a = any_dir(true);
    if (a.empty()) return;
    did = "move-out";
    vector<string> sub;
    for (auto& d : dirs) if (under(d, a)) sub.push_back(d.substr(a.size()));
    bool quick = ! fan && r.chance(50); // with all of it still to be read
    if (quick) did = "move-out-at-once";
    else settle();
    auto o = outside + "/" + name();
    mark = w.size();
    ll t = now_ns();
    if (::rename(a.c_str(), o.c_str())) return;
    h.one(RENAME, DIR_, a, t);
    if (! quick) told(a, RENAME), settle();
    forget(a);
    for (auto& s : sub) { auto p = o + s + "/" + name(); touch_new(p); put(p, "y"); if (r.chance(50)) unlink(p.c_str()); mkdir((o + s + "/" + name()).c_str(), 0755); }
    settle();
    if (r.chance(50)) {
      did = "move-out-and-back";
      auto b = any_dir() + "/" + name();
      mark = w.size();
      t = now_ns();
      if (::rename(o.c_str(), b.c_str())) return;
      h.one(RENAME, DIR_, b, t);
      told(b, RENAME);
      for (auto& s : sub) dirs.insert(b + s);
      poke_all(b, 1);
    }
    else left(o, sub);
  }
  void exchange()
  {
    auto a = any_dir(true), b = any_dir(true);
    if (a.empty() || under(a, b) || under(b, a)) return;
    did = "exchange-dirs";
    if (fan || r.chance(50)) settle();
    ll t = now_ns();
    if (renameat2(AT_FDCWD, a.c_str(), AT_FDCWD, b.c_str(), RENAME_EXCHANGE)) return;
    h.pair(DIR_, a, b, t, whole);
    h.pair(DIR_, b, a, t, whole);
    auto tmp = root + "/\x01tmp";
    move_model(a, tmp), move_model(b, a), move_model(tmp, b);
    if (fan || r.chance(50)) settle();
    poke_all(a, 1), poke_all(b, 1);
  }
  // everything that is there, the deepest first
  void remove(string const& a)
  {
    vector<string> ds, fs;
    ::DIR* d = opendir(a.c_str());
    if (! d) give_up("cannot list " + a);
    while (auto* e = readdir(d)) {
      string n = e->d_name;
      if (n == "." || n == "..") continue;
      (e->d_type == DT_DIR ? ds : fs).push_back(a + "/" + n);
    }
    closedir(d);
    for (auto& f : fs) {
      ll t = now_ns();
      if (unlink(f.c_str()) == 0) h.one(DESTROY, FILE_, f, t);
      files.erase(f);
    }
    for (auto& x : ds) remove(x);
    // with the last of its entries gone the directory can vanish before the
    // notifications about them are looked at: with fanotify they then belong
    // to a directory nobody can name any more
    if (fan) settle();
    ll t = now_ns();
    if (rmdir(a.c_str())) give_up("cannot remove " + a);
    h.one(DESTROY, DIR_, a, t);
    dirs.erase(a);
  }
  void remove_dir()
  {
    auto a = any_dir(true);
    if (a.empty()) return;
    did = "remove";
    remove(a);
    if (r.chance(60)) {
      did = "remove-and-make-again";
      if (fan || r.chance(50)) settle();
      mark = w.size();
      ll t = now_ns();
      if (mkdir(a.c_str(), 0755)) return;
      h.one(CREATE, DIR_, a, t);
      told(a, CREATE);
      dirs.insert(a);
      poke(a, 2);
      auto p = a + "/" + name();
      t = now_ns();
      if (mkdir(p.c_str(), 0755)) return;
      h.one(CREATE, DIR_, p, t);
      told(p, CREATE);
      dirs.insert(p);
      poke(p, 2);
    }
  }
  void step()
  {
    if (r.chance(60)) outside_life();
    switch (r(args.num("big", 1) ? 15 : 14)) {
      case 0: case 1: grow(); break;
      case 2: burst(); break;
      case 3: if (r.chance(50)) make_and_rename(); else burst(); break;
      case 4: case 5: rename_dir(); break;
      case 6: case 7: move_in(); break;
      case 8: if (r.chance(50)) move_into_new(); else rename_chain(); break;
      case 9: move_out(); break;
      case 10: if (r.chance(50)) swap_for_link(); else if (args.num("exchange", 1)) exchange(); break;
      case 11: traffic(); break;
      case 12: part_back(); break;
      case 14: if (++bigs < 3) big(); break;
      default: remove_dir();
    }
    cov("op_" + did);
    steps++;
  }
  int bigs = 0;
};
bool many_watches()
{
  long n = 0;
  if (auto* f = fopen("/proc/sys/fs/inotify/max_user_watches", "r")) { if (fscanf(f, "%ld", &n) != 1) n = 0; fclose(f); }
  rlimit l;
  return n >= 100000 && getrlimit(RLIMIT_NOFILE, &l) == 0 && (l.rlim_cur == RLIM_INFINITY || l.rlim_cur >= 16000);
}
} // namespace

void scen_tree()
{
  for (int run = 0; run < args.num("runs", 3); ++run) {
    Rng r{args.seed * 1000033ull + (unsigned)run * 131 + 5};
    auto c = cfg_of(args.backend, (unsigned)r.r());
    c.split_pairs = args.num("split", -1) >= 0 ? args.num("split", 0) : r.chance(20);
    shim::configure(c);
    auto outer = mkroot("tree");
    auto root = outer + "/w", outside = outer + "/w-out";
    mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
    Watcher w{root};
    Tree t{r.r(), w};
    t.root = root, t.outside = outside;
    t.fan = args.backend == "fanotify" || args.backend == "real", t.whole = c.pump && ! c.split_pairs;
    t.dirs.insert(root);
    // half of the time there is a tree already
    if (r.chance(50)) {
      vector<string> v{root};
      int n = (int)r(20);
      for (int i = 0; i < n; ++i) {
        auto p = v[r((unsigned)v.size())] + "/" + t.name();
        if (p.size() < 2500 && mkdir(p.c_str(), 0755) == 0) v.push_back(p);
      }
      // it was watched before? then this is a race with the opening; only what
      // is there after the watcher is up is established
      w.destroy();
      w.closed = false;
      w.log.clear();
      w.open();
      for (auto& p : v) t.dirs.insert(p);
    }
    if (! w.ready()) { violation(args.prop, "watcher-not-ready", "no event within 30 s of opening; got: " + w.dump(0)); continue; }
    for (auto& x : w.take(t.pos))
      if (x.e.pt != WATCHER) violation("C03", "event-without-change", "nothing changed since the watcher was opened, but: " + show(x.e));
    int n = args.num("steps", 14);
    // more than there are when nobody asked for as many as there may be
    if (args.num("many", 0) && many_watches()) t.big((int)args.num("many", 0)), cov("many"), t.bigs = 3;
    for (int i = 0; i < n && ! t.bad; ++i) {
      t.step();
      if (! t.bad) t.check();
    }
    cov("steps", t.steps), cov("watchers");
    cov_max("dirs", (long)t.dirs.size());
    if (! w.close()) violation("C07", "close-failed", "closing a healthy watcher reported failure");
    w.destroy();
    rmtree(outer);
    if (t.bad) break;
  }
}

// C22: the same history, seen by the one and by the other backend.
#include "mut.hpp"
static vector<string> story(vector<Rec> const& v, size_t strip)
{
  vector<string> o;
  auto rel = [&](string const& p) { return p.size() >= strip ? p.substr(strip) : p; };
  for (auto& x : v) {
    auto& e = x.e;
    if (e.pt == WATCHER) {
      if (e.path.find("w/") != 0) o.push_back("message " + e.path);
      continue;
    }
    string s = string{eff_name[e.eff]} + " " + pt_name[e.pt] + " " + rel(e.path);
    for (auto a = e.assoc; a; a = a->assoc) s += " -> " + string{eff_name[a->eff]} + " " + pt_name[a->pt] + " " + rel(a->path);
    // of changes of one file in a row the kernel makes as many notifications as it likes
    if (e.eff == MODIFY && ! o.empty() && o.back() == s) continue;
    o.push_back(s);
  }
  return o;
}

void scen_equiv()
{
  for (int run = 0; run < args.num("runs", 3); ++run) {
    uint64_t seed = args.seed * 1000039ull + (unsigned)run * 137 + 9;
    auto outer = mkroot("equiv");
    vector<vector<vector<string>>> told(2);
    vector<vector<string>> did(2);
    long names0 = name_serial;
    bool bad = false;
    for (int side = 0; side < 2 && ! bad; ++side) {
      name_serial = names0;
      Rng r{seed};
      auto c = cfg_of(side ? "fanotify" : "inotify", (unsigned)r.r());
      c.split_pairs = false;
      shim::configure(c);
      shim::reap();
      auto root = outer + "/w", outside = outer + "/w-out";
      mkdir(root.c_str(), 0755), mkdir(outside.c_str(), 0755);
      vector<string> pre{root};
      int n = (int)r(12);
      for (int i = 0; i < n; ++i) {
        auto p = pre[r((unsigned)pre.size())] + "/" + fresh_name(r, false, 80);
        if (p.size() < 2500 && mkdir(p.c_str(), 0755) == 0) pre.push_back(p);
      }
      Watcher w{root};
      if (! w.ready()) { violation("C22", "watcher-not-ready", w.dump(0)); bad = true; break; }
      Tree t{r.r(), w};
      t.root = root, t.outside = outside, t.fan = true, t.whole = true;
      for (auto& p : pre) t.dirs.insert(p);
      w.take(t.pos);
      Mut m{r.r()};
      m.outside = outside, m.fan = true, m.p_ren = 30, m.p_noise = 15;
      for (int i = 0; i < 14 && ! bad; ++i) {
        string what;
        if (t.r.chance(45)) {
          what = "churn";
          m.dirs.assign(t.dirs.begin(), t.dirs.end());
          int ops = 1 + (int)t.r(40);
          for (int k = 0; k < ops; ++k) m.op();
          // what it made stays out of the tree's later steps
          auto f = m.f;
          t.settle();
          for (auto& x : f) { if (x.pt == DIR_) rmdir(x.path.c_str()); else unlink(x.path.c_str()); }
          m.f.clear(), m.gone.clear(), m.h.a.clear();
          m.last_out = 0;
        }
        else {
          switch (t.r(7)) {
            case 0: t.grow(); break;
            case 1: case 2: t.rename_dir(); break;
            case 3: t.move_in(); break;
            case 4: t.move_out(); break;
            case 5: t.exchange(); break;
            default: t.remove_dir();
          }
          what = t.did;
        }
        t.settle();
        t.h.a.clear();
        if (t.bad) { bad = true; break; }
        told[(size_t)side].push_back(story(w.take(t.pos), outer.size()));
        did[(size_t)side].push_back(what);
        cov("op_" + what);
      }
      if (! w.close()) violation("C22", "close-failed", "closing a healthy watcher reported failure");
      w.destroy();
      rmtree(root), rmtree(outside);
    }
    cov("histories");
    for (size_t i = 0; i < told[0].size() && i < told[1].size() && ! bad; ++i) {
      if (did[0][i] != did[1][i]) give_up("the two histories are not the same: " + did[0][i] + ", " + did[1][i]);
      auto &a = told[0][i], &b = told[1][i];
      cov("steps"), cov("events", (long)(a.size() + b.size()));
      string sh;
      for (auto& x : a) sh += x.substr(0, 1), sh += x.find(" -> ") != string::npos ? "+" : "";
      if (a.size() > 2) cov_distinct("segment_shapes", did[0][i] + sh);
      for (size_t k = 0; k < std::max(a.size(), b.size()); ++k) {
        auto x = k < a.size() ? a[k] : "nothing more", y = k < b.size() ? b[k] : "nothing more";
        if (x == y) continue;
        violation("C22", "stories-differ:" + x.substr(0, x.find(' ')) + "/" + y.substr(0, y.find(' ')), "step " + to_string(i) + " (" + did[0][i] + "), event " + to_string(k) + ": inotify told " + x + " but fanotify told " + y);
        bad = true;
        break;
      }
      if (! bad && a.size() > 2) sample(did[0][i] + ": " + to_string(a.size()) + " events told alike, e.g. " + a[a.size() / 2]);
    }
    rmtree(outer);
    if (bad) break;
  }
}
