// M01 / T04 / D04: every physical layout of a store's contents reachable by merging and converting
// shards answers every query as the contents' definition says.
//   --prop=M01|T04   all sequences of --n transactions from the menu, all layouts
//   --prop=D04       all subsets of shard files x leftovers
#include "content.h"
#include "src/fluffle.h"
using namespace cottontail;
using namespace layout;

static std::string prop;
static int s_contents, s_layouts, s_opens, s_steps, s_refused, s_dirs, s_dirs_refused;

static bool open_check(const std::string &dir, const Files &f, const Content &c, const std::string &want, const std::string &how, const std::string &key,
                       Files *after = nullptr) {
  restore(dir, f);
  std::string error;
  auto w = Warren::make(dir, &error);
  vx::count(s_opens);
  if (!w) {
    vx::viol(key + ":refused", c.code + " after " + how + " does not open: " + error);
    return false;
  }
  w->start();
  ask_check(key, c.code + " after " + how + ":", w.get(), c.probe, want);
  std::string v;
  if (!w->get_parameter("colour", &v) || v != "blue")
    vx::viol(key + ":parameter", c.code + " after " + how + " lost a parameter");
  w->end();
  w = nullptr;
  if (after)
    *after = snapshot(dir);
  return true;
}
static std::string shape(const Files &f) {
  std::string s;
  for (auto &x : shards(f))
    s += vx::sfmt("%s%s[%ld,%ld]", s.size() ? " " : "", x.kind.c_str(), x.s, x.e);
  return s;
}

static void layouts(const std::string &dir, Content &c, const Options &opt, const std::vector<addr> &chunks) {
  std::string want = c.probe.want(c.oracle);
  // Known finding: merging the inner annotation with its erasure, but without the outer one, brings the outer one back.
  long j_seq = c.code == "ijk" || c.code == "ijka" ? shards(c.files)[1].s : -1;
  auto key_of = [&](const std::string &how) {
    bool apart = false;
    for (size_t at = how.find("merge("); j_seq >= 0 && at != std::string::npos; at = how.find("merge(", at + 1)) {
      long s = -1, e = -1;
      sscanf(how.c_str() + at, "merge(%ld-%ld)", &s, &e);
      apart = apart || (s == j_seq && e > s);
    }
    return apart ? "outer-of-erased:" : "layout:";
  };
  struct State {
    Files f;
    std::string how;
    std::map<long, addr> chunk; // by first sequence number: the chunk size a packed shard was made with
  };
  std::vector<State> todo;
  std::set<std::string> seen;
  auto digest = [](const Files &f) {
    std::string s;
    for (auto &x : f)
      s += x.first + ":" + std::to_string(std::hash<std::string>()(x.second)) + ";";
    return s;
  };
  auto push = [&](const Files &f, const std::string &how, const std::map<long, addr> &chunk) {
    if (!seen.insert(digest(f)).second)
      return;
    vx::count(s_layouts);
    todo.push_back({f, how, chunk});
  };
  push(c.files, "commit", {});
  std::string error;
  for (size_t i = 0; i < todo.size(); i++) {
    State st = todo[i];
    vx::what(c.code + " after " + st.how);
    auto sh = shards(st.f);
    Files after;
    open_check(dir, st.f, c, want, st.how, key_of(st.how) + c.code + ":" + shape(st.f), &after);
    if (digest(after) != digest(st.f))
      vx::viol("open-changes:" + c.code, c.code + " after " + st.how + ": opening changed the directory: " + shape(st.f) + " to " + shape(after));
    if (sh.size() == 1 && sh[0].kind == "hazel" && !c.oracle.erases()) { // erasures are the store's to apply
      auto w = Warren::make(dir + "/" + sh[0].name, &error);
      if (!w)
        vx::viol("single:" + c.code, c.code + " after " + st.how + ": the single file does not open: " + error);
      else {
        w->start();
        ask_check("single:" + c.code, c.code + " after " + st.how + ", opened as a single file:", w.get(), c.probe, want);
        w->end();
      }
    }
    auto attempt = [&](const std::string &what, bool may_refuse, const std::pair<long, addr> *made,
                       const std::function<bool(const Store &, std::string *)> &op) {
      restore(dir, st.f);
      std::string error;
      bool done;
      {
        Store s = open_parts(dir, opt.pc, opt.vc, opt.tc);
        done = op(s, &error);
      }
      vx::count(s_steps);
      Files now = snapshot(dir);
      if (!done) {
        vx::count(s_refused);
        if (!may_refuse)
          vx::viol("step:" + c.code + ":" + what, c.code + " after " + st.how + ": " + what + " failed: " + error);
        for (auto &x : st.f)
          if (!now.count(x.first) || now[x.first] != x.second)
            vx::viol("step-damage:" + c.code, c.code + " after " + st.how + ": refused " + what + " changed " + x.first);
        return;
      }
      for (auto &x : now)
        if (x.first.compare(0, 5, "fiver") && x.first.compare(0, 5, "hazel") && !st.f.count(x.first))
          vx::viol("leftover:" + c.code, c.code + " after " + st.how + ": " + what + " left " + x.first);
      std::map<long, addr> chunk = st.chunk;
      if (made)
        chunk[made->first] = made->second;
      push(now, st.how + ", " + what, chunk);
    };
    for (auto &s : sh)
      if (s.kind == "fiver")
        for (addr chunk : chunks) {
          std::pair<long, addr> made(s.s, chunk);
          attempt(vx::sfmt("pack(%ld-%ld,%ld)", s.s, s.e, (long)chunk), false, &made,
                  [&](const Store &st, std::string *e) { return fiver_hazel(st, s.name, chunk, "", e); });
        }
    for (size_t a = 0; a < sh.size(); a++)
      for (size_t b = a + 1; b < sh.size(); b++) {
        bool fivers = true, hazels = true, gap = false; // a merge of shards that are not neighbours may be refused
        std::vector<std::string> names;
        for (size_t k = a; k <= b; k++) {
          fivers = fivers && sh[k].kind == "fiver";
          hazels = hazels && sh[k].kind == "hazel";
          gap = gap || (k > a && sh[k].s != sh[k - 1].e + 1) || (k > a && hazels && st.chunk[sh[k].s] != st.chunk[sh[a].s]);
          names.push_back(sh[k].name);
        }
        if (fivers)
          attempt(vx::sfmt("merge(%ld-%ld)", sh[a].s, sh[b].e), false, nullptr, [&](const Store &st, std::string *e) { return fiver_merge(st, names, e); });
        if (hazels)
          attempt(vx::sfmt("hmerge(%ld-%ld)", sh[a].s, sh[b].e), gap, nullptr, [&](const Store &st, std::string *e) { return hazel_merge(st, names, e); });
      }
  }
}

// D04 --------------------------------------------------------------------------------------------
static bool contains(const Shard &o, const Shard &i) { return o.s <= i.s && i.e <= o.e; }
static bool overlap(const Shard &a, const Shard &b) { return a.s <= b.e && b.s <= a.e; }

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  prop = vx::arg(argc, argv, "prop", "M01");
  int n = atoi(vx::arg(argc, argv, "n", "3").c_str());
  std::string menu = vx::arg(argc, argv, "menu", "abpexEndA");
  std::string given = vx::arg(argc, argv, "contents", "");
  std::string optstr = vx::arg(argc, argv, "opts", "01");
  s_contents = vx::stat_id("contents");
  s_layouts = vx::stat_id("layouts");
  s_opens = vx::stat_id("opens");
  s_steps = vx::stat_id("layout_steps");
  s_refused = vx::stat_id("layout_steps_refused");
  s_views = vx::stat_id("older_views_asked");
  s_dirs = vx::stat_id("directories");
  s_dirs_refused = vx::stat_id("directories_refused");
  s_queries = vx::stat_id("answer_bytes");
  vx::stat_id("cases");
  char root[4096];
  if (!getcwd(root, sizeof root))
    return 90;
  std::vector<addr> chunks = {1, 64 * 1024};
  {
    std::string s = vx::arg(argc, argv, "chunks", "");
    if (s.size()) {
      chunks.clear();
      std::stringstream ss(s);
      std::string x;
      while (std::getline(ss, x, ','))
        chunks.push_back(atol(x.c_str()));
    }
  }
  auto scratch = [&]() { return std::string(root) + vx::sfmt("/w%d", (int)getpid()); };

  if (prop == "D04") {
    // The files every history over three (or four) transactions can leave, as real operations make them.
    std::string code = vx::arg(argc, argv, "content", "abe");
    int N = code.size();
    Options opt = OPTS[0];
    Content c;
    std::string dir = std::string(root) + "/seed";
    // builds in a child so that the workers start from plain data
    vx::me = 0;
    vx::out = stdout;
    vx::sh = (vx::Shared *)calloc(1, sizeof(vx::Shared));
    if (!build(dir, code, opt, &c, false))
      return 0;
    Files base = c.files, all;
    std::vector<std::string> others; // non-shard files
    for (auto &f : base)
      if (f.first.compare(0, 5, "fiver"))
        others.push_back(f.first);
    std::string error;
    std::vector<Shard> sh;
    for (int s = 0; s < N; s++)
      for (int e = s; e < N; e++) {
        Files f = base;
        std::vector<std::string> names;
        auto name = [&](const char *k, int a, int b) { return vx::sfmt("%s.%020d.%020d", k, a, b); };
        for (int i = s; i <= e; i++)
          names.push_back(name("fiver", i, i));
        restore(dir, f);
        Store st = open_parts(dir, opt.pc, opt.vc, opt.tc);
        if (s != e && !fiver_merge(st, names, &error))
          return 90;
        all[name("fiver", s, e)] = slurp(dir + "/" + name("fiver", s, e));
        sh.push_back({"fiver", s, e, name("fiver", s, e)});
        if (!fiver_hazel(st, name("fiver", s, e), 64 * 1024, "", &error))
          return 90;
        all[name("hazel", s, e)] = slurp(dir + "/" + name("hazel", s, e));
        sh.push_back({"hazel", s, e, name("hazel", s, e)});
      }
    int M = sh.size();
    // leftovers: uncommitted shards, temporaries, progress of an interrupted merge, a pending batch script
    struct Extra {
      std::string what;
      Files f;
      std::vector<std::string> must_go;
    };
    std::vector<Extra> extras = {{"nothing", {}, {}}};
    {
      std::string k3 = vx::sfmt("kitten.%020d.%020d", N, N), k0 = vx::sfmt("kitten.%020d.%020d", 0, 0);
      extras.push_back({"an uncommitted shard", {{k3, all[vx::sfmt("fiver.%020d.%020d", 0, 0)]}}, {k3}});
      extras.push_back({"the uncommitted name of a committed shard", {{k0, all[vx::sfmt("fiver.%020d.%020d", 0, 0)]}}, {k0}});
      extras.push_back({"a torn uncommitted shard and temporaries", {{k3, "torn"}, {"temp.fiver.1.1.1", "x"}, {"temp.123", ""}}, {k3}});
      std::string t = vx::sfmt("%020d.%020d", 0, 1);
      extras.push_back({"progress of an interrupted merge", {{"mrg.hazel." + t, "#COTT"}, {"pst.hazel." + t, "xyz"}, {"dct.hazel." + t, ""}}, {}});
      std::string t2 = vx::sfmt("%020d.%020d", 1, N - 1);
      extras.push_back({"progress of another interrupted merge", {{"pst.hazel." + t2, ""}, {"dct.hazel." + t2, "0123456789"}}, {}});
    }
    uint64_t total = (uint64_t)extras.size() << M;
    vx::opt.chunk = 64;
    fs::remove_all(dir);
    vx::run("D04", total, [&](uint64_t id) {
      const Extra &x = extras[id >> M];
      uint64_t set = id & ((1ull << M) - 1);
      std::vector<Shard> have;
      for (int i = 0; i < M; i++)
        if (set >> i & 1)
          have.push_back(sh[i]);
      std::string d = scratch();
      Files f;
      for (auto &o : others)
        f[o] = base[o];
      for (auto &h : have)
        f[h.name] = all[h.name];
      for (auto &e : x.f)
        f[e.first] = e.second;
      std::string desc;
      for (auto &h : have)
        desc += vx::sfmt("%s[%ld,%ld] ", h.kind.c_str(), h.s, h.e);
      desc += "and " + x.what;
      vx::what(desc);
      bool partial = false, odd = false;
      // no run makes two shards that overlap partially; under a survivor they may be ignored or refused
      for (auto &a : have)
        for (auto &b : have)
          if (overlap(a, b) && !contains(a, b) && !contains(b, a))
            odd = true;
      // no run leaves a fiver that covers more than a live hazel: shards are packed, never unpacked
      for (auto &a : have)
        for (auto &b : have)
          if (a.kind == "fiver" && b.kind == "hazel" && contains(a, b) && !contains(b, a)) {
            bool superseded = false;
            for (auto &h : have)
              superseded = superseded || (h.kind == "hazel" && contains(h, a));
            odd = odd || !superseded;
          }
      std::vector<Shard> live;
      for (auto &a : have) {
        bool dead = false;
        for (auto &b : have)
          if (a.name != b.name && contains(b, a) && (!contains(a, b) || b.kind == "hazel"))
            dead = true;
        if (!dead)
          live.push_back(a);
      }
      // partial overlaps are resolved by a surviving shard around both
      for (auto &a : live)
        for (auto &b : live)
          if (a.name != b.name && overlap(a, b))
            partial = true;
      Content v = c;
      v.oracle.units.clear();
      for (int i = 0; i < N; i++)
        for (auto &l : live)
          if (l.s <= i && i <= l.e) {
            v.oracle.units.push_back(c.oracle.units[i]);
            break;
          }
      std::string key = "dir:" + desc;
      restore(d, f);
      std::string error;
      vx::count(s_dirs);
      auto w = Warren::make(d, &error);
      auto unmodified = [&](const Files &now) {
        for (auto &l : live)
          if (!now.count(l.name) || now.at(l.name) != all[l.name])
            vx::viol(key, desc + ": opening it lost or changed the surviving shard " + l.name);
      };
      if (!w) {
        vx::count(s_dirs_refused);
        if (!partial && !odd)
          vx::viol(key, desc + ": refused: " + error);
        // nothing live may be touched, nothing at all when the layout cannot be resolved
        unmodified(snapshot(d));
        return;
      }
      if (partial) {
        vx::viol(key, desc + ": shards overlap partially, and the store opens");
        return;
      }
      std::string want = v.probe.want(v.oracle);
      w->start();
      ask_check(key, desc + ":", w.get(), v.probe, want);
      w->end();
      w = nullptr;
      Files now = snapshot(d);
      unmodified(now);
      for (auto &g : x.must_go)
        if (now.count(g))
          vx::viol(key, desc + ": " + g + " survived opening");
      for (auto &h : have) {
        bool is_live = false;
        for (auto &l : live)
          is_live = is_live || l.name == h.name;
        if (!is_live && now.count(h.name))
          vx::viol(key, desc + ": superseded " + h.name + " survived opening");
      }
      for (auto &o : others)
        if (!now.count(o) || now[o] != base[o])
          vx::viol(key, desc + ": opening it changed " + o);
      // again
      w = Warren::make(d, &error);
      if (!w) {
        vx::viol(key, desc + ": refused when opened again: " + error);
        return;
      }
      w->start();
      ask_check(key, desc + ", opened again:", w.get(), v.probe, want);
      w->end();
      w = nullptr;
      if (snapshot(d) != now)
        vx::viol(key, desc + ": opening it again changed the directory");
      if (id == 77)
        vx::sample(desc);
    });
    return 0;
  }

  std::vector<std::pair<std::string, int>> jobs;
  std::vector<std::string> codes;
  if (given.size()) {
    std::stringstream ss(given);
    std::string x;
    while (std::getline(ss, x, ','))
      codes.push_back(x);
  }
  if (menu != "-") {
    uint64_t m = menu.size(), total = 1;
    for (int i = 0; i < n; i++)
      total *= m;
    for (uint64_t id = 0; id < total; id++) {
      std::string code;
      uint64_t r = id;
      for (int i = 0; i < n; i++, r /= m)
        code += menu[r % m];
      codes.push_back(code);
    }
  }
  for (auto &code : codes)
    for (char o : optstr)
      jobs.push_back({code, o - '0'});
  vx::run(prop, jobs.size(), [&](uint64_t id) {
    const std::string &code = jobs[id].first;
    const Options &opt = OPTS[jobs[id].second];
    vx::what(code);
    std::string dir = scratch();
    fs::remove_all(dir);
    Content c;
    if (!build(dir, code, opt, &c, prop == "T04"))
      return;
    vx::count(s_contents);
    layouts(dir, c, opt, chunks);
    if (id < 3)
      vx::sample(code + " (" + (opt.pc + "," + opt.vc + "," + opt.tc) + "): " + vx::esc(c.probe.want(c.oracle).substr(0, 300)));
  });
  return 0;
}
