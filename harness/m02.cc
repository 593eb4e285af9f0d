// M02: a merge of single-file shards, interrupted anywhere any number of times, then run again.
// State: the files of the directory besides the sources.  Transitions: run the real merge and stop it before or in the
// middle of any file-system operation, or fail that operation.  In every reachable state the merge is then run to its
// end and must give what an uninterrupted merge gives.
#include "content.h"
#include "fsx.h"
#include <sys/wait.h>
#include <unistd.h>

static int s_states, s_trans, s_reruns, s_faults, s_failed, s_same, s_scen;
static std::string root;
static fsx::Log *fl;

static bool is_side(const std::string &n) { return n.compare(0, 4, "mrg.") == 0 || n.compare(0, 4, "pst.") == 0 || n.compare(0, 4, "dct.") == 0; }

struct Scenario {
  std::string code;
  int lo, hi;      // which of the shards are merged
  bool chained;    // first two already merged into one
  std::string label;
  Files base;      // sources, other shards, settings, leftovers of other merges
  std::vector<std::string> names;
  std::string dst;
};
static std::string hname(int s, int e) { return vx::sfmt("hazel.%020d.%020d", s, e); }

// Runs the merge in this process; on_state is called for every directory a death could leave.
static std::set<Files> *snaps;
static std::string dir;
static Files *sources;
static Files extras() {
  Files x;
  for (auto &f : snapshot(dir)) {
    auto it = sources->find(f.first);
    if (it == sources->end())
      x[f.first] = f.second;
    else if (it->second != f.second)
      x["CHANGED " + f.first] = "";
  }
  for (auto &f : *sources)
    if (access((dir + "/" + f.first).c_str(), F_OK))
      x["GONE " + f.first] = "";
  return x;
}
static void snap() {
  fsx::pause(true);
  snaps->insert(extras());
  fsx::pause(false);
}
static bool every_byte(const char *path) { return strncmp(path, "mrg", 3) != 0; } // that one is only ever started afresh
static bool run_merge(const std::vector<std::string> &names, std::string *error) {
  auto w = Working::make(dir);
  return Hazel::merge(w, names, "", error);
}
static std::string ask_all(const std::string &path, const Probe &p, std::string *error) {
  auto w = Warren::make(path, error);
  if (!w)
    return "";
  w->start();
  std::string s = p.ask(w.get());
  std::string v;
  for (auto &k : {"colour", "shape", "nothing"}) {
    v = "";
    w->get_parameter(k, &v);
    s += std::string(k) + "=" + v + "\n";
  }
  w->end();
  return s;
}
static std::string show(const Files &x) {
  std::string s;
  for (auto &f : x)
    s += (s.size() ? " " : "") + f.first.substr(0, f.first.find(".0")) + ":" + std::to_string(f.second.size());
  return s.size() ? s : "nothing";
}

static void scenario(const Scenario &sc, bool bytes, int depth, int fault_depth, bool product) {
  sources = const_cast<Files *>(&sc.base);
  Probe p;
  {
    p.features = {"a", "b", "c", "d", "bb", "doc:", "f:", "g:", "h:", "m0:", "m1:", "m2:"};
    bool big = sc.code.find_first_of("LM") != std::string::npos;
    for (addr x = -1; x <= 20; x++)
      p.keys.push_back(x);
    if (big)
      for (addr x : {509, 510, 511, 512, 513, 520, 1024})
        p.keys.push_back(x);
  }
  std::string key = "merge:" + sc.label;
  // the uninterrupted merge
  restore(dir, sc.base);
  std::string error;
  if (!run_merge(sc.names, &error)) {
    vx::viol(key, sc.label + ": the uninterrupted merge fails: " + error);
    return;
  }
  std::string done = slurp(dir + "/" + sc.dst);
  std::string want = ask_all(dir + "/" + sc.dst, p, &error);
  if (want.empty()) {
    vx::viol(key, sc.label + ": the merged shard cannot be opened: " + error);
    return;
  }
  Files final_extras;
  final_extras[sc.dst] = done;
  if (extras() != final_extras) {
    vx::viol(key, sc.label + ": an uninterrupted merge leaves " + show(extras()));
    return;
  }
  std::set<Files> seen;
  std::vector<Files> frontier = {Files()};
  if (product) {
    // the checkpoint files as two independent cuts, as when a disk keeps one write and loses another
    restore(dir, sc.base);
    std::set<Files> here;
    snaps = &here;
    fsx::on_op = snap;
    fsx::start(fl, dir, fsx::RECORD);
    run_merge(sc.names, &error);
    fsx::stop();
    fsx::on_op = nullptr;
    std::string pn = "pst." + sc.dst, dn = "dct." + sc.dst, pst, dct;
    std::set<size_t> pcut, dcut;
    for (auto &h : here)
      for (auto &x : h) {
        if (x.first == pn) {
          for (size_t k : {(size_t)0, (size_t)1, x.second.size() / 2})
            pcut.insert(x.second.size() - std::min(k, x.second.size()));
          if (x.second.size() > pst.size())
            pst = x.second;
        }
        if (x.first == dn) {
          for (size_t k : {0, 1, 8, 15, 16})
            dcut.insert(x.second.size() - std::min(k, x.second.size()));
          if (x.second.size() > dct.size())
            dct = x.second;
        }
      }
    frontier.clear();
    for (size_t i : pcut)
      for (size_t j : dcut)
        frontier.push_back({{pn, pst.substr(0, i)}, {dn, dct.substr(0, j)}});
    frontier.push_back({{pn, pst}});
    frontier.push_back({{dn, dct}});
    bytes = false;
    depth = 0;
  }
  seen.insert(Files());
  for (int d = 0; d <= depth && !frontier.empty(); d++) {
    std::vector<Files> next;
    for (auto &state : frontier) {
      vx::count(s_states);
      for (auto &f : state)
        if (f.first.compare(0, 4, "GONE") == 0 || f.first.compare(0, 4, "CHAN") == 0) {
          vx::viol(key, sc.label + ": an interrupted merge leaves its sources damaged: " + show(state));
          return;
        }
      Files all = sc.base;
      for (auto &f : state)
        all[f.first] = f.second;
      // run again to the end
      restore(dir, all);
      std::set<Files> here;
      snaps = &here;
      fsx::on_op = snap;
      fsx::on_torn = snap;
      fsx::torn_bytes = bytes && d == 0 ? every_byte : nullptr;
      fsx::start(fl, dir, fsx::RECORD);
      bool ok = run_merge(sc.names, &error);
      fsx::stop();
      fsx::on_op = fsx::on_torn = nullptr;
      uint32_t nops = fl->n;
      vx::count(s_reruns);
      vx::count(s_trans, here.size());
      if (!ok) {
        vx::viol(key, sc.label + ": run again over " + show(state) + ", the merge fails: " + error);
        return;
      }
      Files x = extras();
      if (x.size() != 1 || !x.count(sc.dst)) {
        vx::viol(key, sc.label + ": run again over " + show(state) + ", the merge leaves " + show(x));
        return;
      }
      if (x[sc.dst] != done) {
        std::string got = ask_all(dir + "/" + sc.dst, p, &error);
        if (got != want) {
          vx::viol(key, sc.label + ": run again over " + show(state) + ", the merged shard answers differently " +
                            (got.empty() ? "(" + error + ")" : probe::diff(want, got)));
          return;
        }
      } else
        vx::count(s_same);
      if (d == depth)
        continue;
      for (auto &h : here)
        if (seen.insert(h).second)
          next.push_back(h);
      // every operation fails
      if (d < fault_depth)
        for (uint32_t k = 0; k < nops; k++)
          for (int v = 0; v < fsx::variants(fl->op[k], fsx::FAULT); v++) {
            if (d && v == 1)
              continue;
            restore(dir, all);
            fsx::Log *g = fsx::new_log();
            pid_t pid = fork();
            if (pid == 0) {
              signal(SIGABRT, SIG_DFL);
              if (!freopen("/dev/null", "w", stderr))
                _exit(90);
              fsx::start(g, dir, fsx::FAULT, k, v);
              std::string e;
              bool r = run_merge(sc.names, &e);
              fsx::stop();
              bool opens = true;
              if (r)
                opens = slurp(dir + "/" + sc.dst) == done || ask_all(dir + "/" + sc.dst, p, &e) == want;
              _exit(r ? opens ? 0 : 3 : 1);
            }
            int st;
            waitpid(pid, &st, 0);
            std::string at = g->fault_at;
            munmap(g, sizeof *g);
            vx::count(s_faults);
            int rc = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGABRT ? 2 : 4;
            if (rc == 1)
              vx::count(s_failed);
            Files y = extras();
            if (rc == 3 || rc == 4) {
              vx::viol(key, sc.label + ": over " + show(state) + " with a failing " + at +
                                (rc == 3 ? ", the merge succeeds with a shard that answers differently" : ", the merge crashes"));
              return;
            }
            if (seen.insert(y).second)
              next.push_back(y);
          }
    }
    frontier = next;
  }
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  bool bytes = vx::arg(argc, argv, "bytes", "1") == "1";
  int depth = atoi(vx::arg(argc, argv, "depth", "2").c_str());
  bool product = vx::arg(argc, argv, "product", "0") == "1";
  int fdepth = atoi(vx::arg(argc, argv, "fdepth", "1").c_str());
  std::string list = vx::arg(argc, argv, "contents", "abe,bxe,oEa,apo,aLe,MMa");
  std::string optstr = vx::arg(argc, argv, "opts", "01");
  s_scen = vx::stat_id("scenarios");
  s_states = vx::stat_id("directory_states");
  s_trans = vx::stat_id("interruptions");
  s_reruns = vx::stat_id("resumed_merges");
  s_faults = vx::stat_id("failed_operations");
  s_failed = vx::stat_id("merges_reported_failed");
  s_same = vx::stat_id("byte_identical_results");
  s_queries = vx::stat_id("answer_bytes");
  vx::stat_id("cases");
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd))
    return 90;
  root = cwd;
  struct Job {
    std::string code;
    char opt;
    int what;
  };
  std::vector<Job> jobs;
  std::stringstream ss(list);
  std::string code;
  while (std::getline(ss, code, ','))
    for (char o : optstr)
      for (int w = 0; w < 4; w++)
        jobs.push_back({code, o, w});
  vx::run("M02", jobs.size(), [&](uint64_t i) {
    const Job &j = jobs[i];
    fl = fsx::new_log();
    dir = root + vx::sfmt("/w%d", (int)getpid());
    const Options &opt = OPTS[j.opt - '0'];
    Content c;
    if (!build(dir, j.code, opt, &c, false))
      return;
    std::string error;
    Store st = open_parts(dir, opt.pc, opt.vc, opt.tc);
    int N = j.code.size();
    for (int t = 0; t < N; t++)
      if (!fiver_hazel(st, vx::sfmt("fiver.%020d.%020d", t, t), j.code.find('L') != std::string::npos ? 100 : 64 * 1024, "", &error)) {
        vx::viol("setup:" + j.code, "cannot pack: " + error);
        return;
      }
    Scenario sc;
    sc.code = j.code;
    static const char *WHAT[] = {"all three", "all three, the first two merged before", "the last two", "all three, beside leftovers of other merges"};
    sc.label = j.code + " opts " + j.opt + ", " + WHAT[j.what];
    Files f = snapshot(dir);
    if (j.what == 1) {
      restore(dir, f);
      if (!Hazel::merge(Working::make(dir), {hname(0, 0), hname(1, 1)}, "", &error)) {
        vx::viol("setup:" + j.code, "cannot merge: " + error);
        return;
      }
      f = snapshot(dir);
      f.erase(hname(0, 0));
      f.erase(hname(1, 1));
      sc.names = {hname(0, 1), hname(2, 2)};
      sc.dst = hname(0, 2);
    } else if (j.what == 2) {
      sc.names = {hname(1, 1), hname(2, 2)};
      sc.dst = hname(1, 2);
    } else {
      sc.names = {hname(0, 0), hname(1, 1), hname(2, 2)};
      sc.dst = hname(0, 2);
    }
    if (j.what == 3) {
      // what interrupted merges of other groups left, whole and cut
      Files keep = f;
      restore(dir, keep);
      std::set<Files> left;
      snaps = &left;
      sources = &keep;
      fsx::on_op = snap;
      fsx::start(fl, dir, fsx::RECORD);
      Hazel::merge(Working::make(dir), {hname(0, 0), hname(1, 1)}, "", &error);
      fsx::stop();
      fsx::on_op = nullptr;
      Files most;
      for (auto &l : left)
        for (auto &x : l)
          if (is_side(x.first) && x.second.size() > most[x.first].size())
            most[x.first] = x.second;
      for (auto &x : most)
        f[x.first] = x.second;
      f["pst." + hname(1, 2)] = f["pst." + hname(0, 1)];
      f["dct." + hname(1, 2)] = f["dct." + hname(0, 1)];
      f["pst." + hname(0, 21)] = "junk";
      f["dct." + hname(0, 21)] = std::string(16, '\0');
    }
    sc.base = f;
    vx::count(s_scen);
    vx::sample(sc.label);
    scenario(sc, bytes, depth, fdepth, product);
    fs::remove_all(dir);
    munmap(fl, sizeof *fl);
  });
  return 0;
}
