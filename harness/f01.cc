// F01: fast identifiers never change what a store answers.  Every sequence of making them, appending, reopening, cloning and
// changing the identifiers, against a twin store without them; every crash point and failing operation of making them.
#include "fsx.h"
#include "src/cottontail.h"
#include "src/fastid_txt.h"
#include "src/json.h"
#include "src/simple_builder.h"
#include "vx.h"
#include <filesystem>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;

static int s_seq, s_ops, s_reads, s_points, s_faults, s_told;
static std::string root;

static void quiet() {
  static bool done = false;
  if (!done && !getenv("VX_LOUD"))
    if (!freopen("/dev/null", "w", stderr))
      abort();
  done = true;
}
static std::string big() {
  std::string s = "\"";
  for (int i = 0; i < 9; i++)
    s += vx::sfmt("w%d-", i);
  return s + "\"";
}
static const std::vector<std::string> IDS = {"a1", "b-2", std::string("n\0u", 3), "", "x  \"y\" z", big(), "a1"};
static std::string doc(int i) {
  if (i == 7)
    return "<DOCNO> end </DOCNO>"; // an identifier that ends where the store does
  if (i == 8)
    return "words only\n";
  return "<DOC> <DOCNO> " + IDS[i] + " </DOCNO>, t" + std::to_string(i) + " u </DOC>\n";
}
static const std::vector<std::string> QUERIES = {"(... <DOCNO> </DOCNO>)", "nothing:", "(... <DOC> </DOC>)"};
static const std::vector<std::string> APPENDS = {") tail <DOCNO> c3 </DOCNO>", "  ", "<DOC> <DOCNO> d4 </DOCNO> </DOC>"};

static bool build(const std::string &dir, const std::vector<int> &docs, bool json) {
  std::string e;
  auto b = SimpleBuilder::make(Working::mkdir(dir), json ? "txt:json:yes" : "", &e);
  if (!b)
    return vx::viol("setup", "no builder: " + e), false;
  addr p, q;
  for (int d : docs)
    if (!b->add_text(doc(d), &p, &q, &e))
      return vx::viol("setup", "no text: " + e), false;
  return b->finalize(&e) || (vx::viol("setup", "not finalized: " + e), false);
}
static W reopen(const std::string &dir, std::string *e) {
  W w = Warren::make(dir, e);
  if (w)
    w->start();
  return w;
}
// everything the store says about its text
static std::vector<std::string> dump(W w) {
  std::vector<std::string> r;
  addr n = w->txt()->tokens(), p = -7, q = -7;
  bool any = w->txt()->range(&p, &q);
  r.push_back(vx::sfmt("tokens %ld range %d %ld %ld", (long)n, any, (long)p, (long)q));
  for (p = -1; p <= n; p++) {
    for (q = p; q <= n; q++) {
      r.push_back(w->txt()->translate(p, q));
      r.push_back("raw " + w->txt()->raw(p, q));
    }
    r.push_back(w->txt()->translate(p, maxfinity));
  }
  vx::count(s_reads, r.size());
  for (auto &g : QUERIES) {
    auto h = w->hopper_from_gcl(g);
    if (!h)
      continue;
    addr a, b;
    for (h->tau(minfinity + 1, &a, &b); a < maxfinity; h->tau(a + 1, &a, &b))
      r.push_back(g + vx::sfmt(" %ld %ld ", (long)a, (long)b) + w->txt()->translate(a, b));
  }
  return r;
}
static bool compare(const std::vector<std::string> &got, const std::vector<std::string> &want, const std::string &key, const std::string &what) {
  for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
    if (i >= got.size() || i >= want.size() || got[i] != want[i]) {
      vx::viol(key, what + ": answer " + std::to_string(i) + " is " + vx::esc(i < got.size() ? got[i] : "(none)").substr(0, 200) + ", without fast ids " + vx::esc(i < want.size() ? want[i] : "(none)").substr(0, 200));
      return false;
    }
  return true;
}

struct Content {
  std::vector<int> docs;
  bool json;
};
static std::vector<Content> contents(int n) {
  std::vector<Content> v;
  std::vector<std::vector<int>> l = {{}};
  for (size_t k = 0; k < l.size(); k++)
    if ((int)l[k].size() < n)
      for (int d = 0; d < 9; d++) {
        auto x = l[k];
        x.push_back(d);
        l.push_back(x);
      }
  for (auto &x : l)
    for (int j = 0; j < 2; j++)
      if (!x.empty())
        v.push_back({x, (bool)j});
  return v;
}
static const char OPS[] = "FfnPQ012Rcr"; // make with each query, change the query, append, reopen, clone, read again

static bool append(W w, const std::string &t, std::string *e) {
  addr p, q;
  if (!w->transaction(e))
    return false;
  if (!w->appender()->append(t, &p, &q, e) || !w->ready(e)) {
    w->abort();
    return false;
  }
  w->commit();
  return true;
}

static void sequences(int n, int depth) {
  auto all = contents(n);
  uint64_t K = sizeof OPS - 1, per = 1;
  for (int i = 0; i < depth; i++)
    per *= K;
  vx::opt.chunk = 4;
  vx::run(vx::sfmt("sequences%d", depth), all.size() * per, [&](uint64_t x) {
    quiet();
    const Content &c = all[x / per];
    uint64_t y = x % per;
    std::string ops;
    for (int i = 0; i < depth; i++, y /= K)
      ops += OPS[y % K];
    // nothing to learn without making fast ids, nor from reading before anything was done
    if (ops.find_first_of("Ff") == std::string::npos || ops.find_first_of("cr") == 0)
      return;
    std::string label;
    for (int d : c.docs)
      label += std::to_string(d);
    label += c.json ? "j:" : ":";
    vx::count(s_seq);
    std::string a = vx::sfmt("f%d", vx::me), b = a + "t", e;
    fs::current_path(root);
    fs::remove_all(a), fs::remove_all(b);
    // stores are made once for each worker and content
    static std::string have;
    std::string ta = a + "o";
    if (have != label) {
      fs::remove_all(ta);
      if (!build(ta, c.docs, c.json))
        return;
      have = label;
    }
    fs::copy(ta, a, fs::copy_options::recursive);
    fs::copy(ta, b, fs::copy_options::recursive);
    W f = reopen(a, &e), t = reopen(b, &e);
    if (!f || !t)
      return vx::viol("setup", "cannot open: " + e);
    struct Reader {
      W f;
      std::vector<std::string> want;
    };
    std::vector<Reader> readers;
    std::string done;
    int query = 0;
    f->set_parameter("id", QUERIES[query]);
    for (char op : ops) {
      done += op;
      std::string key = "sequence:" + label + done, what = key;
      vx::what(what);
      vx::count(s_ops);
      bool ok = true, okt = true;
      switch (op) {
      case 'F':
      case 'f':
      case 'n':
        if (op != 'F')
          f->set_parameter("id", op == 'n' ? "((" : QUERIES[query]);
        ok = fastid(f, &e);
        okt = op != 'n';
        if (op == 'n')
          f->set_parameter("id", QUERIES[query]);
        if (op == 'f') { // and at once in use
          f = reopen(a, &e), t = reopen(b, &e);
          if (!f || !t)
            return vx::viol(key + ":closed", what + ": does not open: " + e);
        }
        break;
      case 'P':
        query = 1;
        f->set_parameter("id", QUERIES[query]);
        break;
      case 'Q':
        query = 2;
        f->set_parameter("id", QUERIES[query]);
        break;
      case '0':
      case '1':
      case '2':
        ok = append(f, APPENDS[op - '0'], &e);
        okt = append(t, APPENDS[op - '0'], &e);
        f = reopen(a, &e), t = reopen(b, &e);
        if (!f || !t)
          return vx::viol(key + ":closed", what + ": does not open: " + e);
        break;
      case 'R':
        f = reopen(a, &e), t = reopen(b, &e);
        if (!f || !t)
          return vx::viol(key + ":closed", what + ": does not open: " + e);
        break;
      case 'c': {
        W k = f->clone(&e), kt = t->clone(&e);
        if (!k || !kt)
          return vx::viol(key + ":clone", what + ": no clone: " + e);
        readers.push_back({k, dump(kt)});
        break;
      }
      }
      if (ok != okt)
        return vx::viol(key + ":told", what + (ok ? ": is accepted" : ": is refused: " + e));
      if (!compare(dump(f), dump(t), key, what))
        return;
      for (auto &r : readers)
        if (!compare(dump(r.f), r.want, key + ":reader", what + ", in a reader opened before"))
          return;
    }
  });
  vx::opt.chunk = 1;
}

static int in_child(const std::function<int()> &f) {
  pid_t p = fork();
  if (p == 0) {
    alarm(60);
    _exit(f());
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  return st;
}
static void interrupted(bool fault) {
  struct Point {
    uint32_t job, at;
    int variant;
  };
  std::vector<Content> jobs = {{{0, 1, 5}, false}, {{5, 5, 7}, true}, {{8}, false}, {{2, 4}, false}};
  const int J = jobs.size() * 2; // without and with fast ids made before
  fsx::include_reads = fault;
  fsx::Mode mode = fault ? fsx::FAULT : fsx::CRASH;
  fsx::Log *log = fsx::new_log();
  auto make = [](const std::string &dir) {
    std::string e;
    W w = reopen(dir, &e);
    return w && fastid(w, &e);
  };
  vx::run("recording", 1, [&](uint64_t) {
    quiet();
    for (int j = 0; j < J; j++) {
      std::string t = root + vx::sfmt("/t%d", j), r = root + vx::sfmt("/r%d", j), e;
      if (!build(t, jobs[j / 2].docs, jobs[j / 2].json))
        return;
      {
        W w = reopen(t, &e);
        if (!w || !w->set_parameter("id", QUERIES[0]) || (j % 2 && !fastid(w, &e)))
          return vx::viol("setup", "cannot prepare: " + e);
        if (j % 2) // more ids since
          for (auto &a : APPENDS)
            append(w, a, &e);
      }
      fs::copy(t, r, fs::copy_options::recursive);
      in_child([&] {
        W w = reopen(r, &e);
        fsx::start(log, r, fsx::RECORD);
        bool ok = fastid(w, &e);
        fsx::stop();
        if (!ok)
          vx::viol("setup", "fast ids cannot be made: " + e);
        fflush(vx::out);
        return 0;
      });
      std::ofstream ps(root + vx::sfmt("/points%d", j));
      for (uint32_t k = 0; k < log->n; k++)
        for (int v = 0; v < fsx::variants(log->op[k], mode); v++)
          ps << j << " " << k << " " << v << "\n";
    }
  });
  std::vector<Point> points;
  for (int j = 0; j < J; j++) {
    std::ifstream in(root + vx::sfmt("/points%d", j));
    Point p;
    while (in >> p.job >> p.at >> p.variant)
      points.push_back(p);
  }
  if (points.empty())
    vx::run("points", 1, [&](uint64_t) { vx::viol("setup", "no operation to interrupt"); });
  vx::run(fault ? "fault" : "death", points.size(), [&](uint64_t i) {
    quiet();
    const Point &p = points[i];
    static fsx::Log *mine = nullptr;
    if (!mine)
      mine = fsx::new_log();
    std::string d = root + "/" + std::to_string(vx::me), t = root + vx::sfmt("/t%d", (int)p.job), e;
    std::string key = vx::sfmt("%s:%u:%u:%d", fault ? "fault" : "death", p.job, p.at, p.variant);
    vx::what(key);
    // without fast ids
    std::vector<std::string> want;
    {
      fs::remove_all(d);
      fs::copy(t, d, fs::copy_options::recursive);
      W w = reopen(d, &e);
      if (w)
        w->set_parameter("fastid", "no");
      w = reopen(d, &e);
      if (!w)
        return vx::viol(key, "setup: " + e);
      want = dump(w);
    }
    fs::remove_all(d);
    fs::copy(t, d, fs::copy_options::recursive);
    int st = in_child([&] {
      std::string e;
      W w = reopen(d, &e);
      fsx::start(mine, d, mode, p.at, p.variant);
      bool ok = fastid(w, &e);
      fsx::stop();
      if (fault && !ok && e.empty())
        vx::viol(key + ":silent", "fails without a word");
      if (fault)
        compare(dump(w), want, key + ":running", std::string(mine->fault_at) + " failed, in the same process");
      fflush(vx::out);
      return 10 + ok;
    });
    vx::count(fault ? s_faults : s_points);
    std::string how = fault ? std::string(mine->fault_at) + " failed" : vx::sfmt("killed at operation %u", p.at);
    int told = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (WIFSIGNALED(st) && (!fault || WTERMSIG(st) != SIGABRT))
      return vx::viol(key, how + vx::sfmt(": ended with signal %d", WTERMSIG(st)));
    for (int round = 0; round < 2; round++) {
      W w = reopen(d, &e);
      if (!w)
        return vx::viol(key, how + ": the store does not open: " + e);
      if (!compare(dump(w), want, key, how + (round ? ", made again" : ", reopened")))
        return;
      std::string on;
      if (told == 11 && (!w->get_parameter("fastid", &on) || !okay(on) || !fs::exists(d + "/fastid")))
        return vx::viol(key, how + ": reported made, but is not");
      if (told == 11)
        vx::count(s_told);
      if (!round && !fastid(w, &e))
        return vx::viol(key, how + ": cannot be made any more: " + e);
      told = 11;
    }
    for (auto &n : fs::directory_iterator(d))
      if (n.path().filename().string().compare(0, 5, "temp.") == 0)
        vx::viol(key, how + ": leaves " + n.path().filename().string());
  });
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_seq = vx::stat_id("sequences");
  s_ops = vx::stat_id("operations");
  s_reads = vx::stat_id("reads");
  s_points = vx::stat_id("crash_points");
  s_faults = vx::stat_id("faults");
  s_told = vx::stat_id("made");
  root = fs::current_path().string() + "/f01." + std::to_string(getpid());
  fs::create_directories(root);
  std::string set = vx::arg(argc, argv, "set");
  int n = std::stoi(vx::arg(argc, argv, "size", "2")), depth = std::stoi(vx::arg(argc, argv, "depth", "2"));
  if (set == "sequences")
    sequences(n, depth);
  else
    interrupted(set == "fault");
  fs::current_path(root + "/..");
  fs::remove_all(root);
  return 0;
}
