// D01, D02, D03, M02: every file-system operation of a history of a dynamic store is made the last
// one (crash, with torn writes) or is made to fail; then every operation of the recovery is, too.
#include "dyn.h"
#include "fsx.h"
#include "mcrt.h"
#include "src/hazel.h"
#include <algorithm>
#include <fcntl.h>
#include <thread>
using namespace cottontail;
using dyn::Placed;
using dyn::Txn;
using dyn::View;
namespace fs = std::filesystem;
typedef std::shared_ptr<Bigwig> B;
typedef std::shared_ptr<Warren> W;

// What the process that may die has told the outside world so far.
constexpr int MAXT = 32;
enum State { NONE, READY, CALLED, DONE, ABORTED, REFUSED };
struct Shm {
  int state[MAXT];
  addr base[MAXT]; // of transactions whose ready returned
  int batch[MAXT];
  int created; // creating the store has returned
  int params[4]; // 0: not set, 1: call began, 2: returned true, 3: returned false
  int reached_end;
  int bad;
  char key[300], detail[3000];
  uint64_t ops;
  uint64_t shown[2];
};
static Shm *S;
static std::vector<Txn> all;
static const char *DIR = "b";
static int fault_mode = 0;

static void bad(const std::string &k, const std::string &d) {
  if (S->bad)
    return;
  S->bad = 1;
  snprintf(S->key, sizeof S->key, "%s", k.c_str());
  snprintf(S->detail, sizeof S->detail, "%s", d.c_str());
}
static const Txn &txn(int id) {
  for (auto &t : all)
    if (t.id == id)
      return t;
  abort();
}
static Txn T(int id, int docs, std::vector<std::pair<int, int>> er = {}, int len = 3) {
  Txn t;
  t.id = id;
  t.docs = docs;
  t.len = len;
  t.erases = er;
  return t;
}
static dyn::Span span_of(int t, int d) {
  const Txn &x = txn(t);
  return {S->base[t] + d * x.len, S->base[t] + (d + 1) * x.len - 1};
}
// ------------------------------------------------------------------ what histories are made of
struct H {
  B b;
  std::map<int, W> w; // writers
  bool dead = false;  // (fault mode) the store could not be created or opened
  void create(const std::string &opts = "tokenizer:name:ascii") {
    std::string e;
    b = Bigwig::make(DIR, opts, &e);
    if (b)
      S->created = 1;
    else {
      dead = true;
      if (!fault_mode)
        bad("creating a store failed", e);
    }
  }
  void open() {
    if (dead)
      return;
    std::string e;
    b = std::dynamic_pointer_cast<Bigwig>(Warren::make(DIR, &e));
    if (!b) {
      dead = true;
      if (!fault_mode)
        bad("reopening a store failed", e);
    }
  }
  void close() {
    w.clear();
    mc::drain();
    b = nullptr;
  }
  void merge(bool on) {
    if (!dead)
      b->merge(on);
  }
  bool prep(int id) { // up to and including ready
    if (dead)
      return false;
    W c = b->clone();
    if (!c) {
      if (!fault_mode)
        bad("clone failed", "");
      return false;
    }
    w[id] = c;
    bool ok = c->transaction();
    bool began = ok;
    ok = ok && dyn::fill(c.get(), txn(id), span_of);
    ok = ok && c->ready();
    if (!ok) {
      if (!fault_mode)
        bad("a transaction was refused", std::to_string(id));
      S->state[id] = REFUSED;
      S->base[id] = 100000 + 1000 * id; // later erasures of it name nothing
      if (began)
        c->abort();
      return false;
    }
    S->state[id] = READY;
    return true;
  }
  void commit(int id) {
    if (dead || S->state[id] != READY)
      return;
    S->state[id] = CALLED;
    w[id]->commit();
    learn(id);
    S->state[id] = DONE;
  }
  void abort(int id) {
    if (dead || S->state[id] != READY)
      return;
    S->state[id] = ABORTED;
    w[id]->abort();
  }
  void put(int id) {
    if (prep(id))
      commit(id);
  }
  void batch(std::vector<int> ids) {
    if (dead)
      return;
    std::vector<B> v;
    static int nb = 0;
    nb++;
    for (int id : ids)
      if (S->state[id] != READY)
        return;
    for (int id : ids) {
      S->batch[id] = nb;
      S->state[id] = CALLED;
      v.push_back(std::dynamic_pointer_cast<Bigwig>(w[id]));
    }
    bool ok = Bigwig::commit_all(v);
    if (!ok) {
      if (!fault_mode)
        bad("batch commit failed", "");
      for (int id : ids) {
        S->state[id] = REFUSED;
        w[id]->abort();
      }
      return;
    }
    for (int id : ids)
      learn(id);
    for (int id : ids)
      S->state[id] = DONE;
  }
  void learn(int id) { // the addresses a committed transaction was given
    W c = b->clone();
    if (!c)
      return;
    c->start();
    auto h = c->idx()->hopper(c->featurizer()->featurize("u" + std::to_string(id)));
    addr p, q;
    h->tau(minfinity + 1, &p, &q);
    if (p < maxfinity)
      S->base[id] = p - 1;
    else if (!S->bad)
      bad("a committed transaction is not visible", std::to_string(id));
    c->end();
  }
  void param(int i, const std::string &v) {
    if (dead)
      return;
    S->params[i] = 1;
    S->params[i] = b->set_parameter("p" + std::to_string(i), v) ? 2 : 3;
  }
  void drain() { mc::drain(); }
  void check_live(); // the running store still shows what was committed
};
// ------------------------------------------------------------------ the oracle
static std::vector<int> shown(const View &v) {
  std::vector<int> ids;
  size_t i = 0;
  while (i < v.text.size()) {
    size_t e = v.text.find('\n', i);
    if (e == std::string::npos)
      e = v.text.size();
    std::string line = v.text.substr(i, e - i);
    i = e + 1;
    size_t u = line.find('u');
    int id = u == std::string::npos ? -1 : atoi(line.c_str() + u + 1);
    if (ids.empty() || ids.back() != id)
      ids.push_back(id);
  }
  return ids;
}
static const char *sname(int s) {
  static const char *n[] = {"not begun", "ready", "commit called", "committed", "aborted", "refused"};
  return n[s];
}
static bool judge(const View &v, std::set<int> *out, const std::string &when) {
  std::vector<int> ids = shown(v);
  std::set<int> s(ids.begin(), ids.end());
  std::vector<Placed> vis;
  std::string st;
  for (auto &t : all)
    if (S->state[t.id])
      st += vx::sfmt("%d:%s ", t.id, sname(S->state[t.id]));
  std::string ctx = when + "; history: " + st + "; shown " + v.str();
  for (int id : s) {
    bool known = false;
    for (auto &t : all)
      known |= t.id == id;
    if (!known) {
      bad("the store shows text nobody committed", ctx);
      return false;
    }
    addr b;
    auto &l = v.lists.at("u" + std::to_string(id));
    if (S->state[id] == DONE)
      b = S->base[id];
    else if (!l.empty())
      b = l[0][0] - 1;
    else {
      bad("the store shows the text of a transaction without its postings", ctx);
      return false;
    }
    vis.push_back({txn(id), b});
  }
  for (auto &t : all) {
    if (S->state[t.id] == DONE && !s.count(t.id)) {
      bad("a committed transaction is lost", ctx);
      return false;
    }
    if (S->state[t.id] != DONE && S->state[t.id] != CALLED && s.count(t.id)) {
      bad(std::string("a transaction that was ") + (S->state[t.id] == ABORTED ? "aborted" : S->state[t.id] == REFUSED ? "refused" : "not committed") + " is visible", ctx);
      return false;
    }
    if (S->batch[t.id])
      for (auto &u : all)
        if (S->batch[u.id] == S->batch[t.id] && s.count(u.id) != s.count(t.id)) {
          bad("part of a batch is visible", ctx);
          return false;
        }
  }
  for (auto &x : vis)
    for (auto &y : vis)
      if (x.t.id < y.t.id && x.base < y.base + y.t.tokens() && y.base < x.base + x.t.tokens()) {
        bad("two transactions share addresses", ctx);
        return false;
      }
  View e = dyn::expect(vis, all);
  if (!(e == v)) {
    bad("the store does not show whole transactions", ctx + " expected " + e.str());
    return false;
  }
  *out = s;
  return true;
}
static View look(W w) {
  w->start();
  View v = dyn::observe(w.get(), all);
  w->end();
  return v;
}
void H::check_live() {
  if (dead)
    return;
  W c = b->clone();
  if (!c) {
    if (!fault_mode)
      bad("clone failed", "");
    return;
  }
  std::set<int> s;
  judge(look(c), &s, "in the running store");
}
// ------------------------------------------------------------------ histories
struct History {
  std::string name;
  std::string prop; // comma separated
  std::vector<Txn> txns;
  std::function<void(H &)> prepare; // not faulted
  std::function<void(H &)> run;
};
static std::vector<History> histories() {
  std::vector<History> v;
  v.push_back({"plain", "D01 D03", {T(1, 1), T(2, 2), T(3, 1, {{1, 0}}), T(4, 1), T(5, 1)}, nullptr, [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.put(2);
                 h.check_live();
                 h.put(3);
                 if (h.prep(4))
                   h.abort(4);
                 h.check_live();
                 h.put(5);
                 h.check_live();
                 h.close();
               }});
  v.push_back({"two-writers", "D01 D03", {T(1, 1), T(2, 1), T(3, 2), T(4, 1, {{2, 0}}), T(5, 1)}, nullptr, [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.prep(2);
                 h.prep(3);
                 h.commit(3);
                 h.commit(2);
                 h.close();
                 h.open();
                 h.prep(4);
                 h.prep(5);
                 h.abort(4);
                 h.commit(5);
                 h.check_live();
                 h.close();
               }});
  v.push_back({"params", "D01 D03", {T(1, 1), T(2, 1)}, nullptr, [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.param(0, "one two: [three]");
                 h.param(1, "x");
                 h.put(2);
                 h.close();
                 h.open();
                 h.param(1, "y");
                 h.check_live();
                 h.close();
               }});
  v.push_back({"merging", "D01 D03 M02", {T(1, 1), T(2, 2), T(3, 1, {{2, 0}}), T(4, 1), T(5, 1, {{1, 0}}), T(6, 1)}, nullptr, [](H &h) {
                 h.create();
                 for (int i = 1; i <= 6; i++) {
                   h.put(i);
                   h.drain();
                   h.check_live();
                 }
                 h.close();
               }});
  v.push_back({"merging-behind", "D01 D03 M02", {T(1, 1), T(2, 2), T(3, 1, {{2, 0}}), T(4, 1), T(5, 1)}, nullptr, [](H &h) {
                 h.create();
                 for (int i = 1; i <= 5; i++)
                   h.put(i);
                 h.close();
               }});
  v.push_back({"merge-on-open", "D01 D03 M02", {T(1, 1), T(2, 2), T(3, 1, {{2, 0}}), T(4, 1), T(5, 1)},
               [](H &h) {
                 h.create();
                 h.merge(false);
                 for (int i = 1; i <= 4; i++)
                   h.put(i);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.merge(true);
                 h.drain();
                 h.check_live();
                 h.put(5);
                 h.close();
               }});
  v.push_back({"packed", "D01 D03 M02", {T(1, 1), T(2, 2), T(3, 1, {{2, 0}}), T(4, 1), T(5, 1)},
               [](H &h) {
                 h.create("tokenizer:name:ascii");
                 for (int i = 1; i <= 3; i++) {
                   h.put(i);
                   h.close();
                   h.open();
                   h.drain();
                 }
                 h.merge(false);
                 h.put(4);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.merge(true);
                 h.drain();
                 h.check_live();
                 h.put(5);
                 h.close();
               }});
  v.push_back({"batch", "D02 D03", {T(1, 1), T(2, 1), T(3, 2, {{1, 0}}), T(4, 1), T(5, 1)}, nullptr, [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.prep(2);
                 h.prep(3);
                 h.prep(4);
                 h.batch({2, 3, 4});
                 h.check_live();
                 h.put(5);
                 h.close();
               }});
  v.push_back({"batch-merging", "D02 D03", {T(1, 1), T(2, 1), T(3, 2), T(4, 1), T(5, 1), T(6, 1)}, nullptr, [](H &h) {
                 h.create("tokenizer:name:ascii");
                 h.put(1);
                 h.prep(2);
                 h.prep(3);
                 h.batch({3, 2});
                 h.drain();
                 h.check_live();
                 h.prep(4);
                 h.prep(5);
                 h.prep(6);
                 h.batch({4, 6});
                 h.commit(5);
                 h.close();
               }});
  v.push_back({"batch-single", "D02", {T(1, 1), T(2, 1)}, nullptr, [](H &h) {
                 h.create();
                 h.merge(false);
                 h.prep(1);
                 h.batch({1});
                 h.prep(2);
                 h.batch({2});
                 h.close();
               }});
  return v;
}
// Concurrent histories: every schedule within the bound, and every crash point of each.
struct Conc {
  std::string name, prop;
  std::vector<Txn> txns;
  std::function<void(H &)> prepare;
  std::function<void(H &)> run; // creates its own threads
};
static std::vector<Conc> concurrent() {
  std::vector<Conc> v;
  v.push_back({"two-committers", "D01", {T(1, 1), T(2, 1), T(3, 1, {{1, 0}})},
               [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 H h2 = h;
                 std::thread t([&] { h2.put(2); });
                 h.put(3);
                 t.join();
                 h2.w.clear();
                 h2.b = nullptr;
               }});
  v.push_back({"committer-and-merge", "D01 M02", {T(1, 1), T(2, 1), T(3, 1, {{1, 0}}), T(4, 1)},
               [](H &h) {
                 h.create();
                 h.merge(false);
                 for (int i = 1; i <= 3; i++)
                   h.put(i);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.merge(true);
                 h.put(4);
               }});
  v.push_back({"committer-and-packing", "D01 M02", {T(1, 1), T(2, 2), T(3, 1, {{2, 0}}), T(4, 1)},
               [](H &h) {
                 h.create();
                 for (int i = 1; i <= 2; i++) {
                   h.put(i);
                   h.close();
                   h.open();
                   h.drain();
                 }
                 h.merge(false);
                 h.put(3);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.merge(true);
                 h.put(4);
               }});
  v.push_back({"batch-and-committer", "D02", {T(1, 1), T(2, 1), T(3, 1), T(4, 1)},
               [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.prep(2);
                 h.prep(3);
                 H h2 = h;
                 h2.w.clear();
                 std::thread t([&] { h2.put(4); });
                 h.batch({2, 3});
                 t.join();
                 h2.w.clear();
                 h2.b = nullptr;
               }});
  v.push_back({"two-batches", "D02", {T(1, 1), T(2, 1), T(3, 1), T(4, 1)}, 
               [](H &h) {
                 h.create();
                 h.merge(false);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.prep(1);
                 h.prep(2);
                 h.prep(3);
                 h.prep(4);
                 H h2 = h;
                 std::thread t([&] { h2.batch({2, 4}); });
                 h.batch({1, 3});
                 t.join();
                 h2.w.clear();
                 h2.b = nullptr;
               }});
  v.push_back({"batch-and-merge", "D02", {T(1, 1), T(2, 1), T(3, 1), T(4, 1, {{1, 0}})},
               [](H &h) {
                 h.create();
                 h.merge(false);
                 h.put(1);
                 h.put(2);
                 h.close();
               },
               [](H &h) {
                 h.open();
                 h.prep(3);
                 h.prep(4);
                 h.merge(true);
                 h.batch({3, 4});
               }});
  return v;
}
// ------------------------------------------------------------------ machinery
// Runs f in a child; returns its wait status.
static int in_child(const std::function<void()> &f, int secs = 60) {
  fflush(nullptr);
  pid_t c = fork();
  if (c == 0) {
    alarm(secs);
    int n = open("/dev/null", O_WRONLY);
    if (!getenv("CRASH_VERBOSE"))
      dup2(n, 2);
    f();
    fflush(nullptr);
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  return st;
}
static std::string died(int st) {
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == fsx::KILLED))
    return "";
  if (WIFSIGNALED(st))
    return WTERMSIG(st) == SIGALRM ? "hang" : vx::sfmt("signal %d", WTERMSIG(st));
  return vx::sfmt("status %d", WEXITSTATUS(st));
}
static void run_history(const History &h, fsx::Log *log, fsx::Mode mode, uint32_t at, int variant, int policy) {
  mc::detect_races = false;
  mc::policy = policy;
  mc::begin();
  H x;
  if (h.prepare) {
    h.prepare(x);
    mc::drain();
    x = H();
  }
  fsx::start(log, fs::current_path().string(), mode, at, variant);
  h.run(x);
  x.w.clear();
  mc::drain();
  x.b = nullptr;
  S->reached_end = 1;
  fsx::stop();
}
static void copy_dir(const char *a, const char *b) {
  fs::remove_all(b);
  if (fs::exists(a))
    fs::copy(a, b, fs::copy_options::recursive);
}
static uint64_t fnv(uint64_t h, const std::string &s) {
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return (h ^ 0x1234567) * 1099511628211ull;
}
static uint64_t state_hash(const std::string &dir) {
  uint64_t h = 1469598103934665603ull;
  std::vector<std::string> names;
  if (fs::exists(dir))
    for (auto &e : fs::directory_iterator(dir))
      names.push_back(e.path().filename());
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    std::string nn = n;
    if (nn.compare(0, 5, "temp.") == 0 || nn.compare(0, 7, "commit.") == 0)
      nn = nn.substr(0, 6); // these names hold process identities
    h = fnv(h, nn);
    FILE *f = fopen((dir + "/" + n).c_str(), "r");
    std::string c;
    char buf[65536];
    size_t k;
    while (f && (k = fread(buf, 1, sizeof buf, f)) > 0)
      c.append(buf, k);
    if (f)
      fclose(f);
    h = fnv(h, c);
  }
  h = fnv(h, std::string((char *)S->state, sizeof S->state));
  h = fnv(h, std::string((char *)S->batch, sizeof S->batch));
  h = fnv(h, std::string((char *)S->base, sizeof S->base));
  h = fnv(h, std::string((char *)S->params, sizeof S->params));
  h = fnv(h, std::to_string(S->created));
  return h;
}
struct SeenTable {
  volatile uint64_t n;
  volatile uint64_t slot[1 << 20];
};
static SeenTable *seen;
static bool fresh(uint64_t h) {
  if (!h)
    h = 1;
  for (uint64_t i = h;; i++) {
    volatile uint64_t *s = &seen->slot[i & ((1 << 20) - 1)];
    uint64_t old = __sync_val_compare_and_swap(s, 0, h);
    if (old == 0) {
      __sync_fetch_and_add(&seen->n, 1);
      return true;
    }
    if (old == h)
      return false;
  }
}
static const int EXTRA = 30;
// Opens the store as left behind and checks what it shows; then uses it.  In a child.
static void recover(const std::string &dir, fsx::Log *log, fsx::Mode mode, uint32_t at, int variant, bool use, int policy) {
  mc::detect_races = false;
  mc::policy = policy;
  mc::begin();
  fsx::start(log, fs::current_path().string(), mode, at, variant);
  std::string e;
  W w = Warren::make(dir, &e);
  if (!w) {
    if (!S->created) { // creation was cut short: creating it again must do
      fsx::stop();
      B b = Bigwig::make(dir, std::string("tokenizer:name:ascii"), &e);
      if (!b) {
        bad("neither opening nor creating a store works after an interrupted creation", e);
        return;
      }
      b->merge(false);
      w = b;
      fsx::start(log, fs::current_path().string(), mode == fsx::CRASH ? mode : fsx::RECORD, at, variant);
    } else {
      bad("the store does not reopen", e);
      return;
    }
  }
  std::set<int> s;
  bool ok = judge(look(w), &s, "after reopening");
  mc::drain();
  S->ops = log->n;
  fsx::stop();
  if (!ok || !use)
    return;
  for (int i = 0; i < 4; i++)
    if (S->params[i] == 2) {
      std::string val;
      if (!w->get_parameter("p" + std::to_string(i), &val) || val.empty()) {
        bad("a stored parameter is lost", std::to_string(i));
        return;
      }
    }
  std::set<int> s2;
  if (!judge(look(w->clone()), &s2, "after reopening and background merging"))
    return;
  if (s2 != s) {
    bad("what a reopened store shows changed without a commit", "");
    return;
  }
  // use it
  Txn t = T(EXTRA, 2);
  all.push_back(t);
  W c = w->clone();
  if (!c->transaction() || !dyn::fill(c.get(), t, span_of) || !c->ready()) {
    bad("a recovered store refuses a new transaction", "");
    return;
  }
  S->state[EXTRA] = CALLED;
  c->commit();
  mc::drain();
  if (!judge(look(w->clone()), &s2, "after a new commit on the recovered store"))
    return;
  s.insert(EXTRA);
  if (s2 != s) {
    bad("what a recovered store shows changed with a new commit", "");
    return;
  }
  w = c = nullptr;
  w = Warren::make(dir, &e);
  if (!w) {
    bad("the recovered store does not reopen", e);
    return;
  }
  std::set<int> s3;
  if (!judge(look(w), &s3, "after recovery, a new commit and reopening"))
    return;
  if (s3 != s)
    bad("what a recovered store shows changed by reopening", "");
  mc::drain();
  // nothing but live shards is left
  w = nullptr;
  S->state[EXTRA] = NONE;
}
static std::string states_dir;
static void slurp(const std::string &p, std::string *out) {
  int fd = open(p.c_str(), O_RDONLY);
  char buf[65536];
  ssize_t n;
  while (fd >= 0 && (n = read(fd, buf, sizeof buf)) > 0)
    out->append(buf, n);
  if (fd >= 0)
    close(fd);
}
// Remembers the directory as it would be found if the process died now.
static void snapshot() {
  if (!mc::active())
    return;
  fsx::pause(true);
  uint64_t h = state_hash(DIR);
  if (fresh(h)) {
    std::string d = vx::sfmt("%s/%016llx", states_dir.c_str(), (unsigned long long)h);
    fs::create_directory(d);
    if (fs::exists(DIR))
      fs::copy(DIR, d + "/" + DIR, fs::copy_options::recursive);
    int fd = open((d + "/shm").c_str(), O_WRONLY | O_CREAT, 0644);
    if (write(fd, S, sizeof *S) < 0)
      _exit(9);
    close(fd);
  }
  fsx::pause(false);
}
static char fs_object;
static int sched_main(const std::string &prop, const std::string &only, int bound, int nested, int torn) {
  int s_states = vx::stat_id("distinct_crash_states"), s_rec = vx::stat_id("recoveries"), s_nest = vx::stat_id("interrupted_recoveries");
  seen = (SeenTable *)mmap(nullptr, sizeof(SeenTable), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::string top = fs::current_path();
  for (auto &c : concurrent()) {
    if (c.prop.find(prop) == std::string::npos || (!only.empty() && only != c.name))
      continue;
    states_dir = top + "/states." + c.name;
    fs::remove_all(states_dir);
    fs::create_directory(states_dir);
    all = c.txns;
    mc::Scenario s;
    s.name = c.name;
    static H *x;
    s.setup = [&] {
      S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      std::string d = vx::sfmt("%s/x%08d", top.c_str(), (int)getpid());
      fs::remove_all(d);
      fs::create_directory(d);
      fs::current_path(d);
      x = new H;
      if (c.prepare)
        c.prepare(*x);
      mc::drain();
      delete x;
      x = new H;
    };
    s.body = [&] {
      fsx::on_op = [] {
        mc::point(&fs_object);
        snapshot();
      };
      fsx::on_torn = snapshot;
      static fsx::Log *log = nullptr;
      log = fsx::new_log();
      fsx::start(log, fs::current_path().string(), fsx::RECORD);
      c.run(*x);
      mc::drain();
      x->check_live();
      x->w.clear();
      x->b = nullptr;
      snapshot();
      fsx::stop();
      fsx::on_op = fsx::on_torn = nullptr;
      if (S->bad)
        mc::fail(S->key, S->detail);
      fs::path here = fs::current_path();
      fs::current_path(top);
      fs::remove_all(here);
    };
    mc::explore(s, bound, vx::opt.budget_s);
    std::vector<std::string> st;
    for (auto &e : fs::directory_iterator(states_dir))
      st.push_back(e.path().filename());
    std::sort(st.begin(), st.end());
    vx::run("crash states of " + c.name, st.size(), [&](uint64_t i) {
      static fsx::Log *rlog = fsx::new_log(), *nlog = fsx::new_log();
      static Shm keep;
      std::string d = states_dir + "/" + st[i];
      vx::what(c.name + " crash state");
      S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::string raw;
      slurp(d + "/shm", &raw);
      memcpy((void *)S, raw.data(), sizeof *S);
      memset(&S->bad, 0, sizeof S->bad);
      keep = *S;
      fs::current_path(d);
      copy_dir(DIR, "crashed");
      vx::count(s_states);
      std::string files;
      for (auto &e : fs::directory_iterator(DIR))
        files += " " + e.path().filename().string();
      auto report = [&](const std::string &k, const std::string &det) { vx::viol(c.name + ": " + k, "crash state with files" + files + ": " + det); };
      int rs = in_child([&] { recover(DIR, rlog, fsx::RECORD, 0, 0, true, 0); });
      vx::count(s_rec);
      if (died(rs) != "" || S->bad)
        report(S->bad ? S->key : "recovery: " + died(rs), S->detail);
      else if (nested) {
        uint32_t n = S->ops;
        bool stop = false;
        for (uint32_t k = 0; k < n && !stop; k++)
          for (int v = 0; v < std::min(fsx::variants(rlog->op[k], fsx::CRASH), torn) && !stop; v++) {
            *S = keep;
            copy_dir("crashed", DIR);
            int a = in_child([&] { recover(DIR, nlog, fsx::CRASH, k, v, false, 0); });
            vx::count(s_nest);
            if (died(a) != "" || S->bad) {
              report(S->bad ? S->key : "interrupted recovery: " + died(a), S->detail);
              stop = true;
              break;
            }
            if (!fresh(state_hash(DIR) + 1))
              continue;
            vx::count(s_states);
            int b = in_child([&] { recover(DIR, nlog, fsx::RECORD, 0, 0, true, 0); });
            vx::count(s_rec);
            if (died(b) != "" || S->bad) {
              report((S->bad ? std::string(S->key) : "recovery: " + died(b)) + " (recovery had been interrupted)", S->detail);
              stop = true;
            }
          }
      }
      munmap(S, sizeof(Shm));
      fs::current_path(top);
      fs::remove_all(d);
    });
  }
  return 0;
}
int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string prop = vx::arg(argc, argv, "prop", "D01"), only = vx::arg(argc, argv, "history");
  std::string m = vx::arg(argc, argv, "mode", "crash");
  fault_mode = m == "fault";
  bool reads = vx::arg(argc, argv, "reads", "0") == "1";
  int nested = atoi(vx::arg(argc, argv, "nested", "1").c_str());
  std::string pols = vx::arg(argc, argv, "policies", "0");
  int torn = atoi(vx::arg(argc, argv, "torn", "3").c_str());
  if (m == "sched") {
    mc::detect_races = false;
    return sched_main(prop, only, atoi(vx::arg(argc, argv, "bound", "1").c_str()), nested, torn);
  }
  S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fsx::Log *log = fsx::new_log();
  fsx::include_reads = reads;
  std::vector<History> hs;
  for (auto &h : histories())
    if (h.prop.find(prop) != std::string::npos && (only.empty() || only == h.name))
      hs.push_back(h);
  struct Case {
    int h, policy;
    uint32_t at;
    int variant;
    std::string op;
  };
  std::vector<Case> cases;
  fsx::Mode mode = fault_mode ? fsx::FAULT : fsx::CRASH;
  for (size_t i = 0; i < hs.size(); i++)
    for (char pc : pols) {
      memset(S, 0, sizeof *S);
      all = hs[i].txns;
      fs::remove_all("rec");
      fs::create_directory("rec");
      fs::path here = fs::current_path();
      fs::current_path("rec");
      int st = in_child([&] { run_history(hs[i], log, fsx::RECORD, 0, 0, pc - '0'); });
      if (died(st) == "" && !S->bad) {
        // a clean run reopens to everything
        std::set<int> s;
        in_child([&] { recover(DIR, fsx::new_log(), fsx::RECORD, 0, 0, true, pc - '0'); });
      }
      fs::current_path(here);
      if (died(st) != "" || S->bad) {
        printf("@VIOL %s without any fault: %s\t%s %s\n", hs[i].name.c_str(), S->bad ? S->key : died(st).c_str(), died(st).c_str(), S->detail);
        continue;
      }
      printf("# %s policy %c: %u operations\n", hs[i].name.c_str(), pc, log->n);
      if (getenv("CRASH_LIST"))
        for (uint32_t k = 0; k < log->n; k++)
          printf("#   %u %s %s %lu\n", k, log->op[k].kind, log->op[k].path, (unsigned long)log->op[k].size);
      for (uint32_t k = 0; k < log->n && k < fsx::MAXOPS; k++) {
        int nv = std::min(fsx::variants(log->op[k], mode), torn);
        for (int v = 0; v < nv; v++)
          cases.push_back({(int)i, pc - '0', k, v, vx::sfmt("%s %s", log->op[k].kind, log->op[k].path)});
      }
    }
  seen = (SeenTable *)mmap(nullptr, sizeof(SeenTable), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int s_points = vx::stat_id("fault_points"), s_states = vx::stat_id("distinct_crash_states"), s_rec = vx::stat_id("recoveries"),
      s_nest = vx::stat_id("interrupted_recoveries"), s_un = vx::stat_id("unreached"), s_stop = vx::stat_id("fail_stops");
  auto report = [&](const Case &c, const std::string &k, const std::string &d) {
    vx::viol(hs[c.h].name + ": " + k, vx::sfmt("%s %s at operation %u (%s) variant %d policy %d: ", hs[c.h].name.c_str(), fault_mode ? "fault" : "crash", c.at, c.op.c_str(), c.variant, c.policy) + d);
  };
  static Shm keep;
  vx::run((fault_mode ? "faults:" : "crashes:") + prop, cases.size(), [&](uint64_t i) {
    const Case &c = cases[i];
    vx::what(vx::sfmt("%s op %u %s", hs[c.h].name.c_str(), c.at, c.op.c_str()));
    static Shm *mine = nullptr;
    static fsx::Log *mylog = nullptr, *rlog = nullptr;
    if (!mine) {
      mine = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      mylog = fsx::new_log();
      rlog = fsx::new_log();
      std::string d = vx::sfmt("w%04d", (int)vx::me);
      fs::remove_all(d);
      fs::create_directory(d);
      fs::current_path(d);
    }
    S = mine;
    memset(S, 0, sizeof *S);
    all = hs[c.h].txns;
    fs::remove_all(DIR);
    int st = in_child([&] { run_history(hs[c.h], mylog, mode, c.at, c.variant, c.policy); });
    vx::count(s_points);
    std::string how = died(st);
    if (!fault_mode && (how != "" || !WIFEXITED(st) || WEXITSTATUS(st) != fsx::KILLED)) {
      if (how != "" || S->bad)
        report(c, how != "" ? how : S->key, S->detail);
      else
        vx::count(s_un);
      return;
    }
    if (fault_mode) {
      if (how == "signal 6") { // refusing to go on is not a fake success: judged as a crash
        vx::count(s_stop);
        how = "";
      }
      if (how != "" || S->bad) {
        report(c, how != "" ? how : S->key, S->detail);
        return;
      }
      if (!mylog->faulted)
        vx::count(s_un);
    }
    if (!fresh(state_hash(DIR)))
      return;
    vx::count(s_states);
    keep = *S;
    copy_dir(DIR, "crashed");
    // full recovery
    int rs = in_child([&] { recover(DIR, rlog, fsx::RECORD, 0, 0, true, 0); });
    vx::count(s_rec);
    if (died(rs) != "" || S->bad) {
      report(c, S->bad ? S->key : "recovery: " + died(rs), S->detail);
      return;
    }
    uint32_t n = S->ops;
    if (!nested)
      return;
    static fsx::Log *nlog = fsx::new_log();
    std::vector<std::pair<uint32_t, int>> pts;
    for (uint32_t k = 0; k < n && k < fsx::MAXOPS; k++)
      for (int v = 0; v < std::min(fsx::variants(rlog->op[k], fsx::CRASH), torn); v++)
        pts.push_back({k, v});
    for (auto &pt : pts) {
      *S = keep;
      copy_dir("crashed", DIR);
      int a = in_child([&] { recover(DIR, nlog, fsx::CRASH, pt.first, pt.second, false, 0); });
      vx::count(s_nest);
      if (died(a) != "" || S->bad) {
        report(c, S->bad ? S->key : "interrupted recovery: " + died(a), S->detail);
        return;
      }
      if (!fresh(state_hash(DIR)))
        continue;
      vx::count(s_states);
      int b = in_child([&] { recover(DIR, nlog, fsx::RECORD, 0, 0, true, 0); });
      vx::count(s_rec);
      if (died(b) != "" || S->bad) {
        report(c, (S->bad ? std::string(S->key) : "recovery: " + died(b)) + " (recovery had been interrupted)", vx::sfmt("at its operation %u (%s %s): ", pt.first, rlog->op[pt.first].kind, rlog->op[pt.first].path) + S->detail);
        return;
      }
    }
  });
  return 0;
}
