// S01: transactions on a static store are atomic: every sequence of transaction operations by two
// writers up to a depth, process death at every file-system operation of several histories followed
// by every permitted recovery (itself interrupted everywhere), and an error at every operation.
#include "fsx.h"
#include "mcrt.h"
#include "vx.h"
#include "src/cottontail.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
#include <algorithm>
#include <filesystem>
#include <fcntl.h>
using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;
static const char *DIR = "b";

// ------------------------------------------------------------------ what a transaction holds
struct Note {
  std::string f;
  addr p, q; // relative to the first address of the transaction
  fval v;
};
struct Menu {
  std::vector<std::string> pieces;
  std::vector<Note> notes;
};
static std::string words(int n, const char *w) {
  std::string s;
  for (int i = 0; i < n; i++)
    s += std::string(i ? " " : "") + w;
  return s;
}
static const Menu &menu(char c) {
  static std::map<char, Menu> m;
  if (m.empty()) {
    m['a'] = {{"a b"}, {{"doc:", 0, 1, 1}, {"f:", 0, 0, 0}, {"f:", 1, 1, 0}}};
    m['b'] = {{"B c, ", "a d"}, {{"doc:", 0, 3, 2}, {"g:", 0, 2, 3}, {"g:", 1, 3, 4}, {"f:", 1, 1, 5}}};
    // across the map's blocking, with tokens of two features at every address
    m['k'] = {{words(1030, "aB")}, {{"doc:", 0, 1029, 6}, {"f:", 1020, 1029, 0}}};
    m['K'] = {{words(2044, "aB"), "a b c d e"}, {{"doc:", 0, 2048, 6}, {"f:", 2043, 2048, 0}}};
    m['z'] = {{std::string("a\0b", 3)}, {{"doc:", 0, 1, 7}}};
    m['t'] = {{" . "}, {}}; // no tokens
    m['n'] = {{"x y z"}, {{"doc:", 0, 2, 8}, {"n:", 0, 2, 1}, {"n:", 1, 1, 2}, {"n:", 2, 2, 3}, {"n:", 1, 2, 4}}}; // nested
    m['p'] = {{}, {{"f:", -1, -1, 9}}}; // annotates earlier text only
    m['e'] = {{}, {}}; // nothing
    m['L'] = {{words(1100, std::string(1000, 'q').c_str())}, {{"doc:", 0, 1099, 2}}}; // more than a chunk of text
  }
  return m.at(c);
}
// ------------------------------------------------------------------ what a store must show
struct Model {
  std::string text;
  std::vector<addr> at; // start of each token
  std::vector<std::pair<std::string, std::string>> words; // token, folded token
  std::map<std::string, std::vector<Note>> notes;
};
static bool alnum(unsigned char c) { return isalnum(c) || c >= 128; }
static bool sep(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static void add(Model *m, char c) {
  const Menu &t = menu(c);
  addr base = m->at.size();
  for (auto s : t.pieces) {
    if (s.empty())
      continue;
    if (!sep(s.back()))
      s += "\n";
    size_t o = m->text.size();
    m->text += s;
    for (size_t i = 0; i < s.size();)
      if (alnum(s[i])) {
        m->at.push_back(o + i);
        std::string w, l;
        for (; i < s.size() && alnum(s[i]); i++)
          w += s[i], l += tolower(s[i]);
        bool inner = false; // upper case after the first character: indexed as it is, too
        for (size_t k = 1; k < w.size(); k++)
          inner |= isupper(w[k]);
        m->words.push_back({inner ? w : l, l});
      } else
        i++;
  }
  for (auto n : t.notes) {
    n.p += base;
    n.q += base;
    if (n.p >= 0)
      m->notes[n.f].push_back(n);
  }
}
static const Model &model(const std::string &done) { // committed menus, in order
  static std::map<std::string, Model> memo;
  auto it = memo.find(done);
  if (it != memo.end())
    return it->second;
  Model m = done.empty() ? Model() : model(done.substr(0, done.size() - 1));
  if (!done.empty())
    add(&m, done.back());
  return memo[done] = m;
}
static std::string gclist(const std::vector<Note> &ns) {
  std::vector<Note> v;
  for (auto &n : ns) {
    bool outer = false;
    for (auto &o : ns)
      if (&o != &n && o.p >= n.p && o.q <= n.q && !(o.p == n.p && o.q == n.q))
        outer = true;
    bool later = false; // given twice: the later value counts
    for (auto *o = &n + 1; o < ns.data() + ns.size(); o++)
      if (o->p == n.p && o->q == n.q)
        later = true;
    if (!outer && !later)
      v.push_back(n);
  }
  std::sort(v.begin(), v.end(), [](const Note &a, const Note &b) { return a.p < b.p; });
  std::string s;
  for (auto &n : v)
    s += vx::sfmt("%ld-%ld=%g ", (long)n.p, (long)n.q, n.v);
  return s;
}
static const char *FEATURES[] = {"doc:", "f:", "g:", "n:"};
static const char *WORDS[] = {"a", "c", "ab", "aB", "b", "x", "d"};
static std::vector<addr> window(addr n) {
  std::vector<addr> v;
  for (addr i = 0; i < n; i++)
    if (i < 3 || i >= n - 4 || (i % 1024) >= 1022 || (i % 1024) <= 1)
      v.push_back(i);
  return v;
}
static std::string expect(const std::string &done) {
  static std::map<std::string, std::string> memo;
  auto it = memo.find(done);
  if (it != memo.end())
    return it->second;
  const Model &m = model(done);
  addr n = m.at.size();
  std::string s = vx::sfmt("%ld tokens;", (long)n);
  auto text = [&](addr p, addr q) { return m.text.substr(m.at[p], (q + 1 < n ? m.at[q + 1] : (addr)m.text.size()) - m.at[p]); };
  auto brief = [](const std::string &t) { return t.size() < 60 ? vx::esc(t) : vx::sfmt("%zu:%zx", t.size(), std::hash<std::string>()(t)); };
  if (n)
    s += " all " + brief(text(0, n - 1)) + ";";
  for (addr i : window(n))
    s += vx::sfmt(" %ld ", (long)i) + brief(text(i, i));
  s += ";";
  for (auto f : FEATURES) {
    auto i = m.notes.find(f);
    s += std::string(" ") + f + " " + (i == m.notes.end() ? "" : gclist(i->second));
  }
  for (std::string w : WORDS) {
    std::vector<Note> v;
    for (addr i = 0; i < n; i++)
      if (m.words[i].first == w || m.words[i].second == w)
        v.push_back({w, i, i, 0});
    s += " " + w + " ";
    std::string l;
    for (auto &x : v)
      l += vx::sfmt("%ld-%ld=0 ", (long)x.p, (long)x.q);
    s += brief(l);
  }
  return memo[done] = s;
}
static std::string look(W w) {
  w->start();
  addr n = w->txt()->tokens();
  std::string s = vx::sfmt("%ld tokens;", (long)n);
  auto brief = [](const std::string &t) { return t.size() < 60 ? vx::esc(t) : vx::sfmt("%zu:%zx", t.size(), std::hash<std::string>()(t)); };
  if (n > 0 && n < 1000000) {
    s += " all " + brief(w->txt()->translate(0, n - 1)) + ";";
    for (addr i : window(n))
      s += vx::sfmt(" %ld ", (long)i) + brief(w->txt()->translate(i, i));
  }
  s += ";";
  auto list = [&](const std::string &f) {
    std::string l;
    auto h = w->idx()->hopper(w->featurizer()->featurize(f));
    if (!h)
      return std::string("no hopper");
    addr p, q;
    fval v;
    int g = 0;
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && g < 100000; h->tau(p + 1, &p, &q, &v), g++)
      l += vx::sfmt("%ld-%ld=%g ", (long)p, (long)q, v);
    return l;
  };
  for (auto f : FEATURES)
    s += std::string(" ") + f + " " + list(f);
  for (auto f : WORDS)
    s += std::string(" ") + f + " " + brief(list(f));
  w->end();
  return s;
}
static std::string diff(const std::string &got, const std::string &want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i])
    i++;
  size_t a = i > 60 ? i - 60 : 0;
  return "shows ..." + got.substr(a, 160) + "... instead of ..." + want.substr(a, 160) + "...";
}
// ------------------------------------------------------------------ the store
static bool build(const std::string &opts, const std::string &done, std::string *e) {
  auto working = Working::mkdir(DIR, e);
  if (!working)
    return false;
  std::string o = opts;
  bool small = o.size() > 6 && o.substr(o.size() - 6) == " small"; // several files of annotations per transaction
  if (small)
    o.resize(o.size() - 6);
  auto b = SimpleBuilder::make(working, o, e);
  if (!b)
    return false;
  for (char c : done) {
    addr base = -1;
    for (auto &s : menu(c).pieces) {
      addr p, q;
      if (!b->add_text(s, &p, &q, e))
        return false;
      if (base < 0)
        base = p;
    }
    for (auto &n : menu(c).notes)
      if (!b->add_annotation(n.f, base + n.p, base + n.q, n.v, e))
        return false;
  }
  if (!b->finalize(e))
    return false;
  if (small) {
    std::string dna;
    std::map<std::string, std::string> all, idx, r;
    if (!read_dna(working, &dna, e) || !cook(dna, &all, e) || !cook(all["idx"], &idx, e) || !cook(idx["recipe"], &r, e))
      return false;
    r["add_file_size"] = "2";
    idx["recipe"] = freeze(r);
    all["idx"] = freeze(idx);
    std::remove(working->make_name(DNA_NAME).c_str());
    return write_dna(working, freeze(all), e);
  }
  return true;
}
static bool fill(W w, char c, std::string *e, bool *refused = nullptr) {
  addr base = -1;
  for (auto &s : menu(c).pieces) {
    addr p, q;
    if (!w->appender()->append(s, &p, &q, e))
      return false;
    if (base < 0)
      base = p;
  }
  if (base < 0) { // no text of its own: what it annotates is found by appending nothing
    addr p, q;
    if (!w->appender()->append("", &p, &q, e))
      return false;
    base = q;
  }
  for (auto &n : menu(c).notes)
    if (!w->annotator()->annotate(w->featurizer()->featurize(n.f), base + n.p, base + n.q, n.v, e))
      return false;
  return true;
}
static bool recover(bool commit, std::string *e) {
  auto working = Working::make(DIR, e);
  if (!working)
    return false;
  std::string dna;
  std::map<std::string, std::string> all, idx, txt;
  if (!read_dna(working, &dna, e) || !cook(dna, &all, e) || !cook(all["idx"], &idx, e) || !cook(all["txt"], &txt, e))
    return false;
  return Annotator::recover(idx["name"], idx["recipe"], commit, e, working) &&
         Appender::recover(txt["name"], txt["recipe"], commit, e, working);
}
static void fresh_dir(const std::string &d) {
  fs::remove_all(d);
}
static void copy_dir(const std::string &a, const std::string &b) {
  fs::remove_all(b);
  if (fs::exists(a))
    fs::copy(a, b, fs::copy_options::recursive);
}
// ------------------------------------------------------------------ sequences
static int s_seq, s_ops, s_views;
struct View {
  W w;
  std::string done;
  int opened;
};
struct World {
  W w[2];
  int state[2] = {0, 0}; // 0: none, 1: in transaction, 2: ready
  char what[2] = {0, 0};
  std::string done;
  std::vector<View> readers;
  std::string trace;
};
struct Op {
  char kind; // C: whole transaction, b: begin and fill, r: ready, c: commit, z: abort, o: reopen the writer, 0/1: writer dies, recover abort/commit
  int w;
  char m;
};
static bool step(World &x, const Op &op, int depth, std::string *key, std::string *det) {
  std::string e;
  auto wrong = [&](const std::string &k, const std::string &d) {
    *key = k;
    *det = x.trace + ": " + d;
    return false;
  };
  static const char *N[] = {"A", "B"};
  x.trace += vx::sfmt(" %s.%c%c", N[op.w], op.kind, op.m ? op.m : ' ');
  int other = 1 - op.w;
  auto open = [&](int i) {
    x.w[i] = Warren::make(DIR, &e);
    return x.w[i] != nullptr;
  };
  if (!x.w[op.w] && !open(op.w))
    return wrong("the store does not open", e);
  W w = x.w[op.w];
  switch (op.kind) {
  case 'C':
  case 'b': {
    bool ok = w->transaction(&e);
    if (ok != (x.state[0] == 0 && x.state[1] == 0))
      return wrong(ok ? "a second transaction is let in" : "a transaction is refused", e);
    if (!ok)
      break;
    if (!fill(w, op.m, &e))
      return wrong("appending or annotating in a transaction fails", e);
    x.state[op.w] = 1;
    x.what[op.w] = op.m;
    if (op.kind == 'b')
      break;
  }
    // fall through
  case 'r':
    if (!w->ready(&e))
      return wrong("a transaction cannot be readied", e);
    x.state[op.w] = 2;
    if (op.kind == 'r')
      break;
    // fall through
  case 'c':
    w->commit();
    x.state[op.w] = 0;
    x.done += x.what[op.w];
    break;
  case 'z':
    w->abort();
    x.state[op.w] = 0;
    break;
  case 'o':
    if (!open(op.w))
      return wrong("the store does not open", e);
    break;
  case '0':
  case '1':
    w = x.w[op.w] = nullptr;
    if (!recover(op.kind == '1', &e))
      return wrong("recovery fails", e);
    if (op.kind == '1')
      x.done += x.what[op.w];
    x.state[op.w] = 0;
    break;
  }
  (void)other;
  vx::count(s_ops);
  // every reader still sees what it saw, a new one what is committed
  x.readers.push_back({Warren::make(DIR, &e), x.done, depth});
  if (!x.readers.back().w)
    return wrong("the store does not open", e);
  // and a clone of the newest, and of the oldest
  for (int i : {0, (int)x.readers.size() - 1}) {
    W c = x.readers[i].w->clone(&e);
    if (!c)
      return wrong("a reader cannot be cloned", e);
    std::string s = look(c);
    vx::count(s_views);
    if (s != expect(x.readers[i].done))
      return wrong(vx::sfmt("a clone of a reader opened %s shows the wrong content", i ? "now" : "at the start"), diff(s, expect(x.readers[i].done)));
  }
  for (auto &r : x.readers) {
    std::string s = look(r.w);
    vx::count(s_views);
    if (s != expect(r.done))
      return wrong(vx::sfmt("a reader opened %s shows the wrong content", r.opened == depth ? "now" : "before"), diff(s, expect(r.done)));
  }
  return true;
}
static std::vector<Op> ops(const World &x, const std::string &menus, const std::string &split) {
  std::vector<Op> v;
  bool free = !x.state[0] && !x.state[1];
  for (int w = 0; w < 2; w++) {
    if (w == 1 && x.trace.empty())
      break; // the writers are alike
    if (free)
      for (char m : menus)
        v.push_back({'C', w, m});
    if (x.state[w] == 0)
      for (char m : split) {
        v.push_back({'b', w, m});
        if (!free)
          break; // refused: one is enough
      }
    if (x.state[w] == 1)
      v.push_back({'r', w, 0});
    if (x.state[w] == 2)
      v.push_back({'c', w, 0}), v.push_back({'1', w, 0});
    if (x.state[w])
      v.push_back({'z', w, 0}), v.push_back({'0', w, 0});
    else if (!x.trace.empty() && x.w[w])
      v.push_back({'o', w, 0});
  }
  return v;
}
static void sequences(int depth, const std::string &start, const std::string &menus, const std::string &split) {
  s_seq = vx::stat_id("sequences");
  s_ops = vx::stat_id("operations");
  s_views = vx::stat_id("views");
  // a case is a path of choices; enumerated by odometer within the first two choices
  const int FAN = 16; // at least the number of operations possible at once
  vx::run("sequences:" + start, FAN * FAN * FAN, [&](uint64_t id) {
    static std::string home;
    if (home.empty()) {
      home = vx::sfmt("%s/w%04d", fs::current_path().c_str(), vx::me);
      fs::remove_all(home);
      fs::create_directory(home);
      fs::current_path(home);
    }
    static std::string built;
    if (built != start + "|") {
      fs::remove_all(DIR);
      std::string e;
      if (!build("tokenizer:noxml", start, &e)) {
        vx::viol("building the store fails", e);
        return;
      }
      copy_dir(DIR, "start");
      built = start + "|";
    }
    std::vector<int> path = {(int)(id % FAN), (int)(id / FAN % FAN), (int)(id / FAN / FAN)};
    for (;;) {
      copy_dir("start", DIR);
      World x;
      std::string key, det, e;
      x.done = start;
      x.readers.push_back({Warren::make(DIR, &e), x.done, -1});
      std::vector<int> fan;
      bool valid = true, bad = false;
      for (int d = 0; d < depth; d++) {
        auto v = ops(x, menus, split);
        if (d >= (int)path.size())
          path.push_back(0);
        if (v.size() > (size_t)FAN)
          abort();
        if (path[d] >= (int)v.size()) {
          valid = false;
          break;
        }
        fan.push_back(v.size());
        vx::what(start + x.trace + vx::sfmt(" %c%c", v[path[d]].kind, v[path[d]].m ? v[path[d]].m : ' '));
        if (!step(x, v[path[d]], d, &key, &det)) {
          vx::viol(key, det);
          bad = true;
          break;
        }
      }
      if (!valid)
        return;
      vx::count(s_seq);
      if (vx::samples_left)
        vx::sample("sequence" + x.trace + " -> committed '" + x.done + "'");
      x.w[0] = x.w[1] = nullptr;
      if (bad) {
        built = "";
        if (vx::reported().size() > 30)
          return;
      }
      // next
      int d = bad ? (int)fan.size() - 1 : depth - 1;
      for (; d >= 3; d--)
        if (path[d] + 1 < fan[d]) {
          path[d]++;
          path.resize(d + 1);
          break;
        }
      if (d < 3)
        return;
    }
  });
}
// ------------------------------------------------------------------ crashes
enum Stage { IDLE, BEGIN, READYING, READY, COMMITTING, ABORTING };
struct Shm {
  int stage;
  char done[32]; // committed menus
  char cur;
  int bad;
  char key[300], detail[3000];
  uint64_t ops;
};
static Shm *S;
static void bad(const std::string &k, const std::string &d) {
  if (S->bad)
    return;
  S->bad = 1;
  snprintf(S->key, sizeof S->key, "%s", k.c_str());
  snprintf(S->detail, sizeof S->detail, "%s", d.c_str());
}
struct History {
  std::string name, opts, start;
  std::string script; // a menu letter then 'c' (commit), 'z' (abort when ready), 'Z' (abort before ready); '|' reopens, '2' switches the writer
};
static std::vector<History> histories() {
  std::string base = "tokenizer:noxml";
  return {{"commit", base, "a", "bc"},
          {"commits-and-aborts", base, "a", "kcazncaZ|bcpc"},
          {"on-empty", base, "", "acbcazbc"},
          {"no-text", base, "b", "pcectcac"},
          {"long-text", base, "a", "LcacLcLzac"},
          {"uncompressed", base + " txt:compressor:null", "b", "KcbznczcacKz"},
          {"small-buffers", base + " small", "a", "bcbzncac"},
          {"two-writers", base, "a", "ac2bc2nc2az2kc"}};
}
static int fault_mode = 0;
static void run_history(const History &h, fsx::Log *log, fsx::Mode mode, uint32_t at, int variant) {
  mc::detect_races = false;
  mc::policy = 0;
  mc::begin();
  std::string e;
  W w[2];
  int cur = 0;
  fsx::start(log, fs::current_path().string(), mode, at, variant);
  for (size_t i = 0; i < h.script.size(); i++) {
    if (h.script[i] == '|') {
      w[cur] = nullptr;
      continue;
    }
    if (h.script[i] == '2') {
      cur = 1 - cur;
      continue;
    }
    if (!w[cur])
      w[cur] = Warren::make(DIR, &e);
    if (!w[cur]) {
      if (!fault_mode)
        bad("the store does not open", e);
      return;
    }
    W t = w[cur];
    char m = h.script[i], end = h.script[++i];
    S->cur = m;
    S->stage = BEGIN;
    fsx::mark(BEGIN);
    bool ok = t->transaction(&e);
    if (ok) {
      ok = fill(t, m, &e);
      if (!ok && !fault_mode)
        bad("appending or annotating in a transaction fails", e);
      if (ok && end != 'Z') {
        S->stage = READYING;
        ok = t->ready(&e);
        if (ok) {
          S->stage = READY;
        } else if (!fault_mode)
          bad("a transaction cannot be readied", e);
      }
      if (ok && end == 'c') {
        fsx::mark(COMMITTING);
        S->stage = COMMITTING;
        t->commit();
        S->done[strlen(S->done)] = m;
        S->stage = IDLE;
      } else {
        fsx::mark(ABORTING);
        S->stage = ABORTING;
        t->abort();
        S->stage = IDLE;
      }
    } else {
      S->stage = IDLE;
      if (!fault_mode)
        bad("a transaction is refused", e);
    }
    if (S->bad)
      return;
    if (log->faulted) { // what follows an error is the recovery's business
      break;
    }
  }
  fsx::mark(0);
  w[0] = w[1] = nullptr;
  fsx::stop();
}
// With the decision made, recovers, looks, uses the store.  In a child.
static void recovery(bool commit, fsx::Log *log, fsx::Mode mode, uint32_t at, int variant, bool use) {
  std::string e;
  fsx::start(log, fs::current_path().string(), mode, at, variant);
  bool ok = ::recover(commit, &e);
  S->ops = log->n;
  fsx::stop();
  if (!ok) {
    bad("recovery fails", e);
    return;
  }
  if (!use)
    return;
  std::string want = S->done;
  if (commit && S->stage != IDLE)
    want += S->cur;
  auto check = [&](const std::string &when) {
    W w = Warren::make(DIR, &e);
    if (!w) {
      bad("the store does not open " + when, e);
      return W();
    }
    std::string s = look(w);
    if (s != expect(want)) {
      bad("the store shows the wrong content " + when, diff(s, expect(want)));
      return W();
    }
    return w;
  };
  std::string how = std::string("after recovering with the ") + (commit ? "commit" : "abort") + " decision";
  W w = check(how);
  if (!w)
    return;
  for (char m : std::string("bn")) {
    if (!w->transaction(&e) || !fill(w, m, &e) || !w->ready(&e)) {
      bad("a recovered store refuses a new transaction", e);
      return;
    }
    w->commit();
    want += m;
    W x = check(how + " and committing a new transaction");
    if (!x)
      return;
  }
}
static int in_child(const std::function<void()> &f) {
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    signal(SIGABRT, SIG_DFL);
    int fd = open(getenv("S01_ERR") ? getenv("S01_ERR") : "/dev/null", O_WRONLY | O_APPEND | O_CREAT, 0644);
    dup2(fd, 2);
    alarm(60);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  return st;
}
static std::string died(int st) {
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == fsx::KILLED))
    return "";
  if (WIFSIGNALED(st))
    return WTERMSIG(st) == SIGALRM ? "hang" : vx::sfmt("signal %d", WTERMSIG(st));
  return vx::sfmt("status %d", WEXITSTATUS(st));
}
static uint64_t state_hash() {
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](const std::string &s) {
    for (unsigned char c : s)
      h = (h ^ c) * 1099511628211ull;
    h = (h ^ 0x1234567) * 1099511628211ull;
  };
  std::vector<std::string> names;
  for (auto &e : fs::directory_iterator(DIR))
    names.push_back(e.path().filename());
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    if (n.compare(0, 4, "temp") == 0 || n.compare(0, 3, "ann") == 0)
      continue;
    mix(n);
    FILE *f = fopen((std::string(DIR) + "/" + n).c_str(), "r");
    std::string c;
    char buf[65536];
    size_t k;
    while (f && (k = fread(buf, 1, sizeof buf, f)) > 0)
      c.append(buf, k);
    if (f)
      fclose(f);
    mix(c);
  }
  mix(vx::sfmt("%d %s %c", S->stage, S->done, S->cur));
  return h;
}
struct SeenTable {
  volatile uint64_t slot[1 << 18];
};
static SeenTable *seen;
static bool fresh(uint64_t h) {
  if (!h)
    h = 1;
  for (uint64_t i = h;; i++) {
    uint64_t old = __sync_val_compare_and_swap(&seen->slot[i & ((1 << 18) - 1)], 0, h);
    if (old == 0)
      return true;
    if (old == h)
      return false;
  }
}
static void crashes(const std::string &only, int torn) {
  S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  seen = (SeenTable *)mmap(nullptr, sizeof(SeenTable), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  fsx::Log *log = fsx::new_log();
  struct Case {
    int h;
    uint32_t at;
    int variant;
    std::string op;
  };
  std::vector<Case> cases;
  auto hs = histories();
  std::string top = fs::current_path();
  auto reset = [&](const History &h) {
    memset(S, 0, sizeof *S);
    strcpy(S->done, h.start.c_str());
  };
  fsx::Mode mode = fault_mode ? fsx::FAULT : fsx::CRASH;
  for (size_t i = 0; i < hs.size(); i++) {
    if (!only.empty() && only != hs[i].name)
      continue;
    std::string d = top + "/start." + hs[i].name;
    fs::remove_all(d);
    fs::create_directory(d);
    fs::current_path(d);
    std::string e;
    if (!build(hs[i].opts, hs[i].start, &e)) {
      printf("@VIOL building the store fails\t%s: %s\n", hs[i].name.c_str(), e.c_str());
      continue;
    }
    copy_dir(DIR, "start");
    reset(hs[i]);
    int st = in_child([&] { run_history(hs[i], log, fsx::RECORD, 0, 0); });
    if (died(st) != "" || S->bad) {
      printf("@VIOL %s without any fault: %s\t%s %s\n", hs[i].name.c_str(), S->bad ? S->key : died(st).c_str(), died(st).c_str(), S->detail);
      fs::current_path(top);
      continue;
    }
    for (int dec = 0; dec < 2; dec++) {
      S->bad = 0;
      copy_dir(DIR, "end");
      fsx::Log *l2 = fsx::new_log();
      st = in_child([&] { recovery(dec, l2, fsx::RECORD, 0, 0, true); });
      if (died(st) != "" || S->bad)
        printf("@VIOL %s, recovering when nothing was under way: %s\t%s %s\n", hs[i].name.c_str(), S->bad ? S->key : died(st).c_str(), died(st).c_str(), S->detail);
      copy_dir("end", DIR);
    }
    printf("# %s: %u operations\n", hs[i].name.c_str(), log->n);
    if (getenv("CRASH_LIST"))
      for (uint32_t k = 0; k < log->n; k++)
        printf("#   %u %s %s %lu\n", k, log->op[k].kind, log->op[k].path, (unsigned long)log->op[k].size);
    for (uint32_t k = 0; k < log->n && k < fsx::MAXOPS; k++) {
      if (fault_mode && (log->op[k].mark == COMMITTING || log->op[k].mark == ABORTING))
        continue; // once commit is called there is nobody left to tell
      for (int v = 0; v < std::min(fsx::variants(log->op[k], mode), torn); v++)
        cases.push_back({(int)i, k, v, vx::sfmt("%s %s", log->op[k].kind, log->op[k].path)});
    }
    fs::current_path(top);
  }
  int s_points = vx::stat_id("fault_points"), s_states = vx::stat_id("distinct_crash_states"), s_rec = vx::stat_id("recoveries"),
      s_nest = vx::stat_id("interrupted_recoveries"), s_un = vx::stat_id("unreached"), s_stop = vx::stat_id("fail_stops");
  auto report = [&](const Case &c, const std::string &k, const std::string &d) {
    vx::viol(hs[c.h].name + ": " + k, vx::sfmt("%s %s at operation %u (%s) variant %d, stage %d: ", hs[c.h].name.c_str(), fault_mode ? "fault" : "crash", c.at, c.op.c_str(), c.variant, S->stage) + d);
  };
  vx::run(fault_mode ? "faults" : "crashes", cases.size(), [&](uint64_t i) {
    const Case &c = cases[i];
    static Shm *mine = nullptr, keep;
    static fsx::Log *mylog, *rlog, *nlog;
    if (!mine) {
      mine = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      mylog = fsx::new_log();
      rlog = fsx::new_log();
      nlog = fsx::new_log();
      std::string d = vx::sfmt("%s/w%04d", top.c_str(), (int)vx::me);
      fs::remove_all(d);
      fs::create_directory(d);
      fs::current_path(d);
    }
    S = mine;
    reset(hs[c.h]);
    vx::what(vx::sfmt("%s op %u %s", hs[c.h].name.c_str(), c.at, c.op.c_str()));
    copy_dir(top + "/start." + hs[c.h].name + "/start", DIR);
    int st = in_child([&] { run_history(hs[c.h], mylog, mode, c.at, c.variant); });
    vx::count(s_points);
    std::string how = died(st);
    if (!fault_mode) {
      if (how != "" || S->bad) {
        report(c, how != "" ? how : S->key, S->detail);
        return;
      }
      if (WEXITSTATUS(st) != fsx::KILLED)
        vx::count(s_un);
    } else {
      if (how == "signal 6")
        vx::count(s_stop), how = ""; // stopping is not a false success: judged as a crash
      if (how != "" || S->bad) {
        report(c, how != "" ? how : S->key, S->detail);
        return;
      }
      if (!mylog->faulted)
        vx::count(s_un);
    }
    if (!fresh(state_hash()))
      return;
    vx::count(s_states);
    keep = *S;
    copy_dir(DIR, "crashed");
    std::string decisions = "0";
    if (S->stage == READY)
      decisions = "01";
    else if (S->stage == COMMITTING)
      decisions = "1";
    else if (S->stage == IDLE)
      decisions = fault_mode ? "0" : "01";
    for (char dec : decisions) {
      *S = keep;
      copy_dir("crashed", DIR);
      int rs = in_child([&] { recovery(dec == '1', rlog, fsx::RECORD, 0, 0, true); });
      vx::count(s_rec);
      if (died(rs) != "" || S->bad) {
        report(c, S->bad ? S->key : "recovery: " + died(rs), S->detail);
        return;
      }
      uint32_t n = S->ops;
      for (uint32_t k = 0; k < n && !fault_mode; k++)
        for (int v = 0; v < std::min(fsx::variants(rlog->op[k], fsx::CRASH), torn); v++) {
          *S = keep;
          copy_dir("crashed", DIR);
          int a = in_child([&] { recovery(dec == '1', nlog, fsx::CRASH, k, v, false); });
          vx::count(s_nest);
          if (died(a) != "" || S->bad) {
            report(c, S->bad ? S->key : "interrupted recovery: " + died(a), S->detail);
            return;
          }
          if (!fresh(state_hash() + 1 + dec))
            continue;
          vx::count(s_states);
          int b = in_child([&] { recovery(dec == '1', nlog, fsx::RECORD, 0, 0, true); });
          vx::count(s_rec);
          if (died(b) != "" || S->bad) {
            report(c, (S->bad ? std::string(S->key) : "recovery: " + died(b)) + " (recovery had been interrupted)",
                   vx::sfmt("at its operation %u (%s %s): ", k, rlog->op[k].kind, rlog->op[k].path) + S->detail);
            return;
          }
        }
    }
    if (vx::samples_left)
      vx::sample(vx::sfmt("%s %s operation %u (%s): recovered with decisions %s from stage %d, committed '%s'", hs[c.h].name.c_str(), fault_mode ? "fault at" : "crash at", c.at, c.op.c_str(), decisions.c_str(), keep.stage, keep.done));
  });
  for (auto &h : hs)
    fs::remove_all(top + "/start." + h.name);
}
int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string mode = vx::arg(argc, argv, "mode", "sequences");
  int torn = atoi(vx::arg(argc, argv, "torn", "3").c_str());
  if (mode == "sequences") {
    mc::detect_races = false;
    std::string starts = vx::arg(argc, argv, "starts", "-,a");
    std::string s;
    for (char c : starts + ",")
      if (c == ',') {
        sequences(atoi(vx::arg(argc, argv, "depth", "4").c_str()), s, vx::arg(argc, argv, "menus", "akzp"), vx::arg(argc, argv, "split", "bK"));
        s = "";
      } else if (c != '-')
        s += c;
  } else {
    fault_mode = mode == "fault";
    fsx::include_reads = vx::arg(argc, argv, "reads", "0") == "1";
    crashes(vx::arg(argc, argv, "history"), torn);
  }
  return 0;
}
