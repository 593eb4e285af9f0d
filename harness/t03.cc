// T03: addresses of a dynamic store under every interleaving of several writers' transactions.
// A case is a complete schedule of events; the model is the list of committed transactions, found in
// the store through the marks they carry, and every view is compared with it after every event.
#include "mcrt.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fluffle.h"
#include "src/hazel.h"
#include "vx.h"
#include <algorithm>
#include <filesystem>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;

static int s_events, s_views, s_notes, s_reopens, s_merges, s_sched;
static std::string g_store, g_tok;

// ---- contents: what a transaction does, in two halves -------------------------------------------
struct Op {
  enum { APPEND, NOTE, SPAN, OLD, ERASE } kind;
  std::string text; // APPEND: '#' stands for the transaction's own words
  int from = 0, foff = 0, to = 0, toff = 0; // pieces and token offsets within them (toff<0: from the end)
};
struct Content {
  std::vector<Op> half[2];
};
static Op A(const std::string &t) { return {Op::APPEND, t}; }
static Op N(int from, int foff, int to, int toff) { return {Op::NOTE, "", from, foff, to, toff}; }
static std::string many(int n) {
  std::string s;
  for (int i = 0; i < n; i++)
    s += "# ";
  return s;
}
static std::map<char, Content> menu() {
  std::map<char, Content> m;
  m['a'] = {{{A("# # #"), N(0, 0, 0, -1)}, {N(0, 1, 0, 1)}}};
  m['b'] = {{{A("#"), N(0, 0, 0, 0)}, {A("# #\n"), N(1, 0, 1, 0), N(0, 0, 1, -1), N(1, 1, 1, 1)}}};
  m['c'] = {{{A("!!")}, {A("# #"), N(1, 0, 1, -1)}}};
  m['d'] = {{{A("# #"), N(0, 1, 0, 1)}, {A("..\n")}}};
  m['e'] = {{{A("")}, {A("#"), N(1, 0, 1, 0)}}};
  m['f'] = {{{A(many(600)), N(0, 598, 0, 599)}, {A(many(3)), N(0, 599, 1, 1), N(1, 2, 1, 2)}}};
  m['g'] = {{{{Op::OLD, ""}}, {}}};
  m['h'] = {{{A("# #"), {Op::SPAN, "", 0, 0, 0, 1}}, {{Op::OLD, ""}, A("#"), {Op::SPAN, "", 0, 0, 1, 0}}}};
  m['i'] = {{{A("# #"), N(0, 0, 0, 1)}, {A("#"), {Op::ERASE, "", 0, 0, 0, -1}, N(0, 0, 1, 0), N(1, 0, 1, 0)}}};
  m['j'] = {{{A("("), A("# #")}, {A(") #"), N(1, 0, 2, 0), N(2, 0, 2, 0)}}};
  return m;
}
static std::map<char, Content> g_menu = menu();

// ---- one transaction as written -------------------------------------------------------------------
struct Note {
  std::string feature;
  bool rel_p, rel_q;
  addr p, q, v;
};
struct Unit {
  int id = 0;
  char content = 'a';
  std::vector<std::string> pieces;
  std::vector<std::pair<addr, addr>> at; // as returned
  std::string text;                      // as it must be stored
  std::vector<std::pair<size_t, size_t>> toks;
  std::vector<std::string> words;
  std::vector<Note> notes;                    // relative to the first token
  std::vector<std::pair<addr, addr>> erased;  // relative
  int rank = -1;                              // order of being made ready
  enum { OPEN, READY, VISIBLE, GONE } state = OPEN;
  addr origin = -1; // what the appender called the first token
  addr base = -1;
};
static bool wordc(char c) { return isalnum((unsigned char)c); }

struct Run {
  std::vector<Unit> units;
  std::map<int, W> writer;
  std::map<int, int> current;
  std::shared_ptr<Bigwig> b;
  std::string dir, key;
  int ranks = 0;
  addr high = -1;
  bool broken = false;
  void bad(const std::string &k, const std::string &d) {
    broken = true;
    vx::viol(k, key + ": " + d);
  }
  std::string error;
  bool open(bool fresh) {
    if (g_store == "memory") {
      b = Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make(g_tok, ""), Fluffle::make(), &error);
    } else if (fresh) {
      b = Bigwig::make(Working::mkdir(dir), Featurizer::make("hashing", ""), Tokenizer::make(g_tok, ""), Fluffle::make(), &error);
    } else {
      b = std::dynamic_pointer_cast<Bigwig>(Warren::make(dir, &error));
    }
    if (b == nullptr) {
      bad("opening the store failed", error);
      return false;
    }
    if (fresh)
      b->merge(false);
    return true;
  }
  bool half(Unit &u, int h) {
    W w = writer[u.id];
    auto fz = w->featurizer();
    for (auto &op : g_menu[u.content].half[h]) {
      auto pos = [&](int piece, int off) {
        if (off < 0)
          return u.at[piece].second;
        return u.at[piece].first + off;
      };
      if (op.kind == Op::APPEND) {
        std::string t;
        for (char c : op.text)
          if (c == '#') {
            t += vx::sfmt("w%dk%d", u.id, (int)u.words.size());
            u.words.push_back(vx::sfmt("w%dk%d", u.id, (int)u.words.size()));
          } else
            t += c;
        addr p = -7, q = -7;
        if (!w->appender()->append(t, &p, &q, &error))
          return bad("append failed", error), false;
        size_t off = u.text.size(), before = u.toks.size();
        u.text += t;
        if (t != "" && !separator(t.back()))
          u.text += "\n";
        for (size_t i = 0; i < t.size();)
          if (wordc(t[i])) {
            size_t j = i;
            while (j < t.size() && wordc(t[j]))
              j++;
            u.toks.push_back({off + i, off + j});
            i = j;
          } else
            i++;
        if (u.toks.size() > before) {
          if (u.origin < 0 && before == 0)
            u.origin = p;
          if (p != u.origin + (addr)before || q != u.origin + (addr)u.toks.size() - 1)
            return bad("one transaction's pieces are not contiguous",
                       vx::sfmt("piece %s got [%ld,%ld], the first token of the transaction was %ld and %ld preceded it", vx::esc(t).substr(0, 40).c_str(),
                                (long)p, (long)q, (long)u.origin, (long)before)),
                   false;
        } else if (p <= q)
          return bad("a piece without tokens got a non-empty interval", vx::esc(t)), false;
        u.pieces.push_back(t);
        u.at.push_back({p, q});
        continue;
      }
      std::string f = vx::sfmt("n%d.%d:", u.id, (int)u.notes.size());
      addr v = 1000 + 100 * u.id + (addr)u.notes.size();
      addr p, q;
      bool rp = true, rq = true;
      if (op.kind == Op::NOTE) {
        p = pos(op.from, op.foff), q = pos(op.to, op.toff);
      } else if (op.kind == Op::ERASE) {
        p = pos(op.from, op.foff), q = pos(op.to, op.toff);
        if (!w->annotator()->erase(p, q, &error))
          return bad("erase failed", error), false;
        u.erased.push_back({p - u.origin, q - u.origin});
        continue;
      } else {
        // the newest visible transaction with tokens
        const Unit *o = nullptr;
        for (auto &x : units)
          if (x.state == Unit::VISIBLE && x.toks.size() && (!o || x.base > o->base))
            o = &x;
        if (!o)
          continue;
        rp = false;
        p = o->base;
        if (op.kind == Op::OLD) {
          rq = false;
          q = o->base + (addr)o->toks.size() - 1;
        } else
          q = pos(op.to, op.toff);
      }
      if (!w->annotator()->annotate(fz->featurize(f), p, q, v, &error))
        return bad("annotate failed", error), false;
      u.notes.push_back({f, rp, rq, rp ? p - u.origin : p, rq ? q - u.origin : q, v});
    }
    if (h == 1 && u.toks.size()) {
      addr p = u.origin, q = u.origin + (addr)u.toks.size() - 1;
      if (!w->annotator()->annotate(fz->featurize("mark:"), p, q, (addr)u.id, &error) ||
          !w->annotator()->annotate(fz->featurize(vx::sfmt("mark%d:", u.id)), p, q, (addr)u.id, &error))
        return bad("annotate failed", error), false;
    }
    return true;
  }
  typedef std::vector<std::array<addr, 3>> L;
  L list(W w, const std::string &f, bool token = false) {
    L l;
    auto h = w->idx()->hopper(token ? w->featurizer()->featurize(f) : w->featurizer()->featurize(f));
    addr p, q, v;
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && l.size() < 1000; h->tau(p + 1, &p, &q, &v))
      l.push_back({p, q, v});
    return l;
  }
  static std::string show(const L &l) {
    std::string s;
    for (auto &e : l)
      s += vx::sfmt("(%ld,%ld)=%ld ", (long)e[0], (long)e[1], (long)e[2]);
    return s == "" ? "nothing" : s;
  }
  static std::string trim(std::string s) {
    while (s.size() && !wordc(s.back()))
      s.pop_back();
    return s;
  }
  // text before a transaction's first token is read with that token
  static std::string trim(const std::string &s, bool first) {
    size_t i = 0;
    while (first && i < s.size() && !wordc(s[i]))
      i++;
    return trim(s.substr(i));
  }
  // Every view shows exactly the visible transactions, each where it was when it became visible.
  void view(const std::string &when) {
    if (broken)
      return;
    vx::count(s_views);
    W w = b->clone(&error);
    if (!w)
      return bad("clone failed", error);
    w->start();
    std::vector<Unit *> vis;
    for (auto &u : units)
      if (u.toks.size()) {
        auto l = list(w, vx::sfmt("mark%d:", u.id));
        if (u.state != Unit::VISIBLE) {
          if (l.size())
            return bad("an aborted or uncommitted transaction is readable", vx::sfmt("%s: transaction %d at %s", when.c_str(), u.id, show(l).c_str()));
          for (size_t k : {(size_t)0, u.words.size() - 1})
            if ((l = list(w, u.words[k], true)).size())
              return bad("an aborted or uncommitted transaction's text is readable", vx::sfmt("%s: %s at %s", when.c_str(), u.words[k].c_str(), show(l).c_str()));
          continue;
        }
        if (l.size() != 1)
          return bad("a visible transaction does not have exactly one place", vx::sfmt("%s: transaction %d at %s", when.c_str(), u.id, show(l).c_str()));
        if (l[0][1] - l[0][0] + 1 != (addr)u.toks.size())
          return bad("a transaction's text changed length", vx::sfmt("%s: transaction %d at %s", when.c_str(), u.id, show(l).c_str()));
        if (u.base < 0) {
          u.base = l[0][0];
          if (u.base < 0 || u.base > 1000000)
            return bad("an address is not where text can be", vx::sfmt("%s: transaction %d at %s", when.c_str(), u.id, show(l).c_str()));
        } else if (u.base != l[0][0])
          return bad("an address changed after becoming visible",
                     vx::sfmt("%s: transaction %d was at %ld, now at %s", when.c_str(), u.id, (long)u.base, show(l).c_str()));
        vis.push_back(&u);
      } else if (u.state == Unit::VISIBLE)
        vis.push_back(&u);
    std::vector<Unit *> ord;
    for (auto u : vis)
      if (u->toks.size())
        ord.push_back(u);
    std::sort(ord.begin(), ord.end(), [](Unit *x, Unit *y) { return x->rank < y->rank; });
    for (size_t i = 1; i < ord.size(); i++)
      if (ord[i]->base <= ord[i - 1]->base + (addr)ord[i - 1]->toks.size() - 1)
        return bad("addresses are not disjoint in the order of being made ready",
                   vx::sfmt("%s: transaction %d at %ld, made ready after %d at %ld of %d tokens", when.c_str(), ord[i]->id, (long)ord[i]->base,
                            ord[i - 1]->id, (long)ord[i - 1]->base, (int)ord[i - 1]->toks.size()));
    auto txt = w->txt();
    for (auto u : vis) {
      addr n = u->toks.size();
      auto gone = [&](addr p, addr q) { // absolute
        for (auto &e : u->erased)
          if (u->base + e.first <= p && q <= u->base + e.second)
            return true;
        return false;
      };
      std::vector<addr> ks;
      for (addr k = 0; k < n; k++)
        if (n < 16 || k < 2 || k >= n - 4 || (k >= 510 && k < 516) || (k >= 598 && k < 601))
          ks.push_back(k);
      for (addr k : ks) {
        L want;
        if (!gone(u->base + k, u->base + k))
          want.push_back({u->base + k, u->base + k, 0});
        auto l = list(w, u->words[k], true);
        if (l != want)
          return bad("a token is not where it was written", vx::sfmt("%s: %s of transaction %d (at %ld): %s, expected %s", when.c_str(), u->words[k].c_str(),
                                                                   u->id, (long)u->base, show(l).c_str(), show(want).c_str()));
        auto t = trim(txt->translate(u->base + k, u->base + k), k == 0);
        if (t != u->words[k])
          return bad("a token's text changed", vx::sfmt("%s: address %ld reads %s, was %s", when.c_str(), (long)(u->base + k), vx::esc(t).c_str(), u->words[k].c_str()));
      }
      for (auto &nt : u->notes) {
        vx::count(s_notes);
        addr p = nt.rel_p ? u->base + nt.p : nt.p, q = nt.rel_q ? u->base + nt.q : nt.q;
        L want;
        bool dead = false;
        for (auto &o : vis)
          for (auto &e : o->erased)
            dead = dead || (o->base + e.first <= p && q <= o->base + e.second);
        if (!dead)
          want.push_back({p, q, nt.v});
        auto l = list(w, nt.feature);
        if (l != want)
          return bad("an annotation does not cover the text it was written for",
                     vx::sfmt("%s: %s of transaction %d (at %ld): %s, expected %s", when.c_str(), nt.feature.c_str(), u->id, (long)u->base, show(l).c_str(), show(want).c_str()));
        if (nt.rel_p && nt.rel_q) {
          std::string was = u->text.substr(u->toks[nt.p].first, u->toks[nt.q].second - u->toks[nt.p].first);
          auto t = trim(txt->translate(p, q), nt.p == 0);
          if (t != was)
            return bad("an annotation's text changed", vx::sfmt("%s: %s of transaction %d reads %s, was %s", when.c_str(), nt.feature.c_str(), u->id,
                                                              vx::esc(t).substr(0, 200).c_str(), vx::esc(was).substr(0, 200).c_str()));
        }
      }
    }
    // nothing else is readable, and the text follows the addresses
    std::string all;
    addr tokens = 0;
    for (auto u : ord)
      all += u->text, tokens += u->toks.size();
    auto squeeze = [](const std::string &s) { // text without tokens may be left out
      std::string t;
      for (size_t i = 0; i < s.size();) {
        if (!wordc(s[i])) {
          i++;
          continue;
        }
        while (i < s.size() && wordc(s[i]))
          t += s[i++];
        t += ' ';
      }
      return t;
    };
    auto got = squeeze(txt->translate(0, 1000000));
    if (got != squeeze(all))
      return bad("the store's text is not the visible transactions' in order",
                 vx::sfmt("%s: %s, expected %s", when.c_str(), got.substr(0, 200).c_str(), squeeze(all).substr(0, 200).c_str()));
    if (txt->tokens() != tokens)
      return bad("the store's token count is wrong", vx::sfmt("%s: %ld, expected %ld", when.c_str(), (long)txt->tokens(), (long)tokens));
    for (size_t i = 1; i < ord.size(); i++) { // unused addresses read as nothing
      addr from = ord[i - 1]->base + (addr)ord[i - 1]->toks.size(), to = ord[i]->base - 1;
      if (from <= to && squeeze(txt->translate(from, to)) != "")
        return bad("an address that was never visible reads as text", vx::sfmt("%s: [%ld,%ld] reads %s", when.c_str(), (long)from, (long)to,
                                                                             vx::esc(txt->translate(from, to)).substr(0, 100).c_str()));
    }
    w->end();
  }
  void step(const std::string &ev) {
    vx::count(s_events);
    if (ev == "M") {
      vx::count(s_merges);
      b->merge(true);
      mc::drain();
      b->merge(false);
      return;
    }
    if (ev == "P") {
      vx::count(s_reopens);
      for (auto &u : units)
        if (u.state != Unit::VISIBLE)
          u.state = Unit::GONE;
      for (auto &w : writer)
        w.second = nullptr;
      mc::drain();
      b = nullptr;
      open(false);
      return;
    }
    int who = ev[0] - '0';
    char op = ev[1];
    if (islower(op)) {
      Unit u;
      u.id = units.size();
      u.content = op;
      units.push_back(u);
      current[who] = u.id;
      W w = b->clone(&error);
      writer[u.id] = w;
      if (!w || !w->transaction(&error))
        return bad("a transaction could not begin", error);
      half(units.back(), 0);
      return;
    }
    Unit &u = units[current[who]];
    W w = writer[u.id];
    if (op == 'F')
      half(u, 1);
    else if (op == 'R') {
      if (!w->ready(&error))
        return bad("a transaction could not be made ready", error);
      u.rank = ranks++;
      u.state = Unit::READY;
    } else if (op == 'C') {
      w->commit();
      u.state = Unit::VISIBLE;
      writer[u.id] = nullptr;
      view("after " + ev);
      for (auto &x : units)
        if (x.state == Unit::VISIBLE && x.toks.size())
          high = std::max(high, x.base + (addr)x.toks.size() - 1);
    } else if (op == 'X') {
      w->abort();
      u.state = Unit::GONE;
      writer[u.id] = nullptr;
    }
  }
  void go(const std::vector<std::string> &evs, const std::string &d) {
    dir = d;
    for (auto &e : evs)
      key += (key == "" ? "" : " ") + e;
    std::error_code ec;
    fs::remove_all(dir, ec);
    vx::count(s_sched);
    if (!open(true))
      return;
    for (auto &e : evs) {
      vx::what(key + " @ " + e);
      step(e);
      view("after " + e);
      if (broken)
        break;
    }
    // what follows can neither move nor reuse what is there
    if (!broken && g_store != "memory") {
      vx::what(key + " @ epilogue");
      step("P");
      view("after the last reopening");
    }
    if (!broken) {
      b->merge(true);
      mc::drain();
      view("after the last merge");
      b->merge(false);
    }
    if (!broken) {
      addr top = high;
      for (auto e : {"9b", "9F", "9R", "9C"})
        if (!broken)
          step(e);
      if (!broken && units.back().base <= top)
        bad("a later transaction reuses addresses", vx::sfmt("placed at %ld, %ld was visible", (long)units.back().base, (long)top));
      view("after one more transaction");
    }
    writer.clear();
    mc::drain();
    b = nullptr;
    mc::drain();
    if (!broken)
      vx::sample(vx::sfmt("%s: %d transactions, highest address %ld", key.c_str(), (int)units.size(), (long)high));
    fs::remove_all(dir, ec);
  }
};

// ---- the schedules ---------------------------------------------------------------------------------
static std::vector<std::vector<std::string>> g_all;
struct Gen {
  int writers, txns;
  std::string contents;
  bool env, halves;
  int aborts;
  std::vector<std::string> cur;
  std::vector<int> st; // 0 idle 1 half 2 full 3 ready
  int begun = 0, aborted = 0, commits = 0, envs = 0;
  int max_env;
  void go() {
    bool idle = true;
    for (int s : st)
      idle = idle && s == 0;
    if (idle && begun == txns) {
      g_all.push_back(cur);
      return;
    }
    auto with = [&](const std::string &e, auto set, auto unset) {
      cur.push_back(e);
      set();
      go();
      unset();
      cur.pop_back();
    };
    bool fresh_seen = false;
    for (int w = 0; w < writers; w++) {
      std::string n = std::to_string(w);
      if (st[w] == 0) {
        if (begun < txns && !fresh_seen) { // idle writers are interchangeable
          fresh_seen = true;
          for (char c : contents)
            with(n + c, [&] { st[w] = 1, begun++; }, [&] { st[w] = 0, begun--; });
        }
        continue;
      }
      if (st[w] == 1)
        with(n + "F", [&] { st[w] = 2; }, [&] { st[w] = 1; });
      if (st[w] == 2)
        with(n + "R", [&] { st[w] = 3; }, [&] { st[w] = 2; });
      if (st[w] == 3)
        with(n + "C", [&] { st[w] = 0, commits++; }, [&] { st[w] = 3, commits--; });
      if (aborted < aborts && st[w] >= 1) {
        int was = st[w];
        with(n + "X", [&] { st[w] = 0, aborted++; }, [&] { st[w] = was, aborted--; });
      }
    }
    if (env && envs < max_env && cur.size()) {
      char last = cur.back()[0];
      if (last != 'M' && last != 'P') {
        if (commits >= 2)
          with("M", [&] { envs++; }, [&] { envs--; });
        if (g_store != "memory" && idle && (commits > 0 || aborted > 0))
          with("P", [&] { envs++; }, [&] { envs--; });
        else if (g_store != "memory" && aborted < aborts && !idle) { // in flight transactions are lost
          auto was = st;
          with("P", [&] { envs++, aborted++; for (auto &s : st) s = 0; }, [&] { envs--, aborted--; st = was; });
        }
      }
    }
  }
};

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_events = vx::stat_id("events");
  s_views = vx::stat_id("views");
  s_notes = vx::stat_id("annotations");
  s_reopens = vx::stat_id("reopens");
  s_merges = vx::stat_id("merges");
  s_sched = vx::stat_id("schedules");
  g_store = vx::arg(argc, argv, "store", "disk");
  g_tok = vx::arg(argc, argv, "tokenizer", "ascii");
  Gen g;
  g.writers = std::stoi(vx::arg(argc, argv, "writers", "2"));
  g.txns = std::stoi(vx::arg(argc, argv, "txns", "2"));
  g.contents = vx::arg(argc, argv, "contents", "abcdefghij");
  g.max_env = std::stoi(vx::arg(argc, argv, "env", "1"));
  g.env = g.max_env > 0;
  g.aborts = std::stoi(vx::arg(argc, argv, "aborts", "1"));
  g.st.assign(g.writers, 0);
  g.go();
  vx::opt.chunk = 16;
  vx::run("schedules of " + g_store, g_all.size(), [&](uint64_t i) {
    mc::detect_races = false;
    mc::policy = 0;
    mc::begin();
    {
      Run r;
      r.go(g_all[i], vx::sfmt("t03.%d", vx::me));
    }
    mc::end();
  });
  return 0;
}
