// Menu of transactions; builds a store holding a sequence of them together with its oracle.
#ifndef CONTENT_H_
#define CONTENT_H_
#include "layout.h"
#include "src/fluffle.h"
using namespace cottontail;
using namespace layout;
static int s_views, s_queries;

struct Kind {
  char code;
  const char *what;
};
// t: index of the transaction; units: what is already committed
static void write_txn(char k, int t, Scribbler *w, const std::vector<Unit> &before) {
  const Unit *prev = nullptr, *first = nullptr;
  for (auto &u : before)
    if (u.toks.size()) {
      if (!first)
        first = &u;
      prev = &u;
    }
  auto mark = [&](addr at) { w->note("m" + std::to_string(t) + ":", at, at, t + 1); };
  switch (k) {
  case 'a': // plain, one annotation over the whole, one inside with a value
    w->text("a b c");
    w->note("doc:", 0, 2, 10 + t);
    w->note("f:", 1, 2, 20 + t);
    mark(0);
    break;
  case 'b': // two pieces, nested annotations of one feature, crossing annotations of another
    w->text("b a ");
    w->text("c b, d");
    w->note("doc:", 0, 1, 30 + t);
    w->note("doc:", 2, 4, 40 + t);
    w->note("f:", 0, 4, 1);
    w->note("f:", 1, 2, 50 + t);
    w->note("g:", 0, 2, 2);
    w->note("g:", 1, 3, 3);
    mark(4);
    break;
  case 'p': // leading, inner and trailing punctuation
    w->text("... a, (b) .\n");
    w->note("doc:", 0, 1, 60 + t);
    if (prev)
      w->note("g:", prev->last() - w->staged, 0, 61); // from the previous text into this one
    mark(1);
    break;
  case 'e': // erases the tail of the previous text and the head of its own
    w->text("c a b");
    w->note("doc:", 0, 2, 70 + t);
    w->note("f:", 0, 0, 71);
    if (prev)
      w->erase_at(prev->last() - 1, prev->last());
    w->erase(0, 0);
    mark(2);
    break;
  case 'x': // erases everything before, in two nested erasures, with a text of its own
    w->text("b");
    w->note("f:", 0, 0, 80 + t);
    if (prev) {
      w->erase_at(first->base, prev->last());
      w->erase_at(prev->base, prev->last());
      w->erase_at(prev->base, prev->base);
    }
    mark(0);
    break;
  case 'o': // overlapping and adjacent erasures inside its own text
    w->text("a b c d");
    w->note("doc:", 0, 3, 90 + t);
    w->note("f:", 0, 2, 91);
    w->note("g:", 1, 2, 92);
    w->erase(0, 1);
    w->erase(1, 2);
    mark(3);
    break;
  case 'E': // no text, only erases
    if (prev)
      w->erase_at(prev->base, prev->base + (prev->last() - prev->base) / 2);
    else
      w->text("d");
    break;
  case 'n': // no text, annotates earlier text: a new interval, the same interval with a new value, one spanning two transactions
    if (prev) {
      w->note_at("h:", prev->base, prev->base, 7);
      w->note_at("doc:", prev->base, prev->last(), 100 + t);
      if (first != prev)
        w->note_at("g:", first->last(), prev->base, 9);
    } else
      w->text("c c");
    break;
  case 'd': // text without tokens
    w->text("...");
    break;
  case 'z': // empty: nothing at all
    break;
  case 'A': // aborted after it was ready: a gap in addresses
    w->text("z z z");
    w->note("doc:", 0, 2, 5);
    break;
  case 'L': { // several text chunks
    std::string s;
    for (int i = 0; i < 520; i++)
      s += i % 7 == 0 ? "a " : "bb ";
    w->text(s);
    w->note("doc:", 0, 519, 110 + t);
    w->note("f:", 511, 512, 111);
    mark(0);
  } break;
  case 'M': { // several text chunks, in two pieces, erasing across a chunk border
    std::string s;
    for (int i = 0; i < 700; i++)
      s += i % 100 == 99 ? "d.\n\n" : "c, ";
    w->text(s);
    w->text("a b");
    w->note("f:", 0, 0, 120 + t);
    w->erase(510, 515);
    mark(701);
  } break;
  case 'i': // an outer annotation whose inner one of the same feature is erased later: see known findings
    w->text("a b c");
    w->note("h:", 0, 2, 1);
    mark(0);
    break;
  case 'j':
    if (prev)
      w->note_at("h:", prev->base + 1, prev->base + 1, 2);
    break;
  case 'k':
    if (prev)
      w->erase_at(prev->base + 1, prev->base + 1);
    break;
  }
}

struct Options {
  std::string pc, vc, tc;
};
static const Options OPTS[] = {{"null", "null", "null"}, {"post", "zlib", "zlib"}, {"zlib", "null", "null"}};

struct Content {
  std::string code;
  Files files; // the layout as committed
  Oracle oracle;
  Probe probe;
  bool gap = false;
};
static void ask_check(const std::string &key, const std::string &what, Warren *w, const Probe &p, const std::string &want) {
  std::string got = p.ask(w);
  vx::count(s_queries, got.size());
  if (got != want)
    vx::viol(key, what + " " + probe::diff(want, got));
  got = p.ask(w, true);
  if (got != want)
    vx::viol(key, what + " (asked backwards) " + probe::diff(want, got));
}
static Probe make_probe(const std::string &code, const Oracle &o) {
  Probe p;
  p.features = {"a", "b", "c", "d", "z", "bb", "doc:", "f:", "g:", "h:"};
  for (size_t i = 0; i < code.size(); i++)
    p.features.push_back("m" + std::to_string(i) + ":");
  bool big = code.find_first_of("LM") != std::string::npos;
  addr hi = 0;
  std::set<addr> keys;
  for (auto &u : o.units) {
    if (big) {
      for (addr x : {u.base - 1, u.base, u.base + 1, u.base + 255, u.base + 509, u.base + 510, u.base + 511, u.base + 512, u.base + 515, u.base + 516,
                     u.base + 519, u.last() - 1, u.last(), u.last() + 1})
        if (x <= u.last() + 2)
          keys.insert(x);
    }
    hi = std::max(hi, u.last());
  }
  if (!big)
    for (addr x = -1; x <= hi + 4; x++)
      keys.insert(x);
  p.keys.assign(keys.begin(), keys.end());
  p.trimmed = o.tokenless();
  return p;
}

static bool build(const std::string &dir, const std::string &code, const Options &opt, Content *c, bool watch) {
  std::string error;
  c->code = code;
  fs::create_directories(dir);
  // background merging stays off: the layouts are made here, one operation at a time
  auto fluffle = Fluffle::make();
  fluffle->merge = false;
  auto b = Bigwig::make(Working::mkdir(dir), Featurizer::make("hashing", ""), Tokenizer::make("ascii", ""), fluffle, &error,
                        Compressor::make(opt.pc, ""), Compressor::make(opt.vc, ""), Compressor::make(opt.tc, ""));
  if (!b) {
    vx::viol("setup", "store refused: " + error);
    return false;
  }
  b->merge(false);
  b->set_parameter("colour", "blue");
  std::vector<Unit> units;
  struct Old {
    std::shared_ptr<Warren> w;
    Probe p;
    std::string want;
    int at;
  };
  std::vector<Old> old;
  for (size_t t = 0; t < code.size(); t++) {
    auto bw = std::dynamic_pointer_cast<Bigwig>(b->clone());
    Scribbler w(bw);
    if (w.ok)
      write_txn(code[t], t, &w, units);
    w.done();
    if (!w.ok || !bw->ready()) {
      vx::viol("write:" + code, vx::sfmt("transaction %zu of %s refused", t, code.c_str()));
      return false;
    }
    if (code[t] == 'A') {
      bw->abort();
      c->gap = true;
    } else {
      bw->commit();
      // where did it land?
      auto r = b->clone();
      r->start();
      addr base = -1, p, q;
      auto fz = r->featurizer();
      auto h = r->idx()->hopper(fz->featurize("m" + std::to_string(t) + ":"));
      h->tau(minfinity + 1, &p, &q);
      for (auto &x : w.pend)
        if (x.f == "m" + std::to_string(t) + ":" && p < maxfinity)
          base = p - x.from;
      if (base < 0 && w.u.toks.size()) {
        // transactions without a mark: the last text of the store is theirs
        addr lo, hi;
        if (r->txt()->range(&lo, &hi))
          base = hi - (addr)w.u.toks.size() + 1;
      }
      r->end();
      if (base < 0 && w.u.toks.size()) {
        vx::viol("write:" + code, vx::sfmt("committed transaction %zu of %s is not visible", t, code.c_str()));
        return false;
      }
      if (!w.u.toks.size())
        base = units.size() ? units.back().last() + 1 : 0;
      w.place(base);
      units.push_back(w.u);
      if (watch) {
        c->oracle.units = units;
        Old o;
        o.p = make_probe(code.substr(0, t + 1), c->oracle);
        o.want = o.p.want(c->oracle);
        o.at = t;
        o.w = b->clone();
        o.w->start();
        old.push_back(o);
        for (auto &x : old) {
          vx::count(s_views);
          ask_check("view:" + code, vx::sfmt("%s: the view started after transaction %d, asked after transaction %zu,", code.c_str(), x.at, t), x.w.get(),
                    x.p, x.want);
        }
      }
    }
  }
  for (auto &x : old)
    x.w->end();
  c->oracle.units = units;
  c->probe = make_probe(code, c->oracle);
  b = nullptr;
  c->files = snapshot(dir);
  return true;
}
#endif
