// Reference model of a dynamic store: a set of committed transactions, and what each view must show.
#ifndef DYN_H_
#define DYN_H_
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fluffle.h"
#include "vx.h"
#include <filesystem>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace dyn {
using cottontail::addr;
using cottontail::maxfinity;
using cottontail::minfinity;
typedef std::pair<addr, addr> Span;

// One transaction: `n` documents of `len` tokens; every token is the unique word u<id>, except the
// first of each document, which is the common word "x".  Each document carries the tag "doc:" with
// value id*100+k.  Erasures name documents of other transactions.
struct Txn {
  int id = 0;
  int docs = 1, len = 3;
  std::vector<std::pair<int, int>> erases; // (transaction, document)
  addr tokens() const { return (addr)docs * len; }
  std::string text(int d) const {
    std::string s = "x";
    for (int i = 1; i < len; i++)
      s += " u" + std::to_string(id);
    (void)d;
    return s;
  }
};
struct Placed {
  Txn t;
  addr base;
};

struct View {
  std::map<std::string, std::vector<std::array<addr, 3>>> lists;
  std::string text;
  addr tokens = 0;
  std::string str() const {
    std::string s;
    for (auto &l : lists) {
      s += l.first + "=";
      for (auto &e : l.second)
        s += vx::sfmt("(%ld,%ld,%ld)", (long)e[0], (long)e[1], (long)e[2]);
      s += " ";
    }
    return s + "text=" + text + vx::sfmt(" tokens=%ld", (long)tokens);
  }
  bool operator==(const View &o) const { return lists == o.lists && text == o.text && tokens == o.tokens; }
};

inline std::vector<std::string> features(const std::vector<Txn> &all) {
  std::vector<std::string> f = {"doc:", "x"};
  for (auto &t : all)
    f.push_back("u" + std::to_string(t.id));
  return f;
}
inline View observe(cottontail::Warren *w, const std::vector<Txn> &all) {
  View v;
  auto fz = w->featurizer();
  for (auto &f : features(all)) {
    auto h = w->idx()->hopper(fz->featurize(f));
    addr p, q, x;
    auto &l = v.lists[f];
    for (h->tau(minfinity + 1, &p, &q, &x); p < maxfinity; h->tau(p + 1, &p, &q, &x)) {
      l.push_back({p, q, x});
      if (l.size() > 1000)
        break;
    }
  }
  v.text = w->txt()->translate(0, 1000000);
  v.tokens = w->txt()->tokens();
  return v;
}
// What a view over exactly these transactions must show (in address order).
inline View expect(const std::vector<Placed> &visible, const std::vector<Txn> &all) {
  View v;
  for (auto &f : features(all))
    v.lists[f];
  std::vector<Placed> s = visible;
  std::sort(s.begin(), s.end(), [](const Placed &a, const Placed &b) { return a.base < b.base; });
  std::vector<Span> erased;
  std::map<int, Placed> by;
  for (auto &p : s)
    by[p.t.id] = p;
  for (auto &p : s)
    for (auto &e : p.t.erases)
      if (by.count(e.first)) {
        addr b = by[e.first].base + e.second * by[e.first].t.len;
        erased.push_back({b, b + by[e.first].t.len - 1});
      }
  auto gone = [&](addr p, addr q) {
    for (auto &e : erased)
      if (e.first <= p && q <= e.second)
        return true;
    return false;
  };
  for (auto &p : s) {
    for (int d = 0; d < p.t.docs; d++) {
      addr b = p.base + d * p.t.len;
      if (!gone(b, b + p.t.len - 1))
        v.lists["doc:"].push_back({b, b + p.t.len - 1, p.t.id * 100 + d});
      for (int i = 0; i < p.t.len; i++)
        if (!gone(b + i, b + i))
          v.lists[i == 0 ? "x" : "u" + std::to_string(p.t.id)].push_back({b + i, b + i, 0});
      v.text += p.t.text(d) + "\n";
    }
    v.tokens += p.t.tokens();
  }
  return v;
}
// Writes the transaction's contents; `base_of` gives the address of already committed documents.
template <class BaseOf> bool fill(cottontail::Warren *w, const Txn &t, BaseOf base_of) {
  addr p, q;
  auto fz = w->featurizer();
  for (int d = 0; d < t.docs; d++) {
    if (!w->appender()->append(t.text(d), &p, &q))
      return false;
    if (!w->annotator()->annotate(fz->featurize("doc:"), p, q, (addr)(t.id * 100 + d)))
      return false;
  }
  for (auto &e : t.erases) {
    Span s = base_of(e.first, e.second);
    if (!w->annotator()->erase(s.first, s.second))
      return false;
  }
  return true;
}
// Which transactions a view shows, and where: every transaction's unique word marks it, unless all
// its documents are erased (those are told apart by the text).
inline std::shared_ptr<cottontail::Bigwig> in_memory(std::shared_ptr<cottontail::Working> working = nullptr, bool merge = true,
                                                     const std::string &tok = "ascii") {
  auto fz = cottontail::Featurizer::make("hashing", "");
  auto tk = cottontail::Tokenizer::make(tok, "");
  auto fl = cottontail::Fluffle::make();
  auto b = cottontail::Bigwig::make(working, fz, tk, fl);
  if (b && !merge)
    b->merge(false);
  return b;
}
} // namespace dyn
#endif
