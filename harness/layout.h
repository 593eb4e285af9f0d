// Contents of a dynamic store (sequences of transactions from a menu) with a brute-force oracle,
// and the operations that change the physical layout of its directory.
#ifndef LAYOUT_H_
#define LAYOUT_H_
#include "probe.h"
#include "ref.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/hazel.h"
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace layout {
using namespace cottontail;
namespace fs = std::filesystem;

struct Note {
  std::string feature;
  addr p, q, v;
};
// What one committed transaction put into the store.
struct Unit {
  bool committed = true;
  addr base = 0;
  std::string text;                            // as stored, newlines included
  std::vector<std::pair<size_t, size_t>> toks; // [from,to) in text
  std::vector<Note> notes;                     // absolute addresses
  std::vector<std::pair<addr, addr>> erased;   // absolute
  addr last() const { return base + (addr)toks.size() - 1; }
};

inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
// Never in place: cursors may still be reading the old file.
inline void spit(const std::string &p, const std::string &s) {
  fs::remove(p);
  std::ofstream f(p, std::ios::binary);
  f << s;
}
typedef std::map<std::string, std::string> Files;
inline Files snapshot(const std::string &dir) {
  Files f;
  for (auto &e : fs::directory_iterator(dir))
    if (e.is_regular_file())
      f[e.path().filename().string()] = slurp(e.path().string());
  return f;
}
inline void restore(const std::string &dir, const Files &f) {
  fs::create_directories(dir);
  std::vector<fs::path> old;
  for (auto &e : fs::directory_iterator(dir))
    old.push_back(e.path());
  for (auto &e : old)
    fs::remove_all(e);
  for (auto &x : f)
    spit(dir + "/" + x.first, x.second);
}

inline void tokens_of(const std::string &t, std::vector<std::pair<size_t, size_t>> *v) {
  for (size_t i = 0; i < t.size();) {
    if (!isalnum((unsigned char)t[i])) {
      i++;
      continue;
    }
    size_t j = i;
    while (j < t.size() && isalnum((unsigned char)t[j]))
      j++;
    v->push_back({i, j});
    i = j;
  }
}

// Writes through a real writer and records what was written.
struct Scribbler {
  std::shared_ptr<Bigwig> b;
  Unit u;
  std::vector<std::pair<addr, addr>> local; // staged spans of appended pieces
  struct Pending {
    std::string f;
    addr from, to; // token indexes within this transaction (when !absolute)
    addr v;
    bool absolute;
  };
  std::vector<Pending> pend;
  addr staged = -1;
  bool ok = true;
  explicit Scribbler(std::shared_ptr<Bigwig> b) : b(b) { ok = b->transaction(); }
  void text(const std::string &t) {
    addr p, q;
    if (!b->appender()->append(t, &p, &q)) {
      ok = false;
      return;
    }
    size_t before = u.toks.size();
    std::vector<std::pair<size_t, size_t>> x;
    tokens_of(t, &x);
    size_t off = u.text.size();
    for (auto &e : x)
      u.toks.push_back({off + e.first, off + e.second});
    u.text += t;
    if (t.empty() || !isspace((unsigned char)t.back()))
      u.text += "\n";
    if (x.size()) {
      if (staged < 0)
        staged = p - (addr)before;
      if (p != staged + (addr)before || q != staged + (addr)u.toks.size() - 1)
        ok = false;
    }
  }
  // token indexes of this transaction
  void note(const std::string &f, addr from, addr to, addr v = 0) {
    if (!b->annotator()->annotate(b->featurizer()->featurize(f), staged + from, staged + to, v))
      ok = false;
    pend.push_back({f, from, to, v, false});
  }
  void note_at(const std::string &f, addr p, addr q, addr v = 0) {
    if (!b->annotator()->annotate(b->featurizer()->featurize(f), p, q, v))
      ok = false;
    pend.push_back({f, p, q, v, true});
  }
  void erase(addr from, addr to) {
    if (!b->annotator()->erase(staged + from, staged + to))
      ok = false;
    pend.push_back({"", from, to, 0, false});
  }
  void erase_at(addr p, addr q) {
    if (!b->annotator()->erase(p, q))
      ok = false;
    pend.push_back({"", p, q, 0, true});
  }
  // The store ends a transaction's text with a newline.
  void done() {
    if (u.text.size() && u.text.back() != '\n')
      u.text += "\n";
  }
  // After commit: where did it land?  `mark` is a feature unique to this transaction on token `at`.
  void place(addr base) {
    u.base = base;
    for (auto &x : pend) {
      // a relative index below zero names an earlier, absolute address
      addr p = x.from + (x.absolute ? 0 : x.from < 0 ? staged : base), q = x.to + (x.absolute ? 0 : base);
      if (x.f == "")
        u.erased.push_back({p, q});
      else if (p >= 0 && p <= q)
        u.notes.push_back({x.f, p, q, x.v});
    }
    for (size_t i = 0; i < u.toks.size(); i++)
      u.notes.push_back({u.text.substr(u.toks[i].first, u.toks[i].second - u.toks[i].first), base + (addr)i, base + (addr)i, 0});
  }
};

// What a store over exactly these units answers.
struct Oracle {
  std::vector<Unit> units; // committed ones, in commit order
  ref::List list(const std::string &f) const {
    ref::List raw;
    for (auto &u : units)
      for (auto &n : u.notes)
        if (n.feature == f)
          raw.push_back(ref::Iv(n.p, n.q, (fval)n.v));
    ref::List l = ref::minimal(raw), out;
    for (auto &i : l) {
      bool gone = false;
      for (auto &u : units)
        for (auto &e : u.erased)
          if (e.first <= i.p && i.q <= e.second)
            gone = true;
      if (!gone)
        out.push_back(i);
    }
    return out;
  }
  bool erases() const {
    for (auto &u : units)
      if (u.erased.size())
        return true;
    return false;
  }
  size_t raw_count(const std::string &f) const {
    size_t n = 0;
    for (auto &u : units)
      for (auto &x : u.notes)
        n += x.feature == f;
    return n;
  }
  bool tokenless() const {
    for (auto &u : units)
      if (u.text.size() && u.toks.empty())
        return true;
    return false;
  }
  std::string text(addr p, addr q) const {
    std::string s;
    for (auto &u : units) {
      if (u.toks.empty() || p > u.last() || q < u.base || p > q)
        continue;
      size_t a = p <= u.base ? 0 : u.toks[p - u.base].first;
      size_t b = q >= u.last() ? u.text.size() : u.toks[q - u.base + 1].first;
      s += u.text.substr(a, b - a);
    }
    return s;
  }
  addr tokens() const {
    addr n = 0;
    for (auto &u : units)
      n += u.toks.size();
    return n;
  }
  bool range(addr *p, addr *q) const {
    bool any = false;
    for (auto &u : units)
      if (u.toks.size()) {
        if (!any || u.base < *p)
          *p = u.base;
        if (!any || u.last() > *q)
          *q = u.last();
        any = true;
      }
    return any;
  }
};

// Text without tokens has no address: a store may show it with its neighbours, or not.
inline std::string trim(std::string s) {
  for (size_t i; (i = s.find("...\n")) != std::string::npos;)
    s.erase(i, 4);
  size_t a = s.find_first_not_of(" \n.,"), b = s.find_last_not_of(" \n.,");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

struct Probe {
  std::vector<std::string> features;
  std::vector<addr> keys; // addresses of interest
  bool trimmed = false;
  // what the store answers
  std::string ask(Warren *w, bool backwards = false) const {
    std::string s;
    auto fz = w->featurizer();
    for (auto &f : features) {
      s += f + "=";
      auto h = w->idx()->hopper(fz->featurize(f));
      if (!h) {
        s += "null\n";
        continue;
      }
      for (int d = 0; d < 4; d++) {
        s += "|";
        for (addr k : all_keys()) {
          addr p, q, v;
          if (d == 0)
            h->tau(k, &p, &q, &v);
          else if (d == 1)
            h->rho(k, &p, &q, &v);
          else if (d == 2)
            h->uat(k, &p, &q, &v);
          else
            h->ohr(k, &p, &q, &v);
          probe::put(&s, p, q, v);
        }
      }
      s += "\n";
    }
    addr p = 0, q = 0;
    s += w->txt()->range(&p, &q) ? "range=" + probe::at(p) + "," + probe::at(q) + "\n" : "range=none\n";
    s += vx::sfmt("tokens=%ld\n", (long)w->txt()->tokens());
    std::map<std::pair<addr, addr>, std::string> got;
    size_t n = keys.size();
    for (size_t i = 0; i < n; i++)
      for (size_t j = i; j < n; j++) {
        size_t a = backwards ? n - 1 - j : i, b = backwards ? n - 1 - i : j;
        got[{keys[a], keys[b]}] = w->txt()->translate(keys[a], keys[b]);
      }
    for (auto &g : got)
      s += vx::sfmt("[%ld,%ld]", (long)g.first.first, (long)g.first.second) + (trimmed ? trim(g.second) : g.second) + "|";
    std::string a = w->txt()->translate(minfinity + 1, maxfinity - 1);
    s += "all=" + (trimmed ? trim(a) : a) + "\n";
    return s;
  }
  std::string want(const Oracle &o) const {
    std::string s;
    for (auto &f : features) {
      s += f + "=";
      ref::List l = o.list(f);
      for (int d = 0; d < 4; d++) {
        s += "|";
        for (addr k : all_keys()) {
          ref::Iv i = ref::select(l, d, k);
          probe::put(&s, i.p, i.q, (addr)i.v);
        }
      }
      s += "\n";
    }
    addr p = 0, q = 0;
    s += o.range(&p, &q) ? "range=" + probe::at(p) + "," + probe::at(q) + "\n" : "range=none\n";
    s += vx::sfmt("tokens=%ld\n", (long)o.tokens());
    for (size_t i = 0; i < keys.size(); i++)
      for (size_t j = i; j < keys.size(); j++) {
        std::string t = o.text(keys[i], keys[j]);
        s += vx::sfmt("[%ld,%ld]", (long)keys[i], (long)keys[j]) + (trimmed ? trim(t) : t) + "|";
      }
    std::string t = o.text(minfinity + 1, maxfinity - 1);
    s += "all=" + (trimmed ? trim(t) : t) + "\n";
    return s;
  }
  std::vector<addr> all_keys() const {
    std::vector<addr> k{minfinity, minfinity + 1};
    k.insert(k.end(), keys.begin(), keys.end());
    k.push_back(maxfinity - 1);
    k.push_back(maxfinity);
    return k;
  }
};

// Shards of a directory listing.
struct Shard {
  std::string kind; // fiver or hazel
  long s, e;
  std::string name;
};
inline std::vector<Shard> shards(const Files &f) {
  std::vector<Shard> v;
  for (auto &x : f) {
    long s, e;
    int n = 0;
    for (const char *k : {"fiver", "hazel"})
      if (sscanf(x.first.c_str(), (std::string(k) + ".%20ld.%20ld%n").c_str(), &s, &e, &n) == 2 && n == (int)x.first.size())
        v.push_back({k, s, e, x.first});
  }
  std::sort(v.begin(), v.end(), [](const Shard &a, const Shard &b) { return a.s < b.s || (a.s == b.s && a.e < b.e); });
  return v;
}
struct Store {
  std::shared_ptr<Working> working;
  std::shared_ptr<Featurizer> featurizer;
  std::shared_ptr<Tokenizer> tokenizer;
  std::shared_ptr<Compressor> pc, vc, tc;
};
inline Store open_parts(const std::string &dir, const std::string &pc, const std::string &vc, const std::string &tc) {
  Store s;
  s.working = Working::make(dir);
  s.featurizer = Featurizer::make("hashing", "");
  s.tokenizer = Tokenizer::make("ascii", "");
  s.pc = Compressor::make(pc, "");
  s.vc = Compressor::make(vc, "");
  s.tc = Compressor::make(tc, "");
  return s;
}
// The three layout operations, as background maintenance performs them.
inline bool fiver_merge(const Store &s, const std::vector<std::string> &names, std::string *error) {
  std::vector<std::shared_ptr<Fiver>> f;
  for (auto &n : names) {
    auto x = Fiver::unpickle(n, s.working, s.featurizer, s.tokenizer, error, s.pc, s.vc, s.tc);
    if (!x)
      return false;
    x->start();
    f.push_back(x);
  }
  auto m = Fiver::merge(f, error);
  if (!m || !m->pickle(error))
    return false;
  for (auto &x : f)
    x->discard();
  return true;
}
inline bool fiver_hazel(const Store &s, const std::string &name, addr chunk, const std::string &parameters, std::string *error) {
  auto x = Fiver::unpickle(name, s.working, s.featurizer, s.tokenizer, error, s.pc, s.vc, s.tc);
  if (!x)
    return false;
  x->start();
  auto h = x->hazel(error, chunk, parameters);
  if (!h)
    return false;
  x->discard();
  return true;
}
inline bool hazel_merge(const Store &s, const std::vector<std::string> &names, std::string *error) {
  if (!Hazel::merge(s.working, names, "", error))
    return false;
  for (auto &n : names)
    s.working->remove(n);
  return true;
}
} // namespace layout
#endif
