// Reference structural algebra over annotation lists, and the real operators.
#ifndef GCLREF_H_
#define GCLREF_H_
#include "ref.h"
#include "gcl/gcl.h"
#include "gcl/materialize.h"
#include "gcl/vector_hopper.h"
#include "src/array_hopper.h"
#include <cmath>

namespace gref {
using namespace ref;
using cottontail::Hopper;

enum Op { AND = 0, OR, BEFORE, IN, HAS, NOTIN, NOTHAS, MERGE, NBIN };
inline const char *oname(int o) {
  static const char *n[] = {"^", "+", "...", "<<", ">>", "!<", "!>", "merge"};
  return n[o];
}
inline bool inside(const Iv &a, const Iv &b) { return a.p >= b.p && a.q <= b.q; }

// Minimal intervals of an arbitrary set: sweep (sort by end, then by larger start).
inline List sweep(List in) {
  std::sort(in.begin(), in.end(), [](const Iv &a, const Iv &b) { return a.q < b.q || (a.q == b.q && a.p > b.p); });
  List out;
  for (auto &i : in) {
    if (!out.empty() && out.back().p >= i.p) {
      // contains (or equals) an interval already kept
      if (out.back() == i && !(out.back().v == i.v))
        out.back().v = NAN; // equal intervals from several sources: either value
      continue;
    }
    out.push_back(i);
  }
  return out;
}

inline List apply(int op, const List &a, const List &b) {
  List out;
  switch (op) {
  case AND:
    for (auto &x : a)
      for (auto &y : b)
        out.push_back(Iv(std::min(x.p, y.p), std::max(x.q, y.q)));
    return sweep(out);
  case OR:
    for (auto &x : a)
      out.push_back(Iv(x.p, x.q));
    for (auto &y : b)
      out.push_back(Iv(y.p, y.q));
    return sweep(out);
  case BEFORE:
    for (auto &x : a)
      for (auto &y : b)
        if (x.q < y.p)
          out.push_back(Iv(x.p, y.q));
    return sweep(out);
  case MERGE:
    out = a;
    out.insert(out.end(), b.begin(), b.end());
    return sweep(out);
  default:
    for (auto &x : a) {
      bool found = false;
      for (auto &y : b)
        if ((op == IN || op == NOTIN) ? inside(x, y) : inside(y, x)) {
          found = true;
          break;
        }
      if (found == (op == IN || op == HAS))
        out.push_back(x);
    }
    return out;
  }
}

inline std::unique_ptr<Hopper> combine(int op, std::unique_ptr<Hopper> a, std::unique_ptr<Hopper> b) {
  using namespace cottontail::gcl;
  switch (op) {
  case AND: return std::make_unique<And>(std::move(a), std::move(b));
  case OR: return std::make_unique<Or>(std::move(a), std::move(b));
  case BEFORE: return std::make_unique<FollowedBy>(std::move(a), std::move(b));
  case IN: return std::make_unique<ContainedIn>(std::move(a), std::move(b));
  case HAS: return std::make_unique<Containing>(std::move(a), std::move(b));
  case NOTIN: return std::make_unique<NotContainedIn>(std::move(a), std::move(b));
  case NOTHAS: return std::make_unique<NotContaining>(std::move(a), std::move(b));
  default: return std::make_unique<Merge>(std::move(a), std::move(b));
  }
}

// A leaf list held in the arrays that real cursors read.
struct Leaf {
  List l;
  std::shared_ptr<addr> p, q;
  std::shared_ptr<fval> f;
  bool values;
  bool fixed = false;
  addr width = 0;
  Leaf() {}
  Leaf(const List &list, bool values, fval base = 0) : l(list), values(values) {
    for (size_t i = 0; i < l.size(); i++)
      l[i].v = values ? base + i + 1 : 0.0;
    size_t n = l.size();
    if (n) {
      p = cottontail::shared_array<addr>(n);
      q = cottontail::shared_array<addr>(n);
      if (values)
        f = cottontail::shared_array<fval>(n);
      for (size_t i = 0; i < n; i++) {
        p.get()[i] = l[i].p;
        q.get()[i] = l[i].q;
        if (values)
          f.get()[i] = l[i].v;
      }
    }
  }
  static Leaf Fixed(addr width, addr lo, addr hi) {
    Leaf x;
    x.fixed = true;
    x.width = width;
    x.values = false;
    for (addr s = lo; s + width - 1 <= hi; s++)
      x.l.push_back(Iv(s, s + width - 1));
    return x;
  }
  std::unique_ptr<Hopper> make() const {
    if (fixed)
      return std::make_unique<cottontail::FixedWidthHopper>(width);
    if (l.empty())
      return std::make_unique<cottontail::EmptyHopper>();
    if (l.size() == 1)
      return std::make_unique<cottontail::SingletonHopper>(l[0].p, l[0].q, l[0].v);
    return cottontail::ArrayHopper::make(l.size(), p, q, f);
  }
  std::string name() const { return fixed ? vx::sfmt("(# %d)", (int)width) : str(l, values); }
};

struct Step {
  int d;
  addr k;
};
inline std::vector<Step> alphabet(const std::vector<addr> &ks, int ndir = NDIR) {
  std::vector<Step> a;
  for (int d = 0; d < ndir; d++)
    for (addr k : ks)
      a.push_back({d, k});
  return a;
}
inline bool agree(const Iv &w, const Iv &g, int d, bool values) {
  if (d == LL)
    return g.p == w.p;
  if (d == RR)
    return g.q == w.q;
  if (g.p != w.p || g.q != w.q)
    return false;
  if (!values || std::isnan(w.v))
    return true;
  return g.v == w.v;
}

// Full check of one expression: every call sequence of length len on a fresh cursor, plus full
// forward and backward enumerations.  Returns the number of calls made.
template <class Make, class Name>
uint64_t check(const List &want, const std::vector<Step> &alpha, int len, bool values, Make make, Name name,
               bool traverse = true) {
  size_t A = alpha.size();
  static thread_local std::vector<Iv> w;
  w.resize(A);
  for (size_t a = 0; a < A; a++)
    w[a] = select(want, alpha[a].d, alpha[a].k);
  uint64_t calls = 0;
  auto bad = [&](const std::string &seq, const Iv &got, const Iv &exp) {
    vx::viol(name() + seq, "returned " + str(got, true) + " expected " + str(exp, true) + "; solutions " + str(want, true));
  };
  std::vector<size_t> ix(len, 0);
  for (;;) {
    auto h = make();
    for (int i = 0; i < len; i++) {
      const Step &s = alpha[ix[i]];
      Iv got = call(h.get(), s.d, s.k);
      calls++;
      if (!agree(w[ix[i]], got, s.d, values)) {
        std::string seq;
        for (int j = 0; j <= i; j++)
          seq += vx::sfmt(" %s(%s)", dname(alpha[ix[j]].d), ks(alpha[ix[j]].k).c_str());
        bad(seq, got, w[ix[i]]);
        return calls;
      }
    }
    int j = len - 1;
    while (j >= 0 && ++ix[j] == A)
      ix[j--] = 0;
    if (j < 0)
      break;
  }
  if (traverse) {
    // the four ways to walk through all solutions
    for (int d = 0; d < 4; d++) {
      auto h = make();
      bool fwd = d == TAU || d == RHO;
      addr k = fwd ? minfinity + 1 : maxfinity - 1;
      size_t n = 0;
      for (;;) {
        Iv got = call(h.get(), d, k);
        calls++;
        size_t m = want.size();
        Iv exp = n < m ? (fwd ? want[n] : want[m - 1 - n]) : (fwd ? Iv(maxfinity, maxfinity) : Iv(minfinity, minfinity));
        if (!agree(exp, got, d, values)) {
          bad(vx::sfmt(" walk %s step %d", dname(d), (int)n), got, exp);
          return calls;
        }
        if (n >= m)
          break;
        k = d == TAU ? got.p + 1 : d == RHO ? got.q + 1 : d == UAT ? got.q - 1 : got.p - 1;
        n++;
      }
    }
  }
  return calls;
}
} // namespace gref
#endif
