// Reference semantics of annotation lists and cursors.
#ifndef REF_H_
#define REF_H_
#include "src/core.h"
#include "src/hopper.h"
#include "vx.h"
#include <algorithm>
#include <string>
#include <vector>

namespace ref {
using cottontail::addr;
using cottontail::fval;
using cottontail::maxfinity;
using cottontail::minfinity;

struct Iv {
  addr p, q;
  fval v;
  Iv() : p(0), q(0), v(0) {}
  Iv(addr p, addr q, fval v = 0.0) : p(p), q(q), v(v) {}
  bool operator==(const Iv &o) const { return p == o.p && q == o.q; }
  bool operator<(const Iv &o) const { return p < o.p || (p == o.p && q < o.q); }
};
typedef std::vector<Iv> List;

inline std::string ks(addr k) {
  if (k == maxfinity)
    return "+inf";
  if (k == minfinity)
    return "-inf";
  return vx::sfmt("%lld", (long long)k);
}
inline std::string str(const Iv &i, bool values = false) {
  std::string s = "[" + ks(i.p) + "," + ks(i.q) + "]";
  if (values)
    s += vx::sfmt("=%g", i.v);
  return s;
}
inline std::string str(const List &l, bool values = false) {
  std::string s = "{";
  for (auto &i : l)
    s += str(i, values);
  return s + "}";
}

// Minimal intervals: drop any interval that strictly contains another; keep one
// copy of equal ones (the last given wins).
inline List minimal(const List &in) {
  List out;
  for (size_t i = 0; i < in.size(); i++) {
    bool keep = true;
    for (size_t j = 0; j < in.size() && keep; j++) {
      if (i == j)
        continue;
      if (in[j] == in[i]) {
        if (j > i)
          keep = false;
      } else if (in[j].p >= in[i].p && in[j].q <= in[i].q)
        keep = false;
    }
    if (keep)
      out.push_back(in[i]);
  }
  std::sort(out.begin(), out.end());
  return out;
}

enum Dir { TAU = 0, RHO, UAT, OHR, LL, RR, NDIR };
inline const char *dname(int d) {
  static const char *n[] = {"tau", "rho", "uat", "ohr", "L", "R"};
  return n[d];
}

// The defining semantics.
inline Iv select(const List &l, int d, addr k) {
  const Iv hi(maxfinity, maxfinity), lo(minfinity, minfinity);
  switch (d) {
  case TAU:
  case RR:
    if (k == minfinity)
      return lo;
    for (auto &i : l)
      if (i.p >= k)
        return i;
    return hi;
  case RHO:
    if (k == minfinity)
      return lo;
    for (auto &i : l)
      if (i.q >= k)
        return i;
    return hi;
  case UAT:
  case LL:
    if (k == maxfinity)
      return hi;
    for (size_t i = l.size(); i-- > 0;)
      if (l[i].q <= k)
        return l[i];
    return lo;
  default:
    if (k == maxfinity)
      return hi;
    for (size_t i = l.size(); i-- > 0;)
      if (l[i].p <= k)
        return l[i];
    return lo;
  }
}

// One real call; L and R report only one end.
inline Iv call(cottontail::Hopper *h, int d, addr k) {
  Iv r;
  switch (d) {
  case TAU:
    h->tau(k, &r.p, &r.q, &r.v);
    break;
  case RHO:
    h->rho(k, &r.p, &r.q, &r.v);
    break;
  case UAT:
    h->uat(k, &r.p, &r.q, &r.v);
    break;
  case OHR:
    h->ohr(k, &r.p, &r.q, &r.v);
    break;
  case LL:
    r.p = r.q = h->L(k);
    break;
  default:
    r.p = r.q = h->R(k);
    break;
  }
  return r;
}
inline bool agrees(const Iv &want, const Iv &got, int d, bool values) {
  if (d == LL)
    return got.p == want.p;
  if (d == RR)
    return got.q == want.q;
  return got.p == want.p && got.q == want.q && (!values || got.v == want.v);
}

// Every antichain of intervals over [0,n) (as lists ordered by start).
inline void antichains_from(addr n, addr p0, addr q0, List &cur,
                            std::vector<List> &out) {
  out.push_back(cur);
  for (addr p = p0; p < n; p++)
    for (addr q = std::max(p, q0); q < n; q++) {
      cur.push_back(Iv(p, q));
      antichains_from(n, p + 1, q + 1, cur, out);
      cur.pop_back();
    }
}
inline std::vector<List> antichains(addr n) {
  std::vector<List> out;
  List cur;
  antichains_from(n, 0, 0, cur, out);
  return out;
}

// Key alphabet around [0,n).
inline std::vector<addr> keys(addr n) {
  std::vector<addr> k{minfinity, minfinity + 1};
  for (addr i = -1; i <= n; i++)
    k.push_back(i);
  k.push_back(maxfinity - 1);
  k.push_back(maxfinity);
  return k;
}
} // namespace ref
#endif
