// Everything a reader can ask a started store, as one canonical string.
#ifndef PROBE_H_
#define PROBE_H_
#include "src/cottontail.h"
#include "vx.h"
#include <string>
#include <vector>

namespace probe {
using cottontail::addr;
using cottontail::fval;
using cottontail::maxfinity;
using cottontail::minfinity;

inline std::string at(addr x) {
  if (x == maxfinity)
    return "+";
  if (x == minfinity)
    return "-";
  return std::to_string((long)x);
}
inline void put(std::string *s, addr p, addr q, addr v) {
  *s += "(" + at(p) + "," + at(q);
  if (p != maxfinity && p != minfinity && v != 0)
    *s += "," + std::to_string((long)v);
  *s += ")";
}
// one cursor: every key in [lo-1, hi+1] and the infinities, in all four directions
inline std::string cursor(cottontail::Hopper *h, addr lo, addr hi) {
  std::string s;
  std::vector<addr> keys = {minfinity, minfinity + 1};
  for (addr k = lo - 1; k <= hi + 1; k++)
    keys.push_back(k);
  keys.push_back(maxfinity - 1);
  keys.push_back(maxfinity);
  const char *names[] = {"tau", "rho", "uat", "ohr"};
  for (int d = 0; d < 4; d++) {
    s += names[d];
    s += ":";
    for (addr k : keys) {
      addr p, q, v;
      if (d == 0)
        h->tau(k, &p, &q, &v);
      else if (d == 1)
        h->rho(k, &p, &q, &v);
      else if (d == 2)
        h->uat(k, &p, &q, &v);
      else
        h->ohr(k, &p, &q, &v);
      put(&s, p, q, v);
    }
    s += " ";
  }
  return s;
}
// the annotations of one feature, in order
inline std::string list(cottontail::Hopper *h) {
  std::string s;
  addr p, q, v;
  int n = 0;
  for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && n < 100000; h->tau(p + 1, &p, &q, &v), n++)
    put(&s, p, q, v);
  return s;
}
struct What {
  bool cursors = true; // all keys, else forward lists only
  bool text = true;    // every [p,q] window, else the whole only
  bool range = true;
  bool count = true;
  bool tokens = true;
};
inline std::string dump(cottontail::Warren *w, const std::vector<std::string> &features, addr lo, addr hi, What what = What()) {
  std::string s;
  auto fz = w->featurizer();
  for (auto &f : features) {
    addr feature = fz->featurize(f);
    auto h = w->idx()->hopper(feature);
    s += f + "=" + (h ? what.cursors ? cursor(h.get(), lo, hi) : list(h.get()) : std::string("null"));
    if (what.count)
      s += vx::sfmt("#%ld", (long)w->idx()->count(feature));
    s += "\n";
  }
  if (what.range) {
    addr p = 0, q = 0;
    bool ok = w->txt()->range(&p, &q);
    s += ok ? "range=" + at(p) + "," + at(q) + "\n" : "range=none\n";
  }
  if (what.tokens)
    s += vx::sfmt("tokens=%ld\n", (long)w->txt()->tokens());
  if (what.text)
    for (addr p = lo; p <= hi; p++)
      for (addr q = p; q <= hi; q++)
        s += vx::sfmt("[%ld,%ld]", (long)p, (long)q) + w->txt()->translate(p, q) + "|";
  s += "all=" + w->txt()->translate(minfinity + 1, maxfinity - 1);
  return s;
}
// the first place two dumps differ
inline std::string diff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i])
    i++;
  size_t l = a.rfind('\n', i ? i - 1 : 0);
  l = l == std::string::npos ? 0 : l + 1;
  size_t from = i > l + 60 ? i - 60 : l;
  std::string head = a.substr(l, std::min<size_t>(12, i - l));
  return "in " + head + "..: expected .." + vx::esc(a.substr(from, 140)) + " got .." + vx::esc(b.substr(from, 140));
}
} // namespace probe
#endif
