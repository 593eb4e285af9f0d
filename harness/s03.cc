// S03: the same texts and annotations, loaded into every kind of store, give the same answers.
//   --set=texts|notes|blocks|big   which inputs; every kind of store, every range, several read orders
// Text of a range: static stores give from the start of its first token to the start of the token
// after it; dynamic ones likewise, except that what precedes a transaction's first token belongs to it.
#include "ref.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fiver.h"
#include "src/fluffle.h"
#include "src/hazel.h"
#include "src/simple_builder.h"
#include "vx.h"
#include <algorithm>
#include <filesystem>
using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;

struct Note {
  int txn; // given in this transaction, when there are several
  std::string f;
  addr p, q; // global token addresses
  fval v;
};
struct Load {
  std::vector<std::string> pieces;
  std::vector<int> txn; // of each piece
  std::vector<Note> notes;
  bool plain = true; // annotations ascend and do not nest: what several annotation files ask for
};
struct Setup {
  std::string tok, tokr;
  std::string pc = "null", vc = "null", tc = "null";
  addr chunk = 7;
};
// ------------------------------------------------------------------ what must be shown
struct Seg {
  std::string text;
  std::vector<addr> at;
};
struct Model {
  std::vector<Seg> segs; // one per transaction (dynamic) or one (static)
  std::map<addr, ref::List> lists;
  std::map<addr, std::string> names;
  std::set<std::string> twice; // feature/p/q given more than once: any of the values
  addr n = 0;
  std::vector<std::string> tokenless; // pieces
};
static bool sep(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static Model model(const Load &l, const Setup &s, bool dynamic, bool split) {
  static std::map<std::string, std::pair<std::shared_ptr<Featurizer>, std::shared_ptr<Tokenizer>>> memo;
  auto &m = memo[s.tok + ":" + s.tokr];
  if (!m.first) {
    m.first = Featurizer::make("hashing", "");
    m.second = Tokenizer::make(s.tok, s.tokr);
  }
  auto fz = m.first;
  auto tk = m.second;
  Model r;
  std::map<addr, ref::List> raw;
  auto put = [&](const std::string &name, addr f, addr p, addr q, fval v) {
    r.names[f] = name;
    for (auto &o : raw[f])
      if (o.p == p && o.q == q) {
        if (o.v != v)
          r.twice.insert(vx::sfmt("%ld/%ld/%ld", (long)f, (long)p, (long)q));
        return;
      }
    raw[f].push_back(ref::Iv(p, q, v));
  };
  int last = -1;
  for (size_t i = 0; i < l.pieces.size(); i++) {
    int t = split ? l.txn[i] : 0;
    if (r.segs.empty() || (dynamic && t != last))
      r.segs.push_back(Seg());
    last = t;
    Seg &g = r.segs.back();
    std::string x = l.pieces[i];
    if (x.empty())
      continue;
    if (!sep(x.back()))
      x += "\n";
    size_t off = g.text.size();
    g.text += x;
    addr base = r.n;
    auto toks = tk->tokenize(fz, x);
    for (auto &k : toks) {
      if (base + k.address == r.n) {
        g.at.push_back(off + k.offset);
        r.n++;
      }
      put(vx::sfmt("feature of '%s'", vx::esc(x.substr(k.offset, k.length)).c_str()), k.feature, base + k.address, base + k.address, 0.0);
    }
    if (toks.empty())
      r.tokenless.push_back(l.pieces[i]);
  }
  if (dynamic)
    for (auto &g : r.segs)
      if (g.text.size() && g.text.back() != '\n')
        g.text += "\n";
  for (auto &n : l.notes)
    if (n.p <= n.q)
      put(n.f, fz->featurize(n.f), n.p, n.q, n.v);
  for (auto &x : raw)
    r.lists[x.first] = ref::minimal(x.second);
  r.lists[fz->featurize("absent:")] = {};
  return r;
}
static std::string text(const Model &m, bool dynamic, addr p, addr q) {
  std::string s;
  addr base = 0;
  if (p < 0)
    p = 0;
  if (q >= m.n)
    q = m.n - 1;
  for (auto &g : m.segs) {
    addr n = g.at.size();
    if (n && p <= q && p < base + n && q >= base) {
      size_t a = p <= base ? (dynamic ? 0 : g.at[0]) : g.at[p - base];
      size_t b = q - base + 1 >= n ? g.text.size() : g.at[q - base + 1];
      s += g.text.substr(a, b - a);
    }
    base += n;
  }
  return s;
}
// Text without tokens has no address: a dynamic store may show it with its neighbours, or not.
static std::string trim(const std::string &s, const std::vector<std::string> &tokenless) {
  std::string t = s, r;
  for (auto &x : tokenless)
    for (size_t i; (i = t.find(x)) != std::string::npos;)
      t.erase(i, x.size());
  for (char c : t)
    if (!sep(c))
      r += c;
  return r;
}
// ------------------------------------------------------------------ the stores
struct Parts {
  std::shared_ptr<Featurizer> fz;
  std::shared_ptr<Tokenizer> tk;
  std::shared_ptr<Compressor> pc, vc, tc;
  explicit Parts(const Setup &s) {
    fz = Featurizer::make("hashing", "");
    tk = Tokenizer::make(s.tok, s.tokr);
    pc = Compressor::make(s.pc, "");
    vc = Compressor::make(s.vc, "");
    tc = Compressor::make(s.tc, "");
  }
};
static bool given(std::string *e, const char *what) {
  *e = what;
  return false;
}
static bool build(const std::string &dir, const Load *l, const Setup &s, bool small, std::string *e) {
  Parts x(s);
  auto working = Working::mkdir(dir, e);
  if (!working)
    return false;
  auto b = small ? SimpleBuilder::make(working, x.fz, x.tk, e, 1, 1, s.pc, "", s.vc, "", s.tc, "")
                 : SimpleBuilder::make(working, x.fz, x.tk, e, 1 << 28, 1 << 28, s.pc, "", s.vc, "", s.tc, "");
  if (!b)
    return false;
  addr n = 0;
  if (l) {
    for (auto &t : l->pieces) {
      addr p, q;
      if (!b->add_text(t, &p, &q, e))
        return false;
      if (p <= q) {
        if (p != n)
          return given(e, "add_text reports another start than the next address");
        n = q + 1;
      } else if (p != q + 1)
        return given(e, "add_text of nothing reports an odd interval");
    }
    for (auto &o : l->notes)
      if (!b->add_annotation(o.f, o.p, o.q, o.v, e))
        return false;
  }
  return b->finalize(e);
}
// base: the address transactions' texts start from; global addresses before this transaction's text are absolute.
static bool fill(Warren *w, const Load &l, int txn, addr *visible, std::string *e) {
  addr from = *visible, staged = -1;
  for (size_t i = 0; i < l.pieces.size(); i++) {
    if (txn >= 0 && l.txn[i] != txn)
      continue;
    addr p, q;
    if (!w->appender()->append(l.pieces[i], &p, &q, e))
      return false;
    if (p <= q) {
      if (staged < 0)
        staged = p - (*visible - from);
      if (p != staged + (*visible - from))
        return given(e, "pieces of a transaction are not contiguous");
      *visible += q - p + 1;
    }
  }
  for (auto &o : l.notes)
    if (txn < 0 || o.txn == txn) {
      addr p = o.p >= from ? staged + o.p - from : o.p, q = o.q >= from ? staged + o.q - from : o.q;
      if (!w->annotator()->annotate(w->featurizer()->featurize(o.f), p, q, o.v, e))
        return false;
    }
  return true;
}
static bool run_txns(W w, const Load &l, bool split, std::string *e) {
  int n = split ? (l.txn.size() ? l.txn.back() + 1 : 0) : 1;
  for (auto &o : l.notes)
    if (split)
      n = std::max(n, o.txn + 1);
  addr visible = 0;
  for (int t = 0; t < n; t++) {
    if (!w->transaction(e) || !fill(w.get(), l, split ? t : -1, &visible, e) || !w->ready(e))
      return false;
    w->commit();
  }
  return true;
}
static std::shared_ptr<Bigwig> bigwig(const std::string &dir, const Setup &s, std::string *e) {
  Parts x(s);
  auto working = Working::mkdir(dir, e);
  if (!working)
    return nullptr;
  auto fl = Fluffle::make();
  fl->merge = false;
  auto b = Bigwig::make(working, x.fz, x.tk, fl, e, x.pc, x.vc, x.tc);
  if (b)
    b->merge(false);
  return b;
}
static std::vector<std::string> shard_files(const std::string &dir, const char *kind) {
  std::vector<std::string> v;
  for (auto &f : fs::directory_iterator(dir))
    if (f.path().filename().string().compare(0, 6, std::string(kind) + ".") == 0)
      v.push_back(f.path().filename().string());
  std::sort(v.begin(), v.end());
  return v;
}
struct Opened {
  W w;
  std::vector<std::shared_ptr<void>> keep;
};
struct Kind {
  const char *name;
  bool dynamic, split, plain_only, single; // single: one shard
};
static const Kind KINDS[] = {
    {"builder", false, false, false, true},      {"builder-files", false, false, true, true}, {"static", false, false, false, true},
    {"static-txns", false, true, false, true},   {"bigwig", true, false, false, true},        {"bigwig-txns", true, true, false, false},
    {"reopened", true, true, false, false},      {"fiver", true, false, false, true},         {"fivers-merged", true, true, false, true},
    {"hazel", true, false, false, true},         {"hazels", true, true, false, false},        {"hazels-merged", true, true, false, true},
    {"hazel-of-merged", true, true, false, true}};
static const int NKINDS = sizeof(KINDS) / sizeof(KINDS[0]);

static Opened open(int kind, const std::string &dir, const Load &l, const Setup &s, std::string *e) {
  Opened o;
  fs::remove_all(dir);
  std::string k = KINDS[kind].name;
  Parts x(s);
  if (k == "builder" || k == "builder-files") {
    if (build(dir, &l, s, k != "builder", e))
      o.w = Warren::make(dir, e);
  } else if (k == "static" || k == "static-txns") {
    if (!build(dir, nullptr, s, false, e))
      return o;
    W w = Warren::make(dir, e);
    if (!w || !run_txns(w, l, k == "static-txns", e))
      return o;
    w = nullptr;
    o.w = Warren::make(dir, e);
  } else if (k == "fiver") {
    auto f = Fiver::make(nullptr, x.fz, x.tk, e, x.pc, x.vc, x.tc);
    if (!f)
      return o;
    f->relocate(0);
    if (!run_txns(f, l, false, e))
      return o;
    o.w = f;
  } else {
    auto b = bigwig(dir, s, e);
    if (!b || !run_txns(b, l, k != "bigwig" && k != "hazel", e))
      return o;
    if (k == "bigwig" || k == "bigwig-txns") {
      o.w = b;
      return o;
    }
    b = nullptr;
    auto working = Working::make(dir, e);
    if (k == "fivers-merged" || k == "hazel-of-merged") {
      std::vector<std::shared_ptr<Fiver>> f;
      for (auto &n : shard_files(dir, "fiver")) {
        auto y = Fiver::unpickle(n, working, x.fz, x.tk, e, x.pc, x.vc, x.tc);
        if (!y)
          return o;
        y->start();
        f.push_back(y);
      }
      if (f.size() > 1) {
        auto m = Fiver::merge(f, e, x.pc, x.vc, x.tc);
        if (!m || !m->pickle(e))
          return o;
        for (auto &y : f)
          y->discard();
      }
    }
    if (k == "hazel" || k == "hazels" || k == "hazels-merged" || k == "hazel-of-merged")
      for (auto &n : shard_files(dir, "fiver")) {
        auto y = Fiver::unpickle(n, working, x.fz, x.tk, e, x.pc, x.vc, x.tc);
        if (!y)
          return o;
        y->start();
        if (!y->hazel(e, s.chunk))
          return o;
        y->discard();
      }
    if (k == "hazels-merged") {
      auto n = shard_files(dir, "hazel");
      if (n.size() > 1) {
        if (!Hazel::merge(working, n, "", e))
          return o;
        for (auto &f : n)
          working->remove(f);
      }
    }
    auto n = shard_files(dir, "hazel");
    if (k == "hazel" && n.size() == 1) // on its own, as a single file
      o.w = Warren::make(dir + "/" + n[0], e);
    else
      o.w = Warren::make(dir, e);
  }
  return o;
}
// ------------------------------------------------------------------ asking
static int s_loads, s_stores, s_reads, s_pairs, s_lists, s_cursors;
typedef std::vector<std::pair<addr, addr>> Ranges;
struct Ask {
  const Load &l;
  const Setup &s;
  const Kind &k;
  const Model &m;
  bool ok = true;
  std::string ident() const {
    std::string r = std::string(k.name) + " (" + s.tok + (s.tokr.size() ? ":" + s.tokr : "") + (s.tc == "null" ? "" : " " + s.tc) + (s.pc == "null" ? "" : " " + s.pc) + ") of";
    for (size_t i = 0; i < l.pieces.size(); i++)
      r += (i && k.split && l.txn[i] != l.txn[i - 1] ? " | \"" : " \"") +
           (l.pieces[i].size() < 40 ? vx::esc(l.pieces[i]) : vx::sfmt("%s... of %zu", vx::esc(l.pieces[i].substr(0, 10)).c_str(), l.pieces[i].size())) + "\"";
    if (l.notes.size() <= 4)
      for (auto &n : l.notes)
        r += vx::sfmt(" %s[%ld,%ld]=%g", n.f.c_str(), (long)n.p, (long)n.q, n.v);
    return r;
  }
  void wrong(const std::string &what, const std::string &det) {
    ok = false;
    vx::viol(std::string(k.name) + ":" + s.tok + s.tokr + ":" + what, ident() + ": " + det);
  }
  std::map<std::pair<addr, addr>, std::string> memo;
  const std::string &want(addr p, addr q) {
    auto it = memo.find({p, q});
    if (it == memo.end())
      it = memo.emplace(std::make_pair(p, q), text(m, k.dynamic, p, q)).first;
    return it->second;
  }
  bool trimmed() const { return m.tokenless.size() && k.dynamic && k.split; }
  void read(Txt *t, addr p, addr q, const char *order) {
    vx::count(s_reads);
    std::string got = t->translate(p, q);
    const std::string &w = want(p, q);
    if (trimmed() ? trim(got, m.tokenless) == trim(w, m.tokenless) : got == w)
      return;
    wrong(std::string("text:") + order, vx::sfmt("text of [%ld,%ld], read %s, is %zu bytes \"%s\" instead of %zu bytes \"%s\"", (long)p, (long)q, order, got.size(),
                                                 vx::esc(got.substr(0, 40)).c_str(), w.size(), vx::esc(w.substr(0, 40)).c_str()));
  }
  void texts(Txt *t, const Ranges &r, bool pairs) {
    addr n = t->tokens();
    if (n != m.n)
      wrong("tokens", vx::sfmt("%ld tokens instead of %ld", (long)n, (long)m.n));
    addr p = -7, q = -7;
    bool any = t->range(&p, &q);
    if (any != (m.n > 0) || (any && (p != 0 || q != m.n - 1)))
      wrong("range", vx::sfmt("addresses %s[%ld,%ld] instead of [0,%ld]", any ? "" : "none ", (long)p, (long)q, (long)m.n - 1));
    for (size_t i = 0; i < r.size() && ok; i++)
      read(t, r[i].first, r[i].second, "upwards");
    for (size_t i = r.size(); i > 0 && ok; i--)
      read(t, r[i - 1].first, r[i - 1].second, "downwards");
    if (pairs)
      for (auto &a : r)
        for (auto &b : r) {
          if (!ok)
            return;
          vx::count(s_pairs);
          read(t, a.first, a.second, "in pairs");
          read(t, b.first, b.second, "after another");
        }
  }
  void lists(Idx *x, bool cursors) {
    for (auto &f : m.lists) {
      if (!ok)
        return;
      vx::count(s_lists);
      const ref::List &l = f.second;
      auto nm = m.names.find(f.first);
      std::string name = nm == m.names.end() ? "an absent feature" : nm->second;
      auto h = x->hopper(f.first);
      if (!h) {
        wrong("hopper", name + " has no cursor");
        return;
      }
      auto show = [](addr p, addr q, fval v) { return vx::sfmt("[%ld,%ld]=%g", (long)p, (long)q, v); };
      auto same = [&](const ref::Iv &i, addr p, addr q, fval v) {
        if (i.p != p || i.q != q)
          return false;
        if (p <= minfinity || p >= maxfinity)
          return true;
        return i.v == v || m.twice.count(vx::sfmt("%ld/%ld/%ld", (long)f.first, (long)p, (long)q));
      };
      addr p, q;
      fval v;
      size_t i = 0;
      for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && i < l.size(); h->tau(p + 1, &p, &q, &v), i++)
        if (!same(l[i], p, q, v)) {
          wrong("list", name + vx::sfmt(": annotation %zu is ", i) + show(p, q, v) + " instead of " + show(l[i].p, l[i].q, l[i].v));
          return;
        }
      if (p < maxfinity || i < l.size()) {
        wrong("list", name + vx::sfmt(" has %s than %zu annotations", p < maxfinity ? "more" : "fewer", l.size()));
        return;
      }
      addr c = x->count(f.first);
      if (k.single && c != (addr)l.size())
        wrong("count", name + vx::sfmt(" is counted %ld times instead of %zu", (long)c, l.size()));
      if (!cursors)
        continue;
      std::vector<addr> keys = {minfinity, minfinity + 1, maxfinity - 1, maxfinity};
      for (addr a = -1; a <= m.n; a++)
        keys.push_back(a);
      for (int d = 0; d < 4; d++)
        for (addr key : keys) {
          vx::count(s_cursors);
          if (d == 0)
            h->tau(key, &p, &q, &v);
          else if (d == 1)
            h->rho(key, &p, &q, &v);
          else if (d == 2)
            h->uat(key, &p, &q, &v);
          else
            h->ohr(key, &p, &q, &v);
          ref::Iv w = ref::select(l, d, key);
          if (!same(w, p, q, v)) {
            static const char *D[] = {"tau", "rho", "uat", "ohr"};
            wrong("cursor", name + vx::sfmt(": %s(%ld) is ", D[d], (long)key) + show(p, q, v) + " instead of " + show(w.p, w.q, w.v));
            return;
          }
        }
    }
  }
};
static void check_load(const Load &l, const Setup &s, const Ranges &ranges, bool pairs, bool cursors, uint64_t kinds, const std::function<const char *(const Kind &)> &skip = nullptr) {
  vx::count(s_loads);
  static int serial = 0;
  for (int k = 0; k < NKINDS; k++) {
    const Kind &kd = KINDS[k];
    if (!(kinds >> k & 1) || (kd.plain_only && !l.plain))
      continue;
    if (skip && skip(kd))
      continue;
    Model m = model(l, s, kd.dynamic, kd.split);
    Ask a{l, s, kd, m};
    vx::what("loading " + a.ident());
    std::string dir = vx::sfmt("w%d_%d", vx::me, serial++), e;
    vx::count(s_stores);
    {
      Opened o = open(k, dir, l, s, &e);
      if (!o.w)
        a.wrong("refused", "not loaded: " + e);
      else {
        vx::what("reading " + a.ident());
        if (!o.w->started())
          o.w->start();
        a.lists(o.w->idx().get(), cursors);
        if (a.ok)
          a.texts(o.w->txt().get(), ranges, pairs && (!kd.dynamic || kd.single));
        if (a.ok && strcmp(kd.name, "hazel") && strcmp(kd.name, "fiver")) {
          auto c = o.w->clone(&e);
          if (!c)
            a.wrong("clone", "not cloned: " + e);
          else {
            if (!c->started())
              c->start();
            a.texts(c->txt().get(), ranges, false);
            a.lists(c->idx().get(), false);
            c->end();
          }
        }
        o.w->end();
      }
    }
    fs::remove_all(dir);
  }
}
static Ranges all_ranges(addr n) {
  Ranges r;
  for (addr p = -1; p <= n; p++)
    for (addr q = p; q <= n; q++)
      r.push_back({p, q});
  r.push_back({0, maxfinity});
  r.push_back({0, maxfinity - 1});
  r.push_back({minfinity + 1, maxfinity});
  r.push_back({n / 2, maxfinity - 1});
  r.push_back({1, 0});
  return r;
}
static std::string words(int n, const std::string &w) {
  std::string s;
  for (int i = 0; i < n; i++)
    s += (i ? " " : "") + w;
  return s;
}
static const uint64_t ALL = (1u << NKINDS) - 1;

int main(int argc, char **argv) {
  std::string set = vx::arg(argc, argv, "set", "texts");
  int depth = atoi(vx::arg(argc, argv, "depth", "3").c_str());
  std::string want = vx::arg(argc, argv, "tok", "");
  vx::parse(argc, argv);
  s_loads = vx::stat_id("loads");
  s_stores = vx::stat_id("stores");
  s_reads = vx::stat_id("reads");
  s_pairs = vx::stat_id("read_pairs");
  s_lists = vx::stat_id("annotation_lists");
  s_cursors = vx::stat_id("cursor_calls");
  if (set == "texts") {
    static const std::vector<std::string> P = {"", "a", "A b", "c aB", " . ", "a ", std::string("a\0b", 3), ". b", "\xc3\xa9 A", "<t>x</t>", "\xe6\xbc\xa2\xe5\xad\x97", "\xff" "a\xc3", "a\xcc\x81" "b", "\xe3", "\xe6\xbc\xa2", "<a b", "c>", "</a", "<", "a<b", "&lt;"};
    static const Setup S[] = {{"ascii", "noxml", "null", "null", "null", 3}, {"ascii", "xml", "null", "null", "zlib", 1}, {"utf8", "", "post", "zlib", "null", 5}};
    std::vector<std::vector<int>> seqs{{}};
    for (size_t i = 0; i < seqs.size(); i++)
      if ((int)seqs[i].size() < depth)
        for (size_t p = 0; p < P.size(); p++) {
          if ((int)seqs[i].size() >= 2 && p >= 8 && depth < 4) // the third from the simpler ones
            continue;
          auto x = seqs[i];
          x.push_back(p);
          seqs.push_back(x);
        }
    vx::run("texts", seqs.size() * 3, [&](uint64_t c) {
      const Setup &s = S[c % 3];
      Load l;
      for (int p : seqs[c / 3])
        l.txn.push_back(l.pieces.size()), l.pieces.push_back(P[p]);
      // each piece is annotated as a whole, each token for itself
      Model m = model(l, s, false, false);
      addr n = 0;
      for (size_t i = 0; i < l.pieces.size(); i++) {
        Load one;
        one.pieces = {l.pieces[i]};
        one.txn = {0};
        addr k = model(one, s, false, false).n;
        if (k)
          l.notes.push_back({(int)i, "doc:", n, n + k - 1, (fval)(i + 1)});
        for (addr j = 0; j < k; j++)
          l.notes.push_back({(int)i, "t:", n + j, n + j, (fval)(n + j)});
        n += k;
      }
      check_load(l, s, all_ranges(n), seqs[c / 3].size() <= 2 && n <= 3, false, ALL);
      if (c % 997 == 5)
        vx::sample(Ask{l, s, KINDS[c % NKINDS], m}.ident());
    });
  } else if (set == "notes") {
    // every sequence of up to `depth` annotations over four addresses
    std::vector<std::pair<addr, addr>> iv;
    for (addr p = 0; p < 4; p++)
      for (addr q = p; q < 4; q++)
        iv.push_back({p, q});
    std::vector<std::vector<int>> seqs{{}};
    for (size_t i = 0; i < seqs.size(); i++)
      if ((int)seqs[i].size() < depth)
        for (size_t p = 0; p < iv.size(); p++) {
          auto x = seqs[i];
          x.push_back(p);
          seqs.push_back(x);
        }
    // shape 0: text and notes together; 1: text in two transactions, notes in a third; 2: notes spread over the transactions
    vx::run("notes", seqs.size() * 3, [&](uint64_t c) {
      int shape = c % 3;
      Setup s{"ascii", "noxml"};
      if (c % 2)
        s.pc = "post", s.vc = "zlib";
      Load l;
      l.pieces = {"a b", "c d"};
      l.txn = {0, shape ? 1 : 0};
      int i = 0;
      for (int p : seqs[c / 3]) {
        auto x = iv[p];
        int t = shape == 0 ? 0 : shape == 1 ? 2 : i;
        if (shape == 2 && x.second >= 2 && t == 0)
          t = 1; // not before its text
        for (auto &o : l.notes)
          l.plain &= o.p < x.first && o.q < x.second;
        l.notes.push_back({t, "n:", x.first, x.second, (fval)(i + 1)});
        i++;
      }
      uint64_t kinds = ALL;
      if (shape) // the same input to those that take it at once
        for (int k = 0; k < NKINDS; k++)
          if (!KINDS[k].split)
            kinds &= ~(1ull << k);
      check_load(l, s, {{0, 3}, {2, 2}}, false, true, kinds);
    });
  } else if (set == "blocks") {
    // around the blocks the stores index their text by
    static const int N[] = {1, 511, 512, 513, 514, 1023, 1024, 1025, 2047, 2048, 2049};
    const int M = sizeof(N) / sizeof(N[0]);
    static const char *WORD[] = {"a", "aB"};
    std::vector<std::vector<int>> seqs;
    for (int i = 0; i < M; i++)
      seqs.push_back({N[i]});
    for (int i = 0; i < M; i++)
      for (int j = 0; j < M; j++)
        seqs.push_back({N[i], N[j]});
    if (depth > 2)
      for (int i = 0; i < M; i++)
        for (int j = 0; j < M; j++)
          for (int k = 0; k < M; k++)
            seqs.push_back({N[i], N[j], N[k]});
    vx::run("blocks", seqs.size() * 2, [&](uint64_t c) {
      Setup s{"ascii", "noxml"};
      if (c % 2)
        s = Setup{"utf8", "", "post", "post", "zlib", 1000};
      Load l;
      addr n = 0;
      for (int k : seqs[c / 2]) {
        int i = l.pieces.size();
        l.txn.push_back(i);
        l.pieces.push_back(i == 1 ? ". " + words(k, WORD[c % 2]) + " , " : words(k, WORD[c % 2]));
        l.notes.push_back({i, "doc:", n, n + k - 1, (fval)i});
        n += k;
      }
      std::vector<addr> at = {0, n / 2, n - 1};
      for (addr b = 512; b <= n; b += 512)
        for (addr d = -1; d <= 1; d++)
          if (b + d < n && (b <= 1024 || b % 1024 == 0))
            at.push_back(b + d);
      std::sort(at.begin(), at.end());
      at.erase(std::unique(at.begin(), at.end()), at.end());
      Ranges r;
      for (size_t i = 0; i < at.size(); i++)
        for (size_t j = i; j < at.size(); j++)
          r.push_back({at[i], at[j]});
      uint64_t pairs = 0;
      for (int k = 0; k < NKINDS; k++)
        if (!strcmp(KINDS[k].name, "builder"))
          pairs |= 1ull << k;
      check_load(l, s, r, false, false, ALL);
      if (seqs[c / 2].size() == 1 || (c / 2) % 11 == 3)
        check_load(l, s, r, true, false, pairs);
    });
  } else if (set == "big") {
    // more than a chunk of text, with every compressor
    static const char *TC[] = {"null", "zlib"};
    static const char *PCV[] = {"null", "post", "zlib"};
    vx::run("big", 2 * 3 * 3, [&](uint64_t c) {
      Setup s{"ascii", "noxml", PCV[c / 2 % 3], PCV[c / 2 % 3], TC[c % 2], 64 * 1024};
      int shape = c / 6;
      std::string w(1000, 'q'), v(shape == 1 ? 1024 * 1024 : 3000, 'r');
      Load l;
      l.pieces = {words(700, w), words(shape == 2 ? 1049 : 400, w) + " " + v, words(300, w)};
      l.txn = {0, 1, 2};
      Model m = model(l, s, false, false);
      l.notes = {{0, "doc:", 0, 699, 1}, {1, "doc:", 700, m.n - 301, 2}, {2, "doc:", m.n - 300, m.n - 1, 3}};
      std::vector<addr> at;
      for (addr i = 0; i < m.n; i++)
        if (i < 2 || i > m.n - 2 || i == 700 || i == m.n - 301 || (i >= 1020 && i <= 1050 && i % 3 == 0))
          at.push_back(i);
      Ranges r;
      for (size_t i = 0; i < at.size(); i++)
        for (size_t j = i; j < at.size(); j += 1 + j % 3)
          r.push_back({at[i], at[j]});
      check_load(l, s, r, false, false, ALL);
    });
  }
  return 0;
}
