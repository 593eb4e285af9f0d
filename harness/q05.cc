// Q05: rankings are the true top results of their scoring, at every depth, over every range, with any
// number of threads and however the collection is split into shards.
#include "dyn.h"
#include "meadowlark/forager.h"
#include "meadowlark/meadowlark.h"
#include "src/cottontail.h"
#include "src/parameters.h"
#include "src/ranker.h"
#include "src/ranking.h"
#include "src/simple_builder.h"
#include "src/stats.h"
#include "src/tagging_featurizer.h"
#include "vx.h"
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;
typedef std::vector<RankingResult> Ranking;
typedef std::map<std::string, fval> Weights;
typedef std::pair<addr, addr> Span;

static int s_collections, s_stores, s_rankings, s_results, s_ranges, s_threads, s_stats, s_fusions;

static std::string fmt(double x) { return vx::sfmt("%.12g", x); }
static std::string show(const Ranking &r) {
  std::string s;
  for (auto &x : r)
    s += vx::sfmt("[%ld,%ld in %ld,%ld: ", (long)x.p(), (long)x.q(), (long)x.container_p(), (long)x.container_q()) + fmt(x.score()) + "]";
  return s == "" ? "nothing" : s;
}
static double standard(const std::string &ranker, const std::string &parameter) { return Parameters::from_ranker_name(ranker)->defaults()[ranker + ":" + parameter]; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

static std::vector<Span> solutions(W w, const std::string &gcl) {
  std::vector<Span> all;
  auto h = w->hopper_from_gcl(gcl);
  if (!h)
    return all;
  addr p, q;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q))
    all.push_back({p, q});
  return all;
}

// The scores of the containers that have one, by where the container starts.
struct Scored {
  Span container;
  double score;
  std::set<Span> best; // acceptable (p,q)
};
typedef std::map<addr, Scored> Scores;

// A ranking is right when it is the best `depth` of the scores, ties broken in any way.
static std::string judge(const Ranking &got, const Scores &want, size_t depth, bool containers) {
  if (got.size() != std::min(depth, want.size()))
    return vx::sfmt("%zu results instead of %zu", got.size(), std::min(depth, want.size()));
  std::set<addr> seen;
  double last = 0;
  for (size_t i = 0; i < got.size(); i++) {
    const RankingResult &r = got[i];
    auto s = want.find(containers ? r.container_p() : r.p());
    if (s == want.end())
      return vx::sfmt("result %zu is no container with a score", i);
    if (!seen.insert(s->first).second)
      return vx::sfmt("result %zu is there twice", i);
    if ((containers ? r.container_q() : r.q()) != s->second.container.second)
      return vx::sfmt("result %zu does not end where its container ends", i);
    if (!near(r.score(), s->second.score))
      return vx::sfmt("result %zu has not the score ", i) + fmt(s->second.score);
    if (i && r.score() > last && !near(r.score(), last))
      return vx::sfmt("result %zu is out of order", i);
    last = r.score();
    if (containers && !s->second.best.count({r.p(), r.q()}))
      return vx::sfmt("result %zu is not its container's shortest match", i);
  }
  for (auto &s : want)
    if (!seen.count(s.first) && s.second.score > last && !near(s.second.score, last))
      return vx::sfmt("the container at %ld with score ", (long)s.first) + fmt(s.second.score) + " is missing";
  return "";
}
static void check(const std::string &key, const std::string &where, const Ranking &got, const Scores &want, size_t depth, bool containers) {
  vx::count(s_rankings);
  vx::count(s_results, got.size());
  std::string wrong = judge(got, want, depth, containers);
  if (wrong != "") {
    std::string scores;
    for (auto &s : want)
      scores += vx::sfmt("[%ld,%ld: ", (long)s.second.container.first, (long)s.second.container.second) + fmt(s.second.score) + "]";
    vx::viol(key, where + ": " + wrong + "; got " + show(got) + " for " + scores);
  }
}

// ---- stores ----------------------------------------------------------------------------------------
struct Doc {
  std::string text;
  bool in; // a container, or text outside any
};
typedef std::vector<Doc> Docs;
static std::string show(const Docs &docs) {
  std::string s;
  for (auto &d : docs)
    s += d.in ? "(" + d.text + ")" : " " + d.text + " ";
  return s;
}
static bool put(W w, const Doc &d, addr *from = nullptr, addr *to = nullptr) { // the first word is its title
  addr p, q;
  auto note = [&](const std::string &f, addr b, addr e) { return w->annotator()->annotate(w->featurizer()->featurize(f), b, e, (addr)0); };
  if (!w->appender()->append(d.text, &p, &q))
    return false;
  if (from)
    *from = p, *to = q;
  return (!d.in || (note("doc:", p, q) && note("title:", p, p) && (p == q || note("rest:", p + 1, q))));
}
static const std::vector<std::string> KINDS = {"one", "each", "holes", "simple", "disk"};
static W store(const std::string &kind, const Docs &docs, const std::string &dir) {
  std::error_code ec;
  vx::count(s_stores);
  if (kind == "simple") {
    fs::remove_all(dir, ec);
    auto b = SimpleBuilder::make(Working::mkdir(dir), "tokenizer:name:ascii tokenizer:noxml");
    if (!b)
      return nullptr;
    b->verbose(false);
    for (auto &d : docs) {
      addr p, q;
      if (!b->add_text(d.text, &p, &q))
        return nullptr;
      if (d.in && !(b->add_annotation("doc:", p, q, (addr)0) && b->add_annotation("title:", p, p, (addr)0) && (p == q || b->add_annotation("rest:", p + 1, q, (addr)0))))
        return nullptr;
    }
    if (!b->finalize())
      return nullptr;
    W w = Warren::make(dir);
    if (w)
      w->start();
    return w;
  }
  std::shared_ptr<Working> working;
  if (kind == "disk") {
    fs::remove_all(dir, ec);
    working = Working::mkdir(dir);
  }
  auto b = dyn::in_memory(working, false);
  if (!b)
    return nullptr;
  W w = b->clone();
  if (kind == "one" && !w->transaction())
    return nullptr;
  for (auto &d : docs) {
    if (kind != "one" && !w->transaction())
      return nullptr;
    if (!put(w, d))
      return nullptr;
    if (kind != "one") {
      if (!w->ready())
        return nullptr;
      w->commit();
    }
    if (kind == "holes") { // a document that comes and goes, one that never comes
      addr p, q;
      if (!w->transaction() || !put(w, {"cow cat b b a", true}) || !w->ready())
        return nullptr;
      w->abort();
      if (!w->transaction() || !w->appender()->append("cat dog a b", &p, &q) || !w->annotator()->annotate(w->featurizer()->featurize("doc:"), p, q, (addr)0) || !w->ready())
        return nullptr;
      w->commit();
      w->start();
      std::vector<Span> now = solutions(w, "doc:");
      w->end();
      if (now.empty())
        return nullptr;
      p = now.back().first, q = now.back().second;
      if (!w->transaction() || !w->annotator()->erase(p, q) || !w->ready())
        return nullptr;
      w->commit();
    }
  }
  if (kind == "one") {
    if (!w->ready())
      return nullptr;
    w->commit();
  }
  w->start();
  return w;
}

// ---- shortest-substring ranking --------------------------------------------------------------------
static const std::vector<std::string> QUERIES = {"a", "\"a b\"", "(^ a b)", "(+ a b)", "(... a b)", "(+ (^ a b) c)", "(^ a a)", "(<< a doc:)", "nosuch"};
static Scores ssr_scores(const std::vector<Span> &hits, const std::vector<Span> &containers, double K, addr start = minfinity, addr end = maxfinity) {
  Scores s;
  for (auto &c : containers) {
    if (c.first < start || c.first >= end)
      continue;
    Scored x;
    x.container = c;
    x.score = 0;
    addr shortest = maxfinity;
    for (auto &h : hits)
      if (h.first >= c.first && h.second <= c.second) {
        x.score += 1.0 / (K + (double)(h.second - h.first));
        shortest = std::min(shortest, h.second - h.first);
      }
    for (auto &h : hits)
      if (h.first >= c.first && h.second <= c.second && h.second - h.first == shortest)
        x.best.insert(h);
    if (x.score > 0)
      s[c.first] = x;
  }
  return s;
}
static void tiered(W w, const std::string &at, const std::vector<std::string> &tiers, const std::vector<Span> &containers, size_t depth) {
  double K = standard("ssr", "K");
  Ranking got = tiered_ranking(w, tiers, "doc:", depth);
  vx::count(s_rankings);
  std::vector<Scores> by;
  for (auto &t : tiers)
    by.push_back(ssr_scores(solutions(w, t), containers, K));
  // (tier, container) in any order that respects tiers, then the tier's scores
  std::map<addr, std::pair<size_t, double>> place;
  for (size_t t = tiers.size(); t-- > 0;)
    for (auto &s : by[t])
      place[s.first] = {t, s.second.score};
  std::string where = at + ": tiers";
  for (auto &t : tiers)
    where += " " + t;
  where += vx::sfmt(" depth %zu", depth);
  auto bad = [&](const std::string &m) { vx::viol("tiered ranking is wrong", where + ": " + m + "; got " + show(got)); };
  if (got.size() != std::min(depth, place.size()))
    return bad(vx::sfmt("%zu results instead of %zu", got.size(), std::min(depth, place.size())));
  std::set<addr> seen;
  std::pair<size_t, double> last = {0, 1e300};
  for (auto &r : got) {
    auto x = place.find(r.container_p());
    if (x == place.end() || !seen.insert(x->first).second)
      return bad("a result that matches no tier, or twice");
    if (x->second.first < last.first)
      return bad("a result of an earlier tier after one of a later");
    if (x->second.first == last.first && x->second.second > last.second && !near(x->second.second, last.second))
      return bad("results out of order within a tier");
    last = x->second;
  }
  for (size_t i = 1; i < got.size(); i++)
    if (got[i].score() > got[i - 1].score())
      return bad("scores increase");
  for (auto &x : place)
    if (!seen.count(x.first) && (x.second.first < last.first || (x.second.first == last.first && x.second.second > last.second && !near(x.second.second, last.second))))
      return bad(vx::sfmt("the container at %ld is missing", (long)x.first));
}
static void ssr_store(W w, const std::string &at, bool deep) {
  auto containers = solutions(w, "doc:");
  addr lo = 0, hi = 0;
  for (auto &c : containers)
    hi = std::max(hi, c.second);
  for (auto &query : QUERIES) {
    auto hits = solutions(w, query);
    for (double K : {0.0, 1.0, 3.5}) { // 0: the default
      std::map<std::string, fval> par;
      if (K)
        par[K == 1.0 ? "K" : "ssr:K"] = K;
      double k = K ? K : standard("ssr", "K");
      auto all = ssr_scores(hits, containers, k);
      for (size_t depth = 1; depth <= containers.size() + 1; depth++) {
        std::string where = at + " for " + query + " K " + fmt(k) + vx::sfmt(" depth %zu", depth);
        check("shortest-substring ranking is wrong", where, ssr_ranking(w, query, "doc:", par, depth), all, depth, true);
        check("parallel ranking is wrong", where, parallel_ssr(w, query, "doc:", par, depth, 3), all, depth, true);
        if (K == 1.0 && deep)
          for (addr s = lo; s <= hi + 1; s++)
            for (addr e = s; e <= hi + 2; e++) {
              vx::count(s_ranges);
              check("shortest-substring ranking of a range is wrong", where + vx::sfmt(" range %ld to %ld", (long)s, (long)e),
                    ssr_ranking(w, query, "doc:", par, depth, s, e), ssr_scores(hits, containers, k, s, e), depth, true);
            }
      }
      if (!ssr_ranking(w, query, "doc:", par, 0).empty())
        vx::viol("a ranking of depth 0 is not empty", at);
    }
  }
  for (size_t depth = 1; depth <= containers.size() + 1; depth++) {
    tiered(w, at, {"(^ a b)", "a", "b"}, containers, depth);
    tiered(w, at, {"\"a b\"", "(^ a b)", "(+ a (+ b c))"}, containers, depth);
    tiered(w, at, {"b", "nosuch", "(+ a c)"}, containers, depth);
    tiered(w, at, build_tiers(w, "a b", {}), containers, depth);
    Ranking x = tiered_ranking(w, "a b", "doc:", depth), y = tiered_ranking(w, build_tiers(w, "a b", {}), "doc:", depth);
    if (show(x) != show(y))
      vx::viol("tiers made for a query rank differently", at + ": " + show(x) + " and " + show(y));
  }
}
static std::vector<Doc> menu(int length) {
  std::vector<Doc> m;
  std::vector<std::string> last = {""};
  for (int n = 1; n <= length; n++) {
    std::vector<std::string> next;
    for (auto &s : last)
      for (std::string t : {"a", "b"}) {
        next.push_back(s == "" ? t : s + " " + t);
        m.push_back({next.back(), true});
      }
    last = next;
  }
  m.push_back({"c", true});
  m.push_back({"b a c b", true});
  m.push_back({"a b", false});
  m.push_back({"b", false});
  return m;
}
static void ssr(int docs, int length) {
  auto m = menu(length);
  uint64_t total = 1;
  for (int i = 0; i < docs; i++)
    total *= m.size();
  vx::run(vx::sfmt("ssr docs %d length %d", docs, length), total, [&](uint64_t c) {
    Docs d;
    for (int i = 0; i < docs; i++, c /= m.size())
      d.push_back(m[c % m.size()]);
    vx::count(s_collections);
    vx::what(show(d));
    for (auto &kind : KINDS) {
      if ((kind == "simple" || kind == "disk") && docs > 2)
        continue;
      W w = store(kind, d, vx::sfmt("q05.%d", vx::me));
      std::string at = kind + " store of " + show(d);
      if (!w)
        return vx::viol("a store cannot be made", at);
      ssr_store(w, at, kind == "one" && docs < 3);
      w->end();
    }
  });
}

// ---- many threads over a wide range ----------------------------------------------------------------
// Containers and hits are annotations far apart, so that the ranges of several threads meet between,
// before, inside and after them.
static void wide(int slots) {
  const addr U = 1000000;
  std::vector<addr> places; // where containers may start, relative to range borders
  for (int i = 0; i < slots; i++)
    for (addr d : {(addr)0, U / 3 - 2, U / 2 - 1, 2 * U / 3, U - 3})
      places.push_back(i * U + d);
  // every set of containers given by a choice for each of 4 places: absent, empty, one hit, two hits
  uint64_t total = 1;
  std::vector<std::vector<addr>> sets;
  for (size_t i = 0; i < places.size(); i++)
    for (size_t j = i + 1; j < places.size(); j++)
      for (size_t k = j + 1; k < places.size(); k++)
        if (places[j] - places[i] > 6 && places[k] - places[j] > 6) // containers do not overlap
          sets.push_back({places[i], places[j], places[k]});
  total = sets.size();
  vx::run(vx::sfmt("wide %d", slots), total, [&](uint64_t c) {
    for (int lens = 0; lens < 8; lens++)
      for (int what = 0; what < 27; what++) {
        auto b = dyn::in_memory(nullptr, false);
        W w = b->clone();
        if (!w->transaction())
          return vx::viol("a transaction cannot start", "");
        addr t;
        if (!w->appender()->append("t", &t, &t))
          return vx::viol("an append failed", "");
        std::string at = "containers";
        auto fz = w->featurizer();
        int x = what;
        for (int i = 0; i < 3; i++, x /= 3) {
          addr p = sets[c][i], q = p + ((lens >> i) & 1 ? 5 : 2);
          w->annotator()->annotate(fz->featurize("doc:"), p, q, (addr)0);
          for (int h = 0; h < x % 3; h++)
            w->annotator()->annotate(fz->featurize("hit"), p + 2 * h, p + 2 * h, (addr)0);
          at += vx::sfmt(" %ld-%ld with %d", (long)p, (long)q, x % 3);
        }
        w->annotator()->annotate(fz->featurize("hit"), sets[c][0] + 20, sets[c][0] + 20, (addr)0);
        if (!w->ready())
          return vx::viol("a transaction failed", at);
        w->commit();
        w->start();
        vx::what(at);
        vx::count(s_collections);
        auto want = ssr_scores(solutions(w, "hit"), solutions(w, "doc:"), standard("ssr", "K"));
        for (size_t threads : {1, 2, 3, 4, 0})
          for (size_t depth : {1, 2, 4}) {
            vx::count(s_threads);
            check("parallel ranking is wrong", at + vx::sfmt(" threads %zu depth %zu", threads, depth), parallel_ssr(w, "hit", "doc:", depth, threads), want, depth, true);
          }
        w->end();
        if (lens && what % 5) // all lengths with a fifth of the contents, all contents with one length
          what += 4;
      }
  });
}

// ---- term weighting --------------------------------------------------------------------------------
static std::shared_ptr<Stemmer> s_porter;
static std::string stem(const std::string &t) { return s_porter->stem(t); }
struct Collection {
  std::vector<std::vector<std::string>> docs; // the words of the containers, as the statistics see them
  std::vector<Span> at;
  double first = 1, rest = 1; // the weights of a container's first word and of its others
  double items() const { return docs.size(); }
  double length() const {
    double n = 0;
    for (auto &a : at)
      n += a.second - a.first + 1;
    return n;
  }
  double tf(size_t d, const std::string &t) const {
    double n = 0;
    for (size_t i = 0; i < docs[d].size(); i++)
      if (docs[d][i] == t)
        n += i ? rest : first;
    return n;
  }
  double df(const std::string &t) const {
    double n = 0;
    for (size_t d = 0; d < docs.size(); d++)
      n += std::count(docs[d].begin(), docs[d].end(), t) > 0;
    return n;
  }
  double rsj(const std::string &t) const {
    if (df(t) == 0)
      return 0;
    return std::max(0.0, std::log((items() - df(t) + 0.5) / (df(t) + 0.5)));
  }
  double idf(const std::string &t) const { return df(t) == 0 ? 0 : std::log(items() / df(t)); }
};
static Scores bm25_scores(const Collection &c, const Weights &query, double b, double k1) {
  Scores s;
  double avgl = c.length() / c.items();
  for (size_t d = 0; d < c.docs.size(); d++) {
    double l = c.at[d].second - c.at[d].first + 1, score = 0;
    for (auto &t : query) {
      double tf = c.tf(d, t.first), w = t.second * c.rsj(t.first);
      if (tf > 0)
        score += tf * w / (k1 * ((1 - b) + b * l / avgl) + tf);
    }
    if (score > 0)
      s[c.at[d].first] = {c.at[d], score, {}};
  }
  return s;
}
static const std::vector<std::pair<std::string, Weights>> TERMS = {
    {"cat", {{"cat", 1}}}, {"dog", {{"dog", 1}}}, {"cat dog", {{"cat", 1}, {"dog", 1}}}, {"cow cat cat", {{"cat", 2}, {"cow", 1}}}, {"dog cow cat nosuch", {{"cat", 1}, {"cow", 1}, {"dog", 1}, {"nosuch", 1}}}, {"nosuch", {{"nosuch", 1}}}};
static void check_stats(const std::string &at, std::shared_ptr<Stats> stats, const Collection &c) {
  vx::count(s_stats);
  if (!near(stats->avgl(), c.length() / c.items()))
    vx::viol("the average length is wrong", at + ": " + fmt(stats->avgl()) + " instead of " + fmt(c.length() / c.items()));
  for (std::string t : {"cat", "dog", "cow", "cats", "nosuch", "porter:cat", "porter:dog", "porter:cow", "porter:nosuch"}) {
    if (stats->have("rsj") && !near(stats->rsj(t), c.rsj(t)))
      vx::viol("a term's weight is wrong", at + " rsj of " + t + ": " + fmt(stats->rsj(t)) + " instead of " + fmt(c.rsj(t)));
    if (stats->have("idf") && !near(stats->idf(t), c.idf(t)))
      vx::viol("a term's weight is wrong", at + " idf of " + t + ": " + fmt(stats->idf(t)) + " instead of " + fmt(c.idf(t)));
    std::string got, want;
    auto h = stats->tf_hopper(t);
    addr p, q;
    fval v;
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity; h->tau(p + 1, &p, &q, &v))
      got += vx::sfmt("(%ld,%ld,", (long)p, (long)q) + fmt(v) + ")";
    for (size_t d = 0; d < c.docs.size(); d++)
      if (c.tf(d, t) > 0)
        want += vx::sfmt("(%ld,%ld,", (long)c.at[d].first, (long)c.at[d].second) + fmt(c.tf(d, t)) + ")";
    if (got != want)
      vx::viol("term frequencies are wrong", at + " of " + t + ": " + got + " instead of " + want);
  }
}
static void bm25_store(const std::string &at, std::shared_ptr<Stats> stats, const Collection &c) {
  check_stats(at, stats, c);
  for (auto &t : TERMS)
    for (int set = 0; set < 3; set++) {
      std::map<std::string, fval> par;
      double b = set ? 0.75 : 0.4, k1 = set ? 0.5 : 0.9;
      if (set == 2)
        b = 0, k1 = 2;
      std::string pipe = "";
      {
        par["bm25:b"] = b;
        par[set == 1 ? "bm25:k1" : "k1"] = k1;
      }
      pipe = "bm25:b=" + fmt(b) + " k1=" + fmt(k1);
      auto want = bm25_scores(c, t.second, b, k1);
      for (size_t depth = 1; depth <= c.docs.size() + 1; depth++) {
        par[depth % 2 ? "depth" : "bm25:depth"] = depth;
        if (depth % 2)
          par.erase("bm25:depth");
        else
          par.erase("depth");
        std::string where = at + " for '" + t.first + "' b " + fmt(b) + " k1 " + fmt(k1) + vx::sfmt(" depth %zu", depth);
        check("bm25 ranking is wrong", where, bm25_ranking(stats, t.second, par), want, depth, false);
        Weights stems;
        for (auto &x : t.second)
          stems[stem(x.first)] += x.second;
        check("bm25 ranking of stems is wrong", where, bm25_ranking(stats, stems, par), bm25_scores(c, stems, b, k1), depth, false);
        check("bm25 ranking of a text query is wrong", where, bm25_ranking(stats, t.first, par), want, depth, false);
        std::string error;
        auto r = Ranker::from_pipeline(pipe + vx::sfmt(" depth=%zu bm25", depth), stats, &error);
        if (!r)
          vx::viol("a ranking pipeline is refused", where + ": " + error);
        else // values given in a pipeline are single precision
          for (int twice = 0; twice < 2; twice++) {
            Ranking got = (*r)(t.first);
            auto w2 = bm25_scores(c, t.second, (double)std::stof(fmt(b)), (double)std::stof(fmt(k1)));
            check("a pipeline's ranking is wrong", where, got, w2, depth, false);
          }
        // the same query with its words inflected, stemmed by the pipeline
        auto rs = Ranker::from_pipeline(pipe + vx::sfmt(" depth=%zu stem bm25", depth), stats, &error);
        if (rs) {
          Weights w3;
          for (auto &x : t.second)
            w3[stem(x.first == "nosuch" ? x.first : x.first + "s")] += x.second;
          std::string q3;
          for (auto &x : t.second)
            for (int i = 0; i < x.second; i++)
              q3 += (x.first == "nosuch" ? x.first : x.first + "s") + " ";
          check("a stemming pipeline's ranking is wrong", where, (*rs)(q3), bm25_scores(c, w3, (double)std::stof(fmt(b)), (double)std::stof(fmt(k1))), depth, false);
        }
      }
    }
}
static std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> w;
  std::string t;
  for (char ch : s + " ")
    if (ch != ' ' && ch != '\n')
      t += ch;
    else if (t != "")
      w.push_back(t), t = "";
  return w;
}

static const std::vector<Doc> TEXTS = {{"cat", true}, {"dog cat", true}, {"cat cats dog", true}, {"cow", true}, {"dogs dog cow cat cat", true}, {"cat cow", false}};

static Collection collect(W w, const Docs &docs, const std::string &mode) {
  Collection c;
  c.at = solutions(w, "doc:");
  for (auto &d : docs)
    if (d.in) {
      std::vector<std::string> x;
      for (auto &t : words(d.text)) {
        if (mode == "plain" || mode == "both")
          x.push_back(t);
        if (mode == "stems" || (mode == "both" && stem(t) != t))
          x.push_back(stem(t));
      }
      c.docs.push_back(x);
    }
  return c;
}
static Docs pick(const std::vector<Doc> &m, int n, uint64_t c) {
  Docs d;
  for (int i = 0; i < n; i++, c /= m.size())
    d.push_back(m[c % m.size()]);
  return d;
}
static void lmd(const std::string &at, W w, const Collection &c, const Docs &all) {
  double tokens = 0;
  std::map<std::string, double> count;
  for (auto &d : all)
    for (auto &t : words(d.text))
      tokens++, count[t]++;
  for (auto &t : TERMS) {
    if (t.first.find("nosuch") != std::string::npos)
      continue;
    for (double mu : {1.5, 100.0}) {
      Scores want;
      for (size_t d = 0; d < c.docs.size(); d++) {
        double l = c.at[d].second - c.at[d].first + 1, score = 0;
        for (auto &q : t.second)
          if (c.tf(d, q.first) > 0)
            score += q.second * (std::log(mu + c.tf(d, q.first) * tokens / count[q.first]) - std::log(mu + l));
        if (score > 1e-12)
          want[c.at[d].first] = {c.at[d], score, {}};
        else if (score > -1e-12)
          goto next; // neither is wrong
      }
      for (size_t depth = 1; depth <= c.docs.size() + 1; depth++) {
        check("language-model ranking is wrong", at + " for '" + t.first + "' mu " + fmt(mu) + vx::sfmt(" depth %zu", depth),
              lmd_ranking(w, t.second, {{"lmd:mu", mu}, {"depth", (fval)depth}}), want, depth, false);
        check("language-model ranking is wrong", at + " for '" + t.first + "' mu " + fmt(mu) + vx::sfmt(" depth %zu", depth),
              lmd_ranking(w, t.first, {{"mu", mu}, {"lmd:depth", (fval)depth}}), want, depth, false);
      }
    next:;
    }
  }
}
static void product(const std::string &at, W w, const Collection &c, bool convert) {
  for (auto &t0 : TERMS) {
    auto t = t0;
    if (convert) { // only the stems are there
      t.second.clear();
      for (auto &x : t0.second)
        t.second[stem(x.first)] += x.second;
    }
    Scores want;
    for (size_t d = 0; d < c.docs.size(); d++) {
      double score = 0;
      for (auto &q : t.second)
        score += q.second * c.tf(d, q.first);
      if (score > 0)
        want[c.at[d].first] = {convert ? Span(c.at[d].first, c.at[d].first) : c.at[d], score, {}};
    }
    for (size_t depth = 1; depth <= c.docs.size() + 1; depth++) {
      check("product ranking is wrong", at + " for '" + t.first + vx::sfmt("' depth %zu", depth), product_ranking(w, t.second, {{"depth", (fval)depth}}, "tf", convert), want, depth, false);
      if (!convert)
        check("product ranking is wrong", at + " for '" + t.first + vx::sfmt("' depth %zu", depth), product_ranking(w, t.first, {{"tf:depth", (fval)depth}}, "tf", convert), want, depth, false);
    }
    check("product ranking is wrong", at + " for '" + t.first + "' with no depth", convert ? product_ranking(w, t.second, {}, "tf", convert) : product_ranking(w, t.first, "tf", convert), want, 1000, false);
  }
}
static void terms(int docs) {
  uint64_t total = 1;
  for (int i = 0; i < docs; i++)
    total *= TEXTS.size();
  vx::run(vx::sfmt("terms %d", docs), total, [&](uint64_t ci) {
    Docs d = pick(TEXTS, docs, ci);
    vx::count(s_collections);
    vx::what(show(d));
    for (auto &kind : KINDS) {
      if ((kind == "simple" || kind == "disk") && docs > 3)
        continue;
      for (std::string how : {"tf-df", "tf-idf", "tf-idf-stems", "tf-idf-only", "tf", "tf-each", "field 1 1", "field 2 0.5", "field 3 0", "field 0 1"}) {
        if (how == "tf-each" && kind != "each")
          continue;
        std::string at = kind + " store with " + how + " of " + show(d), error;
        W w = store(kind, d, vx::sfmt("q05.%d", vx::me));
        if (!w)
          return vx::viol("a store cannot be made", at);
        if (!w->set_default_container("doc:") || !w->set_stemmer(s_porter))
          return vx::viol("a parameter cannot be set", at);
        std::string mode = how == "tf-idf" ? "both" : "stems";
        Collection c = collect(w, d, mode);
        bool ok = true;
        if (how.compare(0, 5, "field") == 0) {
          c.first = std::stod(how.substr(6, 1)), c.rest = std::stod(how.substr(8));
          if (!w->set_parameter("content", "doc:") || !w->set_parameter("fields", "title:\trest:") || !w->set_parameter("weights", how.substr(6, 1) + "\t" + how.substr(8)))
            return vx::viol("a parameter cannot be set", at);
          ok = tf_field_annotations(w, &error);
        } else if (how == "tf-df")
          ok = tf_df_annotations(w, &error);
        else if (how == "tf-idf")
          ok = tf_idf_annotations(w, &error);
        else if (how == "tf-idf-stems")
          ok = tf_idf_annotations(w, &error, false);
        else if (how == "tf-idf-only") // without relevance weights
          ok = tf_idf_annotations(w, &error, false, true, false);
        else if (how == "tf")
          ok = tf_annotations(w, &error);
        else
          for (auto &a : c.at)
            ok = ok && tf_annotations(w, &error, a.first, a.second);
        if (c.docs.empty()) {
          if (ok && how != "tf-each" && how.compare(0, 6, "tf-idf"))
            vx::viol("statistics are made for no items", at);
          w->end();
          continue;
        }
        if (!ok && how.compare(0, 6, "tf-idf") == 0 && !w->working()) {
          w->end(); // statistics of this kind need somewhere for a temporary file
          continue;
        }
        if (!ok)
          return vx::viol("statistics cannot be made", at + ": " + error);
        w->end();
        if (kind == "simple") { // a static store is read as it was when it was opened
          w = Warren::make(vx::sfmt("q05.%d", vx::me));
          if (!w)
            return vx::viol("a store cannot be opened again", at);
        }
        w->start();
        auto stats = Stats::make(w, &error);
        if (!stats)
          return vx::viol("statistics are not found", at + ": " + error);
        if (stats->have("rsj") != (how != "tf-idf-only") || !stats->have("idf") || (how.compare(0, 6, "tf-idf") == 0 && stats->have("unstemmed") != (how == "tf-idf")))
          vx::viol("statistics are not the ones that were made", at);
        if (how == "tf-idf-only") {
          check_stats(at, stats, c);
          w->end();
          continue;
        }
        bm25_store(at, stats, c);
        if (how == "tf-idf") {
          lmd(at, w, c, d);
          product(at, w, c, false);
        }
        if (how == "tf-df")
          product(at, w, c, true);
        w->end();
      }
    }
  });
}

// Enough items and terms that a ranking can leave some out unscored: every sequence of items holding any of three terms.
static void spread(int docs) {
  std::vector<Doc> texts = {{"yak", true}, {"cat cat cat", true}, {"cow cow cow", true}};
  for (int in = 1; in < 8; in++) {
    std::string s = "yak";
    for (int i = 0; i < 3; i++)
      if (in >> i & 1)
        s += std::string(" ") + std::vector<std::string>{"cat", "cow", "dog"}[i];
    texts.push_back({s, true});
  }
  std::vector<Weights> queries;
  for (auto v : std::vector<std::vector<double>>{{1, 1, 1}, {1, .2, .1}, {.1, 1, .2}, {.2, .1, 1}, {.1, .1, 1}, {1, .1, .1}, {.1, 1, .1}, {1, 1, .1}})
    queries.push_back({{stem("cat"), v[0]}, {stem("cow"), v[1]}, {stem("dog"), v[2]}});
  uint64_t total = 1;
  for (int i = 0; i < docs; i++)
    total *= texts.size();
  vx::run(vx::sfmt("spread %d", docs), total, [&](uint64_t ci) {
    Docs d = pick(texts, docs, ci);
    for (int i = 0; i < 4; i++) // so that terms of several items have a weight
      d.push_back({"yak", true});
    vx::count(s_collections);
    vx::what(show(d));
    std::string at = "store of " + show(d), error;
    W w = store("one", d, vx::sfmt("q05.%d", vx::me));
    if (!w)
      return vx::viol("a store cannot be made", at);
    if (!w->set_default_container("doc:") || !w->set_stemmer(s_porter))
      return vx::viol("a parameter cannot be set", at);
    Collection c = collect(w, d, "stems");
    if (!tf_df_annotations(w, &error))
      return vx::viol("statistics cannot be made", at + ": " + error);
    w->end();
    w->start();
    auto stats = Stats::make(w, &error);
    if (!stats)
      return vx::viol("statistics are not found", at + ": " + error);
    for (auto &q : queries) {
      auto want = bm25_scores(c, q, 0.4, 0.9);
      for (size_t depth = 1; depth < (size_t)docs; depth++)
        check("bm25 ranking is wrong", at + " for " + fmt(q.at(stem("cat"))) + " cat " + fmt(q.at(stem("cow"))) + " cow " + fmt(q.at(stem("dog"))) + vx::sfmt(" dog depth %zu", depth),
              bm25_ranking(stats, q, {{"b", 0.4}, {"k1", 0.9}, {"depth", (fval)depth}}), want, depth, false);
    }
    w->end();
  });
}

// ---- meadows: statistics made by threads -----------------------------------------------------------
static void foraged(int docs) {
  uint64_t total = 1;
  for (int i = 0; i < docs; i++)
    total *= TEXTS.size();
  vx::run(vx::sfmt("foraged %d", docs), total, [&](uint64_t ci) {
    Docs d = pick(TEXTS, docs, ci);
    vx::count(s_collections);
    vx::what(show(d));
    for (size_t threads = 1; threads <= 3; threads++)
      for (std::string split : {"once", "halves"}) {
        for (std::string tag : {"", "mine", "name=", "stemmer=null", "stemmer=porter", "tokenizer=utf8", "id=title:", "stemmer=nosuch", "tokenizer=nosuch"}) {
          std::map<std::string, std::string> par;
          std::string name = "tf-idf", key = tag;
          bool refused = tag.find("nosuch") != std::string::npos;
          std::string mode = tag == "stemmer=null" ? "plain" : "stems";
          if (key.find('=') != std::string::npos) {
            tag = "";
            if (key == "name=")
              name = "";
            else
              par[key.substr(0, key.find('='))] = key.substr(key.find('=') + 1);
            if (key == "id=title:")
              par["container"] = "doc:";
          }
          std::string error, at = vx::sfmt("meadow foraged by %zu threads ", threads) + split + " " + key + " of " + show(d);
          auto b = dyn::in_memory(nullptr, false, "utf8");
          if (!b || !b->set_parameter("format", "meadowlark"))
            return vx::viol("a store cannot be made", at);
          W w = b;
          for (size_t i = 0; i < d.size(); i++) {
            addr p, q;
            if (!w->transaction() || !put(w, d[i], &p, &q) || !w->annotator()->annotate(w->featurizer()->featurize(":"), p, q, (addr)0) || !w->annotator()->annotate(w->featurizer()->featurize(":0:"), p, p, (addr)0) || !w->ready())
              return vx::viol("a transaction failed", at);
            w->commit();
          }
          w->start();
          Collection c = collect(w, d, mode);
          w->end();
          if (split == "halves" && c.docs.size() < 2)
            continue;
          bool ok;
          if (split == "once")
            ok = meadowlark::forage(w, "doc:", name, tag, par, &error, threads);
          else {
            addr mid = c.at[c.at.size() / 2].first;
            ok = meadowlark::forage(w, "doc:", minfinity, mid - 1, name, tag, par, &error, threads) &&
                 meadowlark::forage(w, "doc:", mid, maxfinity, name, tag, par, &error, threads);
          }
          if (refused && !c.docs.empty()) {
            if (ok || error == "")
              vx::viol("foraging with what there is not is not refused", at);
            continue;
          }
          if (!ok)
            return vx::viol("foraging fails", at + ": " + error);
          w->start();
          auto stats = Stats::make("tf-idf", tag, w, &error);
          if (c.docs.empty()) {
            if (stats)
              vx::viol("statistics are made for no items", at);
            w->end();
            continue;
          }
          if (!stats)
            return vx::viol("statistics are not found", at + ": " + error);
          bm25_store(at, stats, c);
          auto none = Stats::make("tf-idf", tag + "other", w, &error);
          if (none)
            vx::viol("statistics are found for a tag that has none", at);
          // whole runs: every topic's list, by any number of threads
          std::map<std::string, std::string> topics;
          for (auto &t : TERMS)
            topics["t" + t.first] = t.first;
          std::map<std::string, std::vector<std::string>> one;
          for (size_t n : {1, 2, 3, 0}) {
            std::map<std::string, std::vector<std::string>> got;
            if (!trec(w, "tf-idf", tag, "stem bm25", topics, &got, &error, n))
              return vx::viol("a run of topics fails", at + ": " + error);
            vx::count(s_threads);
            if (n == 1) {
              one = got;
              for (auto &t : TERMS) {
                Weights stems;
                for (auto &x : t.second)
                  stems[mode == "plain" ? x.first : stem(x.first)] += x.second;
                Scores want = bm25_scores(c, stems, standard("bm25", "b"), standard("bm25", "k1"));
                auto it = got.find("t" + t.first);
                if (it == got.end() || it->second.size() != want.size())
                  vx::viol("a run of topics has other results", at + " for " + t.first + vx::sfmt(": %zu instead of %zu", it == got.end() ? (size_t)0 : it->second.size(), want.size()));
                else {
                  std::vector<std::pair<double, std::string>> order;
                  size_t j = 0;
                  for (auto &x : d)
                    if (x.in) {
                      auto s = want.find(c.at[j++].first);
                      if (s != want.end())
                        order.push_back({-s->second.score, words(x.text)[0]});
                    }
                  std::sort(order.begin(), order.end());
                  for (size_t i = 0; i < order.size();) { // results of one score come in any order
                    size_t k = i;
                    std::multiset<std::string> a, b;
                    for (; k < order.size() && near(order[k].first, order[i].first); k++)
                      a.insert(order[k].second), b.insert(words(it->second[k])[0]);
                    if (a != b)
                      vx::viol("a run of topics has other results", at + " for " + t.first + ": " + it->second[i] + " at " + std::to_string(i));
                    i = k;
                  }
                }
              }
            } else if (got != one)
              vx::viol("a run of topics depends on the number of threads", at + vx::sfmt(" with %zu threads", n));
          }
          w->end();
        }
      }
  });
}

// ---- fusion ----------------------------------------------------------------------------------------
static void fusion() {
  std::vector<std::vector<int>> lists = {{}};
  for (size_t i = 0; i < lists.size() && lists[i].size() < 3; i++)
    for (int p = 1; p <= 4; p++)
      if (std::find(lists[i].begin(), lists[i].end(), p) == lists[i].end()) {
        auto l = lists[i];
        l.push_back(p);
        lists.push_back(l);
      }
  uint64_t n = lists.size();
  vx::run("fusion", n * n, [&](uint64_t c) {
    for (uint64_t k = 0; k < n; k++) {
      if (k && c / n > k) // three lists in one order of two, all orders of the others
        continue;
      std::vector<Ranking> in;
      Scores want;
      for (auto i : {c % n, c / n, k}) {
        Ranking r;
        for (size_t j = 0; j < lists[i].size(); j++) {
          addr p = lists[i][j] * 10;
          r.emplace_back(p, p + 3, p - 1, p + 5, 100.0 - j);
          if (!want.count(p))
            want[p] = {Span(p, p + 3), 0, {}};
          want[p].score += 1.0 / (60.0 + j + 1.0);
        }
        in.push_back(r);
      }
      vx::count(s_fusions);
      Ranking got = rrf_fusion(in);
      check("fusion is wrong", vx::sfmt("lists %lu", (unsigned long)c), got, want, 1000, false);
      for (auto &r : got)
        if (r.container_p() != r.p() - 1 || r.container_q() != r.p() + 5)
          vx::viol("fusion loses containers", vx::sfmt("lists %lu", (unsigned long)c));
    }
  });
}

int main(int argc, char **argv) {
  s_porter = Stemmer::make("porter", "");
  std::string set = vx::arg(argc, argv, "set", "ssr");
  int size = atoi(vx::arg(argc, argv, "size", "2").c_str()), length = atoi(vx::arg(argc, argv, "length", "3").c_str());
  vx::parse(argc, argv);
  s_collections = vx::stat_id("collections");
  s_stores = vx::stat_id("stores");
  s_rankings = vx::stat_id("rankings");
  s_results = vx::stat_id("results");
  s_ranges = vx::stat_id("ranges");
  s_threads = vx::stat_id("parallel_runs");
  s_stats = vx::stat_id("statistics");
  s_fusions = vx::stat_id("fusions");
  if (set == "ssr")
    for (int i = 1; i <= size; i++)
      ssr(i, length);
  else if (set == "wide")
    wide(size);
  else if (set == "terms")
    for (int i = 1; i <= size; i++)
      terms(i);
  else if (set == "spread")
    spread(size);
  else if (set == "foraged")
    for (int i = 1; i <= size; i++)
      foraged(i);
  else
    fusion();
  return 0;
}
