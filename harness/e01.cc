// E01: effectiveness measures, rank similarity, means, and judgments read for a store.
#include "src/cottontail.h"
#include "src/eval.h"
#include "src/simple_builder.h"
#include "src/bigwig.h"
#include "src/fluffle.h"
#include "vx.h"
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace cottontail;
namespace fs = std::filesystem;
typedef std::map<std::string, fval> Metrics;
typedef std::vector<RankingResult> Ranking;

static int s_rankings, s_measures, s_pairs, s_means, s_texts, s_files, s_judged, s_refused;

static bool same(fval a, fval b) {
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b))
    return false;
  return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

// A ranking as the grades found down the list (-1: not judged), and the grades not retrieved.
struct Case {
  std::vector<fval> found, missed;
  std::vector<addr> length;
  std::string str() const {
    std::string s = "ranking [";
    for (auto g : found)
      s += g < 0 ? " ." : vx::sfmt(" %g", g);
    s += " ] not retrieved [";
    for (auto g : missed)
      s += vx::sfmt(" %g", g);
    return s + " ]";
  }
};

// the definitions, each written from its own formula
static Metrics definitions(const Case &c) {
  Metrics m;
  auto rel = [](fval g) { return g > 0.0; };
  std::vector<fval> all;
  for (auto g : c.found)
    if (g >= 0)
      all.push_back(g);
  for (auto g : c.missed)
    all.push_back(g);
  size_t R = 0, seen = 0;
  for (auto g : all)
    R += rel(g);
  for (auto g : c.found)
    seen += rel(g);
  m["ret"] = c.found.size();
  m["rel"] = R;
  m["rel-ret"] = seen;
  m["precision"] = c.found.empty() ? 0.0 : (fval)seen / c.found.size();
  m["recall"] = R ? (fval)seen / R : 0.0;
  for (auto k : {5, 10, 20}) {
    fval n = 0;
    for (size_t i = 0; i < c.found.size() && i < (size_t)k; i++)
      n += rel(c.found[i]);
    m[vx::sfmt("p%02d", k)] = n / k;
  }
  fval ap = 0, rr = 0;
  for (size_t i = 0; i < c.found.size(); i++)
    if (rel(c.found[i])) {
      size_t upto = 0;
      for (size_t j = 0; j <= i; j++)
        upto += rel(c.found[j]);
      ap += (fval)upto / (i + 1);
      if (rr == 0)
        rr = 1.0 / (i + 1);
    }
  m["ap"] = R ? ap / R : 0.0;
  m["rr"] = rr;
  auto dcg = [](const std::vector<fval> &g, size_t k) {
    fval s = 0;
    for (size_t i = 0; i < g.size() && i < k; i++)
      if (g[i] > 0)
        s += g[i] / std::log2(i + 2.0);
    return s;
  };
  std::vector<fval> ideal = all;
  std::sort(ideal.rbegin(), ideal.rend());
  for (auto k : {0, 5, 10, 20}) {
    std::string suffix = k ? vx::sfmt("%02d", k) : "";
    fval a = dcg(c.found, k ? k : 1000000), b = dcg(ideal, k ? k : 1000000);
    m["dcg" + suffix] = a;
    m["ndcg" + suffix] = b > 0 ? a / b : 0.0;
  }
  for (auto p : {50, 95}) {
    fval s = 0, persist = p / 100.0;
    for (size_t i = 0; i < c.found.size(); i++)
      if (c.found[i] > 0)
        s += c.found[i] * std::pow(persist, (fval)i);
    m[vx::sfmt("rbp%d", p)] = (1.0 - persist) * s;
  }
  // Smucker and Clarke, SIGIR 2012, table 1
  fval tbg = 0, t = 0;
  for (size_t i = 0; i < c.found.size(); i++) {
    bool r = rel(c.found[i]);
    if (r)
      tbg += 0.64 * 0.77 * std::exp2(-t / 224.0);
    t += 4.4 + (0.018 * c.length[i] + 7.8) * (r ? 0.64 : 0.39);
  }
  m["tbg"] = tbg;
  return m;
}

static void judge(const Case &c) {
  std::map<addr, fval> qrels;
  Ranking results;
  // addresses unrelated to the rank order
  addr next = 0;
  std::vector<addr> at(c.found.size() + c.missed.size());
  for (size_t i = 0; i < at.size(); i++)
    at[i] = next += 100 + i % 3;
  auto place = [&](size_t i) { return at[(i * 7 + 3) % at.size()]; };
  std::set<addr> used;
  size_t j = 0;
  auto take = [&]() {
    addr p = place(j++);
    while (!used.insert(p).second)
      p = place(j++) + (j > 4 * at.size() ? j : 0);
    return p;
  };
  for (size_t i = 0; i < c.found.size(); i++) {
    addr p = take();
    results.emplace_back(p, p + c.length[i] - 1, 100.0 - i);
    if (c.found[i] >= 0)
      qrels[p] = c.found[i];
  }
  for (auto g : c.missed)
    qrels[take()] = g;
  vx::what(c.str());
  Metrics m, want = definitions(c);
  eval(qrels, results, &m);
  vx::count(s_rankings);
  for (auto &w : want) {
    vx::count(s_measures);
    auto g = m.find(w.first);
    if (g == m.end())
      vx::viol("measure:" + w.first + ":absent", c.str());
    else if (!same(g->second, w.second))
      vx::viol("measure:" + w.first, vx::sfmt("%s: %s is %.12g, its definition gives %.12g", c.str().c_str(), w.first.c_str(), g->second, w.second));
  }
}

// every ranking of up to n documents over four grades, with every small set of missed ones
static void scores(int n) {
  const fval grade[] = {-1, 0, 0.25, 1};
  const std::vector<std::vector<fval>> missed = {{}, {0}, {1}, {0.25}, {1, 1}, {0.25, 1, 0}, {1, 1, 1, 1, 1, 1}};
  for (int len = 0; len <= n; len++) {
    uint64_t total = 1;
    for (int i = 0; i < len; i++)
      total *= 4;
    vx::run(vx::sfmt("scores%d", len), total, [&](uint64_t x) {
      Case c;
      for (int i = 0; i < len; i++, x /= 4) {
        c.found.push_back(grade[x % 4]);
        c.length.push_back(1 + (i * 37) % 50 * (i % 2 ? 1 : 20));
      }
      for (auto &m : missed) {
        c.missed = m;
        judge(c);
      }
    });
  }
}
// long lists: every length, with every pair of relevant positions
static void lengths(int n) {
  vx::run("lengths", n + 1, [&](uint64_t len) {
    for (size_t i = 0; i <= len; i++)
      for (size_t j = i; j <= len; j++)
        for (int missed : {0, 1, 4, 5, 9, 10, 19, 20, 30})
          for (int judged = 0; judged < 2; judged++) {
            Case c;
            c.found.assign(len, judged ? 0 : -1);
            c.length.assign(len, 300);
            if (i < len)
              c.found[i] = 0.5;
            if (j < len)
              c.found[j] = 1;
            c.missed.assign(missed, 1);
            if (missed > 1)
              c.missed[1] = 0.5;
            judge(c);
          }
  });
}

// rank similarity: the largest difference any binary judgments can make between the two rankings
static void similarity(int docs) {
  std::vector<std::vector<int>> lists = {{}};
  for (size_t k = 0; k < lists.size(); k++)
    for (int d = 0; d < docs; d++)
      if (std::find(lists[k].begin(), lists[k].end(), d) == lists[k].end()) {
        auto l = lists[k];
        l.push_back(d);
        lists.push_back(l);
      }
  auto show = [](const std::vector<int> &l) {
    std::string s;
    for (auto d : l)
      s += 'a' + d;
    return s;
  };
  vx::run("similarity", lists.size(), [&](uint64_t x) {
    for (auto &two : lists) {
      auto &one = lists[x];
      Ranking a, b;
      for (size_t i = 0; i < one.size(); i++)
        a.emplace_back(1000 - 10 * one[i], 1005 - 10 * one[i], 9.0 - i);
      for (size_t i = 0; i < two.size(); i++)
        b.emplace_back(1000 - 10 * two[i], 1005 - 10 * two[i], 9.0 - i);
      std::string what = "\"" + show(one) + "\" and \"" + show(two) + "\"";
      vx::what(what);
      Metrics m, want;
      med(a, b, &m);
      vx::count(s_pairs);
      for (int q = 0; q < 1 << docs; q++) {
        auto diff = [&](fval (*w)(size_t)) {
          fval d = 0;
          for (size_t i = 0; i < one.size(); i++)
            d += (q >> one[i] & 1) * w(i);
          for (size_t i = 0; i < two.size(); i++)
            d -= (q >> two[i] & 1) * w(i);
          return std::fabs(d);
        };
        want["med-dcg"] = std::max(want["med-dcg"], diff([](size_t i) { return 1.0 / std::log2(i + 2.0); }));
        want["med-rbp50"] = std::max(want["med-rbp50"], diff([](size_t i) { return 0.5 * std::pow(0.5, (fval)i); }));
        want["med-rbp95"] = std::max(want["med-rbp95"], diff([](size_t i) { return 0.05 * std::pow(0.95, (fval)i); }));
      }
      fval ideal = 0;
      for (size_t i = 0; i < std::max(one.size(), two.size()); i++)
        ideal += 1.0 / std::log2(i + 2.0);
      want["med-ndcg"] = ideal > 0 ? want["med-dcg"] / ideal : 0.0;
      for (auto &w : want) {
        vx::count(s_measures);
        if (!m.count(w.first) || !same(m[w.first], w.second))
          vx::viol("similarity:" + w.first, vx::sfmt("%s: %s is %.12g, the largest difference is %.12g", what.c_str(), w.first.c_str(), m[w.first], w.second));
      }
    }
  });
}

// fusion of rankings by reciprocal rank
static void fusion(int docs, int many) {
  std::vector<std::vector<int>> lists = {{}};
  for (size_t k = 0; k < lists.size(); k++)
    for (int d = 0; d < docs; d++)
      if (std::find(lists[k].begin(), lists[k].end(), d) == lists[k].end()) {
        auto l = lists[k];
        l.push_back(d);
        lists.push_back(l);
      }
  uint64_t total = 1;
  for (int i = 0; i < many; i++)
    total *= lists.size();
  vx::run(vx::sfmt("fusion%d", many), total, [&](uint64_t x) {
    std::vector<Ranking> in(many);
    std::map<addr, fval> want;
    std::string what = "fusion of";
    for (int i = 0; i < many; i++, x /= lists.size()) {
      auto &l = lists[x % lists.size()];
      what += " ";
      for (size_t r = 0; r < l.size(); r++) {
        what += 'a' + l[r];
        addr p = 50 - 10 * l[r];
        in[i].emplace_back(p + 1, p + 2, p, p + 5 + l[r], 3.0 - r);
        want[p + 1] += 1.0 / (60.0 + r + 1.0);
      }
      what += ".";
    }
    vx::what(what);
    Ranking got = rrf_fusion(in);
    vx::count(s_rankings);
    if (got.size() != want.size())
      vx::viol("fusion:size", what);
    std::set<addr> seen;
    for (size_t i = 0; i < got.size(); i++) {
      vx::count(s_measures);
      if (!want.count(got[i].p()) || !seen.insert(got[i].p()).second)
        vx::viol("fusion:result", what);
      else if (!same(want[got[i].p()], got[i].score()))
        vx::viol("fusion:score", what);
      if (got[i].q() != got[i].p() + 1 || got[i].container_p() != got[i].p() - 1 || got[i].container_q() != got[i].p() + 4 + (50 - got[i].container_p()) / 10)
        vx::viol("fusion:interval", what);
      if (i && got[i - 1].score() < got[i].score())
        vx::viol("fusion:order", what);
    }
  });
}

// means over every sequence of measures
static void means(int n) {
  const std::vector<Metrics> menu = {{{"a", 0.0}, {"b", 1.0}}, {{"a", 1.0}, {"b", 0.25}}, {{"a", -3.0}}, {{"b", 7.0}, {"c", 2.0}}, {{"a", 0.5}, {"b", 0.5}, {"c", 0.5}}};
  for (int len = 1; len <= n; len++) {
    uint64_t total = 1;
    for (int i = 0; i < len; i++)
      total *= menu.size();
    for (int counted = 0; counted < 2; counted++)
      vx::run(vx::sfmt("means%d%s", len, counted ? "" : "+"), total, [&](uint64_t x) {
        Metrics mean_of;
        std::map<std::string, std::pair<fval, int>> sum;
        std::string what = "mean of";
        for (int i = 0; i < len; i++, x /= menu.size()) {
          const Metrics &m = menu[x % menu.size()];
          what += vx::sfmt(" #%d", (int)(x % menu.size()));
          if (i == 0 && !counted)
            mean_of = m; // measures of one topic, given as the start of the mean
          else
            mean(m, &mean_of);
          for (auto &e : m) {
            sum[e.first].first += e.second;
            sum[e.first].second++;
          }
        }
        vx::what(what);
        vx::count(s_means);
        if (len == 1 && !counted)
          return;
        if (!same(mean_of["n"], len))
          vx::viol("mean:n", what);
        for (auto &s : sum)
          if (s.second.second == len) {
            vx::count(s_measures);
            if (!mean_of.count(s.first) || !same(mean_of[s.first], s.second.first / len))
              vx::viol("mean:value", what + " " + s.first);
          } else if (mean_of.count(s.first))
            vx::viol("mean:partial", what + " keeps " + s.first + ", which some topics lack");
      });
  }
}

static std::string docno(const std::string &text) {
  std::string t = text;
  for (std::string tag : {"<DOCNO>", "</DOCNO>"})
    for (size_t i; (i = t.find(tag)) != std::string::npos;)
      t.replace(i, tag.size(), 1, '\1');
  std::string r;
  bool on = false;
  for (unsigned char c : t)
    if (c == '\1')
      continue;
    else if (isspace(c)) {
      if (on)
        break;
    } else {
      on = true;
      if (c != '"')
        r += c;
    }
  return r;
}
static void docnos(int n) {
  const std::vector<std::string> piece = {"<DOCNO>", "</DOCNO>", " ", "\n", "\"", "a", "B-1", "<", "\xff", "\t"};
  for (int len = 0; len <= n; len++) {
    uint64_t total = 1;
    for (int i = 0; i < len; i++)
      total *= piece.size();
    vx::run(vx::sfmt("docnos%d", len), total, [&](uint64_t x) {
      std::string t;
      for (int i = 0; i < len; i++, x /= piece.size())
        t += piece[x % piece.size()];
      vx::count(s_texts);
      if (trec_docno(t) != docno(t))
        vx::viol("docno", vx::esc(t) + " gives " + vx::esc(trec_docno(t)));
    });
  }
}

// judgments read for a store
static const std::vector<std::string> ids = {"D-1", "D-10", "D-1-10", "D", "10", "E-1", "d-1"};
static std::string trouble;
static std::shared_ptr<Warren> store(const std::string &dir, bool dynamic, bool json, const std::string &order) {
  std::string e, text;
  std::vector<std::string> docs;
  for (char c : order) {
    std::string id = ids[c - '0'];
    docs.push_back("<DOC> <DOCNO> " + id + " </DOCNO> some text " + id + " </DOC>\n");
  }
  fs::remove_all(dir);
  std::shared_ptr<Warren> w;
  if (dynamic) {
    w = Bigwig::make(Working::mkdir(dir), Featurizer::make("hashing", ""), Tokenizer::make("ascii", "xml"), Fluffle::make(), &trouble);
    if (!w)
      return nullptr;
    w->start();
    for (auto &d : docs) {
      addr p, q;
      if (!w->transaction(&trouble) || !w->appender()->append(d, &p, &q, &trouble))
        return nullptr;
      std::unique_ptr<Hopper> h;
      if (!w->ready())
        return nullptr;
      w->commit();
    }
    w->end();
    (void)json;
  } else {
    auto b = SimpleBuilder::make(Working::mkdir(dir), "", &e);
    if (!b)
      return nullptr;
    addr p, q;
    for (auto &d : docs)
      if (!b->add_text(d, &p, &q))
        return nullptr;
    if (!b->finalize())
      return nullptr;
    b = nullptr;
    w = Warren::make(dir, &e);
  }
  if (!w)
    return nullptr;
  w->start();
  w->set_default_container("(... <DOC> </DOC>)");
  w->set_parameter("id", "(... <DOCNO> </DOCNO>)");
  return w;
}
static void judgments(int n) {
  const std::vector<std::string> orders = {"0123456", "6543210", "2104", "53"};
  // a line of a judgments file, as pieces joined
  const std::vector<std::string> line = {"t 0 D-1 1", "t 0 D-1 2", "t 0 D-10 1", "t\t0\tD-1-10\t0", "u 0 D 3", "t 0 10 -2", "t 0  E-1 1", "u 0 d-1 0",
                                         "t 0 NONE 1", "t 0 D-1", "t 0 D-1 1 x", "", " t 0 D-1 1", "t 0 D-1 1 ", "t 0 D-1 1\r", "t 0 D\" 1", "t 0 D-1 x", "t 0 D-1 nan", "t 0 D-1 1x", "t 0 D-1 inf", "t 0 \\ 1"};
  for (int dynamic = 0; dynamic < 2; dynamic++)
    for (auto &order : orders)
      for (int len = 1; len <= n; len++) {
        uint64_t total = 1;
        for (int i = 0; i < len; i++)
          total *= line.size();
        std::shared_ptr<Warren> w;
        std::map<std::string, std::pair<addr, addr>> where;
        vx::opt.chunk = 32;
        vx::run(vx::sfmt("judgments%d%s-%s", len, dynamic ? "d" : "", order.c_str()), total, [&](uint64_t x) {
          uint64_t y = x;
          std::string dir = vx::sfmt("e%d", vx::me);
          if (!w) {
            w = store(dir, dynamic, false, order);
            if (!w) {
              vx::viol("judgments:store", "cannot make a store: " + trouble);
              return;
            }
            addr p = 0, q;
            auto h = w->hopper_from_gcl("(... <DOC> </DOC>)");
            size_t k = 0;
            for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q), k++)
              where[ids[order[k] - '0']] = {p, q};
            if (k != order.size())
              vx::viol("judgments:store", "documents missing");
          }
          std::string file, what;
          std::vector<std::string> lines;
          for (int i = 0; i < len; i++, y /= line.size()) {
            file += line[y % line.size()] + "\n";
            lines.push_back(line[y % line.size()]);
          }
          if (x % 2)
            file.pop_back();
          what = "judgments " + vx::esc(file) + " over " + order;
          vx::what(what);
          { std::ofstream(dir + ".qrels", std::ios::binary) << file; }
          // the meaning: four fields a line, the third one a document of the store, the fourth a number
          std::map<std::string, std::map<addr, fval>> level;
          bool fine = true, clear = true;
          fval top = 0;
          for (auto &l : lines) {
            if (l.empty() && &l == &lines.back() && x % 2)
              continue; // no line at all
            std::vector<std::string> f;
            std::string cur;
            for (char c : l + " ")
              if (isspace((unsigned char)c)) {
                if (!cur.empty())
                  f.push_back(cur);
                cur.clear();
              } else
                cur += c;
            if (f.size() != 4) {
              if (f.empty())
                clear = false; // a blank line may be refused or skipped
              else
                fine = false;
              continue;
            }
            if (isspace((unsigned char)l[0]))
              clear = false;
            if (!where.count(f[2])) {
              bool within = false; // the phrase may still be found in another identifier
              for (auto &i : ids)
                within = within || i == f[2];
              if (within)
                return;
              fine = false;
              continue;
            }
            char *end;
            fval g = strtod(f[3].c_str(), &end);
            if (*end || std::isnan(g) || std::isinf(g)) {
              fine = false;
              continue;
            }
            if (g < 0)
              g = 0;
            top = std::max(top, g);
            level[f[0]][where[f[2]].first] = g;
          }
          for (int ms = 0; ms < 2; ms++) {
            std::map<std::string, std::map<addr, fval>> qrels;
            std::map<std::string, std::map<addr, addr>> length;
            std::map<std::string, std::map<addr, std::string>> names;
            std::string e;
            bool ok = load_trec_qrels(w, dir + ".qrels", &qrels, &length, &names, &e, ms);
            vx::count(s_files);
            if (!ok) {
              vx::count(s_refused);
              if (fine && clear)
                vx::viol("judgments:refused", what + ": " + e);
              if (e.empty())
                vx::viol("judgments:silent", what);
              continue;
            }
            if (!fine) {
              vx::viol("judgments:accepted", what);
              continue;
            }
            fval seen_top = top;
            std::map<std::string, std::map<addr, fval>> want;
            for (auto &t : level)
              for (auto &d : t.second)
                want[t.first][d.first] = ms ? (std::exp2(d.second) - 1) / std::exp2(seen_top) : seen_top > 0 ? d.second / seen_top : 0.0;
            bool good = qrels.size() == want.size();
            for (auto &t : want)
              for (auto &d : t.second) {
                vx::count(s_judged);
                if (!qrels[t.first].count(d.first) || !same(qrels[t.first][d.first], d.second) || qrels[t.first].size() != t.second.size())
                  good = false;
                std::string name;
                for (auto &i : where)
                  if (i.second.first == d.first) {
                    name = i.first;
                    if (length[t.first][d.first] != i.second.second - i.second.first + 1)
                      vx::viol("judgments:length", what);
                  }
                if (names[t.first][d.first] != name)
                  vx::viol("judgments:name", what + ": " + name);
              }
            if (!good) {
              std::string got;
              for (auto &t : qrels)
                for (auto &d : t.second)
                  got += vx::sfmt(" %s@%ld=%g", t.first.c_str(), (long)d.first, d.second);
              vx::viol(std::string("judgments:") + (dynamic ? "dynamic:" : "") + (ms ? "ms" : "scaled"), what + " gives" + got);
            }
          }
        });
        vx::opt.chunk = 1;
      }
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_rankings = vx::stat_id("rankings");
  s_measures = vx::stat_id("measures");
  s_pairs = vx::stat_id("pairs");
  s_means = vx::stat_id("means");
  s_texts = vx::stat_id("texts");
  s_files = vx::stat_id("files");
  s_judged = vx::stat_id("judged");
  s_refused = vx::stat_id("refused");
  std::string set = vx::arg(argc, argv, "set");
  int n = std::stoi(vx::arg(argc, argv, "size", "3"));
  if (set == "scores")
    scores(n);
  else if (set == "lengths")
    lengths(n);
  else if (set == "similarity")
    similarity(n);
  else if (set == "fusion")
    fusion(n, 2), fusion(3, 3);
  else if (set == "means")
    means(n);
  else if (set == "docnos")
    docnos(n);
  else if (set == "judgments")
    judgments(n);
  return 0;
}
