// Q05: rankings, runs of topics and the making of statistics by several threads come to what one thread comes to,
// in every interleaving up to a number of deviations.
#include "dyn.h"
#include "mcrt.h"
#include "meadowlark/forager.h"
#include "meadowlark/meadowlark.h"
#include "src/cottontail.h"
#include "src/ranker.h"
#include "src/ranking.h"
#include "src/simple_builder.h"
#include "src/stats.h"
#include "vx.h"
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace cottontail;
namespace fs = std::filesystem;
namespace ml = cottontail::meadowlark;
typedef std::shared_ptr<Warren> W;

static std::string show(const std::vector<RankingResult> &r) {
  std::string s;
  for (auto &x : r)
    s += vx::sfmt("[%ld,%ld in %ld,%ld: %.12g]", (long)x.p(), (long)x.q(), (long)x.container_p(), (long)x.container_q(), (double)x.score());
  return s;
}
static std::string show(const std::map<std::string, std::vector<std::string>> &r) {
  std::string s;
  for (auto &t : r) {
    s += t.first + ":";
    for (auto &x : t.second)
      s += " " + x;
    s += ";";
  }
  return s;
}
static std::string stats(W w, const std::string &tag = "") {
  std::string s, error;
  auto st = Stats::make("tf-idf", tag, w, &error);
  if (!st)
    return "none: " + error;
  s = vx::sfmt("avgl %.12g", (double)st->avgl());
  for (std::string t : {"porter:cat", "porter:dog", "porter:cow"}) {
    s += " " + t + vx::sfmt(" %.12g %.12g", (double)st->rsj(t), (double)st->idf(t));
    auto h = st->tf_hopper(t);
    addr p, q;
    fval v;
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity; h->tau(p + 1, &p, &q, &v))
      s += vx::sfmt("(%ld,%ld,%g)", (long)p, (long)q, (double)v);
  }
  return s;
}
static const std::vector<std::string> TEXTS = {"cat", "dog cat", "cow", "dogs dog cow cat cat"};
static const std::map<std::string, std::string> TOPICS = {{"1", "cat"}, {"2", "cow dog"}, {"3", "dogs"}};
static W meadow() {
  auto b = dyn::in_memory(nullptr, false, "utf8");
  if (!b || !b->set_parameter("format", "meadowlark"))
    return nullptr;
  for (auto &t : TEXTS) {
    addr p, q;
    auto note = [&](const std::string &f, addr s, addr e) { return b->annotator()->annotate(b->featurizer()->featurize(f), s, e, (addr)0); };
    if (!b->transaction() || !b->appender()->append(t, &p, &q) || !note("doc:", p, q) || !note(":", p, q) || !note(":0:", p, p) || !b->ready())
      return nullptr;
    b->commit();
  }
  return b;
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string scn = vx::arg(argc, argv, "scn");
  int bound = atoi(vx::arg(argc, argv, "bound", "1").c_str());
  mc::detect_races = vx::arg(argc, argv, "races", "0") == "1";
  mc::policy = atoi(vx::arg(argc, argv, "policy", "0").c_str());
  char tmpl[] = "/dev/shm/q05mXXXXXX";
  if (!mkdtemp(tmpl))
    return 2;
  std::string root = tmpl;
  W w;
  std::string want;
  mc::Scenario s;
  s.name = scn;
  auto expect = [&](const std::string &got, const std::string &what) {
    if (got != want)
      mc::fail("depends-on-schedule", what + ": " + got + " instead of " + want);
  };
  auto ask = [](W w) {
    std::string all;
    for (std::string q : {"cat", "(^ dog cat)", "(+ cow dogs)"})
      all += show(ssr_ranking(w, q, "doc:", 3)) + ";";
    for (auto &t : TOPICS)
      all += show(tiered_ranking(w, t.second, "doc:", 3)) + ";";
    auto h = w->hopper_from_gcl("doc:");
    addr p, q;
    for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q))
      all += w->txt()->translate(p, q) + ";";
    return all;
  };
  if (scn == "simple") { // made once; every execution opens it anew
    std::string e;
    auto b = SimpleBuilder::make(Working::mkdir(root + "/s"), "tokenizer:name:ascii tokenizer:noxml", &e);
    if (!b) {
      fprintf(stderr, "no builder: %s\n", e.c_str());
      return 2;
    }
    b->verbose(false);
    for (auto &t : TEXTS) {
      addr p, q;
      b->add_text(t, &p, &q);
      b->add_annotation("doc:", p, q, (addr)0);
    }
    if (!b->finalize())
      return 2;
  }
  s.setup = [&] {
    std::string e;
    if (scn == "wide") {
      auto b = dyn::in_memory(nullptr, false);
      if (!b || !b->transaction())
        return mc::fail("setup", "no store");
      addr t;
      b->appender()->append("t", &t, &t);
      for (addr c : {0l, 999996l, 1500000l, 2000001l}) {
        b->annotator()->annotate(b->featurizer()->featurize("doc:"), c, c + 8, (addr)0);
        for (addr h = 0; h < 1 + c % 3; h++)
          b->annotator()->annotate(b->featurizer()->featurize("hit"), c + 2 * h, c + 2 * h + 1, (addr)0);
      }
      if (!b->ready())
        return mc::fail("setup", "not ready");
      b->commit();
      b->start();
      w = b;
      want = show(ssr_ranking(w, "hit", "doc:", 3));
    } else if (scn == "simple") {
      W first = Warren::make(root + "/s");
      if (!first)
        return mc::fail("setup", "no store");
      first->start();
      want = ask(first);
      first->end();
      w = Warren::make(root + "/s"); // with nothing read so far
      if (!w)
        return mc::fail("setup", "no store");
    } else {
      w = meadow();
      if (!w)
        return mc::fail("setup", "no meadow");
      if (scn == "forage") { // what one thread makes of another such meadow
        W other = meadow();
        if (!other || !ml::forage(other, "doc:", "tf-idf", "", {}, &e, 1))
          return mc::fail("setup", "not foraged " + e);
        other->start();
        want = stats(other);
        other->end();
        return;
      }
      if (scn == "dynamic") {
        w->start();
        want = ask(w);
        w->end();
        return;
      }
      if (!ml::forage(w, "doc:", "tf-idf", "", {}, &e, 1))
        return mc::fail("setup", "not foraged " + e);
      w->start();
      std::map<std::string, std::vector<std::string>> r;
      if (!trec(w, "tf-idf", "", "stem bm25", TOPICS, &r, &e, 1))
        mc::fail("setup", "no run " + e);
      want = show(r);
    }
  };
  s.body = [&] {
    if (!w)
      return;
    std::string e;
    if (scn == "wide") {
      expect(show(parallel_ssr(w, "hit", "doc:", 3, 2)), "two threads");
      w->end();
    } else if (scn == "forage") {
      if (!ml::forage(w, "doc:", "tf-idf", "", {}, &e, 2))
        mc::fail("refused", "foraging fails: " + e);
      w->start();
      expect(stats(w), "two threads");
      w->end();
    } else if (scn == "trec") {
      std::map<std::string, std::vector<std::string>> r;
      if (!trec(w, "tf-idf", "", "stem bm25", TOPICS, &r, &e, 2))
        mc::fail("refused", "a run fails: " + e);
      expect(show(r), "two threads");
      w->end();
    } else if (scn == "shared") { // one started warren's clones
      W a = w->clone(), b = w->clone();
      std::string x, y;
      std::thread t1([&] { x = stats(a); });
      std::thread t2([&] { y = stats(b); });
      t1.join();
      t2.join();
      if (x != y || x.compare(0, 4, "none") == 0)
        mc::fail("depends-on-schedule", x + " and " + y);
      a->end(), b->end(), w->end();
    } else { // "simple", "dynamic": two readers of a store none has read
      W a = w->clone(), b = w->clone();
      if (!a || !b)
        return mc::fail("clone", "no clone");
      std::string x, y;
      std::thread t1([&] { a->start(), x = ask(a), a->end(); });
      std::thread t2([&] { b->start(), y = ask(b), b->end(); });
      t1.join();
      t2.join();
      expect(x, "one of two readers");
      expect(y, "one of two readers");
    }
    mc::drain();
    mc::outcome("same");
    w = nullptr;
  };
  mc::explore(s, bound, vx::opt.budget_s ? vx::opt.budget_s : 600);
  fs::remove_all(root);
  return 0;
}
