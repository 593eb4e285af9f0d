// I01: every interleaving, up to a number of deviations, of the worker threads of a load, another load, and a reader.
#include "mcrt.h"
#include "meadowlark/meadowlark.h"
#include "src/bigwig.h"
#include "src/json.h"
#include "src/recipe.h"
#include "vx.h"
#include <filesystem>
#include <fstream>
#include <thread>
#include <unistd.h>
using namespace cottontail;
namespace fs = std::filesystem;
namespace ml = cottontail::meadowlark;

static std::string root;
static void spit(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary);
  f << s;
}
typedef std::vector<std::pair<addr, addr>> Spans;
static Spans spans(Warren *w, const std::string &feature) {
  Spans v;
  auto h = w->idx()->hopper(w->featurizer()->featurize(feature));
  if (!h)
    return v;
  addr p, q;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity && v.size() < 1000; h->tau(p + 1, &p, &q))
    v.push_back({p, q});
  return v;
}
struct Source {
  std::string name; // path
  size_t records;
  bool good;
};
// What a started reader sees of one source: records, and whether it is marked.
static int look(std::shared_ptr<Warren> w, const Source &s, const std::string &when, bool must_all, bool must_none) {
  Spans path = spans(w.get(), s.name), top = spans(w.get(), ":");
  std::string e;
  bool yes = false;
  if (!ml::already_appended(w, s.name, &yes, &e))
    mc::fail("presence", when + ": presence not answered: " + e);
  if (yes && path.size() != s.records)
    mc::fail("marked", when + vx::sfmt(": marked as present with %zu of %zu records", path.size(), s.records));
  std::set<std::string> distinct;
  for (auto &x : path) {
    std::string t = json_translate(w->txt()->translate(x.first, x.second));
    if (t.find("\"k\"") == std::string::npos)
      mc::fail("text", when + ": a record reads " + vx::esc(t));
    distinct.insert(t);
    size_t n = 0;
    for (auto &y : top)
      n += y == x;
    if (n != 1)
      mc::fail("record", when + ": a record without its object");
  }
  if (distinct.size() != path.size())
    mc::fail("twice", when + vx::sfmt(": %zu records but %zu different ones", path.size(), distinct.size()));
  if (path.size() > s.records)
    mc::fail("more", when + vx::sfmt(": %zu records of %zu", path.size(), s.records));
  if (!s.good && (yes || path.size()))
    mc::fail("failed-visible", when + ": something of a refused source is visible");
  if (must_all && (!yes || path.size() != s.records))
    mc::fail("lost", when + vx::sfmt(": marked %d, %zu of %zu records after the load", yes, path.size(), s.records));
  if (must_none && (yes || path.size()))
    mc::fail("early", when + ": visible before it was loaded");
  return path.size() * 2 + yes;
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string scn = vx::arg(argc, argv, "scn");
  int bound = atoi(vx::arg(argc, argv, "bound", "1").c_str());
  mc::detect_races = vx::arg(argc, argv, "races", "0") == "1";
  mc::policy = atoi(vx::arg(argc, argv, "policy", "0").c_str());
  char tmpl[] = "/dev/shm/i01mXXXXXX";
  if (!mkdtemp(tmpl))
    return 2;
  root = tmpl;
  spit(root + "/a", "{\"k\":\"one\"}\n{\"k\":\"two\"}\n");
  spit(root + "/b", "{\"k\":\"three\"}\n");
  spit(root + "/bad", "{\"k\":\"four\"}\n{\"k\"\n");
  spit(root + "/t", "{\"k\":1}\t\n");
  Source a = {root + "/a", 2, true}, b = {root + "/b", 1, true}, bad = {root + "/bad", 0, false};
  auto open = [] {
    return Bigwig::make(nullptr, Featurizer::make("json", freeze(std::map<std::string, std::string>{{"name", "hashing"}, {"recipe", ""}})), Tokenizer::make("utf8", ""), Fluffle::make());
  };
  std::shared_ptr<Warren> w;
  mc::Scenario s;
  s.name = scn;
  bool disk = scn.compare(0, 4, "disk") == 0;
  std::string kind = disk ? scn.substr(4) : scn;
  s.setup = [&] {
    std::shared_ptr<Bigwig> bw;
    if (disk) {
      std::string e;
      bw = std::dynamic_pointer_cast<Bigwig>(ml::create_meadow(root + vx::sfmt("/m%07d", (int)getpid()), &e));
    } else
      bw = open();
    if (!bw) {
      mc::fail("setup", "no meadow");
      return;
    }
    bw->merge(false);
    w = bw;
  };
  s.body = [&] {
    if (!w)
      return;
    auto rd = w->clone();
    std::string seen;
    auto read = [&](const Source &x, const char *when, bool all = false, bool none = false) {
      rd->start();
      seen += std::to_string(look(rd, x, when, all, none));
      rd->end();
    };
    std::string e;
    if (kind == "load") {
      std::thread t([&] {
        if (!ml::append_jsonl(w, a.name, &e, 2, false))
          mc::fail("refused", "load refused: " + e);
      });
      read(a, "during the load");
      t.join();
      read(a, "after the load", true);
    } else if (kind == "bad") {
      std::thread t([&] {
        if (ml::append_jsonl(w, bad.name, &e, 2, false))
          mc::fail("accepted", "a malformed source is accepted");
        else if (e.empty())
          mc::fail("silent", "refused without an error");
      });
      read(bad, "during the load");
      t.join();
      read(bad, "after the load");
      if (!ml::append_jsonl(w, b.name, &e, 1, false))
        mc::fail("refused", "a further load is refused: " + e);
      read(b, "after a further load", true);
    } else if (kind == "two") {
      auto w2 = w->clone();
      std::string e2;
      bool ok1 = false, ok2 = false;
      std::thread t1([&] { ok1 = ml::append_jsonl(w, a.name, &e, 1, false); });
      std::thread t2([&] { ok2 = ml::append_jsonl(w2, b.name, &e2, 1, false); });
      t1.join();
      t2.join();
      if (!ok1 || !ok2)
        mc::fail("refused", "load refused: " + e + e2);
      read(a, "after both loads", true);
      read(b, "after both loads", true);
    } else if (kind == "tsv") {
      auto w2 = w->clone();
      std::string e2;
      Source x = {root + "/t", 1, true};
      bool ok1 = false, ok2 = false;
      std::thread t1([&] { ok1 = ml::append_tsv(w, x.name, &e, false, "\t", 1); });
      std::thread t2([&] { ok2 = ml::append_jsonl(w2, b.name, &e2, 1, false); });
      rd->start();
      bool yes = false;
      ml::already_appended(rd, x.name, &yes);
      size_t n = spans(rd.get(), x.name).size();
      if (yes && n != 1)
        mc::fail("marked", vx::sfmt("marked as present with %zu source spans", n));
      seen += std::to_string(n) + (yes ? "y" : "n");
      rd->end();
      t1.join();
      t2.join();
      if (!ok1 || !ok2)
        mc::fail("refused", "load refused: " + e + e2);
      rd->start();
      yes = false;
      ml::already_appended(rd, x.name, &yes);
      if (!yes || spans(rd.get(), x.name).size() != 1 || spans(rd.get(), ":0:").size() != 1)
        mc::fail("lost", "the tab-separated source is not complete after the load");
      rd->end();
      read(b, "after both loads", true);
    } else if (kind == "merge") {
      std::dynamic_pointer_cast<Bigwig>(w)->merge(true);
      std::thread t([&] {
        if (!ml::append_jsonl(w, a.name, &e, 2, false))
          mc::fail("refused", "load refused: " + e);
      });
      read(a, "during the load");
      t.join();
      read(a, "after the load", true);
    }
    mc::drain();
    if (kind == "merge")
      read(a, "after the merge", true);
    mc::outcome(seen);
    w = nullptr;
    if (disk)
      fs::remove_all(root + vx::sfmt("/m%07d", (int)getpid()));
  };
  mc::explore(s, bound, vx::opt.budget_s ? vx::opt.budget_s : 600);
  fs::remove_all(root);
  return 0;
}
