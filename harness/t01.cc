// T01/T02: every interleaving (up to a number of deviations) of readers, writers and merge workers
// on one real dynamic store.
#include "dyn.h"
#include "mcrt.h"
#include "src/hazel.h"
#include <thread>
using namespace cottontail;
using dyn::Placed;
using dyn::Txn;
using dyn::View;
namespace fs = std::filesystem;

struct Obs {
  uint64_t s0, s1;
  View v, again;
  bool two = false;
};
struct Com {
  int id;
  uint64_t c0 = 0, c1 = 0;
  bool aborted = false;
};
struct World {
  std::vector<Txn> all;
  std::map<int, addr> base; // known before the run
  std::shared_ptr<Bigwig> b;
  std::vector<Obs> obs;
  std::vector<Com> com;
  std::string dir;
};
static World *W;
static std::string tmpl; // a prepared burrow, copied by every execution

static dyn::Span span_of(int t, int d) {
  for (auto &x : W->all)
    if (x.id == t)
      return {W->base[t] + d * x.len, W->base[t] + (d + 1) * x.len - 1};
  return {0, 0};
}
static const Txn &txn(int id) {
  for (auto &t : W->all)
    if (t.id == id)
      return t;
  abort();
}
static bool put(std::shared_ptr<Warren> w, int id) {
  return w->transaction() && dyn::fill(w.get(), txn(id), span_of) && w->ready();
}
static void bad(const std::string &k, const std::string &d) { mc::fail(k, d); }

static void precommit(int id) {
  addr at = 0;
  for (auto &t : W->all)
    if (W->base.count(t.id))
      at = std::max(at, W->base[t.id] + t.tokens());
  W->base[id] = at;
  if (!put(W->b, id)) {
    bad("setup", "transaction refused");
    return;
  }
  W->b->commit();
}
// ---- threads
static Obs look(std::shared_ptr<Warren> w, bool twice) {
  Obs o;
  o.s0 = mc::stamp();
  w->start();
  o.s1 = mc::stamp();
  o.v = dyn::observe(w.get(), W->all);
  o.two = twice;
  if (twice)
    o.again = dyn::observe(w.get(), W->all);
  w->end();
  return o;
}
static void writer(std::shared_ptr<Warren> w, int id, Com *c, bool abort_it = false) {
  c->id = id;
  if (!put(w, id)) {
    bad("a transaction was refused", "");
    return;
  }
  c->c0 = mc::stamp();
  if (abort_it) {
    c->aborted = true;
    w->abort();
  } else
    w->commit();
  c->c1 = mc::stamp();
}
// ---- oracle
static std::vector<int> shown(const View &v) {
  std::vector<int> ids;
  size_t i = 0;
  while (i < v.text.size()) {
    size_t e = v.text.find('\n', i);
    if (e == std::string::npos)
      e = v.text.size();
    std::string line = v.text.substr(i, e - i);
    i = e + 1;
    size_t u = line.find('u');
    int id = u == std::string::npos ? -1 : atoi(line.c_str() + u + 1);
    if (ids.empty() || ids.back() != id)
      ids.push_back(id);
  }
  return ids;
}
static void judge(bool final_view, const Obs &o, std::map<int, addr> *bases, std::vector<std::set<int>> *sets) {
  std::vector<int> ids = shown(o.v);
  std::set<int> s(ids.begin(), ids.end());
  auto fz = W->b->featurizer();
  std::vector<Placed> vis;
  for (int id : s) {
    bool known = false;
    for (auto &t : W->all)
      if (t.id == id)
        known = true;
    if (!known) {
      bad("view shows text nobody committed", o.v.str());
      return;
    }
    addr b;
    if (W->base.count(id))
      b = W->base[id];
    else {
      auto it = o.v.lists.find("u" + std::to_string(id));
      if (it == o.v.lists.end() || it->second.empty()) {
        bad("view shows the text of a transaction without its postings", o.v.str());
        return;
      }
      b = it->second[0][0] - 1;
    }
    if (bases->count(id) && (*bases)[id] != b) {
      bad("a committed transaction's addresses changed", o.v.str());
      return;
    }
    (*bases)[id] = b;
    vis.push_back({txn(id), b});
  }
  View e = dyn::expect(vis, W->all);
  if (!(e == o.v)) {
    bad("view is not the combination of whole committed transactions", "shown " + o.v.str() + " expected " + e.str());
    return;
  }
  if (o.two && !(o.again == o.v)) {
    bad("view changed between start and end", "first " + o.v.str() + " then " + o.again.str());
    return;
  }
  // addresses disjoint
  for (auto &x : vis)
    for (auto &y : vis)
      if (x.t.id < y.t.id && x.base < y.base + y.t.tokens() && y.base < x.base + x.t.tokens()) {
        bad("two transactions share addresses", o.v.str());
        return;
      }
  for (auto &t : W->all)
    if (W->base.count(t.id) && !s.count(t.id)) {
      bad("view lost a committed transaction", o.v.str());
      return;
    }
  for (auto &c : W->com) {
    if (c.aborted && s.count(c.id))
      bad("view shows an aborted transaction", o.v.str());
    if (!c.aborted && c.c1 && c.c1 < o.s0 && !s.count(c.id))
      bad("view misses a transaction committed before it was taken", o.v.str());
    if (s.count(c.id) && (!c.c0 || c.c0 > o.s1))
      bad("view shows a transaction whose commit began after it was taken", o.v.str());
  }
  if (!final_view)
    sets->push_back(s);
}
static std::string out_name(const View &v) {
  std::string s;
  for (int id : shown(v))
    s += std::to_string(id) + ",";
  return s;
}
static void final_check(const std::vector<Obs> &obs) {
  std::map<int, addr> bases;
  std::vector<std::set<int>> sets;
  std::string oc;
  for (auto &o : obs) {
    judge(false, o, &bases, &sets);
    oc += out_name(o.v) + " | ";
  }
  for (size_t i = 0; i < sets.size(); i++)
    for (size_t j = 0; j < sets.size(); j++) {
      bool sub = std::includes(sets[j].begin(), sets[j].end(), sets[i].begin(), sets[i].end());
      bool sup = std::includes(sets[i].begin(), sets[i].end(), sets[j].begin(), sets[j].end());
      if (!sub && !sup)
        bad("two views disagree on the order of commits", obs[i].v.str() + " / " + obs[j].v.str());
      if (obs[i].s1 < obs[j].s0 && !sub)
        bad("a later view lost a transaction an earlier one showed", obs[i].v.str() + " / " + obs[j].v.str());
    }
  // after everything has settled
  Obs last;
  last.s0 = mc::stamp();
  auto w = W->b->clone();
  w->start();
  last.s1 = mc::stamp();
  last.v = dyn::observe(w.get(), W->all);
  w->end();
  judge(true, last, &bases, &sets);
  mc::outcome(oc + "end " + out_name(last.v));
}
// the same, after reopening the burrow from disk
static void reopen_check() {
  W->b = nullptr;
  std::string e;
  auto w = Warren::make(W->dir, &e);
  if (w == nullptr) {
    bad("burrow does not reopen after a clean run", e);
    return;
  }
  Obs last;
  std::map<int, addr> bases;
  std::vector<std::set<int>> sets;
  last.s0 = mc::stamp();
  w->start();
  last.s1 = mc::stamp();
  last.v = dyn::observe(w.get(), W->all);
  w->end();
  W->b = std::dynamic_pointer_cast<Bigwig>(w);
  judge(true, last, &bases, &sets);
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string scn = vx::arg(argc, argv, "scn");
  int bound = atoi(vx::arg(argc, argv, "bound", "1").c_str());
  mc::detect_races = vx::arg(argc, argv, "races", "0") == "1";
  mc::policy = atoi(vx::arg(argc, argv, "policy", "0").c_str());
  long maxe = atol(vx::arg(argc, argv, "max", "0").c_str());
  World w0;
  W = &w0;
  W->com.resize(4);
  mc::Scenario s;
  s.name = scn;
  auto obs = std::make_shared<std::vector<Obs>>(8);
  auto nobs = std::make_shared<int>(0);
  auto add = [](int id, int docs, std::vector<std::pair<int, int>> er = {}, int len = 3) {
    Txn t;
    t.id = id;
    t.docs = docs;
    t.len = len;
    t.erases = er;
    W->all.push_back(t);
  };
  auto base_setup = [&](std::vector<int> pre) {
    return [pre] {
      W->b = dyn::in_memory(nullptr, false);
      for (int id : pre)
        precommit(id);
    };
  };
  auto finish = [&, obs](int n) {
    obs->resize(n);
    final_check(*obs);
  };
  bool disk = false;
  if (scn == "commit") {
    add(1, 1), add(2, 1), add(3, 1);
    s.setup = base_setup({1, 2});
    s.body = [&, obs, finish] {
      W->b->merge(true);
      auto wr = W->b->clone(), rd = W->b->clone();
      std::thread t1([&] { writer(wr, 3, &W->com[0]); });
      std::thread t2([&] {
        (*obs)[0] = look(rd, true);
        (*obs)[1] = look(rd, false);
      });
      t1.join();
      t2.join();
      mc::drain();
      finish(2);
    };
  } else if (scn == "erase") {
    add(1, 2), add(2, 1), add(3, 1, {{1, 0}});
    s.setup = base_setup({1, 2});
    s.body = [&, obs, finish] {
      W->b->merge(true);
      auto wr = W->b->clone(), rd = W->b->clone();
      std::thread t1([&] { writer(wr, 3, &W->com[0]); });
      std::thread t2([&] {
        (*obs)[0] = look(rd, true);
        (*obs)[1] = look(rd, false);
      });
      t1.join();
      t2.join();
      mc::drain();
      finish(2);
    };
  } else if (scn == "eraseold") { // the erasure is in a separate, already committed shard
    add(1, 2), add(2, 1, {{1, 1}}), add(3, 1), add(4, 1);
    s.setup = base_setup({1, 2, 3});
    s.body = [&, obs, finish] {
      auto rd = W->b->clone(), wr = W->b->clone();
      W->b->merge(true);
      std::thread t1([&] { writer(wr, 4, &W->com[0]); });
      (*obs)[0] = look(rd, true);
      (*obs)[1] = look(rd, false);
      t1.join();
      mc::drain();
      finish(2);
    };
  } else if (scn == "two") {
    add(1, 1), add(3, 1), add(4, 2);
    s.setup = base_setup({1});
    s.body = [&, obs, finish] {
      W->b->merge(true);
      auto w1 = W->b->clone(), w2 = W->b->clone(), rd = W->b->clone();
      std::thread t1([&] { writer(w1, 3, &W->com[0]); });
      std::thread t2([&] { writer(w2, 4, &W->com[1]); });
      (*obs)[0] = look(rd, false);
      (*obs)[1] = look(rd, false);
      t1.join();
      t2.join();
      mc::drain();
      finish(2);
    };
  } else if (scn == "abort") {
    add(1, 1), add(3, 1), add(4, 2);
    s.setup = base_setup({1});
    s.body = [&, obs, finish] {
      W->b->merge(true);
      auto w1 = W->b->clone(), w2 = W->b->clone(), rd = W->b->clone();
      std::thread t1([&] { writer(w1, 3, &W->com[0], true); });
      std::thread t2([&] { writer(w2, 4, &W->com[1]); });
      (*obs)[0] = look(rd, false);
      t1.join();
      t2.join();
      (*obs)[1] = look(rd, false);
      mc::drain();
      finish(2);
    };
  } else if (scn == "clone") { // a clone of a started warren shares its view
    add(1, 1), add(2, 1), add(3, 1);
    s.setup = base_setup({1, 2});
    s.body = [&, obs, finish] {
      auto wr = W->b->clone(), rd = W->b->clone();
      W->b->merge(true);
      std::thread t1([&] { writer(wr, 3, &W->com[0]); });
      Obs &a = (*obs)[0], &c = (*obs)[1];
      a.s0 = c.s0 = mc::stamp();
      rd->start();
      a.s1 = c.s1 = mc::stamp();
      auto k = rd->clone();
      std::thread t2([&] {
        c.v = dyn::observe(k.get(), W->all);
        k->end();
      });
      a.v = dyn::observe(rd.get(), W->all);
      rd->end();
      t2.join();
      t1.join();
      if (!(a.v == c.v))
        bad("a clone of a started warren shows a different view", a.v.str() + " / " + c.v.str());
      mc::drain();
      finish(2);
    };
  } else if (scn == "readers") { // shared shards and posting cache, several readers
    add(1, 1), add(2, 1), add(3, 1);
    s.setup = base_setup({1, 2});
    s.body = [&, obs, finish] {
      auto r1 = W->b->clone(), r2 = W->b->clone();
      std::thread t1([&, obs] {
        (*obs)[0] = look(r1, false);
        addr p, q;
        r1->start();
        r1->txt()->range(&p, &q);
        r1->end();
        if (p != 0 || q != 5)
          bad("range of a view is wrong", vx::sfmt("(%ld,%ld)", (long)p, (long)q));
      });
      std::thread t2([&, obs] {
        addr p, q;
        r2->start();
        r2->txt()->range(&p, &q);
        r2->end();
        if (p != 0 || q != 5)
          bad("range of a view is wrong", vx::sfmt("(%ld,%ld)", (long)p, (long)q));
        (*obs)[1] = look(r2, false);
      });
      t1.join();
      t2.join();
      mc::drain();
      finish(2);
    };
  } else if (scn == "batch" || scn == "diskbatch") { // several transactions committed together
    add(1, 1), add(2, 1), add(3, 1), add(4, 1);
    disk = scn == "diskbatch";
    tmpl = "batch.tmpl";
    if (!disk)
      s.setup = base_setup({1, 2});
    s.body = [&, obs, finish] {
      auto w1 = W->b->clone(), w2 = W->b->clone(), rd = W->b->clone();
      W->b->merge(true);
      std::thread t1([&] {
        if (!put(w1, 3) || !put(w2, 4)) {
          bad("a transaction was refused", "");
          return;
        }
        W->com[0].id = 3, W->com[1].id = 4;
        W->com[0].c0 = W->com[1].c0 = mc::stamp();
        Warren::commit_all({w1, w2});
        W->com[0].c1 = W->com[1].c1 = mc::stamp();
      });
      (*obs)[0] = look(rd, true);
      (*obs)[1] = look(rd, false);
      t1.join();
      mc::drain();
      finish(2);
    };
  } else if (scn == "batches") { // two batches at once
    disk = true;
    add(1, 1), add(2, 1), add(3, 1), add(4, 1), add(5, 1);
    tmpl = "batches.tmpl";
    s.body = [&, obs, finish] {
      auto w1 = W->b->clone(), w2 = W->b->clone(), w3 = W->b->clone();
      auto batch = [&](std::vector<std::shared_ptr<Warren>> ws, std::vector<int> ids, size_t at) {
        for (size_t i = 0; i < ids.size(); i++) {
          W->com[at + i].id = ids[i];
          if (!put(ws[i], ids[i]))
            bad("a transaction was refused", "");
        }
        for (size_t i = 0; i < ids.size(); i++)
          W->com[at + i].c0 = mc::stamp();
        Warren::commit_all(ws);
        for (size_t i = 0; i < ids.size(); i++)
          W->com[at + i].c1 = mc::stamp();
      };
      W->b->merge(true);
      std::thread t1([&] { batch({w1, w2}, {3, 4}, 0); });
      batch({w3}, {5}, 2);
      t1.join();
      mc::drain();
      finish(0);
    };
  } else if (scn == "toggle") { // merging switched off and on while others commit
    add(1, 1), add(2, 1), add(3, 1);
    s.setup = base_setup({1, 2});
    s.body = [&, obs, finish] {
      auto wr = W->b->clone(), rd = W->b->clone();
      std::thread t1([&] { writer(wr, 3, &W->com[0]); });
      W->b->merge(true);
      (*obs)[0] = look(rd, false);
      W->b->merge(false);
      t1.join();
      W->b->merge(true);
      mc::drain();
      finish(1);
    };
  } else if (scn == "settings") { // settings changed and read from several threads
    disk = true;
    add(1, 1), add(2, 1);
    tmpl = "settings.tmpl";
    s.body = [&, obs, finish] {
      auto a = W->b->clone(), b = W->b->clone();
      auto set = [](std::shared_ptr<Warren> w, const char *key) {
        std::string v, e;
        if (!w->set_parameter(key, "1", &e) || !w->get_parameter(key, &v, &e) || v != "1")
          bad("a setting is not kept", std::string(key) + " reads '" + v + "' " + e);
      };
      std::thread t1([&] { set(a, "one"); });
      set(b, "two");
      t1.join();
      auto c = W->b->clone();
      std::string one, two;
      if (!c->get_parameter("one", &one) || !c->get_parameter("two", &two) || one != "1" || two != "1")
        bad("a setting is lost", "one '" + one + "' two '" + two + "'");
      c = nullptr;
      mc::drain();
      finish(0);
    };
  } else if (scn == "disk") {
    disk = true;
    add(1, 1), add(2, 1), add(3, 1);
    tmpl = "disk.tmpl";
    s.body = [&, obs, finish] {
      auto wr = W->b->clone(), rd = W->b->clone();
      W->b->merge(true);
      std::thread t1([&] { writer(wr, 3, &W->com[0]); });
      (*obs)[0] = look(rd, true);
      t1.join();
      (*obs)[1] = look(rd, false);
      mc::drain();
      finish(2);
    };
  } else if (scn == "hazel") { // conversion to a packed shard and the merge of packed shards
    disk = true;
    add(1, 2), add(2, 1), add(3, 1, {{1, 0}});
    tmpl = "hazel.tmpl";
    s.body = [&, obs, finish] {
      auto wr = W->b->clone(), rd = W->b->clone();
      W->b->merge(true);
      std::thread t1([&] { writer(wr, 3, &W->com[0]); });
      (*obs)[0] = look(rd, true);
      t1.join();
      (*obs)[1] = look(rd, false);
      mc::drain();
      finish(2);
    };
  } else if (scn == "hreaders") { // two readers of one packed shard with nothing cached
    disk = true;
    add(1, 2), add(2, 1);
    tmpl = "hreaders.tmpl";
    s.body = [&, obs, finish] {
      auto r1 = W->b->clone(), r2 = W->b->clone();
      std::thread t1([&, obs] { (*obs)[0] = look(r1, false); });
      (*obs)[1] = look(r2, false);
      t1.join();
      mc::drain();
      finish(2);
    };
  } else {
    fprintf(stderr, "unknown scenario\n");
    return 2;
  }
  if (disk) {
    bool hz = scn == "hazel" || scn == "hreaders";
    // prepare the template once, unscheduled, with the real code
    fs::remove_all(tmpl);
    std::string e;
    {
      auto b = Bigwig::make(tmpl, std::string("tokenizer:name:ascii"), &e);
      if (!b) {
        fprintf(stderr, "template: %s\n", e.c_str());
        return 2;
      }
      b->merge(false);
      W->b = b;
      precommit(1);
      if (!hz)
        precommit(2);
      W->b = nullptr;
    }
    if (hz) {
      auto working = Working::make(tmpl);
      auto fz = Featurizer::make("hashing", "");
      auto tk = Tokenizer::make("ascii", "");
      std::string nm = "fiver." + seq2str(0) + "." + seq2str(0);
      auto f = Fiver::unpickle(nm, working, fz, tk, &e);
      if (!f) {
        fprintf(stderr, "template: %s\n", e.c_str());
        return 2;
      }
      f->start();
      if (!f->hazel(&e)) {
        fprintf(stderr, "template: %s\n", e.c_str());
        return 2;
      }
      f->end();
      fs::remove(tmpl + "/" + nm);
      auto b = std::dynamic_pointer_cast<Bigwig>(Warren::make(tmpl, &e));
      W->b = b;
      precommit(2);
      W->b = nullptr;
    }
    s.setup = [] {
      // a fixed name: paths end up in hash tables, and through them in the order of allocations
      std::string priv = vx::sfmt("%s.%08d", tmpl.c_str(), (int)getpid());
      fs::remove_all(priv);
      fs::create_directory(priv);
      if (chdir(priv.c_str()))
        _exit(3);
      W->dir = "run";
      fs::copy("../" + tmpl, W->dir, fs::copy_options::recursive);
      std::string e;
      W->b = std::dynamic_pointer_cast<Bigwig>(Warren::make(W->dir, &e));
      if (!W->b) {
        bad("setup", e);
        _exit(3);
      }
    };
    s.check = [] {
      reopen_check();
      W->b = nullptr;
      fs::path here = fs::current_path();
      if (chdir("..") == 0)
        fs::remove_all(here);
    };
  }
  mc::explore(s, bound, vx::opt.budget_s, maxe);
  return 0;
}
