// F01: readers of a store with fast identifiers, on several threads, and while they are being made.
#include "mcrt.h"
#include "src/cottontail.h"
#include "src/fastid_txt.h"
#include "src/simple_builder.h"
#include "vx.h"
#include <filesystem>
#include <memory>
#include <string>
#include <thread>
using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;

static std::string dump(W w) {
  addr n = w->txt()->tokens(), a, b;
  std::string r = std::to_string(n) + ";";
  auto h = w->hopper_from_gcl("(... <DOCNO> </DOCNO>)");
  for (h->tau(minfinity + 1, &a, &b); a < maxfinity; h->tau(a + 1, &a, &b))
    r += w->txt()->translate(a, b) + ";";
  for (addr p = 0; p < n; p += 2)
    r += w->txt()->translate(p, p + 1) + "|" + w->txt()->raw(p, n) + ";";
  return r;
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string scn = vx::arg(argc, argv, "scn");
  int bound = atoi(vx::arg(argc, argv, "bound", "1").c_str());
  mc::detect_races = vx::arg(argc, argv, "races", "0") == "1";
  mc::policy = atoi(vx::arg(argc, argv, "policy", "0").c_str());
  char tmpl[] = "/dev/shm/f01mXXXXXX";
  if (!mkdtemp(tmpl))
    return 2;
  std::string root = tmpl, dir = root + "/s", e, want;
  {
    auto b = SimpleBuilder::make(Working::mkdir(dir), "", &e);
    if (!b)
      return 2;
    b->verbose(false);
    for (auto id : {"a1", "b-2", "c"}) {
      addr p, q;
      b->add_text(std::string("<DOC> <DOCNO> ") + id + " </DOCNO> text </DOC>\n", &p, &q);
    }
    if (!b->finalize())
      return 2;
    b = nullptr;
    W w = Warren::make(dir, &e);
    if (!w || !w->set_parameter("id", "(... <DOCNO> </DOCNO>)"))
      return 2;
    w->start();
    want = dump(w);
    if (scn != "making" && !fastid(w, &e)) {
      fprintf(stderr, "%s\n", e.c_str());
      return 2;
    }
  }
  W w;
  std::string mine = dir;
  mc::Scenario s;
  s.name = scn;
  s.setup = [&] {
    std::string e;
    if (scn == "making") { // executions run side by side
      mine = root + "/" + std::to_string(getpid());
      fs::remove_all(mine);
      fs::copy(dir, mine, fs::copy_options::recursive);
    }
    w = Warren::make(mine, &e);
    if (!w)
      mc::fail("setup", "not open: " + e);
  };
  s.body = [&] {
    if (!w)
      return;
    std::string e, x, y;
    if (scn == "making") {
      w->start();
      W b = w->clone();
      bool ok = false;
      std::thread t1([&] { ok = fastid(w, &e); });
      std::thread t2([&] { y = dump(b); });
      t1.join();
      t2.join();
      if (!ok)
        mc::fail("refused", "fast ids are not made: " + e);
      x = dump(w);
      b->end();
      w->end();
      W again = Warren::make(mine, &e);
      if (!again)
        mc::fail("closed", "not open: " + e);
      else {
        again->start();
        if (dump(again) != want)
          mc::fail("differs", "once made: " + dump(again));
      }
    } else if (scn == "clones") { // readers none of which has read before
      W a = w->clone(), b = w->clone();
      std::thread t1([&] { a->start(), x = dump(a), a->end(); });
      std::thread t2([&] { b->start(), y = dump(b), b->end(); });
      t1.join();
      t2.join();
    } else { // a clone made while the store is being read
      w->start();
      std::thread t1([&] { x = dump(w); });
      std::thread t2([&] {
        W b = w->clone();
        y = dump(b);
        b->end();
      });
      t1.join();
      t2.join();
      w->end();
    }
    for (auto &r : {x, y})
      if (r != want)
        mc::fail("differs", r);
    mc::drain();
    mc::outcome("same");
    w = nullptr;
  };
  mc::explore(s, bound, vx::opt.budget_s ? vx::opt.budget_s : 600);
  fs::remove_all(root);
  return 0;
}
