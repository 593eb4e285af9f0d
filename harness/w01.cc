// W01: a store's directory, whatever its name; and files written and read through it.
#include "fsx.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fluffle.h"
#include "src/simple_builder.h"
#include "src/working.h"
#include "vx.h"
#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <grp.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;

static int s_names, s_stores, s_reads, s_points, s_files, s_appends, s_temps;
static std::string root;

static void quiet() {
  static bool done = false;
  if (!done && !getenv("VX_LOUD"))
    if (!freopen("/dev/null", "w", stderr))
      abort();
  done = true;
}
static int in_child(const std::function<int()> &f) {
  pid_t p = fork();
  if (p == 0) {
    alarm(60);
    _exit(f());
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  return st;
}

// ---- names ------------------------------------------------------------------------------------------------------
static std::vector<std::string> names(int n) {
  const std::string alphabet = "a '\";&$`*?\\(#-\n[~|";
  std::vector<std::string> v = {""};
  for (size_t k = 0; k < v.size(); k++)
    if ((int)v[k].size() < n)
      for (char c : alphabet)
        v.push_back(v[k] + c);
  v.erase(v.begin());
  for (auto s : {"`touch pwned`", "$(touch pwned)", "a;touch pwned", "a&touch pwned", "a\ntouch pwned", "a|touch pwned", "a>pwned", "--help", "-rf a", "a b c", "{a,b}", "a*b", "s", "a b", "\xc3\xa9\xff", "..a",
                 "temp.7", "$x", "${x}a", "%s", "=a", "!a", "a\\ b", "'a b'", "\"a\"", "a'b'c", "''", "dir/a b", "dir/-x", "dir with/in it", "s/temp.1/b", "/a b", "commit", "a\tb"})
    v.push_back(s);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static std::string bystanders(const std::string &dir, const std::string &own) {
  std::string r;
  std::vector<std::string> l;
  std::string mine = fs::path(dir + "/" + own).lexically_normal().string();
  while (mine.size() && mine.back() == '/')
    mine.pop_back();
  for (auto i = fs::recursive_directory_iterator(dir); i != fs::recursive_directory_iterator(); ++i) {
    std::string p = i->path().lexically_normal().string();
    if (p == mine || mine.compare(0, p.size() + 1, p + "/") == 0) {
      if (p == mine)
        i.disable_recursion_pending();
      continue;
    }
    l.push_back(p.substr(dir.size()) + (fs::is_regular_file(i->status()) ? ":" + std::to_string(fs::file_size(i->path())) : "/"));
  }
  std::sort(l.begin(), l.end());
  for (auto &x : l)
    r += vx::esc(x) + " ";
  return r;
}
static const std::vector<std::string> TEXT = {"one two three", "four five", "six"};
static std::string all(W w) {
  w->start();
  std::string r = w->txt()->translate(0, 1000000);
  for (auto &c : r)
    if (c == '\n')
      c = ' ';
  auto h = w->hopper_from_gcl("(^ five mark:)");
  addr p, q;
  if (h) {
    h = w->hopper_from_gcl("mark:");
    for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q))
      r += vx::sfmt("[%ld,%ld]", (long)p, (long)q);
  }
  w->end();
  while (r.size() && r.find("  ") != std::string::npos)
    r.replace(r.find("  "), 2, " ");
  vx::count(s_reads);
  return r;
}
static bool add(W w, const std::string &t, bool last, std::string *e) {
  addr p, q;
  if (!w->transaction(e))
    return false;
  if (!w->appender()->append(t, &p, &q, e) || !w->annotator()->annotate(w->featurizer()->featurize("mark:"), p, q, (fval)0.0, e) || !w->ready(e)) {
    w->abort();
    return false;
  }
  (void)last;
  w->commit();
  return true;
}
static W create(const std::string &name, bool dynamic, std::string *e) {
  if (dynamic)
    return Bigwig::make(name, "", e);
  auto b = SimpleBuilder::make(Working::mkdir(name), "", e);
  if (!b)
    return nullptr;
  b->verbose(false);
  addr p, q;
  if (!b->add_text("", &p, &q, e) && 0)
    return nullptr;
  if (!b->finalize(e))
    return nullptr;
  b = nullptr;
  return Warren::make(name, e);
}
static void prepare(const std::string &dir) {
  fs::create_directories(dir + "/s");
  for (auto f : {"a", "b", "x", "temp.1", "s/temp.9", "s/dna", "-rf", "commit.x.sh", "hazel.x"})
    std::ofstream(dir + "/" + f) << "keep";
}
// uses a store in `name`: made, loaded, opened again, loaded again
static void named(int n) {
  auto v = names(n);
  vx::opt.chunk = 4;
  vx::run("names", v.size() * 4, [&](uint64_t i) {
    quiet();
    setenv("FSX_REAL_SHELL", "1", 1);
    std::string name = v[i / 4], dir = root + "/n" + std::to_string(vx::me), e;
    bool dynamic = i & 1, absolute = i & 2;
    if (name == "/a b") {
      if (absolute)
        return;
      name = dir + "/a b";
    }
    std::string key = std::string("name:") + (dynamic ? "dynamic:" : "static:") + (absolute ? "in a directory:" : "alone:") + vx::esc(v[i / 4]);
    vx::what(key);
    fs::current_path(root);
    fs::remove_all(dir);
    prepare(dir);
    fs::current_path(dir);
    setenv("HOME", dir.c_str(), 1);
    std::string own = name.compare(0, dir.size() + 1, dir + "/") == 0 ? name.substr(dir.size() + 1) : name;
    if (own == "a" || own == "-rf a")
      fs::remove("a");
    if (fs::path(own).lexically_normal().string() == "temp.1" || own == "x" || own == "b")
      return;
    if (own.compare(0, 7, "s/temp.") == 0 || own == "s") // a directory already there
      fs::create_directories(own);
    if (own == "s")
      fs::remove("s/temp.9"), fs::remove("s/dna");
    if (absolute)
      name = dir + "/" + name;
    std::string before = bystanders(dir, own);
    vx::count(s_names);
    int st = in_child([&] {
      std::string want, e;
      for (int round = 0; round < 3; round++) {
        W w = round == 0 ? create(name, dynamic, &e) : Warren::make(name, &e);
        if (!w)
          return vx::viol(key + ":open", vx::sfmt("%s: round %d: ", key.c_str(), round) + e), fflush(vx::out), 1;
        if (round == 0)
          w->set_parameter("preload", "yes");
        if (round && all(w) != want)
          vx::viol(key + ":content", key + ": " + vx::esc(all(w)) + " instead of " + vx::esc(want));
        if (!add(w, TEXT[round], round == 2, &e))
          return vx::viol(key + ":add", key + ": not added: " + e), fflush(vx::out), 1;
        w = Warren::make(name, &e);
        if (!w)
          return vx::viol(key + ":open", key + ": not opened again: " + e), fflush(vx::out), 1;
        addr at = 0;
        want = "";
        std::string marks;
        for (int k = 0; k <= round; k++) {
          want += TEXT[k] + " ";
          addr len = std::count(TEXT[k].begin(), TEXT[k].end(), ' ') + 1;
          marks += vx::sfmt("[%ld,%ld]", (long)at, (long)(at + len - 1));
          at += len;
        }
        want += marks;
        std::string got = all(w);
        vx::count(s_stores);
        if (got != want)
          vx::viol(key + ":content", key + ": " + vx::esc(got) + " instead of " + vx::esc(want));
        if (dynamic)
          usleep(2000);
      }
      fflush(vx::out);
      return 0;
    });
    if (!WIFEXITED(st))
      vx::viol(key + ":crash", key + ": the process ended with signal " + std::to_string(WTERMSIG(st)));
    std::string after = bystanders(dir, own);
    if (after != before)
      vx::viol(key + ":bystanders", key + ": beside the store there was " + before + " and is now " + after);
    fs::current_path(root);
    fs::remove_all(dir);
  });
  vx::opt.chunk = 1;
}

// a batch commit killed at every operation, in a directory of every name, recovered with the real shell
static void batches(int n) {
  auto v = names(n);
  vx::run("batches", v.size(), [&](uint64_t i) {
    quiet();
    std::string name = v[i], dir = root + "/k" + std::to_string(vx::me), e;
    if (name == "/a b")
      name = dir + "/a b";
    std::string own = name.compare(0, dir.size() + 1, dir + "/") == 0 ? name.substr(dir.size() + 1) : name;
    if (own == "x" || own == "b" || own == "s" || own == "a" || own.compare(0, 2, "s/") == 0)
      return;
    static fsx::Log *log = nullptr;
    if (!log)
      log = fsx::new_log();
    vx::count(s_names);
    uint32_t operations = 1;
    for (uint32_t at = 0; at <= operations; at++) {
      std::string key = "batch:" + vx::esc(v[i]) + vx::sfmt(":%u", at);
      vx::what(key);
      fs::current_path(root);
      fs::remove_all(dir);
      prepare(dir);
      fs::current_path(dir);
      setenv("HOME", dir.c_str(), 1);
      std::string before = bystanders(dir, own);
      int st = in_child([&] {
        std::string e;
        setenv("FSX_REAL_SHELL", "1", 1);
        auto b = Bigwig::make(Working::mkdir(name), Featurizer::make("hashing", ""), Tokenizer::make("ascii", ""), Fluffle::make(), &e);
        if (!b)
          return 2;
        b->merge(false);
        W one = b->clone(), two = b->clone();
        addr p, q;
        if (!one || !two || !one->transaction() || !one->appender()->append("uno", &p, &q) || !two->transaction() || !two->appender()->append("dos", &p, &q) || !one->ready() || !two->ready())
          return 3;
        fsx::start(log, fs::path(name).is_absolute() ? name : dir + "/" + name, at == 0 ? fsx::RECORD : fsx::CRASH, at ? at - 1 : 0, 0);
        Warren::commit_all({one, two});
        fsx::stop();
        return 0;
      });
      if (at == 0)
        operations = log->n;
      int told = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
      if (told != 0 && told != fsx::KILLED) {
        vx::viol("batch:" + vx::esc(v[i]) + ":make", key + vx::sfmt(": cannot be made (%d)", told));
        break;
      }
      vx::count(s_points);
      int st2 = in_child([&] {
        setenv("FSX_REAL_SHELL", "1", 1);
        std::string e;
        for (int round = 0; round < 2; round++) {
          W w = Warren::make(name, &e);
          if (!w)
            return vx::viol("batch:" + vx::esc(v[i]) + ":open", key + ": does not open: " + e), fflush(vx::out), 1;
          w->start();
          bool one = w->txt()->translate(0, 100).find("uno") != std::string::npos, two = w->txt()->translate(0, 100).find("dos") != std::string::npos;
          w->end();
          if (one != two || (told == 0 && !one))
            vx::viol("batch:" + vx::esc(v[i]) + ":half", key + vx::sfmt(": first %d, second %d", one, two));
        }
        fflush(vx::out);
        return 0;
      });
      if (!WIFEXITED(st2))
        vx::viol("batch:" + vx::esc(v[i]) + ":crash", key + ": the process ended with a signal");
      std::string after = bystanders(dir, own);
      if (after != before)
        vx::viol("batch:" + vx::esc(v[i]) + ":bystanders", key + ": beside the store there was " + before + " and is now " + after);
    }
    fs::current_path(root);
    fs::remove_all(dir);
  });
}

// ---- files ------------------------------------------------------------------------------------------------------
static char byte_at(size_t i) { return (char)(i * 2654435761u >> 13); }
static void files(int n) {
  const std::vector<size_t> sizes = {0, 1, 2, 132, 133, 134, 266, 400, 1000};
  const std::vector<std::string> recipes = {"", "file", "full", "compressed", "compression test"};
  uint64_t total = recipes.size();
  for (int i = 0; i < n; i++)
    total *= sizes.size();
  vx::opt.chunk = 8;
  vx::run("files", total, [&](uint64_t x) {
    quiet();
    std::string recipe = recipes[x % recipes.size()];
    x /= recipes.size();
    if (recipe == "compressed" && x % 7) // allocates 64 MB: every seventh will do
      return;
    std::vector<size_t> parts;
    size_t all = 0;
    for (int i = 0; i < n; i++, x /= sizes.size()) {
      parts.push_back(sizes[x % sizes.size()]);
      all += parts.back();
    }
    std::string data, what = "\"" + recipe + "\"";
    for (size_t i = 0; i < all; i++)
      data += byte_at(i);
    for (auto p : parts)
      what += vx::sfmt(" %zu", p);
    vx::what(what);
    std::string name = vx::sfmt("file%d", vx::me), e;
    auto working = Working::make(root);
    {
      auto w = working->writer(name, recipe, &e);
      if (!w)
        return vx::viol("file:writer:" + recipe, what + ": " + e);
      size_t at = 0;
      for (auto p : parts) {
        w->append(data.data() + at, p);
        at += p;
        vx::count(s_appends);
      }
    }
    vx::count(s_files);
    bool seekable = recipe.compare(0, 4, "comp") != 0;
    for (size_t step : {(size_t)1, (size_t)7, (size_t)132, (size_t)133, (size_t)134, (size_t)500, all, all + 1, 2 * all + 5}) {
      if (step == 0)
        continue;
      auto r = working->reader(name, recipe, &e);
      if (!r)
        return vx::viol("file:reader:" + recipe, what + ": " + e);
      std::string got, buffer(step, '?');
      for (size_t m; got.size() <= all && (m = r->read(&buffer[0], step)) > 0;) {
        got.append(buffer, 0, m);
        vx::count(s_reads);
        if (m < step && got.size() < all)
          return vx::viol("file:short:" + recipe, what + vx::sfmt(" read by %zu: short at %zu", step, got.size()));
      }
      if (got != data)
        return vx::viol("file:content:" + recipe, what + vx::sfmt(" read by %zu differs, %zu bytes of %zu", step, got.size(), all));
      if (r->read(&buffer[0], step) != 0)
        return vx::viol("file:end:" + recipe, what + ": more after the end");
    }
    if (!seekable)
      return;
    for (auto form : {"file", "full"}) {
      auto r = working->reader(name, form, &e);
      if (!r || r->size() != all)
        return vx::viol(std::string("file:size:") + form, what);
      std::vector<size_t> edge = {0, 1, all / 2, all ? all - 1 : 0, all, all + 1, (size_t)-1};
      for (size_t where : edge)
        for (size_t amount : {(size_t)0, (size_t)1, all / 2, all, all + 1}) {
          std::string buffer(amount + 1, '?');
          size_t m = r->read(&buffer[0], where, amount);
          size_t want = where >= all ? 0 : std::min(amount, all - where);
          vx::count(s_reads);
          if (m != want || (want && buffer.compare(0, want, data, where, want) != 0) || buffer[want] != '?')
            return vx::viol(std::string("file:part:") + form, what + vx::sfmt(": %zu bytes at %zu give %zu", amount, where, m));
          // and sequentially from there
          char c = '?';
          size_t next = where >= all ? where : where + want;
          m = r->read(&c, 1);
          if (m != (next < all ? 1u : 0u) || (m && c != data[next]))
            return vx::viol(std::string("file:next:") + form, what + vx::sfmt(": after %zu bytes at %zu", amount, where));
        }
    }
  });
  vx::opt.chunk = 1;
  // readers and writers of what is not there, or of no known kind
  vx::run("refusals", recipes.size() + 3, [&](uint64_t i) {
    quiet();
    std::vector<std::string> r = recipes;
    for (auto s : {"zip", "Compressed", " "})
      r.push_back(s);
    auto working = Working::make(root);
    std::string e, name = vx::sfmt("none%d", vx::me), there = vx::sfmt("there%d", vx::me);
    { std::ofstream(root + "/" + there) << "x"; }
    bool known = i < recipes.size();
    if (working->reader(name, r[i], &e) || e.empty())
      vx::viol("refusal:missing:" + r[i], "a reader of a file that is not there");
    e = "";
    if (!known && (working->reader(there, r[i], &e) || e.empty()))
      vx::viol("refusal:reader:" + r[i], "a reader of kind \"" + r[i] + "\"");
    e = "";
    if (!known && (working->writer(name, r[i], &e) || e.empty()))
      vx::viol("refusal:writer:" + r[i], "a writer of kind \"" + r[i] + "\"");
    e = "";
    if (working->writer("no/where/" + name, r[i], &e) || e.empty())
      vx::viol("refusal:place:" + r[i], "a writer in a directory that is not there");
  });
}
// temporary names
static void temps() {
  vx::run("temps", 27, [&](uint64_t i) {
    quiet();
    auto working = Working::make(root);
    std::vector<std::string> ext = {"", "x", "y"};
    std::set<std::string> seen;
    for (int k = 0; k < 40; k++) {
      std::string n = working->make_temp(ext[(k % 3 == 0 ? i : k % 3 == 1 ? i / 3 : i / 9) % 3]);
      vx::count(s_temps);
      if (!seen.insert(n).second)
        vx::viol("temp:twice", n);
      if (n.compare(0, root.size() + 6, root + "/temp.") != 0)
        vx::viol("temp:where", n);
    }
  });
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_names = vx::stat_id("names");
  s_stores = vx::stat_id("stores");
  s_reads = vx::stat_id("reads");
  s_points = vx::stat_id("crash_points");
  s_files = vx::stat_id("files");
  s_appends = vx::stat_id("appends");
  s_temps = vx::stat_id("temporary_names");
  // Names are handed to a shell here: only as a user who owns nothing but this directory.
  char scratch[] = "/tmp/w01.XXXXXX";
  if (!mkdtemp(scratch))
    return 3;
  root = scratch;
  if (geteuid() == 0 && (chown(scratch, 65534, 65534) || setgroups(0, nullptr) || setgid(65534) || setuid(65534)))
    return 3;
  if (geteuid() == 0 || chdir(scratch))
    return 3;
  std::string set = vx::arg(argc, argv, "set");
  int n = std::stoi(vx::arg(argc, argv, "size", "2"));
  if (set == "names")
    named(n);
  else if (set == "batches")
    batches(n);
  else if (set == "files")
    files(n), temps();
  fs::current_path("/tmp");
  fs::remove_all(root);
  return 0;
}
