// I01: bulk loading.  Every small source file, every line kind, header and separator option, several worker counts;
// every crash point and every failing operation of a load; sources that cannot be read; names of sources.
#include "fsx.h"
#include "probe.h"
#include "meadowlark/meadowlark.h"
#include "src/bigwig.h"
#include "src/json.h"
#include "src/scribe.h"
#include "src/simple_builder.h"
#include "vx.h"
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace cottontail;
namespace fs = std::filesystem;
namespace ml = cottontail::meadowlark;

static int s_loads, s_records, s_refused, s_points, s_none, s_all, s_names, s_faults;
static std::string root;

static std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}
static void spit(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary);
  f << s;
}
static void quiet() {
  static bool done = false;
  if (!done && !getenv("VX_LOUD"))
    if (!freopen("/dev/null", "w", stderr))
      abort();
  done = true;
}
static void fresh_dir() {
  quiet();
  static int serial = 0;
  static std::string last;
  std::error_code ec;
  fs::current_path(root);
  if (last.size())
    fs::remove_all(last, ec);
  last = root + "/" + std::to_string(vx::me) + "." + std::to_string(getpid()) + "." + std::to_string(serial++);
  fs::create_directories(last);
  fs::current_path(last);
}
// words, as the utf8 tokenizer sees text made of ASCII letters, digits and separators
static std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> v;
  std::string w;
  for (unsigned char c : s + " ")
    if (isalnum(c))
      w += tolower(c);
    else if (w.size()) {
      v.push_back(w);
      w = "";
    }
  return v;
}
typedef std::vector<std::pair<addr, addr>> Spans;
static Spans spans(Warren *w, const std::string &feature) {
  Spans v;
  auto h = w->idx()->hopper(w->featurizer()->featurize(feature));
  if (!h)
    return v;
  addr p, q;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity && v.size() < 1000000; h->tau(p + 1, &p, &q))
    v.push_back({p, q});
  return v;
}
static std::string show(const Spans &v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 12; i++)
    s += vx::sfmt("(%ld,%ld)", (long)v[i].first, (long)v[i].second);
  return s + (v.size() > 12 ? vx::sfmt("..%zu", v.size()) : "");
}
static std::string norm(const std::string &name) { return name.find('/') == std::string::npos ? "./" + name : name; }

// Maintenance threads may outlive the last handle on a store; opening it again in the same process waits for them.
static void settle() {
  for (int i = 0; i < 20000; i++) {
    int n = 0;
    for (auto &e : fs::directory_iterator("/proc/self/task")) {
      (void)e;
      n++;
    }
    if (n == 1)
      return;
    usleep(500);
  }
}
// Absolute names: a maintenance thread may outlive its store by a moment, and the working directory changes.
static std::shared_ptr<Warren> meadow(std::string dir) {
  std::string e;
  dir = fs::current_path().string() + "/" + dir;
  auto w = ml::create_meadow(dir, &e);
  if (!w) {
    vx::viol("setup", "meadow not created: " + e);
    return nullptr;
  }
  std::dynamic_pointer_cast<Bigwig>(w)->merge(false);
  return w;
}
static std::shared_ptr<Warren> reopen(std::string dir, std::string *e) {
  settle();
  dir = fs::current_path().string() + "/" + dir;
  auto w = ml::open_meadow(dir, e);
  if (w)
    std::dynamic_pointer_cast<Bigwig>(w)->merge(false);
  return w;
}

// ---- TSV ---------------------------------------------------------------------------------------------------------
struct Tsv {
  std::string text, sep;
  bool header;
  std::vector<std::vector<std::string>> rows() const {
    std::vector<std::string> lines;
    std::string l;
    for (size_t i = 0; i < text.size(); i++)
      if (text[i] == '\n' || text[i] == '\r') {
        if (text[i] == '\r' && i + 1 < text.size() && text[i + 1] == '\n')
          i++;
        lines.push_back(l);
        l = "";
      } else
        l += text[i];
    if (l.size())
      lines.push_back(l);
    std::vector<std::vector<std::string>> r;
    for (auto &x : lines) {
      std::vector<std::string> f;
      if (sep.empty()) {
        std::string y;
        for (char c : x + " ")
          if (isspace((unsigned char)c)) {
            if (y.size())
              f.push_back(y);
            y = "";
          } else
            y += c;
      } else {
        size_t at = 0, n;
        while ((n = x.find(sep, at)) != std::string::npos) {
          f.push_back(x.substr(at, n - at));
          at = n + sep.size();
        }
        f.push_back(x.substr(at));
      }
      r.push_back(f);
    }
    return r;
  }
};
// What one load adds: features to spans relative to the first token of the data, the words, and the path.
struct Added {
  std::map<std::string, Spans> at;
  std::vector<std::string> words;
  size_t records = 0;
};
static Added added(const Tsv &t) {
  Added a;
  auto rows = t.rows();
  for (size_t i = 0; i < rows.size(); i++) {
    addr from = a.words.size();
    for (size_t j = 0; j < rows[i].size(); j++) {
      addr f = a.words.size();
      for (auto &w : words(rows[i][j]))
        a.words.push_back(w);
      addr to = (addr)a.words.size() - 1;
      if (f <= to)
        a.at[":" + std::to_string(j) + ":"].push_back({f, to});
    }
    addr to = (addr)a.words.size() - 1;
    if (from <= to) {
      a.at[i == 0 && t.header ? "::" : ":"].push_back({from, to});
      a.records++;
    }
  }
  if (a.words.size())
    a.at["\1path"].push_back({0, (addr)a.words.size() - 1});
  return a;
}
// Compares the whole store with the loads made so far, in order.
struct Load {
  std::string name;
  Added a;
};
static bool check_tsv(Warren *w, const std::vector<Load> &loads, const std::string &key, const std::string &what) {
  std::map<std::string, Spans> want;
  std::vector<std::string> text;
  for (auto f : {"/", ":", "::", ":0:", ":1:", ":2:", ":3:"})
    want[f];
  for (auto &l : loads) {
    addr at = text.size();
    auto p = words(norm(l.name));
    text.insert(text.end(), p.begin(), p.end());
    want["/"].push_back({at, (addr)text.size() - 1});
    at = text.size();
    text.insert(text.end(), l.a.words.begin(), l.a.words.end());
    want[norm(l.name)];
    for (auto &f : l.a.at)
      for (auto &s : f.second)
        want[f.first == "\1path" ? norm(l.name) : f.first].push_back({at + s.first, at + s.second});
  }
  std::set<std::string> vocabulary(text.begin(), text.end());
  for (size_t i = 0; i < text.size(); i++)
    want[text[i]].push_back({(addr)i, (addr)i});
  want["zzz"];
  for (auto &f : want) {
    Spans got = spans(w, f.first);
    if (got != f.second) {
      vx::viol(key, what + ": annotations of \"" + f.first + "\": expected " + show(f.second) + " got " + show(got));
      return false;
    }
    for (auto &s : f.second) {
      std::vector<std::string> tw(text.begin() + s.first, text.begin() + s.second + 1);
      if (words(w->txt()->translate(s.first, s.second)) != tw) {
        vx::viol(key, what + ": text of " + f.first + show({s}) + " is " + vx::esc(w->txt()->translate(s.first, s.second)));
        return false;
      }
    }
  }
  addr p = 0, q = 0;
  if (w->txt()->range(&p, &q) ? p != 0 || q != (addr)text.size() - 1 : text.size() > 0) {
    vx::viol(key, what + vx::sfmt(": addresses [%ld,%ld] of %zu", (long)p, (long)q, text.size()));
    return false;
  }
  return true;
}
static bool marked(std::shared_ptr<Warren> w, const std::string &name, const std::string &key) {
  bool yes = false;
  std::string e;
  if (!ml::already_appended(w, name, &yes, &e))
    vx::viol(key, "presence of " + name + " not answered: " + e);
  return yes;
}
static const char *TSV_LINES[] = {"a", "a\tb", "\tb", "", "a b\tc\td", "a\t", "\t", ". \t!", "B,c\t \tb"};
static std::vector<std::vector<int>> sequences(int kinds, int max) {
  std::vector<std::vector<int>> v = {{}};
  for (size_t i = 0; i < v.size(); i++)
    if ((int)v[i].size() < max)
      for (int k = 0; k < kinds; k++) {
        auto x = v[i];
        x.push_back(k);
        v.push_back(x);
      }
  return v;
}
static bool tsv(int n) {
  auto q = sequences(sizeof TSV_LINES / sizeof *TSV_LINES, n);
  // the last line with and without its end, three kinds of line end; header; separators
  const char *ends[] = {"\n", "\r\n", "\r"};
  std::vector<std::array<int, 4>> opts;
  for (int last = 0; last < 2; last++)
    for (int header = 0; header < 2; header++) {
      opts.push_back({last, header, 0, 0});
      if (!last)
        for (int e = 1; e < 3; e++)
          opts.push_back({last, header, e, 0});
      if (!last)
        for (int s = 1; s < 4; s++)
          opts.push_back({last, header, 0, s});
    }
  const char *seps[] = {"\t", ",", "", "\t\t"};
  return vx::run("tsv", q.size() * opts.size(), [&](uint64_t i) {
    auto &x = q[i / opts.size()];
    auto &o = opts[i % opts.size()];
    if (x.size() == 3 && (o[2] || o[3]))
      return;
    Tsv t;
    t.sep = seps[o[3]];
    t.header = o[1];
    for (size_t k = 0; k < x.size(); k++)
      t.text += std::string(TSV_LINES[x[k]]) + (k + 1 == x.size() && o[0] ? "" : ends[o[2]]);
    fresh_dir();
    std::string key = "tsv:" + vx::esc(t.text) + (t.header ? ":header" : "") + (o[3] ? ":sep" + std::to_string(o[3]) : "");
    spit("src.tsv", t.text);
    spit("other.tsv", "c\td\n");
    auto w = meadow("m");
    if (!w)
      return;
    std::vector<Load> loads;
    std::string e;
    // another source before it in one case in two, so that addresses are not always from the start
    bool before = (i + i / opts.size()) & 1;
    if (before) {
      if (!ml::append_tsv(w, "other.tsv", &e, false, "\t", 1))
        vx::viol(key, "source refused: " + e);
      loads.push_back({"other.tsv", added(Tsv{"c\td\n", "\t", false})});
    }
    w->start();
    if (marked(w, "src.tsv", key))
      vx::viol(key, "present before it was appended");
    w->end();
    vx::count(s_loads);
    if (!ml::append_tsv(w, "src.tsv", &e, t.header, t.sep, 1)) {
      vx::viol(key, "source refused: " + e);
      return;
    }
    loads.push_back({"src.tsv", added(t)});
    vx::count(s_records, loads.back().a.records);
    for (int again = 0; again < 2; again++) {
      w->start();
      bool ok = check_tsv(w.get(), loads, key, again ? "reopened" : "appended");
      if (!marked(w, "src.tsv", key))
        vx::viol(key, again ? "not present after reopening" : "not present after it was appended");
      if (marked(w, "src", key) || marked(w, "absent.tsv", key) || (!before && marked(w, "other.tsv", key)))
        vx::viol(key, "a source never appended is present");
      w->end();
      if (!ok)
        return;
      if (!again) {
        w = nullptr;
        w = reopen("m", &e);
        if (!w) {
          vx::viol(key, "not reopened: " + e);
          return;
        }
      }
    }
    if (i % 101 == 0)
      vx::sample(vx::sfmt("source %s gives %zu records", vx::esc(t.text).c_str(), loads.back().a.records));
  });
}

// ---- JSONL -------------------------------------------------------------------------------------------------------
struct JLine {
  const char *line, *json; // json: as rendered, null when the line is refused
};
static const JLine JSON_LINES[] = {{"{\"a\":1}", "{\"a\":1}"},
                                   {" {\"a\": \"x y\",\"b\":[1,true]} ", "{\"a\":\"x y\",\"b\":[1,true]}"},
                                   {"{}", "{}"},
                                   {"[]", "[]"},
                                   {"[{\"a\":2},{\"a\":3}]", "[{\"a\":2},{\"a\":3}]"},
                                   {"{\"a\":{\"a\":null}}", "{\"a\":{\"a\":null}}"},
                                   {"\"s t\"", "\"s t\""},
                                   {"", nullptr},
                                   {"{\"a\":", nullptr},
                                   {"{\"a\":1}{\"a\":2}", nullptr}};
static std::string squash(std::string s) {
  for (size_t at; (at = s.find(".000000")) != std::string::npos;)
    s.erase(at, 7);
  std::string r;
  bool in = false;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '"' && (!i || s[i - 1] != '\\'))
      in = !in;
    if (!in && isspace((unsigned char)s[i]))
      continue;
    r += s[i];
  }
  while (r.size() && isspace((unsigned char)r.back()))
    r.pop_back();
  return r;
}
// records of the store as rendered, by source
static bool check_jsonl(Warren *w, const std::map<std::string, std::multiset<std::string>> &want, const std::string &key, const std::string &what) {
  Spans all;
  for (auto &src : want) {
    Spans v = spans(w, norm(src.first));
    std::multiset<std::string> got;
    for (auto &s : v)
      got.insert(squash(json_translate(w->txt()->translate(s.first, s.second))));
    if (got != src.second) {
      std::string a, b;
      for (auto &x : src.second)
        a += x + " ";
      for (auto &x : got)
        b += x + " ";
      vx::viol(key, what + ": records of " + src.first + ": expected " + a.substr(0, 200) + " got " + b.substr(0, 200));
      return false;
    }
    all.insert(all.end(), v.begin(), v.end());
  }
  std::sort(all.begin(), all.end());
  Spans top = spans(w, ":");
  if (top != all) {
    vx::viol(key, what + ": objects " + show(top) + " but records of sources " + show(all));
    return false;
  }
  return true;
}
static bool check_marks(std::shared_ptr<Warren> w, const std::vector<std::string> &names, const std::vector<std::string> &absent, const std::string &key, const std::string &what) {
  // "/" once per appended source, in some order
  std::multiset<std::vector<std::string>> want, got;
  for (auto &n : names)
    want.insert(words(norm(n)));
  for (auto &s : spans(w.get(), "/"))
    got.insert(words(w->txt()->translate(s.first, s.second)));
  if (want != got) {
    vx::viol(key, what + vx::sfmt(": %zu sources marked, expected %zu", got.size(), want.size()));
    return false;
  }
  for (auto &n : names)
    if (!marked(w, n, key)) {
      vx::viol(key, what + ": " + n + " is not present");
      return false;
    }
  for (auto &n : absent)
    if (marked(w, n, key)) {
      vx::viol(key, what + ": " + n + " is present");
      return false;
    }
  return true;
}
static bool jsonl(int n) {
  const int K = sizeof JSON_LINES / sizeof *JSON_LINES;
  auto q = sequences(K, n);
  return vx::run("jsonl", q.size() * 3, [&](uint64_t i) {
    auto &x = q[i / 3];
    size_t threads = i % 3 + 1;
    if (x.size() <= 1 && threads == 3)
      return;
    bool noend = (i / 3) & 1;
    std::string text;
    bool good = true;
    std::multiset<std::string> records;
    for (size_t k = 0; k < x.size(); k++) {
      bool last = k + 1 == x.size();
      text += std::string(JSON_LINES[x[k]].line) + (last && noend ? "" : "\n");
      if (last && noend && !*JSON_LINES[x[k]].line)
        continue; // no line at all
      if (JSON_LINES[x[k]].json)
        records.insert(JSON_LINES[x[k]].json);
      else
        good = false;
    }
    fresh_dir();
    std::string key = vx::sfmt("jsonl:%zu:", threads) + vx::esc(text), e;
    spit("src.jsonl", text);
    spit("other.jsonl", "{\"o\":1}\n{\"o\":2}\n");
    std::multiset<std::string> other = {"{\"o\":1}", "{\"o\":2}"};
    auto w = meadow("m");
    if (!w)
      return;
    std::map<std::string, std::multiset<std::string>> want;
    want["other.jsonl"] = other;
    if (!ml::append_jsonl(w, "other.jsonl", &e, threads, false)) {
      vx::viol(key, "source refused: " + e);
      return;
    }
    e = "";
    bool ok = ml::append_jsonl(w, "src.jsonl", &e, threads, false);
    vx::count(s_loads);
    if (ok != good) {
      vx::viol(key, ok ? "a malformed source is accepted" : "source refused: " + e);
      return;
    }
    if (!ok && e.empty())
      vx::viol(key, "refused without an error");
    std::vector<std::string> names = {"other.jsonl"}, absent;
    want["src.jsonl"];
    if (ok) {
      want["src.jsonl"] = records;
      names.push_back("src.jsonl");
      vx::count(s_records, records.size());
    } else {
      absent.push_back("src.jsonl");
      vx::count(s_refused);
    }
    for (int again = 0; again < 3; again++) {
      w->start();
      bool fine = check_jsonl(w.get(), want, key, again == 0 ? "appended" : again == 1 ? "reopened" : "a further source appended") &&
                  check_marks(w, names, absent, key, again ? "reopened" : "appended");
      w->end();
      if (!fine)
        return;
      if (again == 0) {
        w = nullptr;
        w = reopen("m", &e);
        if (!w) {
          vx::viol(key, "not reopened: " + e);
          return;
        }
      } else if (again == 1) {
        spit("more.jsonl", "{\"m\":1}\n");
        if (!ml::append_jsonl(w, "more.jsonl", &e, threads, false)) {
          vx::viol(key, "a further source refused: " + e);
          return;
        }
        want["more.jsonl"] = {"{\"m\":1}"};
        names.push_back("more.jsonl");
      }
    }
  });
}

// ---- names -------------------------------------------------------------------------------------------------------
static bool names() {
  std::vector<std::string> v = {"a", "b", "a b", "a b c", "b a", "a.b", "ab", "A", "./a", "x/a", "x/a b", "a'b", "a\"b", "a\\b", "a\nb", " a", "a ", "(a", "x/./a", "\xc3\xa9", "a\tb"};
  return vx::run("names", v.size() * 2, [&](uint64_t i) {
    fresh_dir();
    fs::create_directories("x");
    bool jl = i & 1;
    const std::string &name = v[i / 2];
    std::string key = std::string(jl ? "name:jsonl:" : "name:tsv:") + vx::esc(name), e;
    spit(name, jl ? "{\"k\":1}\n" : "k\n");
    auto w = meadow("m");
    if (!w)
      return;
    bool ok = jl ? ml::append_jsonl(w, name, &e, 1, false) : ml::append_tsv(w, name, &e, false, "\t", 1);
    if (!ok) {
      vx::viol(key, "source refused: " + e);
      return;
    }
    w->start();
    for (auto &n : v) {
      vx::count(s_names);
      bool yes = marked(w, n, key);
      // names are told apart up to white space around them
      auto bare = [](std::string x) {
        while (x.size() && isspace((unsigned char)x.back()))
          x.pop_back();
        return x;
      };
      if (norm(n) != norm(name) && bare(norm(n)) == bare(norm(name)))
        continue;
      if (yes != (norm(n) == norm(name)))
        vx::viol(key, yes ? vx::esc(n) + " is reported as appended" : "not reported as appended");
    }
    w->end();
  });
}

// ---- sources that cannot be read to their end --------------------------------------------------------------------
static bool unreadable() {
  return vx::run("unreadable", 2 * 6, [&](uint64_t i) {
    fresh_dir();
    bool jl = i & 1;
    int kind = i / 2;
    std::string line = jl ? "{\"k\":1}\n" : "k\tl\n", text, e;
    for (int k = 0; k < 2000; k++)
      text += jl ? vx::sfmt("{\"k\":%d}\n", k) : vx::sfmt("k%d\tl\n", k);
    std::string name = "src";
    bool good = false;
    const char *kinds[] = {"missing", "directory", "cut gz", "garbled gz", "gz", "name with a quote, gz"};
    if (kind == 1)
      fs::create_directories(name);
    else if (kind >= 2) {
      name = kind == 5 ? "s'r c.gz" : "src.gz";
      spit("plain", text);
      if (system(("gzip -c plain > \"" + name + "\"").c_str()) != 0)
        return;
      std::string z = slurp(name);
      if (kind == 2)
        spit(name, z.substr(0, z.size() / 2));
      else if (kind == 3) {
        for (size_t k = z.size() / 2; k < z.size() / 2 + 8; k++)
          z[k] ^= 0x55;
        spit(name, z);
      } else
        good = true;
    }
    std::string key = std::string("source:") + (jl ? "jsonl:" : "tsv:") + kinds[kind];
    auto w = meadow("m");
    if (!w)
      return;
    bool ok = jl ? ml::append_jsonl(w, name, &e, 1, false) : ml::append_tsv(w, name, &e, false, "\t", 1);
    vx::count(s_loads);
    if (ok != good) {
      vx::viol(key, ok ? "accepted although it could not be read" : "refused: " + e);
      return;
    }
    if (!ok && e.empty())
      vx::viol(key, "refused without an error");
    if (!ok)
      vx::count(s_refused);
    w->start();
    bool yes = marked(w, name, key);
    size_t n = spans(w.get(), ":").size();
    if (yes != good || n != (good ? 2000u : 0u) || (!good && spans(w.get(), "/").size()))
      vx::viol(key, vx::sfmt("present: %d, records: %zu", yes, n));
    w->end();
    // opening something that is not a meadow
    if (ml::open_meadow("nothing", &e) || ml::open_meadow("plain", &e))
      vx::viol(key, "something that is not there opens as a meadow");
  });
}

// ---- many lines, several workers ---------------------------------------------------------------------------------
static bool workers(int max) {
  // worker threads are used from this many lines on
  std::vector<std::pair<size_t, size_t>> c;
  for (size_t t = 0; t <= (size_t)max; t++)
    for (size_t n : {(size_t)64 * 1024, (size_t)64 * 1024 + 1, (size_t)64 * 1024 + 5})
      if (t != 0 || n == 64 * 1024 + 1)
        c.push_back({t, n});
  return vx::run("workers", c.size() * 2, [&](uint64_t i) {
    size_t t = c[i / 2].first, n = c[i / 2].second;
    bool header = i & 1;
    fresh_dir();
    std::string key = vx::sfmt("workers:%zu:%zu%s", t, n, header ? ":header" : ""), text, e;
    for (size_t k = 0; k < n; k++)
      text += k % 3 == 2 ? "\n" : "r" + std::to_string(k) + "\tx\n";
    spit("src.tsv", text);
    auto w = meadow("m");
    if (!w)
      return;
    if (!ml::append_tsv(w, "src.tsv", &e, header, "\t", t)) {
      vx::viol(key, "source refused: " + e);
      return;
    }
    vx::count(s_loads);
    w->start();
    auto rec = spans(w.get(), ":"), head = spans(w.get(), "::"), f0 = spans(w.get(), ":0:"), f1 = spans(w.get(), ":1:"), path = spans(w.get(), "./src.tsv"), x = spans(w.get(), "x");
    size_t want = n - n / 3;
    vx::count(s_records, rec.size());
    if (rec.size() != want - header || head.size() != header || f0.size() != want || f1.size() != want || x.size() != want || (t && path.size() != (n <= 64 * 1024 ? 1 : t)))
      vx::viol(key, vx::sfmt("records %zu, header %zu, fields %zu and %zu, words %zu, source spans %zu, for %zu records", rec.size(), head.size(), f0.size(), f1.size(), x.size(), path.size(), want));
    else {
      std::set<std::string> seen;
      Spans all = rec;
      all.insert(all.end(), head.begin(), head.end());
      std::sort(all.begin(), all.end());
      size_t k = 0, in = 0;
      for (auto &s : all) {
        if (s.second != s.first + 1 || f0[k] != std::make_pair(s.first, s.first) || f1[k] != std::make_pair(s.second, s.second)) {
          vx::viol(key, "record " + show({s}) + " with fields " + show({f0[k], f1[k]}));
          break;
        }
        while (in < path.size() && path[in].second < s.first)
          in++;
        if (in >= path.size() || path[in].first > s.first || path[in].second < s.second) {
          vx::viol(key, "record " + show({s}) + " is not within its source");
          break;
        }
        seen.insert(w->txt()->translate(s.first, s.first));
        k++;
      }
      if (k == all.size() && seen.size() != want)
        vx::viol(key, vx::sfmt("%zu distinct records of %zu", seen.size(), want));
      if (header && head.size() == 1 && words(w->txt()->translate(head[0].first, head[0].second)) != words("r0 x"))
        vx::viol(key, "the header is not the first line");
    }
    if (!marked(w, "src.tsv", key))
      vx::viol(key, "not present");
    w->end();
  });
}

// ---- death and failing operations --------------------------------------------------------------------------------
struct Job {
  const char *what, *name, *text;
  bool json;
};
static const Job JOBS[] = {{"tsv", "src.tsv", "a\tb\nc\td\n", false},
                           {"empty tsv", "src.tsv", "", false},
                           {"tokenless tsv", "src.tsv", "\t\n.\n", false},
                           {"jsonl", "src.jsonl", "{\"a\":1}\n{\"a\":2}\n{\"a\":3}\n", true},
                           {"empty jsonl", "src.jsonl", "", true},
                           {"bad jsonl", "src.jsonl", "{\"a\":1}\n{\"a\":\n", true}};
static bool run_job(std::shared_ptr<Warren> w, const Job &j, std::string *e) {
  return j.json ? ml::append_jsonl(w, j.name, e, 1, false) : ml::append_tsv(w, j.name, e, false, "\t", 1);
}
static int in_child(const std::function<int()> &f) {
  pid_t p = fork();
  if (p == 0) {
    alarm(60);
    _exit(f());
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  return st;
}
// how much of the job is in the store: 0 nothing, 1 all, -1 reported
static int state_of(std::shared_ptr<Warren> w, const Job &j, const std::string &key, const std::string &what, int times = 1) {
  bool yes = marked(w, j.name, key);
  std::map<std::string, std::multiset<std::string>> want;
  Spans path = spans(w.get(), norm(j.name)), other = spans(w.get(), "other"), top = spans(w.get(), ":"), marks = spans(w.get(), "/");
  size_t records = 0, words_in = 0;
  if (j.json) {
    for (const char *c = j.text; *c; c++)
      records += *c == '\n';
  } else {
    Added a = added(Tsv{j.text, "\t", false});
    records = a.records;
    words_in = a.words.size();
  }
  size_t have = top.size(), base = 1; // one record of the source loaded before
  std::string counts = vx::sfmt("present %d, %zu records and %zu source spans of %zu, %zu marks", yes, have - base, path.size(), records, marks.size());
  bool none = !yes && have == base && path.empty() && marks.size() == 1;
  size_t want_path = j.json ? records : words_in ? 1 : 0;
  bool all = yes && have == base + times * records && path.size() == times * want_path && marks.size() == 1u + times;
  if (!marked(w, "before.tsv", key))
    vx::viol(key, what + ": a source appended before is gone");
  if (none && !all)
    return 0;
  if (all) {
    for (auto &s : path) {
      std::string t = w->txt()->translate(s.first, s.second);
      if (j.json ? json_translate(t).find("\"a\"") == std::string::npos : words(t) != words(j.text)) {
        vx::viol(key, what + ": text of the source is " + vx::esc(t));
        return -1;
      }
    }
    return 1;
  }
  vx::viol(key, what + ": " + counts);
  return -1;
}
static void prepare_template(const std::string &dir, const Job &j) {
  fs::create_directories(dir);
  fs::current_path(dir);
  spit("before.tsv", "z\n");
  spit(j.name, j.text);
  auto w = meadow("m");
  std::string e;
  if (!w || !ml::append_tsv(w, "before.tsv", &e, false, "\t", 1))
    vx::viol("setup", "first source refused: " + e);
}
static bool death(bool fault) {
  const int J = sizeof JOBS / sizeof *JOBS;
  struct Point {
    uint32_t job, at;
    int variant;
  };
  // how many operations each load has
  std::vector<Point> points;
  fsx::include_reads = fault;
  fsx::Mode mode = fault ? fsx::FAULT : fsx::CRASH;
  fsx::Log *log = fsx::new_log();
  bool ok = vx::run("recording", 1, [&](uint64_t) {
    quiet();
    for (int j = 0; j < J; j++) {
      prepare_template(root + vx::sfmt("/t%d", j), JOBS[j]);
      std::string d = root + vx::sfmt("/r%d", j);
      fs::remove_all(d);
      fs::copy(root + vx::sfmt("/t%d", j), d, fs::copy_options::recursive);
      fs::current_path(d);
      in_child([&] {
        std::string e;
        auto w = reopen("m", &e);
        fsx::start(log, d, fsx::RECORD);
        run_job(w, JOBS[j], &e);
        fsx::stop();
        return 0;
      });
      std::string ps;
      for (uint32_t k = 0; k < log->n; k++)
        for (int v = 0; v < fsx::variants(log->op[k], mode); v++)
          ps += vx::sfmt("%d %u %d\n", j, k, v);
      spit(root + vx::sfmt("/points%d", j), ps);
    }
  });
  for (int j = 0; j < J; j++) {
    std::istringstream in(slurp(root + vx::sfmt("/points%d", j)));
    Point p;
    while (in >> p.job >> p.at >> p.variant)
      points.push_back(p);
  }
  ok = vx::run(fault ? "fault" : "death", points.size(), [&](uint64_t i) {
         quiet();
         const Point &p = points[i];
         const Job &j = JOBS[p.job];
         static fsx::Log *mine = nullptr;
         if (!mine)
           mine = fsx::new_log();
         std::string d = root + "/" + std::to_string(vx::me);
         fs::current_path(root);
         fs::remove_all(d);
         fs::copy(root + vx::sfmt("/t%d", (int)p.job), d, fs::copy_options::recursive);
         fs::current_path(d);
         std::string key = vx::sfmt("%s:%s:%u:%d", fault ? "fault" : "death", j.what, p.at, p.variant);
         int st = in_child([&] {
           std::string e;
           auto w = reopen("m", &e);
           fsx::start(mine, d, mode, p.at, p.variant);
           bool ok = run_job(w, j, &e);
           fsx::stop();
           if (!fault)
             return 10 + ok;
           // the same process goes on: what it sees agrees with what it was told
           w->start();
           int s = state_of(w, j, key, std::string("after ") + mine->fault_at + " failed and the load " + (ok ? "succeeded" : "failed"));
           w->end();
           if (s == (ok ? 0 : 1))
             vx::viol(key, std::string("after ") + mine->fault_at + " failed: the load " + (ok ? "succeeded but is not there" : "failed but is there"));
           fflush(vx::out);
           return 10 + ok;
         });
         vx::count(fault ? s_faults : s_points);
         std::string how = fault ? std::string(mine->fault_at) + " failed" : vx::sfmt("killed at operation %u", p.at);
         int told = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
         if (WIFSIGNALED(st) && (!fault || WTERMSIG(st) != SIGABRT)) {
           // under a failing device an assertion may stop the process; that is a death like any other
           vx::viol(key, how + vx::sfmt(": ended with signal %d", WTERMSIG(st)));
           return;
         }
         std::string e;
         auto w = reopen("m", &e);
         if (!w) {
           vx::viol(key, how + ": the meadow does not open: " + e);
           return;
         }
         w->start();
         int s = state_of(w, j, key, how + ", reopened");
         w->end();
         if (s < 0)
           return;
         vx::count(s ? s_all : s_none);
         if (told == 11 && s == 0)
           vx::viol(key, how + ": the load succeeded but is gone after reopening");
         if (told == 10 && s == 1)
           vx::viol(key, how + ": the load failed but is there after reopening");
         bool good = std::string(j.what) != "bad jsonl";
         // and the load can be made (again)
         bool again = run_job(w, j, &e);
         if (again != good) {
           vx::viol(key, how + ": a new load " + (again ? "is accepted" : "is refused: " + e));
           return;
         }
         w->start();
         if (good && state_of(w, j, key, how + ", loaded again", 1 + s) != 1)
           vx::viol(key, how + ": loading again is not complete");
         w->end();
       }) &&
       ok;
  return ok;
}

// ---- whole files and JSONL through a scribe ----------------------------------------------------------------------
static bool scribes() {
  struct C {
    std::vector<std::string> names; // "-": missing
    int kind;
  };
  std::vector<std::vector<int>> lists = sequences(5, 3);
  return vx::run("scribes", lists.size() * 4, [&](uint64_t i) {
    fresh_dir();
    auto &l = lists[i / 4];
    bool json = i & 1, builder = i & 2;
    const char *files[] = {"one", "two", "empty", "missing", "bad"};
    std::map<std::string, std::string> content;
    if (json)
      content = {{"one", "{\"a\":1}\n{\"a\":2}"}, {"two", "{\"a\":3}\n"}, {"empty", ""}, {"bad", "{\"a\":4}\n{\n"}};
    else
      content = {{"one", "a b"}, {"two", "c d\n"}, {"empty", ""}};
    for (auto &c : content)
      spit(c.first, c.second);
    if (!json)
      fs::create_directories("bad"); // cannot be read
    if (!json)
      content["empty"] = content["empty"];
    std::vector<std::string> names;
    std::string key = std::string("scribe:") + (json ? "jsonl:" : "files:") + (builder ? "static:" : "dynamic:"), e;
    size_t good = 0;
    bool failed = false;
    std::set<std::string> distinct;
    for (int k : l) {
      names.push_back(files[k]);
      key += std::string(files[k]) + " ";
      if (k >= 3)
        failed = true;
      if (!failed)
        good++;
      distinct.insert(files[k]);
    }
    if (builder && failed)
      return; // a build that failed has no store
    std::shared_ptr<Warren> w;
    std::shared_ptr<Builder> b;
    std::shared_ptr<Scribe> s;
    if (builder) {
      b = SimpleBuilder::make(Working::mkdir("st"), "tokenizer:utf8", &e);
      if (!b)
        b = SimpleBuilder::make(Working::mkdir("st"), Featurizer::make("hashing", ""), Tokenizer::make("utf8", ""), &e);
      if (!b) {
        vx::viol(key, "builder refused: " + e);
        return;
      }
      b->verbose(false);
      s = Scribe::make(b, &e);
    } else {
      w = meadow("m");
      s = Scribe::make(w, &e);
    }
    if (!s) {
      vx::viol(key, "no scribe: " + e);
      return;
    }
    e = "";
    bool ok = json ? scribe_jsonl(names, s, &e, false) : scribe_files(names, s, &e, false);
    vx::count(s_loads);
    if (ok == failed) {
      vx::viol(key, ok ? "reported success although a file could not be loaded" : "failed: " + e);
      return;
    }
    if (!ok && e.empty())
      vx::viol(key, "failed without an error");
    if (builder) {
      if (!s->finalize(&e)) {
        vx::viol(key, "not finalised: " + e);
        return;
      }
      s = nullptr;
      b = nullptr;
      w = Warren::make("simple", "st", &e);
      if (!w) {
        vx::viol(key, "not opened: " + e);
        return;
      }
    }
    w->start();
    // records or files in order, with their text
    std::vector<std::string> want, got;
    for (size_t k = 0; k < good; k++) {
      if (json) {
        std::istringstream in(content[names[k]]);
        std::string line;
        while (std::getline(in, line))
          want.push_back(line);
      } else
        want.push_back(names[k] + "|" + content[names[k]]);
    }
    if (json) {
      for (auto &x : spans(w.get(), ":"))
        got.push_back(squash(json_translate(w->txt()->translate(x.first, x.second))));
      // every source covers its records
      size_t inside = 0, n = 0;
      for (auto &f : distinct)
        for (auto &x : spans(w.get(), "./" + f)) {
          n++;
          for (auto &y : spans(w.get(), ":"))
            inside += x.first <= y.first && y.second <= x.second;
        }
      if (inside != got.size())
        vx::viol(key, vx::sfmt("%zu of %zu records are within a source", inside, got.size()));
    } else {
      auto f = spans(w.get(), "file:"), n = spans(w.get(), "filename:"), c = spans(w.get(), "content:");
      for (auto &x : f) {
        std::string name, body;
        for (auto &y : n)
          if (y.first >= x.first && y.second <= x.second)
            for (auto &t : words(w->txt()->translate(y.first, y.second)))
              name += t;
        for (auto &y : c)
          if (y.first >= x.first && y.second <= x.second)
            for (auto &t : words(w->txt()->translate(y.first, y.second)))
              body += t + " ";
        got.push_back(name + "|" + body);
      }
      for (auto &x : want) {
        std::string y;
        for (auto &t : words(x.substr(x.find('|') + 1)))
          y += t + " ";
        x = x.substr(0, x.find('|') + 1) + y;
      }
    }
    vx::count(s_records, got.size());
    if (got != want) {
      std::string a, c;
      for (auto &x : want)
        a += x + "; ";
      for (auto &x : got)
        c += x + "; ";
      vx::viol(key, "expected " + a + " got " + c);
    }
    w->end();
    if (!builder) {
      // and the store takes further loads
      if (!scribe_files({"two"}, Scribe::make(w), &e, false))
        vx::viol(key, "a further load is refused: " + e);
      w->start();
      if (spans(w.get(), "file:").size() != (json ? 1 : good + 1))
        vx::viol(key, "a further load is not there");
      w->end();
    }
  });
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_loads = vx::stat_id("loads");
  s_records = vx::stat_id("records");
  s_refused = vx::stat_id("refused");
  s_points = vx::stat_id("crash_points");
  s_faults = vx::stat_id("faults");
  s_none = vx::stat_id("found_none");
  s_all = vx::stat_id("found_all");
  s_names = vx::stat_id("names");
  std::string set = vx::arg(argc, argv, "set", "tsv");
  int n = std::stoi(vx::arg(argc, argv, "size", "2"));
  char tmpl[] = "/dev/shm/i01XXXXXX";
  if (!mkdtemp(tmpl))
    return 2;
  root = tmpl;
  bool ok = set == "tsv" ? tsv(n) : set == "jsonl" ? jsonl(n) : set == "names" ? names() : set == "unreadable" ? unreadable() : set == "workers" ? workers(n) : set == "death" ? death(false) : set == "fault" ? death(true) : scribes();
  fs::current_path("/");
  fs::remove_all(root);
  return ok ? 0 : 1;
}
