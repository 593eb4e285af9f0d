// C04: settings strings, options, and the settings and parameters stores record.
#include "mcrt.h"
#include "src/bigwig.h"
#include "src/compressor.h"
#include "src/cottontail.h"
#include "src/dna.h"
#include "src/fluffle.h"
#include "src/porter.h"
#include "src/recipe.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
#include "vx.h"
#include <algorithm>
#include <filesystem>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace cottontail;
namespace fs = std::filesystem;
typedef std::map<std::string, std::string> Map;
typedef std::shared_ptr<Warren> W;

static int s_strings, s_accepted, s_maps, s_options, s_set, s_ops, s_reads, s_makes, s_stores, s_reopen;

// ---- an independent reader of settings strings ---------------------------------------------------
namespace ref {
static bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static bool ident(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.'; }
struct P {
  const std::string &s;
  size_t i = 0;
  bool at(char c) { return i < s.size() && s[i] == c; }
  void ws() {
    while (i < s.size() && space(s[i]))
      i++;
  }
  // a quoted string, the opening quote at i; raw keeps the text as written
  bool quoted(std::string *value, std::string *raw) {
    char q = s[i];
    *raw += s[i++];
    while (i < s.size() && s[i] != q) {
      if (s[i] == '\\') {
        *raw += s[i++];
        if (i >= s.size() || (s[i] != '\\' && s[i] != q))
          return false;
      }
      *value += s[i];
      *raw += s[i++];
    }
    if (i >= s.size())
      return false;
    *raw += s[i++];
    return true;
  }
  bool bracketed(std::string *raw) {
    int depth = 0;
    do {
      if (i >= s.size())
        return false;
      if (s[i] == '"' || s[i] == '\'') {
        std::string ignored;
        if (!quoted(&ignored, raw))
          return false;
        continue;
      }
      if (s[i] == '[')
        depth++;
      if (s[i] == ']')
        depth--;
      *raw += s[i++];
    } while (depth > 0);
    return true;
  }
  bool map(Map *m) {
    ws();
    if (!at('['))
      return false;
    i++;
    ws();
    while (!at(']')) {
      std::string key, value, raw;
      while (i < s.size() && ident(s[i]))
        key += s[i++];
      if (key == "")
        return false;
      ws();
      if (!at(':'))
        return false;
      i++;
      ws();
      if (at('"') || at('\'')) {
        if (!quoted(&value, &raw))
          return false;
      } else if (at('[')) {
        if (!bracketed(&value))
          return false;
      } else
        return false;
      (*m)[key] = value;
      ws();
      if (at(']'))
        break;
      if (!at(','))
        return false;
      i++;
      ws();
    }
    i++;
    ws();
    return i == s.size();
  }
};
static bool cook(const std::string &s, Map *m) {
  if (s.find('\0') != std::string::npos)
    return false;
  P p{s};
  Map r;
  if (!p.map(&r))
    return false;
  *m = r;
  return true;
}
static std::string norm(const Map &m);
static std::string norm(const std::string &v) {
  Map m;
  if (cook(v, &m))
    return norm(m);
  return vx::sfmt("%zu~", v.size()) + v;
}
static std::string norm(const Map &m) {
  std::string s = "{";
  for (auto &e : m)
    s += e.first + "=" + norm(e.second) + ";";
  return s + "}";
}
} // namespace ref

static std::string show(const Map &m) {
  std::string s = "{";
  for (auto &e : m)
    s += vx::esc(e.first) + "=" + vx::esc(e.second) + "; ";
  return s + "}";
}
static void round_trip(const Map &m, const std::string &what) {
  std::string f = freeze(m);
  Map back;
  if (!cook(f, &back))
    return vx::viol("a frozen map does not cook", what + ": " + show(m) + " freezes to " + vx::esc(f));
  if (ref::norm(back) != ref::norm(m))
    return vx::viol("a frozen map cooks to another map", what + ": " + show(m) + " freezes to " + vx::esc(f) + ", which cooks to " + show(back));
  Map again;
  if (!ref::cook(f, &again) || ref::norm(again) != ref::norm(m))
    return vx::viol("a frozen map is not what the format says", what + ": " + show(m) + " freezes to " + vx::esc(f));
}
static void strings(int n) {
  const std::string alpha("[]\"'\\a:, \n\0b", 12);
  uint64_t total = 1;
  for (int i = 0; i < n; i++)
    total *= alpha.size();
  const uint64_t block = 20736;
  vx::run("setting strings", (total + block - 1) / block, [&](uint64_t b) {
    for (uint64_t c = b * block; c < (b + 1) * block && c < total; c++) {
      // strings of exactly n characters inside "[a:...]" and on their own; shorter ones come first
      std::string body;
      uint64_t x = c;
      for (int i = 0; i < n; i++, x /= alpha.size())
        body += alpha[x % alpha.size()];
      for (std::string s : {body, "[a:" + body + "]", "[a:\"" + body + "\"]", "[a:[b:'" + body + "']]", body + "]", "[" + body}) {
        vx::what(vx::esc(s));
        vx::count(s_strings);
        Map m = {{"zz", "kept"}}, want;
        bool ok = cook(s, &m), should = ref::cook(s, &want);
        if (ok != should) {
          vx::viol(ok ? "a malformed setting string is accepted" : "a well-formed setting string is refused", vx::esc(s));
          continue;
        }
        Map m2 = {{"zz", "kept"}}, m3 = m2;
        size_t failure = 9999;
        std::string error;
        if (cook(s, &m2, &failure) != ok || cook(s, &m3, &error) != ok || m2 != m || m3 != m)
          vx::viol("the forms of cook disagree", vx::esc(s));
        if (!ok) {
          if (m.size() != 1 || m["zz"] != "kept")
            vx::viol("a refused setting string changes the map", vx::esc(s));
          if (failure > s.size())
            vx::viol("a refused setting string is said to fail beyond its end", vx::esc(s));
          continue;
        }
        vx::count(s_accepted);
        if (m != want)
          vx::viol("a setting string is misread", vx::esc(s) + " gives " + show(m) + ", expected " + show(want));
        round_trip(m, "from " + vx::esc(s));
      }
    }
  });
}
static std::vector<std::string> words(const std::string &alpha, int n) {
  std::vector<std::string> all = {""};
  size_t from = 0;
  for (int l = 0; l < n; l++) {
    size_t to = all.size();
    for (size_t i = from; i < to; i++)
      for (char c : alpha)
        all.push_back(all[i] + c);
    from = to;
  }
  return all;
}
static void maps(int n) {
  const std::string alpha = "[]\"'\\:, \nk\xc3";
  auto leaf = words(alpha, n), two = words(alpha, n > 3 ? 2 : 1);
  std::vector<std::string> keys = {"k", "a-b._9", "name"};
  vx::run("setting maps", leaf.size(), [&](uint64_t i) {
    const std::string &v = leaf[i];
    vx::what(vx::esc(v));
    for (auto &k : keys) {
      vx::count(s_maps);
      Map m = {{k, v}};
      round_trip(m, "one setting");
      for (auto &w : two) { // beside and under another
        vx::count(s_maps, 4);
        Map m2 = {{k, v}, {"z", w}};
        round_trip(m2, "two settings");
        Map in = {{"z", w}, {"inner", freeze(m)}};
        round_trip(in, "nested");
        Map back, inner;
        if (cook(freeze(in), &back) && cook(back["inner"], &inner)) {
          if (ref::norm(inner) != ref::norm(m))
            vx::viol("a nested map is misread", show(m) + " nested reads " + show(inner));
        } else
          vx::viol("a nested map does not cook", show(m));
        Map deep = {{"d", freeze(in)}, {"y", w}};
        round_trip(deep, "nested twice");
        Map b1, b2, b3;
        if (!cook(freeze(deep), &b1) || !cook(b1["d"], &b2) || !cook(b2["inner"], &b3) || ref::norm(b3) != ref::norm(m) || b2["z"] != (ref::norm(w) == ref::norm(Map()) ? b2["z"] : w))
          vx::viol("a twice nested map is misread", show(m) + " with " + vx::esc(w));
      }
      round_trip(Map{{k, v}, {"e", ""}, {"f", "[]"}}, "with empty settings");
    }
  });
}

// ---- options -----------------------------------------------------------------------------------------
static const char *BASE = "[featurizer:[name:\"hashing\",recipe:\"\",],idx:[name:\"bigwig\",recipe:[fvalue_compressor:\"null\",posting_compressor:\"post\",],],"
                          "parameters:[],tokenizer:[name:\"utf8\",recipe:\"\",],txt:[name:\"bigwig\",recipe:[compressor:\"null\",json:\"no\",],],warren:\"bigwig\",half:[name:\"h\",],]";
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> v = {""};
  for (char x : s)
    if (x == c)
      v.push_back("");
    else
      v.back() += x;
  return v;
}
// What an option does, from its description: X:Z, X:name:Z, X:Y:Z, X@Y.  Forms the description does
// not cover (empty pieces) may be refused or applied, but never do anything else.
struct Eff {
  enum { REFUSE, APPLY, ANY } kind = REFUSE;
  Map after;
};
static Eff option_effect(const Map &base, const std::string &opt) {
  Eff e;
  e.after = base;
  if (opt == "") {
    e.kind = Eff::APPLY;
    return e;
  }
  if (opt.find('@') != std::string::npos) {
    auto p = split(opt, '@');
    if (p.size() != 2 || p[0] == "" || p[1] == "" || opt.find(':') != std::string::npos) {
      e.kind = Eff::ANY;
      return e;
    }
    auto it = e.after.find(p[0]);
    if (it == e.after.end())
      return e;
    it->second = freeze(Map{{"name", p[1]}, {"recipe", it->second}});
    e.kind = Eff::APPLY;
    return e;
  }
  auto p = split(opt, ':');
  if (p.size() < 2 || p.size() > 3)
    return e;
  auto it = e.after.find(p[0]);
  if (it == e.after.end())
    return e;
  Map item;
  if (!ref::cook(it->second, &item))
    return e;
  for (auto &x : p)
    if (x == "") {
      e.kind = Eff::ANY;
      return e;
    }
  if (p.size() == 2)
    item["recipe"] = p[1];
  else if (p[1] == "name")
    item["name"] = p[2], item["recipe"] = "";
  else {
    Map r;
    if (!item.count("recipe") || !ref::cook(item["recipe"], &r) || !r.count(p[1]))
      return e;
    r[p[1]] = p[2];
    item["recipe"] = freeze(r);
  }
  it->second = freeze(item);
  e.kind = Eff::APPLY;
  return e;
}
static void options(int depth) {
  std::vector<std::string> pieces = {"tokenizer", "featurizer", "idx", "txt", "parameters", "warren", "half", "bogus", "name", "recipe", "json", "posting_compressor", "yes", "", "[", "\"", "a\\"};
  std::vector<std::string> all = {""};
  for (auto &a : pieces) {
    all.push_back(a);
    for (char c1 : std::string(":@"))
      for (auto &b : pieces) {
        all.push_back(a + c1 + b);
        for (char c2 : std::string(":@"))
          for (auto &c : pieces) {
            all.push_back(a + c1 + b + c2 + c);
            if (b == "json" || c == "yes" || c == "")
              all.push_back(a + c1 + b + c2 + c + ":x");
          }
      }
  }
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  std::vector<std::string> second = {""};
  if (depth > 1)
    second = {"", "txt:json:yes", "tokenizer:name:ascii", "tokenizer:xml", "featurizer@json", "idx:posting_compressor:zlib", "txt:a\"b"};
  vx::run("options", all.size(), [&](uint64_t i) {
    for (auto &first : second)
      for (auto &badly : {std::string(BASE), std::string("[tokenizer:"), std::string("")}) {
        std::string recipe = badly;
        vx::what(vx::esc(first + " " + all[i]));
        vx::count(s_options);
        std::string error;
        Map base;
        if (badly == BASE) {
          if (!interpret_option(&recipe, first, &error)) {
            vx::viol("a good option is refused", vx::esc(first));
            continue;
          }
          if (!cook(recipe, &base)) {
            vx::viol("an option spoils the settings", vx::esc(first));
            continue;
          }
        } else if (all[i] == "")
          continue;
        std::string before = recipe;
        bool ok = interpret_option(&recipe, all[i], &error);
        if (badly != BASE) {
          if (ok)
            vx::viol("an option is applied to malformed settings", vx::esc(all[i]));
          continue;
        }
        Eff e = option_effect(base, all[i]);
        Map after;
        if (!ok) {
          if (recipe != before)
            vx::viol("a refused option changes the settings", vx::esc(all[i]));
          if (e.kind == Eff::APPLY)
            vx::viol("a good option is refused", vx::esc(first + " " + all[i]));
        } else {
          if (e.kind == Eff::REFUSE)
            vx::viol("a malformed option is accepted", vx::esc(first + " " + all[i]));
          if (!cook(recipe, &after))
            vx::viol("an option spoils the settings", vx::esc(first + " " + all[i]));
          else if (e.kind == Eff::APPLY && ref::norm(after) != ref::norm(e.after))
            vx::viol("an option does something else", vx::esc(first + " " + all[i]) + " gives " + show(after) + ", expected " + show(e.after));
          else if (e.kind == Eff::ANY) {
            auto head = all[i].substr(0, all[i].find_first_of(":@"));
            for (auto &x : base)
              if (x.first != head && (!after.count(x.first) || ref::norm(after[x.first]) != ref::norm(x.second)))
                vx::viol("an option changes something else", vx::esc(first + " " + all[i]));
          }
        }
        // reading options back
        std::string value = "unset";
        Map item, r;
        auto p = split(all[i], ':');
        bool can = p.size() <= 3 && base.count(p[0]) && ref::cook(base[p[0]], &item) && item.count("name") && item.count("recipe"), must = can;
        std::string want;
        if (can) {
          if (p.size() == 1)
            want = item["recipe"];
          else if (p.size() == 2 && p[1] == "name")
            want = item["name"];
          else if (p.size() == 2 && ref::cook(item["recipe"], &r) && r.count(p[1]))
            want = r[p[1]];
          else
            must = false, can = p.size() == 3; // an extra piece: unspecified
          if (all[i].back() == ':')
            must = false, can = true;
        }
        vx::what("extract " + vx::esc(first + " " + all[i]));
        bool got = extract_option(before, all[i], &value, &error);
        if (got && !can)
          vx::viol("an option that is not there is read", vx::esc(all[i]) + " reads " + vx::esc(value));
        if (!got && must)
          vx::viol("an option that is there is not read", vx::esc(all[i]));
        if (got && must && ref::norm(value) != ref::norm(want))
          vx::viol("an option is misread", vx::esc(all[i]) + " reads " + vx::esc(value) + ", expected " + vx::esc(want));
      }
  });
}

// ---- the makers ------------------------------------------------------------------------------------
static void makers() {
  std::vector<std::string> names = {"", "null", "hashing", "json", "tagging", "vocab", "ascii", "utf8", "zlib", "post", "tfdf", "bad", "porter", "simple", "bigwig", "nosuch", "Ascii"};
  std::vector<std::string> inner = {"", "xml", "noxml", "x", "[", "[]", "[name:\"hashing\",]", "[name:\"hashing\",recipe:\"\"]", "[name:\"null\",recipe:\"\"]", "[name:\"nosuch\",recipe:\"\"]",
                                    "[name:\"hashing\",recipe:\"x\"]", "[name:\"hashing\",recipe:\"\",tag:\"t\"]", "[name:\"hashing\",recipe:\"\",tag:\"a\\\"b\\\\\"]", "[recipe:\"\"]", "[tag:\"t\",name:\"\"]", "hashing", "nosuch"};
  std::vector<std::string> recipes = inner;
  for (auto &n : {"json", "tagging", "vocab"})
    for (auto &r : inner) {
      recipes.push_back(freeze(Map{{"name", n}, {"recipe", r}}));
      recipes.push_back(freeze(Map{{"name", n}, {"recipe", r}, {"tag", "q"}}));
      recipes.push_back(freeze(Map{{"name", "json"}, {"recipe", freeze(Map{{"name", n}, {"recipe", r}, {"tag", "u"}})}}));
    }
  vx::run("makers", names.size() * recipes.size(), [&](uint64_t i) {
    const std::string &n = names[i / recipes.size()], &r = recipes[i % recipes.size()];
    auto say = [&](const std::string &kind) { return kind + " " + n + " from " + vx::esc(r); };
    std::string error, dir = vx::sfmt("c04m.%d", vx::me);
    {
      vx::what(say("tokenizer"));
      vx::count(s_makes);
      auto a = Tokenizer::make(n, r, &error);
      bool ok = Tokenizer::check(n, r, &error);
      if (ok != (a != nullptr))
        vx::viol("a check and its maker disagree", say("tokenizer"));
      if (a) {
        auto b = Tokenizer::make(a->name(), a->recipe(), &error);
        if (!b || b->name() != a->name() || b->recipe() != a->recipe())
          vx::viol("a tokenizer's settings do not make it again", say("tokenizer"));
        else
          for (std::string t : {"Hello <b>x</b> World", "caf\xc3\xa9 \xe4\xbd\xa0\xe5\xa5\xbd <a href=\"x\">1.5</a>", "a_b-c d'e"})
            if (a->split(t) != b->split(t))
              vx::viol("a tokenizer's settings make another one", say("tokenizer"));
      }
    }
    {
      vx::what(say("featurizer"));
      vx::count(s_makes);
      std::error_code ec;
      fs::remove_all(dir, ec);
      auto working = Working::mkdir(dir);
      auto a = Featurizer::make(n, r, &error, working);
      bool ok = Featurizer::check(n, r, &error);
      if (ok != (a != nullptr))
        vx::viol("a check and its maker disagree", say("featurizer"));
      if (a) {
        auto b = Featurizer::make(a->name(), a->recipe(), &error, working);
        if (!b || b->name() != a->name() || b->recipe() != a->recipe())
          vx::viol("a featurizer's settings do not make it again",
                   say("featurizer") + vx::sfmt(": name %s recipe %s", a->name().c_str(), vx::esc(a->recipe()).c_str()) + (b ? " then " + b->name() + " " + vx::esc(b->recipe()) : ""));
        else
          for (std::string t : {"a", "abc", "abcdefgh", "abcdefghijk", "t:", ":a:", ":a:[3]:", ":", ""})
            if (a->featurize(t) != b->featurize(t))
              vx::viol("a featurizer's settings make another one", say("featurizer"));
      }
      a = nullptr;
      fs::remove_all(dir, ec);
    }
    {
      vx::what(say("compressor"));
      vx::count(s_makes);
      auto a = Compressor::make(n, r, &error);
      bool ok = Compressor::check(n, r, &error);
      if (ok != (a != nullptr))
        vx::viol("a check and its maker disagree", say("compressor"));
      if (a) {
        auto b = Compressor::make(a->name(), a->recipe(), &error);
        if (!b || b->name() != a->name() || b->recipe() != a->recipe())
          vx::viol("a compressor's settings do not make it again", say("compressor"));
      }
    }
    {
      vx::what(say("stemmer"));
      vx::count(s_makes);
      auto a = Stemmer::make(n, r, &error);
      bool ok = Stemmer::check(n, r, &error);
      if (ok != (a != nullptr))
        vx::viol("a check and its maker disagree", say("stemmer"));
    }
  });
}

// ---- parameters of real stores -------------------------------------------------------------------
struct Val {
  std::string k, v;
};
struct St {
  std::string kind, dir, key, error;
  std::vector<W> h;
  Map want;
  std::string container, stemmer;
  int commits = 0;
  bool broken = false;
  void bad(const std::string &k, const std::string &d) {
    broken = true;
    if (vx::sh)
      vx::viol(k, kind + " " + key + ": " + d);
    else
      mc::fail(k, d);
  }
  bool make() {
    std::error_code ec;
    fs::remove_all(dir, ec);
    if (kind == "simple") {
      auto b = SimpleBuilder::make(Working::mkdir(dir), "", &error);
      b->verbose(false);
      std::string t = "some <b>words</b> here";
      addr p, q;
      if (!b->add_text(t, &p, &q, &error) || !b->finalize(&error))
        return bad("building failed", error), false;
      return open();
    }
    if (kind == "memory") {
      h.push_back(Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make("ascii", ""), Fluffle::make(), &error));
      return h[0] != nullptr;
    }
    if (kind == "parts")
      h.push_back(Bigwig::make(Working::mkdir(dir), Featurizer::make("json", freeze(Map{{"name", "hashing"}, {"recipe", ""}})), Tokenizer::make("ascii", "xml"), Fluffle::make(), &error,
                               Compressor::make("post", ""), Compressor::make("zlib", ""), Compressor::make("zlib", "")));
    else
      h.push_back(Bigwig::make(dir, "tokenizer:name:ascii txt:json:yes featurizer@json idx:posting_compressor:post", &error));
    if (!h[0])
      return bad("making a store failed", error), false;
    return true;
  }
  bool open() {
    if (vx::sh)
      vx::count(s_reopen);
    for (auto &w : h)
      w = nullptr;
    h.clear();
    mc::drain();
    auto w = Warren::make(dir, &error);
    if (!w)
      return bad("a store does not open again", error), false;
    h.push_back(w);
    return true;
  }
  std::vector<std::string> keys(const std::vector<Val> &menu) {
    std::vector<std::string> k = {"container", "stemmer", "never"};
    for (auto &m : menu)
      k.push_back(m.k);
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    return k;
  }
  void check(const std::vector<Val> &menu, const std::string &when) {
    for (size_t i = 0; i < h.size() && !broken; i++) {
      for (auto &k : keys(menu)) {
        vx::count(s_reads);
        std::string v = "unset";
        if (!h[i]->get_parameter(k, &v, &error))
          return bad("a parameter cannot be read", when + ": " + vx::esc(k) + ": " + error);
        std::string w = want.count(k) ? want[k] : "";
        if (v != w && ref::norm(v) != ref::norm(w))
          return bad("a parameter is not what was set", vx::sfmt("%s: handle %d reads %s as %s, expected %s", when.c_str(), (int)i, vx::esc(k).c_str(), vx::esc(v).c_str(), vx::esc(w).c_str()));
      }
    }
    if (broken)
      return;
    W c = h[0]->clone(&error);
    if (!c)
      return bad("clone failed", when + ": " + error);
    c->start();
    if (want.count("container") && ref::norm(c->default_container()) != ref::norm(want["container"]) && container != "")
      return bad("a clone has another container", when + ": " + vx::esc(c->default_container()));
    if (stemmer != "" && (!c->stemmer() || c->stemmer()->name() != stemmer))
      return bad("a clone has another stemmer", when);
    c->end();
  }
};
static void parameters(const std::string &kind, int depth, bool small) {
  std::vector<Val> menu;
  std::vector<std::string> values = {"x", "", "a b", "say \"hi\"", "back\\slash", "it's", "[", "]", "[a", "a:b, c", "line\nbreak", "[k:\"v\",]", "[k:'a\"b', l:[m:\"x\\\\y\"]]", "caf\xc3\xa9", " lead", "trail ", "tab\t", "cr\r", "\\", "\"", "!!x\n\n"};
  if (small)
    values = {"x", "say \"hi\"", "[k:'a\"b']", "line\nbreak\\"};
  for (auto &v : values)
    menu.push_back({"one", v});
  for (std::string v : {"y", "\"\\"})
    menu.push_back({"two-2.x", v});
  // keys the settings format cannot write, and a value it cannot hold
  std::vector<Val> odd = {{"a b", "v"}, {"", "v"}, {"k:", "v"}, {"q\"", "v"}, {"one", std::string("n\0ul", 4)}};
  if (small)
    odd = {{"a b", "v"}, {"one", std::string("n\0ul", 4)}};
  // operations: 0..m-1 set through the newest handle, then odd ones, then the rest
  int m = menu.size(), o = odd.size();
  std::vector<std::string> rest = {"clone", "reopen", "old-handle", "container", "stemmer", "commit", "merge"};
  int n = m + o + (int)rest.size();
  uint64_t total = 1;
  for (int i = 0; i < depth; i++)
    total *= n;
  vx::opt.chunk = 4;
  vx::run("parameters of " + kind, total, [&](uint64_t c) {
    mc::detect_races = false;
    mc::policy = 0;
    mc::begin();
    {
      St s;
      s.kind = kind;
      s.dir = vx::sfmt("c04.%d", vx::me);
      std::vector<int> ops;
      for (int i = 0; i < depth; i++, c /= n)
        ops.push_back(c % n);
      vx::count(s_stores);
      vx::what(kind + " make");
      bool ok = s.make();
      auto mm = menu;
      for (auto &x : odd)
        mm.push_back(x);
      for (size_t i = 0; ok && i < ops.size() && !s.broken; i++) {
        vx::count(s_ops);
        int op = ops[i];
        std::string e;
        if (op < m + o) {
          Val v = op < m ? menu[op] : odd[op - m];
          s.key += "set(" + vx::esc(v.k) + "," + vx::esc(v.v) + ") ";
          vx::what(kind + " " + s.key);
          vx::count(s_set);
          bool done = s.h.back()->set_parameter(v.k, v.v, &e);
          if (op < m && !done)
            s.bad("a parameter cannot be set", e);
          if (done)
            s.want[v.k] = v.v;
        } else {
          std::string r = rest[op - m - o];
          s.key += r + " ";
          vx::what(kind + " " + s.key);
          if (r == "clone") {
            auto w = s.h[0]->clone(&e);
            if (!w)
              s.bad("clone failed", e);
            else
              s.h.push_back(w);
          } else if (r == "reopen") {
            if (kind != "memory")
              ok = s.open();
          } else if (r == "old-handle") {
            if (!s.h[0]->set_parameter("old", "v" + std::to_string(i), &e))
              s.bad("a parameter cannot be set", e);
            s.want["old"] = "v" + std::to_string(i);
          } else if (r == "container") {
            std::string q = i % 2 ? "(... <b> </b>)" : "(... \"a\\b\" <x>)";
            if (!s.h[0]->set_default_container(q, &e))
              s.bad("the container cannot be set", e);
            s.want["container"] = s.container = q;
          } else if (r == "stemmer") {
            if (!s.h[0]->set_stemmer(Stemmer::make("porter", "", &e), &e))
              s.bad("the stemmer cannot be set", e);
            s.want["stemmer"] = s.stemmer = "porter";
          } else if (r == "commit") {
            W w = kind == "simple" ? s.h[0] : s.h[0]->clone(&e);
            addr p, q;
            w->start();
            if (!w->transaction(&e) || !w->appender()->append(vx::sfmt("doc number%d", s.commits), &p, &q, &e) || !w->annotator()->annotate(w->featurizer()->featurize("d:"), p, q, &e) || !w->ready(&e))
              s.bad("a transaction failed", e);
            else {
              w->commit();
              s.commits++;
            }
            w->end();
          } else if (r == "merge" && kind != "simple") {
            auto b = std::dynamic_pointer_cast<Bigwig>(s.h[0]);
            b->merge(true);
            mc::drain();
            s.want["merge"] = "true";
            std::string v;
            b->get_parameter("merge", &v, &e);
            s.want["merge"] = v;
          }
        }
        auto list = mm;
        list.push_back({"old", ""});
        list.push_back({"merge", ""});
        if (ok && !s.broken)
          s.check(list, "after step " + std::to_string(i + 1));
        if (ok && !s.broken && i + 1 == ops.size() && kind != "memory") {
          vx::what(kind + " " + s.key + "final reopen");
          s.key += "final-reopen ";
          ok = s.open();
          if (ok)
            s.check(list, "after reopening");
        }
      }
      if (!s.broken)
        vx::sample(kind + " " + s.key);
      s.h.clear();
      mc::drain();
      std::error_code ec;
      fs::remove_all(s.dir, ec);
    }
    mc::end();
  });
}

// ---- settings of real stores ----------------------------------------------------------------------
struct Sig {
  std::string s;
};
static std::string signature(W w) {
  std::string s;
  s += "tokenizer=" + w->tokenizer()->name() + "/" + w->tokenizer()->recipe();
  s += " featurizer=" + w->featurizer()->name() + "/" + ref::norm(w->featurizer()->recipe());
  s += " stemmer=" + (w->stemmer() ? w->stemmer()->name() : std::string("-"));
  s += " container=" + w->default_container();
  for (std::string t : {"Hello <b>x</b> caf\xc3\xa9 \xe4\xbd\xa0\xe5\xa5\xbd 1.5", "a_b-c d'e"}) {
    for (auto &x : w->tokenizer()->split(t))
      s += "|" + x;
  }
  for (std::string t : {"a", "abcdefghijk", "t:", ":a:", ":a:[3]:", ""})
    s += vx::sfmt(" %ld", (long)w->featurizer()->featurize(t));
  return s;
}
static std::string contents(W w) {
  std::string s = "text=" + w->txt()->translate(0, 1000);
  for (std::string f : {"Hello", "hello", "x", "<b>", "doc:", ":k:"}) {
    auto h = w->idx()->hopper(w->featurizer()->featurize(f));
    addr p, q, v;
    s += " " + f + "=";
    int n = 0;
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && n++ < 50; h->tau(p + 1, &p, &q, &v))
      s += vx::sfmt("(%ld,%ld,%ld)", (long)p, (long)q, (long)v);
  }
  return s;
}
static void settings() {
  std::vector<std::vector<std::string>> axes = {
      {"bigwig", "simple"},
      {"", "tokenizer:name:ascii tokenizer:noxml", "tokenizer:name:ascii tokenizer:xml", "tokenizer:name:utf8", "tokenizer:name:nosuch", "tokenizer:bogus"},
      {"", "featurizer@json", "featurizer@vocab", "featurizer@json featurizer@json", "featurizer:name:null", "featurizer@nosuch"},
      {"", "idx:posting_compressor:post", "idx:posting_compressor:zlib idx:fvalue_compressor:null", "idx:fvalue_compressor:zlib", "idx:fvalue_compressor:tfdf", "idx:posting_compressor:nosuch"},
      {"", "txt:compressor:null", "txt:compressor:zlib", "txt:json:yes", "txt:compressor:zlib txt:json:yes", "txt:compressor:nosuch", "txt:json:no"}};
  uint64_t total = 1;
  for (auto &a : axes)
    total *= a.size();
  vx::run("store settings", total, [&](uint64_t c) {
    std::vector<std::string> pick;
    for (auto &a : axes)
      pick.push_back(a[c % a.size()]), c /= a.size();
    std::string kind = pick[0], recipe, error;
    for (size_t i = 1; i < pick.size(); i++)
      if (pick[i] != "")
        recipe += (recipe == "" ? "" : " ") + pick[i];
    std::string key = kind + " with " + recipe, dir = vx::sfmt("c04s.%d", vx::me);
    bool bad = recipe.find("nosuch") != std::string::npos || recipe.find("bogus") != std::string::npos;
    vx::what(key);
    vx::count(s_stores);
    std::error_code ec;
    fs::remove_all(dir, ec);
    mc::detect_races = false;
    mc::policy = 0;
    mc::begin();
    [&] {
      std::string sig, cont, names;
      if (kind == "bigwig") {
        auto b = Bigwig::make(dir, recipe, &error);
        if (!b) {
          if (!bad)
            vx::viol("a store with good settings cannot be made", key + ": " + error);
          return;
        }
        if (bad)
          return vx::viol("a store with malformed settings is made", key);
        W w = b->clone();
        addr p, q;
        if (!w->transaction(&error) || !w->appender()->append("Hello <b>x</b> caf\xc3\xa9 hello", &p, &q, &error) ||
            !w->annotator()->annotate(w->featurizer()->featurize("doc:"), p, q, (addr)7, &error) || !w->annotator()->annotate(w->featurizer()->featurize(":k:"), p, p, (addr)-1, &error) || !w->ready(&error))
          return vx::viol("a transaction failed", key + ": " + error);
        w->commit();
        b->set_stemmer(Stemmer::make("porter", ""));
        b->set_default_container("doc:");
        b->start();
        sig = signature(b), cont = contents(b), names = b->recipe();
        b->end();
      } else {
        auto b = SimpleBuilder::make(Working::mkdir(dir), recipe, &error);
        if (!b) {
          if (!bad)
            vx::viol("a store with good settings cannot be made", key + ": " + error);
          return;
        }
        if (bad)
          return vx::viol("a store with malformed settings is made", key);
        b->verbose(false);
        addr p, q;
        if (!b->add_text("Hello <b>x</b> caf\xc3\xa9 hello", &p, &q, &error) || !b->add_annotation("doc:", p, q, (addr)7, &error) || !b->add_annotation(":k:", p, p, (addr)-1, &error) ||
            !b->finalize(&error))
          return vx::viol("building failed", key + ": " + error);
        b = nullptr;
        W w = Warren::make(dir, &error);
        if (!w)
          return vx::viol("a store does not open again", key + ": " + error);
        w->start();
        w->set_stemmer(Stemmer::make("porter", ""));
        w->set_default_container("doc:");
        sig = signature(w), cont = contents(w), names = w->recipe();
      }
      // as asked for
      auto expect = [&](const std::string &what, bool ok) {
        if (!ok)
          vx::viol("a store does not have the settings asked for", key + ": " + what + ": " + sig);
      };
      if (pick[1] != "")
        expect("tokenizer", sig.find(pick[1].find("ascii") != std::string::npos ? (pick[1].find("noxml") != std::string::npos ? "tokenizer=ascii/noxml" : "tokenizer=ascii/xml") : "tokenizer=utf8/") != std::string::npos);
      if (pick[2].find("json") != std::string::npos)
        expect("featurizer", sig.find("featurizer=json/") != std::string::npos);
      for (int i = 0; i < 3; i++) {
        vx::count(s_reopen);
        mc::drain();
        W w = Warren::make(dir, &error);
        if (!w)
          return vx::viol("a store does not open again", key + ": " + error);
        w->start();
        std::string s = signature(w), x = contents(w);
        if (s != sig)
          return vx::viol("a reopened store has other settings", key + ": was " + sig + ", now " + s);
        if (x != cont)
          return vx::viol("a reopened store reads differently", key + ": was " + cont + ", now " + x);
        if (i == 1) {
          W c = w->clone(&error);
          if (!c)
            return vx::viol("clone failed", key);
          if (signature(c) != sig || contents(c) != cont)
            return vx::viol("a clone has other settings", key + ": was " + sig + ", now " + signature(c));
        }
        w->end();
        // what the directory records still says what was asked for
        std::string dna;
        Map m, item, r;
        if (!read_dna(Working::make(dir), &dna, &error) || !cook(dna, &m))
          return vx::viol("the recorded settings do not cook", key);
        auto get = [&](const std::string &a, const std::string &b) {
          Map i1, i2;
          return cook(m[a], &i1) && cook(i1["recipe"], &i2) && i2.count(b) ? i2[b] : std::string("?");
        };
        for (auto &p : pick)
          for (auto &o : split(p, ' ')) {
            auto f = split(o, ':');
            if (f.size() == 3 && f[1] != "name" && get(f[0], f[1]) != f[2])
              return vx::viol("the recorded settings are not those asked for", key + ": " + o + " is " + get(f[0], f[1]));
          }
      }
      vx::sample(key);
    }();
    mc::drain();
    mc::end();
    fs::remove_all(dir, ec);
  });
}

// ---- several threads setting parameters -------------------------------------------------------------
static void threads(const std::string &kind, int bound) {
  mc::Scenario sc;
  sc.name = "two threads set parameters of " + kind;
  static St *s;
  sc.setup = [kind] {
    s = new St;
    s->kind = kind;
    s->dir = vx::sfmt("c04t.%07d", (int)getpid());
    if (!s->make())
      mc::fail("making a store failed", s->error);
  };
  sc.body = [] {
    if (s->broken)
      return;
    W a = s->h[0]->clone(), b = s->h[0]->clone();
    std::thread t([&] {
      a->set_parameter("left", "1");
      a->set_parameter("left", "2");
    });
    std::thread u([&] { b->set_parameter("right", "say \"x\""); });
    t.join();
    u.join();
    mc::drain();
  };
  sc.check = [kind] {
    auto look = [&](const std::string &when) {
      std::string l, r;
      if (!s->h[0]->get_parameter("left", &l) || !s->h[0]->get_parameter("right", &r))
        return mc::fail("a parameter cannot be read", when);
      if (l != "2" || r != "say \"x\"")
        mc::fail("a parameter set by one thread is lost", when + ": left is " + l + ", right is " + r);
    };
    if (s->broken)
      return;
    look("in the process");
    if (kind != "memory") {
      if (s->open())
        look("after reopening");
      else
        mc::fail("a store does not open again", s->error);
    }
    s->h.clear();
    std::error_code ec;
    fs::remove_all(s->dir, ec);
  };
  mc::detect_races = true;
  mc::policy = 0;
  mc::explore(sc, bound, 600);
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_strings = vx::stat_id("strings");
  s_accepted = vx::stat_id("accepted");
  s_maps = vx::stat_id("maps");
  s_options = vx::stat_id("options");
  s_stores = vx::stat_id("stores");
  s_ops = vx::stat_id("operations");
  s_set = vx::stat_id("parameters_set");
  s_reads = vx::stat_id("parameters_read");
  s_reopen = vx::stat_id("reopens");
  s_makes = vx::stat_id("makers");
  std::string set = vx::arg(argc, argv, "set", "strings");
  int n = std::stoi(vx::arg(argc, argv, "size", "3"));
  if (set == "strings")
    for (int i = 1; i <= n; i++)
      strings(i);
  else if (set == "maps")
    maps(n);
  else if (set == "options")
    options(n);
  else if (set == "makers")
    makers();
  else if (set == "settings")
    settings();
  else if (set == "parameters")
    parameters(vx::arg(argc, argv, "kind", "disk"), n, vx::arg(argc, argv, "menu", "full") == "small");
  else if (set == "threads")
    threads(vx::arg(argc, argv, "kind", "disk"), n);
  return 0;
}
