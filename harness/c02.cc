// C02: every byte string up to a length (over alphabets chosen per tokenizer) through the real tokenizers:
// tokenize, skip, split, each token by itself and each cut at a token's start, against an independent
// reading of the text; texts lie against unreadable pages on both sides.
#include "vx.h"
#include "uni15.h"

#include "src/core.h"
#include "src/featurizer.h"
#include "src/tokenizer.h"
#include <memory>
using cottontail::addr;
using cottontail::Featurizer;
using cottontail::Token;
using cottontail::Tokenizer;

static int s_strings, s_tokens, s_cuts, s_calls, s_points;

static addr hash(const char *s, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++)
    h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
  return (addr)(h >> 2) | 1;
}
class Plain final : public Featurizer {
public:
  Plain() {}

private:
  std::string name_() final { return "plain"; }
  std::string recipe_() final { return ""; }
  addr featurize_(const char *key, addr length) final { return hash(key, length); }
  std::string translate_(addr) final { return ""; }
};

struct Ref {
  size_t at, len;
  std::vector<std::string> as; // the texts indexed at this address
};
static bool alpha(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static bool alnum(unsigned char c) { return alpha(c) || (c >= '0' && c <= '9'); }

static std::vector<Ref> ascii(const std::string &t, bool xml) {
  std::vector<Ref> v;
  size_t i = 0, n = t.size();
  while (i < n) {
    if (alnum(t[i])) {
      size_t j = i;
      bool upper = false;
      std::string low;
      for (; j < n && alnum(t[j]); j++) {
        bool u = t[j] >= 'A' && t[j] <= 'Z';
        upper = upper || (u && j > i);
        low += u ? t[j] + 32 : t[j];
      }
      Ref r{i, j - i, {}};
      if (upper)
        r.as.push_back(t.substr(i, j - i));
      r.as.push_back(low);
      v.push_back(r);
      i = j;
      continue;
    }
    if (xml && t[i] == '<') {
      size_t j = i + 1 + (i + 1 < n && t[i + 1] == '/');
      if (j < n && (alpha(t[j]) || t[j] == '_')) {
        size_t k = j;
        while (k < n && (alnum(t[k]) || t[k] == '-' || t[k] == '_' || t[k] == '.'))
          k++;
        size_t e = t.find_first_of("\n>", k);
        if (e != std::string::npos && t[e] == '>') {
          v.push_back({i, e + 1 - i, {t.substr(i, k - i) + ">"}});
          i = e + 1;
          continue;
        }
      }
    } else if (xml && t[i] == '&') {
      size_t e = t.find_first_of(" \n;", i + 1);
      if (e != std::string::npos && t[e] == ';') {
        i = e + 1;
        continue;
      }
    }
    i++;
  }
  return v;
}

static std::vector<uint8_t> klass;
static std::map<uint32_t, uint32_t> folds;
static std::string put(uint32_t c) {
  std::string s;
  if (c < 0x80)
    s += (char)c;
  else if (c < 0x800)
    (s += (char)(0xC0 | c >> 6)) += (char)(0x80 | (c & 63));
  else if (c < 0x10000)
    ((s += (char)(0xE0 | c >> 12)) += (char)(0x80 | (c >> 6 & 63))) += (char)(0x80 | (c & 63));
  else
    (((s += (char)(0xF0 | c >> 18)) += (char)(0x80 | (c >> 12 & 63))) += (char)(0x80 | (c >> 6 & 63))) += (char)(0x80 | (c & 63));
  return s;
}
// false: not valid UTF-8, or with code points about which nothing is claimed
static bool utf8(const std::string &t, std::vector<Ref> *v) {
  bool in = false;
  for (size_t i = 0; i < t.size();) {
    unsigned char c = t[i];
    size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
    if (n == 0 || i + n > t.size())
      return false;
    uint32_t u = n == 1 ? c : c & (0xFF >> (n + 1));
    for (size_t k = 1; k < n; k++) {
      if (((unsigned char)t[i + k] & 0xC0) != 0x80)
        return false;
      u = u << 6 | ((unsigned char)t[i + k] & 63);
    }
    if (u > 0x10FFFF || put(u).size() != n || klass[u] == 3 || (u >= 0xD800 && u < 0xE000))
      return false;
    if (klass[u] == 2) {
      v->push_back({i, n, {t.substr(i, n)}});
      in = false;
    } else if (klass[u] == 1) {
      if (!in)
        v->push_back({i, 0, {""}});
      in = true;
      v->back().len += n;
      auto f = folds.find(u);
      v->back().as[0] += put(f == folds.end() ? u : f->second);
    } else
      in = false;
    i += n;
  }
  return true;
}

static char *arena;
static long page;
struct Kind {
  const char *name;
  std::shared_ptr<Tokenizer> t;
};
static std::shared_ptr<Featurizer> fz;
static std::string show(const std::vector<Token> &v, const std::string &t) {
  std::string s;
  for (auto &k : v)
    s += vx::sfmt(" %lld@%zu+%zu:%s", (long long)k.address, (size_t)k.offset, (size_t)k.length,
                  k.offset + k.length <= t.size() ? vx::esc(t.substr(k.offset, k.length)).c_str() : "?");
  return s;
}
// side 0: the text ends at an unreadable page; 1: it begins after one
static std::vector<Token> tokens(Kind &k, const std::string &t, int side = 0) {
  char *b = side ? arena + page : arena + 2 * page - t.size();
  memcpy(b, t.data(), t.size());
  vx::count(s_calls);
  return k.t->tokenize(fz, b, t.size());
}
static bool same(const std::vector<Token> &a, size_t from, const std::vector<Token> &b, addr at, size_t offset, size_t n) {
  if (b.size() != n || from + n > a.size())
    return false;
  for (size_t i = 0; i < n; i++)
    if (a[from + i].feature != b[i].feature || a[from + i].address != b[i].address + at || a[from + i].offset != b[i].offset + offset ||
        a[from + i].length != b[i].length)
      return false;
  return true;
}
static void one(Kind &k, const std::string &t, bool guard) {
  vx::count(s_strings);
  if (guard)
    vx::what(std::string(k.name) + " \"" + vx::esc(t) + "\"");
  auto bad = [&](const std::string &why) { vx::viol(vx::sfmt("%s:\"%s\"", k.name, vx::esc(t).c_str()), why); };
  auto v = tokens(k, t);
  // shape
  std::vector<size_t> first; // index of the first token of each address
  for (size_t i = 0; i < v.size(); i++) {
    bool fresh = i == 0 || v[i].address != v[i - 1].address;
    if (fresh) {
      if (v[i].address != (addr)first.size())
        return bad("addresses do not count up from zero:" + show(v, t));
      first.push_back(i);
      if (v[i].length == 0 || v[i].offset + v[i].length > t.size() || (i > 0 && v[i].offset < v[i - 1].offset + v[i - 1].length))
        return bad("spans overlap or leave the text:" + show(v, t));
    } else if (v[i].offset != v[i - 1].offset || v[i].length != v[i - 1].length)
      return bad("two spans for one address:" + show(v, t));
  }
  vx::count(s_tokens, first.size());
  if (!same(v, 0, tokens(k, t, 1), 0, 0, v.size()))
    return bad("a second reading differs:" + show(v, t));
  if (!same(v, 0, k.t->tokenize(fz, t), 0, 0, v.size()))
    return bad("tokenize(string) differs:" + show(v, t));
  // the reference reading
  std::vector<Ref> r;
  bool known = true;
  if (k.name[0] == 'u')
    known = utf8(t, &r);
  else
    r = ascii(t, k.name[0] == 'x');
  if (known) {
    size_t i = 0;
    bool ok = r.size() == first.size();
    for (size_t a = 0; ok && a < r.size(); a++)
      for (auto &s : r[a].as) {
        ok = ok && i < v.size() && v[i].address == (addr)a && v[i].offset == r[a].at && v[i].length == r[a].len && v[i].feature == hash(s.data(), s.size());
        i++;
      }
    if (!ok || i != v.size()) {
      std::string w;
      for (auto &x : r)
        for (auto &s : x.as)
          w += vx::sfmt(" @%zu+%zu:%s", x.at, x.len, vx::esc(s).c_str());
      return bad("tokens" + show(v, t) + ", expected" + w);
    }
  }
  // skipping
  for (addr n = -1; n <= (addr)first.size() + 1; n++) {
    size_t want = first.empty() || n >= (addr)first.size() ? t.size() : v[first[n < 0 ? 0 : n]].offset;
    vx::count(s_calls, 2);
    for (int side = 0; side < 2; side++) {
      char *b = side ? arena + page : arena + 2 * page - t.size();
      memcpy(b, t.data(), t.size());
      const char *at = k.t->skip(b, t.size(), n);
      if (at != b + want)
        return bad(vx::sfmt("skip(%lld) stopped at %lld, expected %zu", (long long)n, (long long)(at - b), want));
    }
    std::string c = t;
    std::string rest = k.t->skip(c, n);
    if (rest != t.substr(want))
      return bad(vx::sfmt("skip(string, %lld) left \"%s\"", (long long)n, vx::esc(rest).c_str()));
  }
  // splitting
  vx::count(s_calls);
  auto words = k.t->split(t);
  bool ok = words.size() == first.size();
  for (size_t a = 0; ok && a < words.size(); a++)
    ok = hash(words[a].data(), words[a].size()) == v[first[a]].feature;
  if (!ok) {
    std::string w;
    for (auto &x : words)
      w += " " + vx::esc(x);
    return bad("split gives" + w + " where the tokens are" + show(v, t));
  }
  // each token by itself, and the text cut at each token's start
  for (size_t a = 0; a < first.size(); a++) {
    size_t i = first[a], j = a + 1 < first.size() ? first[a + 1] : v.size(), at = v[i].offset;
    if (!same(v, i, tokens(k, t.substr(at, v[i].length)), a, at, j - i))
      return bad("the text of a token by itself gives other tokens:" + show(v, t));
    vx::count(s_cuts);
    if (!same(v, 0, tokens(k, t.substr(0, at)), 0, 0, i) || !same(v, i, tokens(k, t.substr(at)), a, at, v.size() - i))
      return bad(vx::sfmt("cut at %zu, the parts give other tokens than", at) + show(v, t));
  }
}
static void strings(Kind k, const std::string &phase, const std::vector<std::string> &alphabet, int length) {
  size_t A = alphabet.size(), pre = 2;
  uint64_t total = 1;
  for (size_t i = 0; i < pre; i++)
    total *= A + 1;
  vx::opt.chunk = 1;
  vx::run(phase, total, [&](uint64_t id) {
    // the first two symbols come from the case number (0 = none), the rest is enumerated here
    size_t x = id % (A + 1), y = id / (A + 1);
    if (x == 0 && y != 0)
      return;
    std::string base = (x ? alphabet[x - 1] : "") + (y ? alphabet[y - 1] : "");
    vx::what(std::string(k.name) + " strings beginning \"" + vx::esc(base) + "\"");
    if (!x || !y) {
      one(k, base, true);
      return;
    }
    std::vector<std::pair<std::string, int>> todo{{base, 2}};
    while (!todo.empty()) {
      auto c = todo.back();
      todo.pop_back();
      one(k, c.first, true);
      if (c.second < length)
        for (auto &s : alphabet)
          todo.push_back({c.first + s, c.second + 1});
    }
  });
}
int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_strings = vx::stat_id("strings");
  s_tokens = vx::stat_id("tokens");
  s_cuts = vx::stat_id("cuts");
  s_calls = vx::stat_id("calls");
  s_points = vx::stat_id("code_points");
  vx::stat_id("cases");
  auto num = [&](const char *n, const char *d) { return atoi(vx::arg(argc, argv, n, d).c_str()); };
  page = sysconf(_SC_PAGESIZE);
  arena = (char *)mmap(nullptr, 3 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(arena, page, PROT_NONE);
  mprotect(arena + 2 * page, page, PROT_NONE);
  for (auto &r : UNI_RUNS)
    klass.insert(klass.end(), r[0], r[1]);
  for (auto &f : UNI_FOLDS)
    folds[f[0]] = f[1];
  fz = std::make_shared<Plain>();
  std::string error;
  auto make = [&](const char *name, const char *recipe) {
    auto t = Tokenizer::make(name, recipe, &error);
    if (!t || t->recipe() != recipe || t->name() != name)
      printf("@VIOL make:%s:%s\tno such tokenizer, or under another name\n", name, recipe);
    return t;
  };
  Kind n{"ascii", make("ascii", "noxml")}, x{"xml", make("ascii", "xml")}, u{"utf8", make("utf8", "")};
  if (!n.t || !x.t || !u.t)
    return 0;
  vx::sample("xml \"<a b>&c;Dd\" -> <a>@0 [\"Dd\",\"dd\"]... compared with the reference, its cuts, skips and splits");
  strings(n, "C02:ascii", {"a", "z", "Z", "A", "0", "9", " ", "\n", "_", "[", "`", std::string(1, 0), "\xE1", "@"}, num("ascii", "5"));
  strings(x, "C02:xml", {"<", "/", ">", "&", ";", "a", "B", "-", " ", "\n", "_", "1", std::string(1, 0), "\xC3"}, num("xml", "6"));
  strings(u, "C02:bytes", {"a", "A", " ", std::string(1, 0), "\xC3", "\xA9", "\x89", "\xE4", "\xB8", "\x80", "\xF0", "\x9F", "\x98", "\xFF", "\xF8"}, num("bytes", "5"));
  strings(u, "C02:points", {"a", "A", "1", " ", std::string(1, 0), "\xC3\xA9", "\xC3\x89", "\xE4\xB8\x80", "\xF0\x9F\x98\x80", "\xEF\xB7\x90", "\xC4\xB0", "\xE1\xBA\x9E", "\xCC\x81", "\xF0\x90\x90\x80", "\xE2\x82\xAC", "\xE3\x80\x82", "\xE1\x8E\xA0"},
          num("points", "5"));
  // every code point: by itself, inside a word, after and before a separator, beside a one-character token
  vx::opt.chunk = 4;
  vx::run("C02:every code point", 0x200000 / 0x100, [&](uint64_t b) {
    for (uint32_t c = b * 0x100; c < (b + 1) * 0x100; c++) {
      vx::count(s_points);
      std::string s = put(c);
      for (auto t : {s, "a" + s + "B", " " + s + " ", s + s, "\xE4\xB8\x80" + s + "\xC3\x89", s.substr(0, s.size() - 1), "a" + s.substr(0, s.size() - 1)})
        one(u, t, true);
    }
  });
  return 0;
}
