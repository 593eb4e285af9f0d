// C03: JSON documents survive storage, and every path finds exactly its values.
//   --set=documents  every document from a bounded universe, in each kind of store
//   --set=strings    every string over the alphabet of JSON: parsed exactly when it is JSON, otherwise refused without a trace
#include "ref.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fiver.h"
#include "src/json.h"
#include "src/nlohmann.h"
#include "src/scribe.h"
#include "src/simple_builder.h"
#include "vx.h"
#include <algorithm>
#include <cmath>
#include <filesystem>
using namespace cottontail;
namespace fs = std::filesystem;
typedef std::shared_ptr<Warren> W;

// ------------------------------------------------------------------ values
struct Val {
  char kind = 'n'; // n t f # s a o
  std::string s;   // string, or number as written
  double num = 0;
  std::vector<std::pair<std::string, Val>> m;
};
static Val str(const std::string &s) {
  Val v;
  v.kind = 's';
  v.s = s;
  return v;
}
static Val number(const std::string &s) {
  Val v;
  v.kind = '#';
  v.s = s;
  v.num = strtod(s.c_str(), nullptr);
  return v;
}
static Val lit(char k) {
  Val v;
  v.kind = k;
  return v;
}
static Val arr(const std::vector<Val> &x) {
  Val v;
  v.kind = 'a';
  for (auto &y : x)
    v.m.push_back({"", y});
  return v;
}
static Val obj(const std::vector<std::pair<std::string, Val>> &x) {
  Val v;
  v.kind = 'o';
  v.m = x;
  return v;
}
// ways of writing the same document: 0 compact, 1 spread out, 2 escaped
static std::string quote(const std::string &s, int style) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    uint32_t u = c;
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if (n > 1) {
      u = c & (0x7F >> n);
      for (int k = 1; k < n; k++)
        u = u << 6 | (s[i + k] & 0x3F);
    }
    if (c == '"' || c == '\\')
      r += style == 2 ? vx::sfmt("\\u%04x", u) : std::string("\\") + (char)c;
    else if (c < 0x20)
      r += style == 1 && c == '\n' ? "\\n" : style == 1 && c == '\t' ? "\\t" : vx::sfmt("\\u%04x", u);
    else if (style == 2 && u > 0xFFFF)
      r += vx::sfmt("\\u%04X\\u%04X", 0xD800 + ((u - 0x10000) >> 10), 0xDC00 + ((u - 0x10000) & 0x3FF));
    else if (style == 2 && (u > 0x7F || u == 'a' || u == '/'))
      r += u == '/' ? "\\/" : vx::sfmt("\\u%04X", u);
    else
      r += s.substr(i, n);
    i += n - 1;
  }
  return r + "\"";
}
static std::string write(const Val &v, int style) {
  std::string sp = style == 1 ? " \n\t" : "";
  if (v.kind == 'n')
    return "null";
  if (v.kind == 't')
    return "true";
  if (v.kind == 'f')
    return "false";
  if (v.kind == '#')
    return v.s;
  if (v.kind == 's')
    return quote(v.s, style);
  std::string r = v.kind == 'a' ? "[" : "{";
  for (size_t i = 0; i < v.m.size(); i++) {
    r += (i ? "," : "") + sp;
    if (v.kind == 'o')
      r += quote(v.m[i].first, style) + sp + ":" + sp;
    r += write(v.m[i].second, style) + sp;
  }
  return r + sp + (v.kind == 'a' ? "]" : "}");
}
// the noncharacters U+FDD0..U+FDEF are the store's own
static std::string kept(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char a = s[i], b = i + 1 < s.size() ? s[i + 1] : 0, c = i + 2 < s.size() ? s[i + 2] : 0;
    if (a == 0xEF && b == 0xB7 && c >= 0x90 && c <= 0xAF) {
      r += "\xEF\xBF\xBD";
      i += 2;
    } else
      r += s[i];
  }
  return r;
}
static bool same(const Val &v, const nlohmann::json &j) {
  switch (v.kind) {
  case 'n':
    return j.is_null();
  case 't':
    return j.is_boolean() && (bool)j;
  case 'f':
    return j.is_boolean() && !(bool)j;
  case '#':
    return j.is_number() && (j.get<double>() == v.num || std::fabs(j.get<double>() - v.num) <= 5.1e-7);
  case 's':
    return j.is_string() && j.get<std::string>() == kept(v.s);
  case 'a':
    if (!j.is_array() || j.size() != v.m.size())
      return false;
    for (size_t i = 0; i < v.m.size(); i++)
      if (!same(v.m[i].second, j[i]))
        return false;
    return true;
  default:
    if (!j.is_object() || j.size() != v.m.size())
      return false;
    for (auto &x : v.m)
      if (!j.contains(kept(x.first)) || !same(x.second, j[kept(x.first)]))
        return false;
    return true;
  }
}
// ------------------------------------------------------------------ what the store must hold
struct Node {
  const Val *v;
  addr p, q;
};
struct Model {
  std::map<std::string, ref::List> lists; // paths and keys; unreduced
  std::vector<Node> nodes;
  addr n = 0;
};
static std::shared_ptr<Tokenizer> tk;
static addr count(const std::string &s) { return tk->split(s).size(); }
static fval value(const Val &v) {
  return v.kind == 'n' ? NAN : v.kind == 't' ? 1 : v.kind == '#' ? v.num : v.kind == 'a' ? v.m.size() : 0;
}
static void add(Model *m, const Val &v, const std::string &path, addr *p, addr *q) {
  *p = m->n;
  if (v.kind == 's')
    m->n += 2 + count(kept(v.s));
  else if (v.kind == '#')
    m->n += 2 + count(std::to_string(v.num));
  else if (v.kind == 'a' || v.kind == 'o') {
    m->n++;
    std::vector<size_t> order; // members of an object are stored by key
    for (size_t i = 0; i < v.m.size(); i++)
      order.push_back(i);
    if (v.kind == 'o')
      std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return v.m[a].first < v.m[b].first; });
    for (size_t k = 0; k < order.size(); k++) {
      auto &x = v.m[order[k]];
      if (k)
        m->n++;
      std::string key = kept(x.first);
      if (v.kind == 'o')
        m->n += 3 + count(key);
      addr a, b;
      add(m, x.second, path + (v.kind == 'o' ? key + ":" : vx::sfmt("[%zu]:", order[k])), &a, &b);
      if (v.kind == 'o')
        m->lists[key + ":"].push_back(ref::Iv(a, b, 0));
    }
    m->n++;
  } else
    m->n++;
  *q = m->n - 1;
  m->lists[path].push_back(ref::Iv(*p, *q, value(v)));
  m->nodes.push_back({&v, *p, *q});
}
// ------------------------------------------------------------------ the universe
static std::vector<Val> universe(int size) {
  std::vector<Val> S0 = {lit('n'), lit('t'), lit('f')};
  for (auto x : {"0", "-1", "0.5", "12345678", "1e-7", "-0.25", "1e20", "1.5E+3", "-0", "9007199254740993", "18446744073709551615", "123456789012345678901234567890", "0.1234567891"})
    S0.push_back(number(x));
  std::vector<std::string> strings = {"",  "a",    "A b",  "\"",   "\\",   "a\nb",     "\t",        std::string("a\0b", 3), "\xc3\xa9", "\xef\xb7\xba", "\xef\xb7\x94", "x\x01", "/", "\xf0\x9f\x98\x80",
                                      "a:b", " a ", "a\n\n b", "\x7f", "\xe6\xbc\xa2\xe5\xad\x97", "null", "{\"k\":1}", "[", "a\\", "\xef\xb7\x8f", "\xef\xb7\xb0", "\xef\xb7\xaf x", "\xef\xb7\x95\xef\xb7\x91", "1", "\r\n", "b\xcc\x81"};
  for (auto &s : strings)
    S0.push_back(str(s));
  std::vector<Val> S1 = {lit('n'), number("1"), str("a b"), str(""), lit('t'), str("\"\n\\")};
  std::vector<Val> S2 = {number("2"), str("a")};
  std::vector<std::string> K0 = {"k", "K2", "a b", "\"q\\", "\xc3\xa9\n", "1", "\xef\xb7\x90", "null", std::string("a\0b", 3), "k "};
  std::vector<std::string> K1 = {"k", "l"};
  std::vector<Val> all;
  auto put = [&](const Val &v) { all.push_back(v); };
  for (auto &s : S0) {
    put(s);
    put(arr({s}));
    for (auto &k : K0)
      put(obj({{k, s}}));
    for (auto &t : S1) {
      put(arr({s, t}));
      put(obj({{"l", s}, {"k", t}}));
    }
  }
  std::vector<Val> T = S1; // and everything of one level over them
  T.push_back(arr({}));
  T.push_back(obj({}));
  for (auto &s : S1) {
    T.push_back(arr({s}));
    for (auto &k : K1)
      T.push_back(obj({{k, s}}));
  }
  for (auto &s : S2)
    for (auto &t : S2) {
      T.push_back(arr({s, t}));
      T.push_back(obj({{"k", s}, {"l", t}}));
    }
  size_t n = T.size();
  std::vector<Val> U;
  for (size_t i = 0; i < n; i++) {
    put(arr({T[i]}));
    for (auto &k : K1)
      put(obj({{k, T[i]}}));
    for (size_t j = 0; j < n; j++) {
      put(arr({T[i], T[j]}));
      put(obj({{"k", T[i]}, {"l", T[j]}}));
      if (i % 7 == 6 && j % 7 == 6)
        U.push_back(arr({T[i], T[j]})), U.push_back(obj({{"k", T[i]}, {"l", T[j]}}));
    }
    if (i > 5)
      U.push_back(obj({{"k", T[i]}})), U.push_back(arr({T[i]}));
  }
  for (auto &x : U) {
    put(arr({x}));
    put(obj({{"k", x}}));
    put(arr({number("1"), arr({x}), str("z")}));
    if (size > 1)
      for (auto &y : U) {
        put(obj({{"k", x}, {"l", y}}));
        put(arr({x, y, x}));
      }
  }
  return all;
}
// ------------------------------------------------------------------ storing and asking
static int s_docs, s_stores, s_nodes, s_lists, s_strings, s_refused;
static bool scribe_batch(std::shared_ptr<Scribe> sc, const std::vector<Val> &u, size_t from, size_t to, size_t per, std::string *e) {
  for (size_t i = from; i < to; i += per) {
    if (!sc->transaction(e))
      return false;
    for (size_t k = i; k < i + per && k < to; k++) {
      addr p, q;
      if (!json_scribe(write(u[k], k % 3), sc, &p, &q, e))
        return false;
      if (!(p <= q)) {
        *e = "an odd interval is reported";
        return false;
      }
    }
    if (!sc->ready(e))
      return false;
    sc->commit();
  }
  return true;
}
static std::string brief(const Val &v) {
  std::string s = vx::esc(write(v, 0));
  return s.size() < 120 ? s : s.substr(0, 120) + "...";
}
static void ask(W w, const char *kind, const std::vector<Val> &u, size_t from, const Model &m, const std::vector<Node> &nodes, const std::vector<size_t> &doc) {
  if (!w->started())
    w->start();
  auto txt = w->txt();
  addr n = txt->tokens();
  if (n != m.n) {
    vx::viol(std::string(kind) + ":tokens", vx::sfmt("%s holding documents %zu on has %ld tokens instead of %ld", kind, from, (long)n, (long)m.n));
    return;
  }
  for (size_t i = 0; i < nodes.size(); i++) {
    vx::count(s_nodes);
    auto &x = nodes[i];
    vx::what(std::string(kind) + " holding " + brief(u[doc[i]]));
    std::string t = txt->translate(x.p, x.q);
    bool ok;
    try {
      ok = same(*x.v, nlohmann::json::parse(t));
    } catch (nlohmann::json::exception &) {
      ok = false;
    }
    if (!ok) {
      vx::viol(std::string(kind) + ":value:" + x.v->kind, std::string(kind) + " holding " + brief(u[doc[i]]) + ": value " + brief(*x.v) + " is rendered as " + vx::esc(t.substr(0, 200)));
      return;
    }
  }
  for (auto &f : m.lists) {
    vx::count(s_lists);
    ref::List want = ref::minimal(f.second);
    auto h = w->idx()->hopper(w->featurizer()->featurize(f.first));
    addr p, q;
    fval v;
    size_t i = 0;
    std::string bad;
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && bad.empty(); h->tau(p + 1, &p, &q, &v), i++)
      if (i >= want.size() || want[i].p != p || want[i].q != q || !(want[i].v == v || (std::isnan(v) && std::isnan(want[i].v))))
        bad = vx::sfmt("annotation %zu is [%ld,%ld]=%g instead of ", i, (long)p, (long)q, v) + (i < want.size() ? vx::sfmt("[%ld,%ld]=%g", (long)want[i].p, (long)want[i].q, want[i].v) : "none");
    if (bad.empty() && i < want.size())
      bad = vx::sfmt("annotation %zu, [%ld,%ld]=%g, is missing", i, (long)want[i].p, (long)want[i].q, want[i].v);
    if (bad.size()) {
      size_t k = 0;
      for (size_t d = 0; d < nodes.size(); d++)
        if (i < want.size() && nodes[d].p <= want[i].p && want[i].q <= nodes[d].q)
          k = doc[d];
      vx::viol(std::string(kind) + ":path", std::string(kind) + " holding " + brief(u[std::max(k, from)]) + ": " + vx::esc(f.first) + ": " + bad);
      return;
    }
  }
  w->end();
}
static void documents(int size) {
  std::vector<Val> u = universe(size);
  const size_t B = 32;
  static const char *KINDS[] = {"static", "dynamic", "reopened", "packed"};
  vx::run("documents", (u.size() + B - 1) / B, [&](uint64_t c) {
    size_t from = c * B, to = std::min(u.size(), from + B);
    vx::count(s_docs, to - from);
    Model m;
    std::vector<size_t> doc;
    for (size_t i = from; i < to; i++) {
      addr p, q;
      add(&m, u[i], ":", &p, &q);
      doc.resize(m.nodes.size(), i);
    }
    std::string e;
    bool wrapped = c % 2; // with the featurizer that leaves the store's own marks out of the index
    for (int k = 0; k < 2; k++) {
      std::string dir = vx::sfmt("w%d_%d", vx::me, k);
      fs::remove_all(dir);
      vx::what(vx::sfmt("%s store of documents %zu on: ", KINDS[k], from) + brief(u[from]));
      vx::count(s_stores);
      if (k == 0) {
        auto working = Working::mkdir(dir, &e);
        auto b = SimpleBuilder::make(working, std::string("tokenizer:name:utf8 txt:json:yes") + (wrapped ? " featurizer@json" : ""), &e);
        auto sc = b ? Scribe::make(std::static_pointer_cast<Builder>(b), &e) : nullptr;
        W w;
        if (!sc || !scribe_batch(sc, u, from, to, B, &e) || !sc->finalize(&e) || !(w = Warren::make(dir, &e)))
          vx::viol("static:refused", "static store of " + brief(u[from]) + " and following: " + e);
        else
          ask(w, KINDS[0], u, from, m, m.nodes, doc);
      } else {
        {
          auto b = Bigwig::make(dir, std::string("txt:json:yes") + (wrapped ? " featurizer@json" : ""), &e);
          auto sc = b ? Scribe::make(std::static_pointer_cast<Warren>(b), &e) : nullptr;
          if (b)
            b->merge(false);
          if (!sc || !scribe_batch(sc, u, from, to, 12, &e)) {
            vx::viol("dynamic:refused", "dynamic store of " + brief(u[from]) + " and following: " + e);
            continue;
          }
          ask(b, KINDS[1], u, from, m, m.nodes, doc);
        }
        auto w = Warren::make(dir, &e);
        if (!w)
          vx::viol("reopened:refused", "dynamic store of " + brief(u[from]) + " and following: " + e);
        else
          ask(w, KINDS[2], u, from, m, m.nodes, doc);
      }
      fs::remove_all(dir);
    }
    if (c % 13 == 1)
      vx::sample("document " + brief(u[from]));
  });
}
// ------------------------------------------------------------------ strings
struct Json { // is it JSON?
  const std::string &s;
  size_t i = 0;
  void ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n'))
      i++;
  }
  bool word(const char *w) {
    if (s.compare(i, strlen(w), w))
      return false;
    i += strlen(w);
    return true;
  }
  bool digits() {
    size_t a = i;
    while (i < s.size() && isdigit((unsigned char)s[i]))
      i++;
    return i > a;
  }
  bool num() {
    if (i < s.size() && s[i] == '-')
      i++;
    if (i < s.size() && s[i] == '0')
      i++;
    else if (!digits())
      return false;
    if (i < s.size() && s[i] == '.') {
      i++;
      if (!digits())
        return false;
    }
    if (i < s.size() && s[i] == 'e') {
      i++;
      if (i < s.size() && s[i] == '-')
        i++;
      if (!digits())
        return false;
    }
    return true;
  }
  bool text() {
    if (i >= s.size() || s[i] != '"')
      return false;
    for (i++; i < s.size() && s[i] != '"'; i++) {
      unsigned char c = s[i];
      if (c < 0x20)
        return false;
      if (c == '\\') {
        if (++i >= s.size() || !strchr("\"\\/bfnrt", s[i]))
          return false;
      } else if (c >= 0x80) {
        if (c != 0xC3 || i + 1 >= s.size() || ((unsigned char)s[i + 1] & 0xC0) != 0x80)
          return false;
        i++;
      }
    }
    return i < s.size() && s[i++] == '"';
  }
  bool val() {
    ws();
    bool ok = false;
    if (i >= s.size())
      return false;
    char c = s[i];
    if (c == '{' || c == '[') {
      char e = c == '{' ? '}' : ']';
      i++;
      ws();
      if (i < s.size() && s[i] == e) {
        i++;
        ok = true;
      } else
        for (;;) {
          ws();
          if (c == '{') {
            if (!text())
              return false;
            ws();
            if (i >= s.size() || s[i++] != ':')
              return false;
          }
          if (!val())
            return false;
          if (i < s.size() && s[i] == ',') {
            i++;
            continue;
          }
          if (i < s.size() && s[i] == e) {
            i++;
            ok = true;
          }
          break;
        }
    } else if (c == '"')
      ok = text();
    else if (c == 't')
      ok = word("true");
    else
      ok = num();
    ws();
    return ok;
  }
  bool all() { return val() && i == s.size(); }
};
static void strings(int len) {
  static const std::vector<std::string> A = {"{", "}", "[", "]", "\"", ":", ",", "a", "1", "\\", " ", "-", ".", "e", "true", "0", "\xc3", "\xa9", "1e999", "\n"};
  size_t a = A.size();
  uint64_t total = 1;
  for (int i = 1; i < len; i++)
    total *= a;
  auto fz = Featurizer::make("hashing", "");
  vx::run("strings", total, [&](uint64_t c) {
    std::string e;
    auto f = Fiver::make(nullptr, fz, tk, &e);
    if (!f || !f->transaction(&e))
      return;
    auto sc = Scribe::make(std::static_pointer_cast<Warren>(f), &e);
    std::string head;
    uint64_t x = c;
    bool open = true, big = false;
    for (int i = 1; i < len; i++, x /= a) {
      head += A[x % a];
      big |= A[x % a] == "1e999";
    }
    (void)open;
    addr p, q, at;
    f->appender()->append("", &p, &at, &e);
    for (size_t k = 0; k <= a; k++) { // one shorter, too
      std::string s = head + (k < a ? A[k] : "");
      vx::count(s_strings);
      vx::what("string " + vx::esc(s));
      e = "";
      bool got = json_scribe(s, sc, &p, &q, &e), want = Json{s}.all();
      if (got != want && !((big || (k < a && A[k] == "1e999")) && want))
        vx::viol(std::string("strings:") + (got ? "accepted" : "refused"), "\"" + vx::esc(s) + "\" is " + (got ? "accepted" : "refused: " + e));
      addr now;
      f->appender()->append("", &p, &now, &e);
      if (!got) {
        vx::count(s_refused);
        if (now != at)
          vx::viol("strings:trace", "refused \"" + vx::esc(s) + "\" leaves text behind");
        if (e.empty())
          vx::viol("strings:silent", "\"" + vx::esc(s) + "\" is refused without an error");
      }
      at = now;
    }
  });
}
int main(int argc, char **argv) {
  std::string set = vx::arg(argc, argv, "set", "documents");
  int size = atoi(vx::arg(argc, argv, "size", "1").c_str());
  vx::parse(argc, argv);
  s_docs = vx::stat_id("documents");
  s_stores = vx::stat_id("stores");
  s_nodes = vx::stat_id("values");
  s_lists = vx::stat_id("path_lists");
  s_strings = vx::stat_id("strings");
  s_refused = vx::stat_id("refused");
  tk = Tokenizer::make("utf8", "");
  if (set == "documents")
    documents(size);
  else
    strings(size);
  return 0;
}
