// Q03: every string over a token alphabet, up to a length, given to the query parsers; a reference parser and a
// reference evaluator say what must be refused and what an accepted string means.
// Q04: every query of a family over every store content of a family, with and without the optimiser.
#include "gclref.h"
#include "gcl/mt.h"
#include "gcl/optimizer.h"
#include "gcl/parse.h"
#include "src/cottontail.h"
#include "src/null_txt.h"
#include <map>
#include <set>
#include <unordered_set>
using namespace gref;
using cottontail::addr;
using cottontail::Mt;
using cottontail::gcl::SExpression;

static std::string prop;
static int s_strings, s_accepted, s_refused, s_distinct, s_evals, s_calls, s_contents, s_queries, s_rewritten, s_statements;

// ---- a store of given lists
class FakeIdx final : public cottontail::Idx {
public:
  std::map<addr, Leaf> lists;
  std::map<addr, addr> claimed; // counts the optimiser is told
private:
  std::string recipe_() final { return ""; }
  std::unique_ptr<cottontail::Hopper> hopper_(addr f) final {
    auto it = lists.find(f);
    if (it == lists.end())
      return std::make_unique<cottontail::EmptyHopper>();
    return it->second.make();
  }
  addr count_(addr f) final {
    auto c = claimed.find(f);
    if (c != claimed.end())
      return c->second;
    auto it = lists.find(f);
    return it == lists.end() ? 0 : (addr)it->second.l.size();
  }
  addr vocab_() final { return lists.size(); }
};
class FakeWarren final : public cottontail::Warren {
public:
  explicit FakeWarren(std::shared_ptr<FakeIdx> idx)
      : Warren(nullptr, cottontail::Featurizer::make("hashing", ""), cottontail::Tokenizer::make("ascii", ""), idx, cottontail::NullTxt::make("")) {}
private:
  bool set_parameter_(const std::string &, const std::string &, std::string *) final { return true; }
  bool get_parameter_(const std::string &, std::string *value, std::string *) final {
    if (value)
      *value = "";
    return true;
  }
};
typedef std::map<std::string, List> Env;
struct World {
  std::shared_ptr<FakeIdx> idx = std::make_shared<FakeIdx>();
  std::shared_ptr<FakeWarren> w;
  Env env;
  World() : w(std::make_shared<FakeWarren>(idx)) { w->start(); }
  void set(const std::string &t, const List &l) {
    addr f = w->featurizer()->featurize(t);
    Leaf x(l, false);
    idx->lists[f] = x;
    env[t] = x.l;
  }
};

// ---- reference trees
struct Node {
  std::string op; // "" term, "#" fixed, canonical operator name, "nofm"
  std::string term;
  addr n = 0;
  std::vector<Node> kids;
};
static const std::map<std::string, std::string> OPS = {
    {"+", "+"}, {"one_of", "+"}, {"^", "^"}, {"all_of", "^"}, {"...", "..."}, {"<>", "..."}, {"followed_by", "..."},
    {"<<", "<<"}, {"contained_in", "<<"}, {">>", ">>"}, {"containing", ">>"}, {"!<", "!<"}, {"not_contained_in", "!<"},
    {"!>", "!>"}, {"not_containing", "!>"}, {"@", "@"}, {"link", "@"}, {"materialize", "materialize"}, {"#", "#"}, {"fixed_width", "#"}};
static std::string print(const Node &x) {
  if (x.op == "")
    return x.term;
  if (x.op == "#")
    return "(# " + std::to_string((long)x.n) + ")";
  std::string s = "(" + x.op;
  for (auto &k : x.kids)
    s += " " + print(k);
  return s + ")";
}
struct Refuse {};
struct Reader {
  const std::string &s;
  size_t i = 0;
  explicit Reader(const std::string &s) : s(s) {}
  bool end() const { return i >= s.size() || s[i] == '\0'; }
  static bool ws(char c) { return c == ' ' || c == '\t'; }
  bool word() const { return !end() && !ws(s[i]) && s[i] != '(' && s[i] != ')'; }
  void skip() {
    while (!end() && ws(s[i]))
      i++;
  }
  Node expr() {
    skip();
    Node x;
    if (end() || s[i] == ')')
      throw Refuse();
    if (s[i] != '(') {
      size_t b = i;
      if (s[i] == '"' || s[i] == '\'' || s[i] == '`') {
        char q = s[i++];
        for (;;) {
          if (end())
            throw Refuse();
          if (s[i] == q)
            break;
          if (s[i] == '\\') {
            i++;
            if (end())
              throw Refuse();
          }
          i++;
        }
        i++;
      } else
        while (word())
          i++;
      x.term = s.substr(b, i - b);
      return x;
    }
    i++;
    skip();
    size_t b = i;
    while (word())
      i++;
    auto op = OPS.find(s.substr(b, i - b));
    if (op == OPS.end())
      throw Refuse();
    x.op = op->second;
    skip();
    if (x.op == "#") {
      size_t d = i;
      unsigned __int128 n = 0;
      while (!end() && s[i] >= '0' && s[i] <= '9') {
        n = 10 * n + (s[i++] - '0');
        if (n > (unsigned __int128)maxfinity)
          throw Refuse();
      }
      if (d == i || n == 0)
        throw Refuse();
      x.n = (addr)n;
      skip();
      if (end() || s[i] != ')')
        throw Refuse();
      i++;
      return x;
    }
    for (skip(); !end() && s[i] != ')'; skip())
      x.kids.push_back(expr());
    if (end())
      throw Refuse();
    i++;
    size_t k = x.kids.size();
    bool one = x.op == "@" || x.op == "materialize";
    bool pair = x.op == "<<" || x.op == ">>" || x.op == "!<" || x.op == "!>";
    if (k == 0 || (one && k > 1) || (pair && k < 2))
      throw Refuse();
    return x;
  }
  Node all() {
    Node x = expr();
    skip();
    if (i < s.size())
      throw Refuse();
    return x;
  }
};
// the tokens of a phrase, by their documented meaning for letters and digits (ascii tokenizer, folded)
static std::vector<std::string> words(const std::string &t) {
  std::vector<std::string> v;
  std::string c;
  for (char ch : t + " ")
    if (isalnum((unsigned char)ch))
      c += tolower(ch);
    else if (c.size()) {
      v.push_back(c);
      c = "";
    }
  return v;
}
constexpr addr LO = -12, HI = 16; // fixed-width operands are listed over this range
static bool finite(const Node &x) {
  if (x.op == "#")
    return false;
  if (x.op == "" || x.op == "nofm")
    return true;
  if (x.op == "^" || x.op == "...") { // a solution reaches from one operand to another
    for (auto &k : x.kids)
      if (finite(k))
        return true;
    return false;
  }
  if (x.op == "+") {
    for (auto &k : x.kids)
      if (!finite(k))
        return false;
    return true;
  }
  if (x.op == "<<") {
    for (auto &k : x.kids)
      if (finite(k))
        return true;
    return false;
  }
  return finite(x.kids[0]);
}
// Expressions over fixed-width operands alone may have no end to search; leave them out.
static bool settled(const Node &x) {
  for (auto &k : x.kids)
    if (!settled(k))
      return false;
  if (x.op == "materialize" || x.op == "@")
    return finite(x.kids[0]);
  if (x.op == "<<" || x.op == ">>" || x.op == "!<" || x.op == "!>") {
    Node left;
    bool f = finite(x.kids[0]);
    for (size_t i = 1; i < x.kids.size(); i++) {
      if (!f && !finite(x.kids[i]))
        return false;
      f = f || (x.op == "<<" && finite(x.kids[i]));
    }
    // an endless left side with nothing that could ever satisfy the right
    if (!finite(x))
      return x.op == "!<" || x.op == "!>" ? true : false;
    return true;
  }
  if (x.op == "^" || x.op == "...")
    return finite(x) || x.kids.size() == 1;
  return true;
}
static bool has_fixed(const Node &x) {
  if (x.op == "#")
    return true;
  if (x.op == "" && x.term.size() > 2 && x.term[0] == '"' && words(x.term).size() > 1)
    return true; // a phrase stands for a fixed-width window
  for (auto &k : x.kids)
    if (has_fixed(k))
      return true;
  return false;
}
static bool has_op(const Node &x, const std::string &op) {
  if (x.op == op)
    return true;
  for (auto &k : x.kids)
    if (has_op(k, op))
      return true;
  return false;
}
static List eval(const Node &x, const Env &env, bool phrases) {
  if (x.op == "") {
    std::string t = x.term;
    if (phrases && t.size() > 2 && t[0] == '"' && t.back() == '"') {
      auto w = words(t.substr(1, t.size() - 2));
      if (w.size() == 1)
        t = w[0];
      else if (w.size() > 1) {
        Node seq;
        seq.op = "...";
        for (auto &y : w) {
          seq.kids.emplace_back();
          seq.kids.back().term = y;
        }
        Node p;
        p.op = ">>";
        p.kids.resize(2);
        p.kids[0].op = "#";
        p.kids[0].n = w.size();
        p.kids[1] = seq;
        return eval(p, env, false);
      }
    }
    auto it = env.find(t);
    return it == env.end() ? List() : it->second;
  }
  if (x.op == "#") {
    List l;
    for (addr s = LO; s + x.n - 1 <= HI; s++)
      l.push_back(Iv(s, s + x.n - 1));
    return l;
  }
  if (x.op == "materialize")
    return eval(x.kids[0], env, phrases);
  if (x.op == "nofm") {
    List all;
    size_t m = x.kids.size();
    std::vector<List> e;
    for (auto &k : x.kids)
      e.push_back(eval(k, env, phrases));
    if (x.n == 0) {
      for (addr s = LO; s <= HI; s++)
        all.push_back(Iv(s, s));
      return all;
    }
    for (unsigned set = 1; set < (1u << m); set++)
      if (__builtin_popcount(set) == (int)x.n) {
        List c;
        bool first = true;
        for (size_t i = 0; i < m; i++)
          if (set >> i & 1) {
            c = first ? sweep(e[i]) : apply(AND, c, e[i]);
            first = false;
          }
        all.insert(all.end(), c.begin(), c.end());
      }
    return sweep(all);
  }
  static const std::map<std::string, int> code = {{"^", AND}, {"+", OR}, {"...", BEFORE}, {"<<", IN}, {">>", HAS}, {"!<", NOTIN}, {"!>", NOTHAS}};
  List l = eval(x.kids[0], env, phrases);
  for (size_t i = 1; i < x.kids.size(); i++)
    l = apply(code.at(x.op), l, eval(x.kids[i], env, phrases));
  return l;
}

// Every key in every direction, and the walks.
static void compare(const List &want, bool inner, bool endless, cottontail::Hopper *h, const std::string &name) {
  vx::count(s_evals);
  std::vector<addr> keys;
  if (!inner)
    for (addr k : {minfinity, minfinity + 1})
      keys.push_back(k);
  for (addr k = -2; k <= 7; k++)
    keys.push_back(k);
  if (!inner)
    for (addr k : {maxfinity - 1, maxfinity})
      keys.push_back(k);
  (void)endless;
  for (int d = 0; d < 4; d++)
    for (addr k : keys) {
      Iv got = call(h, d, k);
      Iv exp = select(want, d, k);
      vx::count(s_calls);
      if (inner && (exp.p <= LO + 4 || exp.q >= HI - 4)) // beyond the listed part of an endless operand
        continue;
      if (got.p != exp.p || got.q != exp.q) {
        vx::viol(name, vx::sfmt("%s(%s) returned %s expected %s; solutions %s", dname(d), ks(k).c_str(), str(got, false).c_str(), str(exp, false).c_str(),
                                str(want, false).c_str()));
        return;
      }
    }
}

static std::vector<std::shared_ptr<World>> worlds;
static void make_worlds(int k) {
  std::vector<List> ls;
  auto add = [&](std::initializer_list<Iv> l) { ls.push_back(List(l)); };
  add({});
  add({Iv(1, 1)});
  add({Iv(0, 0), Iv(2, 2), Iv(3, 3)});
  add({Iv(1, 2)});
  add({Iv(0, 1), Iv(1, 3), Iv(4, 4)});
  add({Iv(0, 3), Iv(2, 5)});
  add({Iv(2, 2), Iv(4, 4)});
  int n = ls.size();
  for (int i = 0; i < k; i++) {
    auto w = std::make_shared<World>();
    w->set("a", ls[(1 + i) % n]);
    w->set("b", ls[(2 + 3 * i) % n]);
    w->set("c", ls[(6 + 2 * i + i / n) % n]);
    w->set("0", ls[(4 + i) % n]);
    w->set("2", ls[(3 + i) % n]);
    worlds.push_back(w);
  }
}

static std::unordered_set<std::string> known;
// what an accepted string means, in all its forms
static void meaning(const Node &x, std::shared_ptr<SExpression> e, const std::string &key) {
  bool link = has_op(x, "@");
  std::string error;
  auto tok = worlds[0]->w->tokenizer();
  auto bin = e->to_binary();
  auto exp = e->expand_phrases(tok);
  auto expbin = bin->expand_phrases(tok);
  auto binexp = exp->to_binary();
  struct Form {
    const char *what;
    std::shared_ptr<SExpression> e;
    bool phrases;
  };
  std::vector<Form> forms = {{"as parsed", e, false}, {"binary", bin, false}, {"phrases expanded", exp, true}, {"binary, phrases expanded", expbin, true},
                             {"phrases expanded, binary", binexp, true}};
  size_t given = forms.size();
  for (size_t i = 0; i < given; i++) {
    std::string p = forms[i].e->to_string();
    auto again = SExpression::from_string(p, &error);
    if (!again) {
      vx::viol(key, std::string(forms[i].what) + " prints as " + p + ", which is refused: " + error);
      return;
    }
    if (again->to_string() != p) {
      vx::viol(key, std::string(forms[i].what) + " prints as " + p + ", which prints as " + again->to_string());
      return;
    }
    if (i == 3 || i == 1)
      forms.push_back({"printed and read again", again, forms[i].phrases});
  }
  if (link || !settled(x))
    return;
  bool inner = has_fixed(x);
  for (auto &w : worlds)
    for (int ph = 0; ph < 2; ph++) {
      List want = eval(x, w->env, ph);
      for (auto &f : forms) {
        if (f.phrases != (ph == 1))
          continue;
        auto h = f.e->to_hopper(w->w->featurizer(), w->idx);
        if (!h) {
          vx::viol(key, std::string(f.what) + ": no cursor");
          return;
        }
        compare(want, inner, !finite(x), h.get(), key + " " + f.what);
      }
    }
}
static void one_string(const std::string &s) {
  vx::count(s_strings);
  Node x;
  bool ok = true;
  try {
    x = Reader(s).all();
  } catch (Refuse &) {
    ok = false;
  }
  std::string error;
  auto e = SExpression::from_string(s, &error);
  std::string key = "[" + s + "]";
  if ((e != nullptr) != ok) {
    vx::viol(key, ok ? "a well-formed query is refused: " + error : "is accepted, as " + e->to_string());
    return;
  }
  if (!ok) {
    vx::count(s_refused);
    if (error.empty())
      vx::viol(key, "is refused without an error");
    return;
  }
  vx::count(s_accepted);
  std::string p = e->to_string();
  if (p != print(x)) {
    vx::viol(key, "prints as " + p + " instead of " + print(x));
    return;
  }
  if (!known.insert(p).second)
    return;
  vx::count(s_distinct);
  meaning(x, e, key);
}

// ---- the infix language
struct Infix {
  std::vector<std::string> t;
  size_t i = 0;
  std::map<std::string, Node> *env;
  static std::vector<std::string> scan(const std::string &s) {
    std::vector<std::string> v;
    auto multi = [](char c) { return c == '>' || c == '<' || c == '/' || c == '.'; };
    for (size_t i = 0; i < s.size();) {
      size_t b = i;
      if (s[i] == ' ' || s[i] == '\t') {
        i++;
        continue;
      }
      if (s[i] == '"') {
        size_t e = s.find('"', i + 1);
        if (e == std::string::npos) {
          v.push_back("\"");
          return v;
        }
        v.push_back(s.substr(i, e + 1 - i));
        i = e + 1;
        continue;
      }
      if (isdigit(s[i]))
        while (i < s.size() && isdigit(s[i]))
          i++;
      else if (isalpha(s[i]))
        while (i < s.size() && isalnum(s[i]))
          i++;
      else if (multi(s[i]))
        while (i < s.size() && multi(s[i]))
          i++;
      else
        i++;
      v.push_back(s.substr(b, i - b));
    }
    return v;
  }
  std::string look() const { return i < t.size() ? t[i] : ""; }
  Node binary(const std::string &op, Node a, Node b) {
    Node x;
    x.op = op;
    x.kids = {a, b};
    return x;
  }
  Node term() {
    std::string k = look();
    Node x;
    if (k == "")
      throw Refuse();
    bool integer = isdigit(k[0]);
    if (integer || k == "one" || k == "all") {
      i++;
      std::string o = look();
      if (o == "^" || o == "of") {
        i++;
        if (look() != "(")
          throw Refuse();
        x.op = "nofm";
        do {
          i++;
          x.kids.push_back(query());
        } while (look() == ",");
        if (look() != ")")
          throw Refuse();
        i++;
        x.n = k == "all" ? x.kids.size() : k == "one" ? 1 : atoi(k.c_str());
        if (x.n > (addr)x.kids.size())
          throw Refuse();
        return x;
      }
      if (o == "words" && integer && atoi(k.c_str()) > 0) {
        i++;
        x.op = "#";
        x.n = atoi(k.c_str());
        return x;
      }
      throw Refuse();
    }
    if (isalpha(k[0])) {
      auto e = env->find(k);
      if (e == env->end())
        throw Refuse();
      i++;
      return e->second;
    }
    if (k == "(") {
      i++;
      x = query();
      if (look() != ")")
        throw Refuse();
      i++;
      return x;
    }
    if (k == "[") {
      i++;
      std::string n = look();
      if (n == "" || !isdigit(n[0]))
        throw Refuse();
      i++;
      if (look() != "]" || atoi(n.c_str()) == 0)
        throw Refuse();
      i++;
      x.op = "#";
      x.n = atoi(n.c_str());
      return x;
    }
    if (k[0] == '"' && k.size() >= 2) {
      i++;
      x.term = k;
      return x;
    }
    throw Refuse();
  }
  Node query() {
    Node l = term();
    for (;;) {
      std::string k = look(), op;
      if (k == ">>" || k == ">" || k == "containing")
        op = ">>";
      else if (k == "<<" || k == "<")
        op = "<<";
      else if (k == "/>")
        op = "!>";
      else if (k == "/<")
        op = "!<";
      else if (k == "^" || k == "and")
        op = "^";
      else if (k == "+" || k == "or")
        op = "+";
      else if (k == "<>" || k == ".." || k == "..." || k == "....")
        op = "...";
      else if (k == "contained") {
        i++;
        if (look() != "in")
          throw Refuse();
        op = "<<";
      } else if (k == "not") {
        i++;
        if (look() == "containing")
          op = "!>";
        else if (look() == "contained") {
          i++;
          if (look() != "in")
            throw Refuse();
          op = "!<";
        } else
          throw Refuse();
      } else
        return l;
      i++;
      l = binary(op, l, term());
    }
  }
  // true: *q is a query; false: an assignment or nothing
  bool statement(Node *q) {
    if (t.empty())
      return false;
    bool keyword = t[0] == "one" || t[0] == "all";
    if (isalpha(t[0][0]) && !keyword && t.size() > 1 && t[1] == "=") {
      i = 2;
      Node x = query();
      if (i != t.size())
        throw Refuse();
      (*env)[t[0]] = x;
      return false;
    }
    *q = query();
    if (i != t.size())
      throw Refuse();
    return true;
  }
};
static bool n_of_m(const Node &x) {
  if (x.op == "nofm" && x.n > 1 && x.n < (addr)x.kids.size())
    return true;
  for (auto &k : x.kids)
    if (n_of_m(k))
      return true;
  return false;
}
static void infix_meaning(const Node &x, const std::string &s, const std::string &key) {
  std::string error;
  auto e = SExpression::from_string(s, &error);
  if (!e) {
    // reported once per shape of the operator
    vx::viol(n_of_m(x) ? "infix-n-of-m:" + key : key, "translates to " + s + ", which is refused: " + error);
    return;
  }
  if (!known.insert(key).second)
    return;
  vx::count(s_distinct);
  if (!settled(x))
    return;
  auto exp = e->expand_phrases(worlds[0]->w->tokenizer());
  for (auto &w : worlds) {
    auto h = exp->to_hopper(w->w->featurizer(), w->idx);
    if (!h) {
      vx::viol(key, "translates to " + s + ", which has no cursor");
      return;
    }
    compare(eval(x, w->env, true), has_fixed(x) || (x.op == "nofm" && x.n == 0), !finite(x), h.get(), key + " translated to " + s);
  }
}
static void one_script(const std::vector<std::string> &script) {
  vx::count(s_strings);
  Mt mt;
  std::map<std::string, Node> env;
  std::string key;
  for (auto &s : script) {
    vx::count(s_statements);
    key += "[" + s + "]";
    Infix in;
    in.t = Infix::scan(s);
    in.env = &env;
    Node x;
    bool ok = true, query = false;
    try {
      query = in.statement(&x);
    } catch (Refuse &) {
      ok = false;
    }
    std::string error;
    bool got = mt.infix_expression(s, &error);
    if (got != ok) {
      vx::viol(key, ok ? "a well-formed infix query is refused: " + error : "is accepted, as " + mt.s_expression());
      return;
    }
    if (!ok) {
      vx::count(s_refused);
      continue;
    }
    vx::count(s_accepted);
    if (query)
      infix_meaning(x, mt.s_expression(), key);
  }
}

template <class F> static void strings(const std::string &phase, const std::vector<std::string> &alpha, int len, F f) {
  size_t A = alpha.size();
  int head = std::min(len, 2);
  uint64_t cases = 1;
  for (int i = 0; i < head; i++)
    cases *= A;
  vx::run(phase, cases, [&](uint64_t id) {
    std::vector<size_t> ix(len, 0);
    for (int i = 0; i < head; i++) {
      ix[i] = id % A;
      id /= A;
    }
    // all lengths from head to len; shorter ones under the first case
    std::vector<std::string> parts;
    if (ix[0] == 0 && (head < 2 || ix[1] == 0)) {
      f(std::vector<std::string>());
      for (auto &a : alpha)
        f(std::vector<std::string>{a});
    }
    for (int l = head; l <= len; l++) {
      for (int i = head; i < l; i++)
        ix[i] = 0;
      for (;;) {
        parts.clear();
        for (int i = 0; i < l; i++)
          parts.push_back(alpha[ix[i]]);
        f(parts);
        int j = l - 1;
        while (j >= head && ++ix[j] == A)
          ix[j--] = 0;
        if (j < head)
          break;
      }
    }
  });
}
static std::string join(const std::vector<std::string> &v, const char *sep) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? sep : "") + v[i];
  return s;
}

// ---- Q04
static std::vector<std::string> q04_queries() {
  std::vector<std::string> q = {"(<< (^ a b c) d)", "(<< (^ (^ a b) c) d)", "(<< (^ a (^ b c)) d)", "(<< (^ a a b) d)", "(<< (^ a b a c) d)", "(<< (^ c b a d) d)",
                                "(<< (^ a b c) (# 2))", "(<< (^ a b c) (# 3))", "(<< (^ a (# 2) b) d)", "(<< (^ (# 2) (# 1) a) d)", "(<< (^ a b) d)", "(<< (^ a) d)",
                                "(<< (^ a b c) (^ d d))", "(<< (^ a b (+ c d)) d)", "(<< (^ a b c) d a)", "(<< (^ (^ (^ a) b) (^ c)) d)"};
  std::vector<std::string> r = {"(<< (^ a b c) d)", "(<< (^ b (^ c a)) d)"};
  for (auto &x : r) {
    q.push_back("(>> d " + x + ")");
    q.push_back("(!> d " + x + ")");
    q.push_back("(+ " + x + " a)");
    q.push_back("(... " + x + " b)");
    q.push_back("(^ " + x + " d)");
    q.push_back("(!< " + x + " c)");
    q.push_back("(<< " + x + " c)");
    q.push_back("(materialize " + x + ")");
    q.push_back("(<< (^ " + x + " a b) d)");
  }
  return q;
}
static void nonnesting(int n, std::vector<List> *out) {
  // all sets of intervals over 0..n-1 none of which contains another
  std::vector<Iv> all;
  for (addr p = 0; p < n; p++)
    for (addr q = p; q < n; q++)
      all.push_back(Iv(p, q));
  std::function<void(addr, addr, List &)> go = [&](addr p, addr q, List &l) {
    out->push_back(l);
    for (addr a = p; a < n; a++)
      for (addr b = std::max(a, q); b < n; b++) {
        l.push_back(Iv(a, b));
        go(a + 1, b + 1, l);
        l.pop_back();
      }
  };
  List l;
  go(0, 0, l);
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  prop = vx::arg(argc, argv, "prop", "Q03");
  s_strings = vx::stat_id("strings");
  s_statements = vx::stat_id("infix_statements");
  s_accepted = vx::stat_id("accepted");
  s_refused = vx::stat_id("refused");
  s_distinct = vx::stat_id("distinct_expressions");
  s_contents = vx::stat_id("contents");
  s_queries = vx::stat_id("query_evaluations");
  s_rewritten = vx::stat_id("rewritten_queries");
  s_evals = vx::stat_id("cursors_compared");
  s_calls = vx::stat_id("cursor_calls");
  vx::stat_id("cases");
  if (prop == "Q04") {
    int n = atoi(vx::arg(argc, argv, "n", "3").c_str()), nc = atoi(vx::arg(argc, argv, "nc", "4").c_str());
    bool singles = vx::arg(argc, argv, "singles", "0") == "1";
    std::vector<List> term, cont;
    if (singles)
      for (unsigned m = 0; m < (1u << n); m++) {
        List l;
        for (int i = 0; i < n; i++)
          if (m >> i & 1)
            l.push_back(Iv(i, i));
        term.push_back(l);
      }
    else
      nonnesting(n, &term);
    nonnesting(nc, &cont);
    auto queries = q04_queries();
    std::vector<Node> nodes;
    for (auto &q : queries)
      nodes.push_back(Reader(q).all());
    std::vector<std::array<addr, 4>> claims = {{-1, -1, -1, -1}, {1, 1, 1, 1}, {3, 2, 1, 0}, {2, 3, 1, 9}};
    size_t T = term.size();
    vx::sample(vx::sfmt("%zu term lists, %zu container lists, %zu queries", T, cont.size(), queries.size()));
    vx::run(prop, T * T, [&](uint64_t id) {
      World w;
      auto fz = w.w->featurizer();
      w.set("a", term[id % T]);
      w.set("b", term[id / T]);
      for (auto &c : term) {
        w.set("c", c);
        for (auto &d : cont) {
          w.set("d", d);
          vx::count(s_contents);
          for (size_t qi = 0; qi < queries.size(); qi++) {
            if (!settled(nodes[qi]))
              continue;
            bool inner = has_fixed(nodes[qi]);
            List want = eval(nodes[qi], w.env, true);
            for (size_t k = 0; k < claims.size(); k++) {
              if (k > 0 && qi > 5 && qi < 16)
                break;
              if (k > 0 && qi >= 16 && k != 2)
                continue;
              w.idx->claimed.clear();
              if (k)
                for (int i = 0; i < 4; i++)
                  w.idx->claimed[fz->featurize(std::string(1, 'a' + i))] = claims[k][i];
              std::string error;
              for (int opt = 0; opt < 2; opt++) {
                if (opt == 0 && k)
                  continue;
                if (opt)
                  cottontail::gcl::Optimizer::enable();
                else
                  cottontail::gcl::Optimizer::disable();
                auto h = w.w->hopper_from_gcl(queries[qi], &error);
                vx::count(s_queries);
                std::string key = queries[qi];
                if (!h) {
                  vx::viol(key, "refused: " + error);
                  return;
                }
                auto name = [&]() {
                  return key + (opt ? " optimised" : " as written") + vx::sfmt(" over a=%s b=%s c=%s d=%s counts %zu", str(w.env["a"], false).c_str(),
                                                                                str(w.env["b"], false).c_str(), str(w.env["c"], false).c_str(),
                                                                                str(w.env["d"], false).c_str(), k);
                };
                // compare() reports under the name only when it differs
                std::vector<addr> keys;
                if (!inner)
                  keys = {minfinity, minfinity + 1};
                for (addr x = -1; x <= nc; x++)
                  keys.push_back(x);
                if (!inner) {
                  keys.push_back(maxfinity - 1);
                  keys.push_back(maxfinity);
                }
                for (int dd = 0; dd < 4; dd++)
                  for (addr x : keys) {
                    Iv got = call(h.get(), dd, x), exp = select(want, dd, x);
                    vx::count(s_calls);
                    if (inner && (exp.p <= LO + 4 || exp.q >= HI - 4))
                      continue;
                    if (got.p != exp.p || got.q != exp.q) {
                      vx::viol(name(), vx::sfmt("%s(%s) returned %s expected %s", dname(dd), ks(x).c_str(), str(got, false).c_str(), str(exp, false).c_str()));
                      return;
                    }
                  }
                cottontail::gcl::Optimizer::disable();
              }
            }
          }
        }
      }
    });
    return 0;
  }
  make_worlds(atoi(vx::arg(argc, argv, "worlds", "6").c_str()));
  int chars = atoi(vx::arg(argc, argv, "chars", "6").c_str()), toks = atoi(vx::arg(argc, argv, "tokens", "5").c_str());
  int infix = atoi(vx::arg(argc, argv, "infix", "5").c_str()), script = atoi(vx::arg(argc, argv, "script", "3").c_str());
  vx::sample("(<< (^ a \"b c\") (# 2))");
  if (chars)
    strings("Q03:characters", {"(", ")", "a", "\"", "^", "#", "2", "0", "<", "\\", " "}, chars, [](const std::vector<std::string> &v) { one_string(join(v, "")); });
  if (toks) {
    strings("Q03:tokens", {"(^ ", "(+ ", "(... ", "(<< ", "(>> ", "(!< ", "(!> ", "(@ ", "(materialize ", ")", "a ", "b ", "\"c\"", "\"a b\"", "(# 2)"}, toks,
            [](const std::vector<std::string> &v) { one_string(join(v, "")); });
    // every operator under every name, with odd spacing and quoting, and the edges of widths
    std::vector<std::string> odd;
    for (auto &o : OPS)
      for (const char *f : {"(%s a b)", "( %s  a\tb )", " (%s a b) ", "(%sa b)", "(%s(# 1)a)", "(%s a)", "(%s)", "(%s", "(%s a b", "(%s a b))", "%s", "(%s a b c)", "(%s 'a' `b`)",
                            "(%s 1)", "(%s 0)", "(%s 01)", "(%s 1 2)", "(%s 9223372036854775807)", "(%s 9223372036854775808)", "(%s 99999999999999999999999)", "(%s -1)", "(%s a\nb)"})
        odd.push_back(vx::sfmt(f, o.first.c_str()));
    for (const char *s : {"", " ", "\t", "()", "(())", "a\\", "\"\\\\\"", "\"\\\"", "\"a\\\\\" b", "(^ \"a\\\\\" \"b\")", "(^ \"a\\\" b\")", "\"A b-C\"", "\"a a\"", "\"\"", "\"-\"", "'a b'", "`a", "(^ 'a\" b)",
                          "\"a\"b", "(^ \"a\"b)", "don't", "(unknown a b)", "(^a b)", "(1 a b)", "(2 a b c)"})
      odd.push_back(s);
    odd.push_back(std::string("a\0b", 3));
    odd.push_back(std::string("(^ a b)\0", 8));
    odd.push_back(std::string("\"a\0\"", 4));
    vx::run("Q03:odd", odd.size(), [&](uint64_t i) { one_string(odd[i]); });
  }
  if (infix)
    strings("Q03:infix", {"\"a\"", "\"b c\"", "^", ">", "/<", "..", "+", "(", ")", "2", "of", ",", "[", "]", "words", "x", "=", "all", "one", "not", "containing", "contained", "in", "0", "\""}, infix,
            [](const std::vector<std::string> &v) { one_script({join(v, " ")}); });
  if (script)
    strings("Q03:scripts", {"x = \"a\"", "x", "y = x ^ \"b\"", "y > x", "x = y", "x = (y)", "x = \"b\" )", "y = \"c\" \"a\"", "x = x", "x = ", "2 of (x, y, \"a\")", "all of (y, y)", "x = [2] > y",
                             "of = x", "of", "not = y + x", "x not containing y", "y not contained in x", "(x ^ y) > \"a\\\"", "\"\\\" ^ \"b\"", "", "1^(x,y)", "x /> y << \"c\"", "in = x contained y", "x .... y"},
            script, [](const std::vector<std::string> &v) { one_script(v); });
  return 0;
}
