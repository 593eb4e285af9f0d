// N01: the query server.  Every sequence of requests, good and bad, over one or more connections, against a model of the
// collections; every short line of bytes; every shape of snippet.  The server's own source is compiled in, its main renamed.
#define main ssr_server_main
#include "apps/ssr-server.cc"
#undef main
#include "src/bigwig.h"
#include "src/fluffle.h"
#include "vx.h"
#include <functional>
#include <set>
#include <signal.h>
#include <sstream>
using namespace cottontail;
typedef std::shared_ptr<Warren> W;

static int s_seq, s_req, s_rank, s_doc, s_bad, s_lines, s_snip;

static bool counting = true;
static void tally(int id) {
  if (counting)
    vx::count(id);
}
static void quiet() {
  static std::ostringstream nowhere;
  static bool done = false;
  if (!done) {
    std::cout.rdbuf(nullptr);
    if (!getenv("VX_LOUD") && !freopen("/dev/null", "w", stderr))
      abort();
    signal(SIGPIPE, SIG_DFL);
  }
  done = true;
}

// ---- collections ------------------------------------------------------------------------------------------------
struct Doc {
  std::string docno; // "" if none
  std::string body;  // tokens separated by white space
};
struct Tok {
  std::string word, text; // text: with what follows it
};
struct Placed {
  addr p, q, bp, bq;
  std::string docno;
};
struct Model {
  std::string burrow;
  W warren;
  std::vector<Tok> tokens;
  std::vector<Placed> docs;
};
static std::vector<Tok> tokenize(const std::string &s) {
  std::vector<Tok> v;
  for (size_t i = 0; i < s.size(); i++) {
    bool w = isalnum((unsigned char)s[i]);
    if (w && (i == 0 || !isalnum((unsigned char)s[i - 1])))
      v.push_back({"", ""});
    if (v.size()) {
      if (w)
        v.back().word += tolower(s[i]);
      v.back().text += s[i];
    }
  }
  return v;
}
static Model build(const std::string &burrow, const std::vector<Doc> &docs) {
  Model m;
  m.burrow = burrow;
  std::string e;
  auto b = Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make("ascii", ""), Fluffle::make(), &e);
  if (!b)
    abort();
  b->merge(false);
  W w = b;
  auto f = [&](const char *s) { return w->featurizer()->featurize(s); };
  if (docs.size()) {
    w->transaction();
    for (auto &d : docs) {
      Placed x;
      addr p, q;
      x.docno = d.docno;
      std::string text = d.docno == "" ? d.body : d.docno + "\n" + d.body;
      if (!w->appender()->append(text, &p, &q, &e))
        abort();
      auto t = tokenize(text + "\n");
      addr n = d.docno == "" ? 0 : tokenize(d.docno).size();
      x.p = p, x.q = q, x.bp = p + n, x.bq = q;
      if (q - p + 1 != (addr)t.size())
        abort();
      for (auto &y : t)
        m.tokens.push_back(y);
      w->annotator()->annotate(f("doc:"), p, q, (fval)0.0);
      if (n)
        w->annotator()->annotate(f("docno:"), p, p + n - 1, (fval)0.0);
      w->annotator()->annotate(f("body:"), x.bp, x.bq, (fval)0.0);
      m.docs.push_back(x);
    }
    w->ready();
    w->commit();
  }
  w->start();
  // addresses of the annotations are those of the text once committed
  addr p, q;
  auto h = w->hopper_from_gcl("doc:");
  size_t i = 0;
  addr off = 0;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q), i++) {
    if (i == 0)
      off = p - m.docs[0].p;
    if (i >= m.docs.size() || p - m.docs[i].p != off)
      abort();
  }
  if (i != m.docs.size())
    abort();
  for (auto &d : m.docs)
    d.p += off, d.q += off, d.bp += off, d.bq += off;
  if (m.docs.size() && m.docs[0].p != 0)
    abort();
  m.warren = w;
  return m;
}
static std::string text(const Model &m, addr p, addr q) {
  std::string s;
  for (addr i = p; i <= q; i++)
    s += m.tokens[i].text;
  for (auto &c : s)
    if (c == '\n' || c == '\r')
      c = ' ';
  return s;
}
static bool valid_utf8(const std::string &s) {
  try {
    (void)json(s).dump();
    return true;
  } catch (json::exception &) {
    return false;
  }
}
static std::string sent(const std::string &s) { // text that is not UTF-8 has its bad bytes replaced
  return json::parse(json(s).dump(-1, ' ', false, json::error_handler_t::replace)).get<std::string>();
}
static std::string squeeze(const std::string &s) {
  size_t e = s.size();
  while (e > 0 && s[e - 1] == ' ')
    e--;
  return s.substr(0, e);
}

// ---- talking to the server --------------------------------------------------------------------------------------
enum { READ_ALL, HANG_UP };
static std::vector<std::string> talk(Server *s, const std::string &bytes, int manner) {
  int fd[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd))
    abort();
  int big = 4 << 20;
  setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
  setsockopt(fd[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
  std::string out;
  size_t at = 0;
  while (at < bytes.size()) {
    ssize_t n = write(fd[0], bytes.data() + at, bytes.size() - at);
    if (n <= 0)
      abort();
    at += n;
  }
  shutdown(fd[0], SHUT_WR);
  std::thread reader;
  if (manner == HANG_UP)
    close(fd[0]);
  s->handle(fd[1]);
  close(fd[1]);
  std::vector<std::string> lines;
  if (manner == HANG_UP)
    return lines;
  char buffer[65536];
  for (ssize_t n; (n = read(fd[0], buffer, sizeof(buffer))) > 0;)
    out.append(buffer, n);
  close(fd[0]);
  size_t i = 0;
  while (i < out.size()) {
    size_t j = out.find('\n', i);
    if (j == std::string::npos) {
      lines.push_back(out.substr(i) + "<no end of line>");
      break;
    }
    lines.push_back(out.substr(i, j - i));
    i = j + 1;
  }
  return lines;
}

// ---- model of the server ----------------------------------------------------------------------------------------
struct Expected { // one result
  double score;
  std::string burrow, docno, snippet;
};
struct Session {
  std::vector<Expected> results;
  std::set<size_t> given; // results handed out
  double last = 1e300;
  size_t next = 0;
};
struct Sim {
  std::vector<Model> *models;
  std::map<std::string, Session> sessions;
  std::vector<std::string> fields;
  std::string key;
};
static bool phrase_in(const std::vector<Tok> &needle, const std::vector<Tok> &hay) {
  for (size_t i = 0; i + needle.size() <= hay.size(); i++) {
    bool ok = true;
    for (size_t k = 0; k < needle.size(); k++)
      ok = ok && needle[k].word == hay[i + k].word;
    if (ok)
      return true;
  }
  return false;
}
static std::vector<Expected> ranked(Sim *s, const std::string &query) {
  std::vector<Expected> v;
  for (auto &m : *s->models) {
    auto r = ssr_ranking(m.warren, query, "body:", std::map<std::string, fval>(), 1000);
    for (auto &x : r)
      for (auto &d : m.docs)
        if (d.p <= x.p() && x.q() <= d.q && d.docno != "")
          v.push_back({x.score(), m.burrow, squeeze(d.docno),
                       (d.bp < x.p() ? text(m, d.bp, x.p() - 1) : "") + "<cover>" + text(m, x.p(), x.q()) + "</cover>" + (x.q() < d.bq ? text(m, x.q() + 1, d.bq) : "")});
  }
  for (auto &x : v)
    x.snippet = sent(x.snippet);
  return v;
}
static std::function<void(const std::string &, const std::string &)> report = [](const std::string &key, const std::string &what) { vx::viol(key, what); };
static void viol(Sim *s, const std::string &what, const std::string &line) { report(s->key + ":" + what, s->key + ": " + what + ": " + vx::esc(line.substr(0, 300))); }
// one result handed out: must be one of those left, none of which scores higher
static void give(Sim *s, Session *z, const json &r, const std::string &qid, const std::string &line) {
  tally(s_rank);
  if (r.value("rank", 0) != (int)z->next + 1)
    viol(s, "rank", line);
  if (r.value("qid", "") != qid)
    viol(s, "qid", line);
  size_t best = z->results.size();
  for (size_t i = 0; i < z->results.size(); i++) {
    auto &x = z->results[i];
    if (!z->given.count(i) && x.burrow == r.value("burrow", "?") && x.docno == r.value("docno", "?") && x.snippet == r.value("snippet", "?") &&
        (best == z->results.size() || x.score > z->results[best].score))
      best = i;
  }
  if (best == z->results.size())
    return viol(s, "result", line);
  for (size_t i = 0; i < z->results.size(); i++)
    if (!z->given.count(i) && z->results[i].score > z->results[best].score + 1e-9)
      return viol(s, "order", line);
  z->given.insert(best);
  z->next++;
}
static void done(Sim *s, const json &r, const std::string &qid, const std::string &line) {
  if (r.value("qid", "") != qid || !r.contains("done") || r["done"] != true || r.contains("snippet"))
    viol(s, "done", line);
}
struct Request {
  std::string bytes; // with its end of line
  enum Kind { QUERY, NEXT, DOCUMENT, BAD } kind;
  std::string argument;
  bool good = true; // for QUERY: parses
};
static void check(Sim *s, const Request &q, const std::string &line, bool same_connection) {
  (void)same_connection;
  json rec;
  try {
    rec = json::parse(line);
  } catch (json::exception &e) {
    return viol(s, "not-json", line);
  }
  if (!rec.is_object() || !rec.contains("query") || !rec.contains("response") || !rec.contains("time") || !rec["response"].is_object())
    return viol(s, "record", line);
  json r = rec["response"];
  if (!r.contains("ok") || !r["ok"].is_boolean() || !r.contains("op") || !r["op"].is_string())
    return viol(s, "response", line);
  bool ok = r["ok"];
  if (!ok && (!r.contains("error") || !r["error"].is_string() || r["error"] == ""))
    return viol(s, "no-reason", line);
  if (q.kind != Request::BAD) {
    if (rec["query"] != json::parse(q.bytes))
      viol(s, "echo", line);
    if (r["op"] != (q.kind == Request::QUERY ? "query" : q.kind == Request::NEXT ? "next" : "document"))
      viol(s, "op", line);
  }
  switch (q.kind) {
  case Request::BAD:
    tally(s_bad);
    if (ok)
      viol(s, "accepted", line);
    break;
  case Request::QUERY: {
    if (!q.good) {
      if (ok)
        viol(s, "accepted", line);
      break;
    }
    if (!ok)
      return viol(s, "refused", line);
    std::string qid = r.value("qid", "");
    if (qid == "" || s->sessions.count(qid))
      return viol(s, "qid-again", line);
    Session &z = s->sessions[qid];
    z.results = ranked(s, q.argument);
    if (z.results.empty())
      done(s, r, qid, line);
    else
      give(s, &z, r, qid, line);
    break;
  }
  case Request::NEXT: {
    auto f = s->sessions.find(q.argument);
    if (f == s->sessions.end()) {
      if (ok)
        viol(s, "unknown-qid", line);
      break;
    }
    if (!ok)
      return viol(s, "refused", line);
    if (f->second.next < f->second.results.size())
      give(s, &f->second, r, q.argument, line);
    else
      done(s, r, q.argument, line);
    break;
  }
  case Request::DOCUMENT: {
    tally(s_doc);
    std::vector<std::pair<Model *, Placed *>> found;
    auto want = tokenize(q.argument);
    for (auto &m : *s->models)
      for (auto &d : m.docs)
        if (d.docno != "" && want.size() && phrase_in(want, tokenize(d.docno)))
          found.push_back({&m, &d});
    if (found.size() != 1) {
      if (ok)
        viol(s, found.size() ? "ambiguous" : "unknown-docno", line);
      break;
    }
    if (!ok)
      return viol(s, "refused", line);
    Model &m = *found[0].first;
    Placed &d = *found[0].second;
    std::string t;
    if (s->fields.empty())
      t = text(m, d.p, d.q);
    for (auto &f : s->fields) {
      std::vector<std::pair<addr, addr>> spans;
      if (f == "body:")
        spans.push_back({d.bp, d.bq});
      else if (f == "docno:" && d.docno != "")
        spans.push_back({d.p, d.bp - 1});
      else
        for (addr i = d.p; i <= d.q; i++)
          if (m.tokens[i].word == f)
            spans.push_back({i, i});
      for (auto &x : spans)
        t += (t.empty() ? "" : " ... ") + text(m, x.first, x.second);
    }
    if (r.value("burrow", "?") != m.burrow || r.value("docno", "?") != q.argument || r.value("document", "?") != sent(t))
      viol(s, "document", line + " instead of " + sent(t));
    break;
  }
  }
}
static void play(Server *server, Sim *sim, const std::vector<std::vector<Request>> &connections, const std::vector<int> &manner) {
  for (size_t c = 0; c < connections.size(); c++) {
    std::string bytes;
    for (auto &q : connections[c]) {
      bytes += q.bytes;
      tally(s_req);
    }
    auto lines = talk(server, bytes, manner[c]);
    if (manner[c] == HANG_UP)
      continue;
    if (lines.size() != connections[c].size())
      report(sim->key + ":lines", sim->key + vx::sfmt(": %zu responses to %zu requests", lines.size(), connections[c].size()));
    for (size_t i = 0; i < lines.size() && i < connections[c].size(); i++)
      check(sim, connections[c][i], lines[i], true);
  }
}

static Request query(const std::string &q, bool good = true) { return {json{{"op", "query"}, {"query", q}}.dump() + "\n", Request::QUERY, q, good}; }
static Request next(const std::string &q) { return {json{{"op", "next"}, {"qid", q}}.dump() + "\n", Request::NEXT, q}; }
static Request document(const std::string &d) { return {json{{"op", "document"}, {"docno", d}}.dump() + "\n", Request::DOCUMENT, d}; }
static Request bad(const std::string &b) { return {b + "\n", Request::BAD, ""}; }

static std::vector<std::vector<Doc>> collections_menu(int which) {
  static const std::vector<Doc> one = {{"a1", "x y z x"}, {"b-2", "y x x\r\ny"}, {"c", "z z"}, {"", "x x x"}, {"dup", "x"}, {"c 3", "y"}};
  static const std::vector<Doc> two = {{"dup", "y y x"}, {"e", "x \xff y \"q\" \xc3\xa9 z"}, {"Q", "x x y"}};
  if (which == 0)
    return {one};
  if (which == 1)
    return {one, two};
  if (which == 2)
    return {two, {}, one};
  return {{}};
}
static std::vector<Model> *built(int which) {
  static std::map<int, std::vector<Model>> m;
  auto f = m.find(which);
  if (f == m.end()) {
    std::vector<Model> v;
    size_t i = 0;
    for (auto &c : collections_menu(which))
      v.push_back(build("burrow" + std::to_string(i++), c));
    f = m.emplace(which, v).first;
  }
  return &f->second;
}
static std::shared_ptr<Server> server_for(std::vector<Model> *v, const std::vector<std::string> &fields) {
  std::vector<Collection> c;
  for (auto &m : *v)
    c.push_back({m.burrow, m.warren});
  return std::make_shared<Server>("doc:", "body:", "docno:", fields, c);
}
static void sequences(int n, int which) {
  std::vector<Request> menu = {query("x"), query("(^ x y)"), query("nothing"), query("(^ x", false), query("(+ \"y x\" z)"), next("q0"), next("q1"), next("q7"), document("a1"), document("dup"), document("c"),
                               document("e"), document("b-2"), document("2"), document("zzz"), bad("{\"op\":\"query\"}"), bad("nonsense"), bad("[1]"), bad("{\"op\":7}"), bad("")};
  // 0: goes on in the same connection; 1: in a new one; 2: in a new one after one that hung up
  uint64_t total = 1, per = menu.size() * 3;
  for (int i = 0; i < n; i++)
    total *= i ? per : menu.size();
  vx::opt.chunk = 16;
  vx::run("sequences", total, [&](uint64_t x) {
    quiet();
    Sim s;
    s.models = built(which);
    std::vector<std::vector<Request>> c(1);
    std::vector<int> manner(1, READ_ALL);
    s.key = vx::sfmt("sequence:%d", which);
    for (int i = 0; i < n; i++) {
      uint64_t o = i ? x % per : x % menu.size();
      x /= i ? per : menu.size();
      Request &q = menu[o % menu.size()];
      int how = o / menu.size();
      if (how == 2) {
        c.push_back({bad("unheard"), document("a1"), next("q7"), document("e")}); // changes nothing
        manner.push_back(HANG_UP);
      }
      if (how) {
        c.push_back({});
        manner.push_back(READ_ALL);
      }
      c.back().push_back(q);
      s.key += (how == 0 ? " " : how == 1 ? " | " : " |!| ") + vx::esc(q.bytes.substr(0, q.bytes.size() - 1));
    }
    vx::what(s.key);
    tally(s_seq);
    auto server = server_for(s.models, {});
    play(server.get(), &s, c, manner);
  });
  vx::opt.chunk = 1;
}
// every line of a few bytes, and requests of the wrong shape: one refusal each, and the next request is answered
static void lines(int n) {
  const std::vector<std::string> pieces = {"{", "}", "[", "]", "\"", ":", ",", "1", "-", "n", "\\", "\xff", " ", "\r", std::string(1, '\0'), "\"op\"", "null", "\"next\"", "\"qid\"", "\xc3\xa9", "\\ud800"};
  uint64_t total = 1;
  for (int i = 0; i < n; i++)
    total *= pieces.size();
  vx::opt.chunk = 64;
  vx::run("lines", total, [&](uint64_t x) {
    quiet();
    Sim s;
    s.models = built(3);
    std::string b;
    for (int i = 0; i < n; i++, x /= pieces.size())
      b += pieces[x % pieces.size()];
    s.key = "line:" + vx::esc(b);
    vx::what(s.key);
    tally(s_lines);
    auto server = server_for(s.models, {});
    play(server.get(), &s, {{bad(b), query("x")}, {bad(b), next("q0")}}, {READ_ALL, READ_ALL});
  });
  std::vector<json> values = {nullptr, true, 1, -1.5, "", "x", "query", json::array(), json::array({1}), json::object(), json{{"op", "query"}}};
  std::vector<std::string> keys = {"op", "query", "qid", "docno"};
  std::vector<std::string> ops = {"query", "next", "document", "none"};
  vx::run("shapes", ops.size() * values.size() * values.size() + values.size() + 1, [&](uint64_t x) {
    quiet();
    Sim s;
    s.models = built(0);
    json j;
    if (x < values.size())
      j = values[x];
    else if (x == values.size())
      j = json::parse("{\"op\":\"next\",\"qid\":\"" + std::string(100000, 'q') + "\"}");
    else {
      x -= values.size() + 1;
      std::string op = ops[x % 4];
      x /= 4;
      json a = values[x % values.size()], b = values[x / values.size()];
      j = {{"op", op}, {op == "query" ? "query" : op == "next" ? "qid" : "docno", a}, {"extra", b}};
      if (op == "query" && a.is_string() && a != "") // a good request
        return;
      if (op == "document" && a == "x")
        return;
    }
    s.key = "shape:" + vx::esc(j.dump().substr(0, 200));
    vx::what(s.key);
    tally(s_lines);
    auto server = server_for(s.models, {});
    play(server.get(), &s, {{bad(j.dump()), query("x")}, {bad(j.dump()), next("q0")}}, {READ_ALL, READ_ALL});
  });
  vx::opt.chunk = 1;
}
// a request in pieces: cut off anywhere by the end of the connection; or with either end of line
static void cuts() {
  std::vector<Request> menu = {query("x"), next("q0"), document("a1"), document("e"), bad("{\"op\":\"nothing\"}")};
  vx::run("cuts", menu.size() * 40, [&](uint64_t x) {
    quiet();
    Sim s;
    s.models = built(1);
    Request q = menu[x % menu.size()];
    size_t cut = x / menu.size();
    s.key = vx::sfmt("cut:%zu:", cut) + vx::esc(q.bytes);
    vx::what(s.key);
    tally(s_lines);
    auto server = server_for(s.models, {});
    Request part = q;
    if (cut == 0)
      part.bytes.insert(part.bytes.size() - 1, "\r");
    else if (cut < q.bytes.size()) {
      part.bytes = q.bytes.substr(0, cut);
      if (cut + 1 < q.bytes.size())
        part.kind = Request::BAD;
    } else
      return;
    play(server.get(), &s, {{query("(^ x y)"), part}, {next("q0"), q}}, {READ_ALL, READ_ALL});
  });
}
// a document of every width with a passage of every width at every place
static void snippets(int n) {
  std::vector<addr> widths = {1, 2, 3, 100, 198, 199, 200, 201, 202, 203, 250, 399, 400, 401, 600};
  std::vector<addr> passages = {1, 2, 3, 4, 99, 100, 199, 200, 201, 202, 398, 399, 400};
  std::vector<addr> places = {0, 1, 2, 50, 98, 99, 100, 101, 102, 150, 198, 199, 200, 201, 202, 300};
  if (n < 2)
    widths = {1, 3, 199, 200, 201, 250, 401}, passages = {1, 2, 3, 100, 199, 200, 201, 400}, places = {0, 1, 2, 99, 100, 101, 199, 200, 201};
  uint64_t P = passages.size(), L = places.size() * 2;
  vx::opt.chunk = 8;
  vx::run("snippets", widths.size() * P * L, [&](uint64_t x) {
    quiet();
    addr width = widths[x / P / L], passage = passages[x / L % P], place = places[x % L / 2];
    if (x & 1) // from the end
      place = width - passage - place;
    if (place < 0 || place + passage > width)
      return;
    tally(s_snip);
    std::string body;
    for (addr i = 0; i < width; i++)
      body += (i == place ? "a" : i == place + passage - 1 ? "z" : vx::sfmt("w%ld", (long)i)) + (i + 1 == width ? "" : i % 3 ? " " : "\n");
    std::vector<Model> v = {build("burrow0", {{"before", "w a"}, {"D", body}, {"after", "w1 z"}})};
    const Model &m = v[0];
    const Placed &d = m.docs[1];
    Sim s;
    s.models = &v;
    s.key = vx::sfmt("snippet:%ld:%ld:%ld", (long)width, (long)place, (long)passage);
    vx::what(s.key);
    auto server = server_for(s.models, {});
    std::string q = passage == 1 ? "a" : "(... a z)";
    auto lines = talk(server.get(), query(q).bytes + (passage == 1 ? next("q0").bytes : ""), READ_ALL);
    std::string got;
    for (auto &l : lines) {
      json r = json::parse(l)["response"];
      if (r.value("docno", "") == "D")
        got = r.value("snippet", "");
    }
    // the text without the marks is a run of tokens of the content
    size_t a = got.find("<cover>"), b = got.find("</cover>");
    if (a == std::string::npos || b == std::string::npos || b < a)
      return viol(&s, "marks", got);
    std::string pre = got.substr(0, a), in = got.substr(a + 7, b - a - 7), post = got.substr(b + 8);
    addr cp = d.bp + place, cq = cp + std::min<addr>(passage, 200) - 1;
    if (in != text(m, cp, cq))
      viol(&s, "cover", got);
    addr before = tokenize(pre).size(), after = tokenize(post).size(), len = before + (cq - cp + 1) + after;
    if (cp - before < d.bp || cq + after > d.bq || pre != (before ? text(m, cp - before, cp - 1) : "") || post != (after ? text(m, cq + 1, cq + after) : ""))
      viol(&s, "context", got);
    if (len != std::min<addr>(width, 200))
      viol(&s, "length", vx::sfmt("%ld tokens of %ld", (long)len, (long)width));
  });
  vx::opt.chunk = 1;
}
// more results than are kept
static void deep() {
  vx::run("deep", 2, [&](uint64_t x) {
    quiet();
    std::vector<Doc> docs;
    for (int i = 0; i < (x ? 1003 : 999); i++)
      docs.push_back({vx::sfmt("d%d", i), i % 5 ? "a w x" : i % 7 ? "a x" : "w w a"});
    std::vector<Model> v = {build("burrow0", docs)};
    Sim s;
    s.models = &v;
    s.key = vx::sfmt("deep:%zu", docs.size());
    auto server = server_for(s.models, {});
    std::vector<Request> c = {query("(^ a (+ w x))")};
    for (size_t i = 0; i <= docs.size(); i++)
      c.push_back(next("q0"));
    // in connections of a hundred
    std::vector<std::vector<Request>> cs;
    for (size_t i = 0; i < c.size(); i += 100)
      cs.push_back(std::vector<Request>(c.begin() + i, c.begin() + std::min(c.size(), i + 100)));
    play(server.get(), &s, cs, std::vector<int>(cs.size(), READ_ALL));
    if (s.sessions["q0"].next != std::min<size_t>(docs.size(), 1000))
      viol(&s, "kept", vx::sfmt("%zu", s.sessions["q0"].next));
  });
}
// documents put together from every sequence of fields
static void fields(int n) {
  const std::vector<std::string> menu = {"body:", "docno:", "x", "y", "nothing", "z"};
  const std::vector<std::string> docnos = {"a1", "b-2", "e", "Q", "dup"};
  uint64_t total = 1;
  for (int i = 0; i < n; i++)
    total *= menu.size() + 1;
  vx::run("fields", total, [&](uint64_t x) {
    quiet();
    Sim s;
    s.models = built(1);
    for (int i = 0; i < n; i++, x /= menu.size() + 1)
      if (x % (menu.size() + 1))
        s.fields.push_back(menu[x % (menu.size() + 1) - 1]);
    s.key = "fields";
    for (auto &f : s.fields)
      s.key += " " + f;
    vx::what(s.key);
    auto server = server_for(s.models, s.fields);
    std::vector<Request> c;
    for (auto &d : docnos)
      c.push_back(document(d));
    play(server.get(), &s, {c}, {READ_ALL});
    // and as they are given to the server
    std::string spec, e;
    std::vector<std::string> got;
    for (auto &f : s.fields)
      spec += (spec.empty() ? "" : ",") + std::string(f.size() % 2 ? " " : "") + f + (f.size() % 3 ? "\t" : "");
    if (split_fields(spec, &got, &e) != (s.fields.size() > 0) || (s.fields.size() && got != s.fields))
      viol(&s, "specification", spec);
  });
}

#ifndef N01_NO_MAIN
int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_seq = vx::stat_id("sequences");
  s_req = vx::stat_id("requests");
  s_rank = vx::stat_id("results");
  s_doc = vx::stat_id("documents");
  s_bad = vx::stat_id("refused");
  s_lines = vx::stat_id("lines");
  s_snip = vx::stat_id("snippets");
  std::string set = vx::arg(argc, argv, "set");
  int n = std::stoi(vx::arg(argc, argv, "size", "2")), which = std::stoi(vx::arg(argc, argv, "which", "1"));
  if (set == "sequences")
    sequences(n, which);
  else if (set == "lines")
    lines(n), cuts();
  else if (set == "snippets")
    snippets(n), deep();
  else if (set == "fields")
    fields(n);
  return 0;
}
#endif
