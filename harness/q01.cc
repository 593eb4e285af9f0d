// Q01: every cursor kind x every non-nesting list x every call sequence.
#include "ref.h"
#include "src/array_hopper.h"
#include "src/simple_posting.h"
#include "src/null_compressor.h"
#include "src/post_compressor.h"
#include "src/zlib_compressor.h"
#include <sstream>
using namespace cottontail;
using namespace ref;

static int s_calls, s_lists, s_seq;

// storage forms of the same list
enum Form { ARR, ARR_V, CACHE, CACHE_V, POST, POST_V, BLOB, BLOB_V, CBLOB_V, SINGLE, NFORM };
static const char *fname[] = {"array", "array+values", "cacherecord", "cacherecord+values", "posting",
                              "posting+values", "compressed posting", "compressed posting+values",
                              "cache line from blob", "singleton"};

struct Source { // everything needed to make fresh cursors over one list quickly
  List l;
  addr n;
  std::shared_ptr<addr> p, q;
  std::shared_ptr<fval> f;
  std::shared_ptr<CacheRecord> c, cv, cb;
  std::shared_ptr<SimplePosting> sp, spv, bl, blv;
  bool points;
  Source(const List &list) : l(list), n(list.size()) {
    points = true;
    for (auto &i : l)
      if (i.p != i.q)
        points = false;
    for (size_t i = 0; i < l.size(); i++)
      l[i].v = 1.5 + i;
    if (!n)
      return;
    p = shared_array<addr>(n);
    q = shared_array<addr>(n);
    f = shared_array<fval>(n);
    for (addr i = 0; i < n; i++) {
      p.get()[i] = l[i].p;
      q.get()[i] = l[i].q;
      f.get()[i] = l[i].v;
    }
    auto rec = [&](bool values) {
      auto r = std::make_shared<CacheRecord>();
      r->n = n;
      r->postings = p;
      r->qostings = points ? p : q;
      r->fostings = values ? f : nullptr;
      r->release();
      return r;
    };
    c = rec(false);
    cv = rec(true);
    auto fac = SimplePostingFactory::make(std::make_shared<PostCompressor>(),
                                          std::make_shared<ZlibCompressor>());
    auto mk = [&](bool values) {
      auto s = fac->posting_from_feature(17);
      for (auto &i : l)
        s->push(i.p, i.q, values ? i.v : 0.0);
      return s;
    };
    sp = mk(false);
    spv = mk(true);
    auto reblob = [&](std::shared_ptr<SimplePosting> s) {
      std::ostringstream o;
      s->write(&o);
      std::string b = o.str();
      return fac->posting_from_compressed_blob(b.data(), b.size());
    };
    bl = reblob(sp);
    blv = reblob(spv);
    std::ostringstream o;
    spv->write(&o);
    std::string b = o.str();
    cb = std::make_shared<CacheRecord>();
    cb->n = n;
    if (!fac->cache_entry_from_compressed_blob(cb, b.data(), b.size()))
      cb = nullptr;
  }
  bool has(int form) const {
    if (form == SINGLE)
      return n == 1;
    return n > 0;
  }
  static bool valued(int form) {
    return form == ARR_V || form == CACHE_V || form == POST_V || form == BLOB_V || form == CBLOB_V || form == SINGLE;
  }
  std::unique_ptr<Hopper> make(int form) const {
    switch (form) {
    case ARR:
      return ArrayHopper::make(n, p, points ? p : q);
    case ARR_V:
      return ArrayHopper::make(n, p, points ? p : q, f);
    case CACHE:
      return ArrayHopper::make(c);
    case CACHE_V:
      return ArrayHopper::make(cv);
    case POST:
      return ArrayHopper::make(sp);
    case POST_V:
      return ArrayHopper::make(spv);
    case BLOB:
      return ArrayHopper::make(bl);
    case BLOB_V:
      return ArrayHopper::make(blv);
    case CBLOB_V:
      return ArrayHopper::make(cb);
    default:
      return std::make_unique<SingletonHopper>(l[0].p, l[0].q, l[0].v);
    }
  }
};

struct Step {
  int d;
  addr k;
};

// Runs every sequence of length `len` over `alpha`.  The first len-1 calls are re-run on a
// fresh cursor for each last call, so each sequence is an execution of its own.
template <class Make>
static void sequences(const std::string &what, const List &l, bool values, const std::vector<Step> &alpha,
                      int len, Make make) {
  size_t A = alpha.size();
  std::vector<Iv> want(A);
  for (size_t a = 0; a < A; a++) {
    want[a] = select(l, alpha[a].d, alpha[a].k);
    if (!values)
      want[a].v = 0.0;
  }
  std::vector<size_t> ix(len, 0);
  uint64_t seqs = 0;
  for (;;) {
    auto h = make();
    for (int i = 0; i < len; i++) {
      Iv got = call(h.get(), alpha[ix[i]].d, alpha[ix[i]].k);
      if (!agrees(want[ix[i]], got, alpha[ix[i]].d, true)) {
        std::string s;
        for (int j = 0; j <= i; j++)
          s += vx::sfmt(" %s(%s)", dname(alpha[ix[j]].d), ks(alpha[ix[j]].k).c_str());
        vx::viol(what + " " + str(l, values) + s,
                 "returned " + str(got, true) + " expected " + str(want[ix[i]], true));
        return;
      }
    }
    seqs++;
    int j = len - 1;
    while (j >= 0 && ++ix[j] == A)
      ix[j--] = 0;
    if (j < 0)
      break;
  }
  vx::count(s_seq, seqs);
  vx::count(s_calls, seqs * len);
}

static std::vector<Step> alphabet(const std::vector<addr> &ks) {
  std::vector<Step> a;
  for (int d = 0; d < NDIR; d++)
    for (addr k : ks)
      a.push_back({d, k});
  return a;
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_calls = vx::stat_id("cursor_calls");
  s_lists = vx::stat_id("lists");
  s_seq = vx::stat_id("call_sequences");
  int n2 = atoi(vx::arg(argc, argv, "n2", "6").c_str());
  int n3 = atoi(vx::arg(argc, argv, "n3", "4").c_str());
  int gal = atoi(vx::arg(argc, argv, "gallop", "24").c_str());

  for (int pass = 0; pass < 2; pass++) { // all pairs of calls, then all triples
    int n = pass == 0 ? n2 : n3, len = pass == 0 ? 2 : 3;
    auto lists = antichains(n);
    auto alpha = alphabet(pass == 0 ? keys(n) : [&] {
      std::vector<addr> k{minfinity};
      for (addr i = -1; i <= n; i++)
        k.push_back(i);
      k.push_back(maxfinity);
      return k;
    }());
    vx::opt.chunk = 1;
    vx::run(vx::sfmt("antichains<%d>xcalls^%d", n, len), lists.size(), [&](uint64_t i) {
      Source s(lists[i]);
      vx::count(s_lists);
      vx::what("list " + str(lists[i]));
      if (lists[i].size() == 2)
        vx::sample(vx::sfmt("list %s: %zu^%d call sequences on each storage form", str(lists[i]).c_str(), alpha.size(), len));
      for (int f = 0; f < NFORM; f++)
        if (s.has(f))
          sequences(fname[f], s.l, Source::valued(f), alpha, len, [&] { return s.make(f); });
      if (s.n == 0)
        sequences("empty", s.l, true, alpha, len, [&] { return std::make_unique<EmptyHopper>(); });
    });
  }

  // Galloping: longer lists of several shapes, every (landing key, probe key) pair and direction.
  {
    struct Cfg { int n, gap, shape; };
    std::vector<Cfg> cfg;
    for (int n = 1; n <= gal; n++)
      for (int gap = 1; gap <= 2; gap++)
        for (int shape = 0; shape < 3; shape++)
          cfg.push_back({n, gap, shape});
    vx::run("gallop", cfg.size(), [&](uint64_t i) {
      Cfg c = cfg[i];
      List l;
      addr q = -1;
      for (int j = 0; j < c.n; j++) {
        addr p = 5 + (addr)j * c.gap;
        addr w = c.shape == 0 ? 0 : c.shape == 1 ? 3 : (j * 7 % 4);
        q = std::max(q + 1, p + w);
        l.push_back(Iv(p, q));
      }
      Source s(l);
      vx::count(s_lists);
      vx::what("gallop " + str(l));
      std::vector<addr> kk{minfinity};
      for (addr k = 4; k <= l.back().q + 1; k++)
        kk.push_back(k);
      kk.push_back(maxfinity);
      auto alpha = alphabet(kk);
      for (int f : {ARR_V, POST})
        sequences(fname[f], s.l, Source::valued(f), alpha, 2, [&] { return s.make(f); });
    });
  }

  // Fixed width operands: the solutions are all windows of that width.
  {
    std::vector<addr> kk{minfinity, minfinity + 1, minfinity + 2, minfinity + 3, minfinity + 4, -2, -1, 0, 1, 7,
                         maxfinity - 5, maxfinity - 4, maxfinity - 3, maxfinity - 2, maxfinity - 1, maxfinity};
    auto alpha = alphabet(kk);
    vx::run("fixed-width", 4, [&](uint64_t i) {
      addr w = i + 1;
      vx::count(s_lists);
      // explicit windows near each key are enough for the reference
      List l;
      for (addr k : {minfinity + 20, (addr)0, maxfinity - 20})
        for (addr p = k - 21; p != k + 20; p++) {
          if (p <= minfinity || p > maxfinity - w)
            continue;
          l.push_back(Iv(p, p + w - 1));
        }
      l.erase(std::remove_if(l.begin(), l.end(), [&](const Iv &x) { return x.p > 0 && x.p < 0; }), l.end());
      std::sort(l.begin(), l.end());
      l.erase(std::unique(l.begin(), l.end()), l.end());
      for (int len = 1; len <= 2; len++)
        sequences(vx::sfmt("fixed-width %lld", (long long)w), l, true, alpha, len,
                  [&] { return std::make_unique<FixedWidthHopper>(w); });
    });
  }
  return 0;
}
