// C01: compressors over all short inputs (buffers of exactly the declared size, against unreadable pages),
// postings through files and blobs with every compressor choice, and postings combined in every grouping.
#include "vx.h"

#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/core.h"
#include "src/simple.h"
#include "src/simple_posting.h"
#include <algorithm>
#include <fstream>
#include <memory>
#include <sstream>
using namespace cottontail;

static int s_inputs, s_post, s_merge, s_calls;
struct Iv {
  addr p, q;
  fval v;
};
typedef std::vector<Iv> List;
static bool operator==(const Iv &a, const Iv &b) { return a.p == b.p && a.q == b.q && a.v == b.v; }
static std::string str(const List &l) {
  std::string s;
  for (auto &i : l)
    s += i.v == 0.0 ? vx::sfmt("%lld-%lld ", (long long)i.p, (long long)i.q) : vx::sfmt("%lld-%lld=%g ", (long long)i.p, (long long)i.q, i.v);
  return "{" + (s.empty() ? s : s.substr(0, s.size() - 1)) + "}";
}

// two areas, each ending at an unreadable page
static long page;
static char *area[3];
static size_t area_size;
static char *exact(int k, size_t n) { return area[k] + area_size - n; }
static void areas(size_t size) {
  page = sysconf(_SC_PAGESIZE);
  area_size = (size + page - 1) / page * page;
  for (auto &a : area) {
    a = (char *)mmap(nullptr, area_size + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(a + area_size, page, PROT_NONE);
  }
}

struct Comp {
  std::string name;
  std::shared_ptr<Compressor> c;
};
// refusable: an output of nothing means "not accepted"
static bool round_trip(Comp &k, const std::string &in, const std::string &name, bool refusable = false) {
  vx::count(s_inputs);
  vx::what(k.name + " " + name);
  auto bad = [&](const std::string &w) {
    vx::viol(k.name + ":" + name, w);
    return false;
  };
  size_t n = in.size(), room = n + (size_t)k.c->extra(n);
  char *a = exact(0, n), *b = exact(1, room);
  memcpy(a, in.data(), n);
  size_t m = k.c->crush(a, n, b, room);
  vx::count(s_calls);
  if (m > room)
    return bad(vx::sfmt("%zu bytes out of %zu, past the declared bound %zu", m, n, room));
  if (!k.c->destructive() && memcmp(a, in.data(), n) != 0)
    return bad("the input was altered");
  if (m == 0 && n > 0) {
    if (refusable)
      return true;
    return bad("nothing written");
  }
  std::string packed(b, m);
  char *c = exact(1, m);
  memcpy(c, packed.data(), m);
  char *out = exact(2, n);
  if (n)
    memset(out, 0x5A, n);
  size_t r = k.c->tang(c, m, out, n);
  vx::count(s_calls);
  if (r != n || memcmp(out, in.data(), n) != 0)
    return bad(vx::sfmt("decodes to %zu bytes%s", r, r == n ? ", altered" : ""));
  return true;
}

static std::shared_ptr<SimplePosting> posting(std::shared_ptr<SimplePostingFactory> f, addr feature, const List &l) {
  auto x = f->posting_from_feature(feature);
  for (auto &i : l)
    x->push(i.p, i.q, i.v);
  return x;
}
static List listed(std::shared_ptr<SimplePosting> x) {
  List l;
  Iv i;
  if (x)
    for (size_t k = 0; x->get(k, &i.p, &i.q, &i.v); k++)
      l.push_back(i);
  return l;
}
static List walked(std::unique_ptr<Hopper> h) {
  List l;
  addr p, q;
  fval v;
  for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity && l.size() < 100; h->tau(p + 1, &p, &q, &v))
    l.push_back({p, q, v});
  return l;
}
// all lists of at most `most` intervals with strictly increasing ends over the addresses at[]
static void nonnesting(const std::vector<addr> &at, size_t most, std::vector<List> *out) {
  std::function<void(List &)> grow = [&](List &l) {
    out->push_back(l);
    if (l.size() == most)
      return;
    for (addr p : at)
      for (addr q : at)
        if (p <= q && (l.empty() || (p > l.back().p && q > l.back().q))) {
          l.push_back({p, q, 0.0});
          grow(l);
          l.pop_back();
        }
  };
  List l;
  grow(l);
}
// minimal intervals of a union, later lists' values first
static List minimal(std::vector<List> lists) {
  List all;
  for (size_t k = lists.size(); k-- > 0;)
    for (auto &i : lists[k]) {
      bool dup = false;
      for (auto &j : all)
        dup = dup || (i.p == j.p && i.q == j.q);
      if (!dup)
        all.push_back(i);
    }
  List m;
  for (auto &i : all) {
    bool outer = false;
    for (auto &j : all)
      outer = outer || (!(i.p == j.p && i.q == j.q) && i.p <= j.p && j.q <= i.q);
    if (!outer)
      m.push_back(i);
  }
  std::sort(m.begin(), m.end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
  return m;
}
static List widest(const std::vector<List> &lists) {
  List all, m;
  for (auto &l : lists)
    for (auto &i : l)
      all.push_back({i.p, i.q, 0.0});
  for (auto &i : all) {
    bool inner = false;
    for (auto &j : all)
      inner = inner || (!(i.p == j.p && i.q == j.q) && j.p <= i.p && i.q <= j.q);
    bool dup = false;
    for (auto &j : m)
      dup = dup || (i.p == j.p && i.q == j.q);
    if (!inner && !dup)
      m.push_back(i);
  }
  std::sort(m.begin(), m.end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
  return m;
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_inputs = vx::stat_id("inputs");
  s_post = vx::stat_id("postings");
  s_merge = vx::stat_id("merges");
  s_calls = vx::stat_id("calls");
  vx::stat_id("cases");
  auto num = [&](const char *n, const char *d) { return atoi(vx::arg(argc, argv, n, d).c_str()); };
  int nbytes = num("bytes", "6"), naddr = num("addrs", "4"), npost = num("post", "3"), nmerge = num("merge", "3"), big = num("big", "70000");
  areas((size_t)big * 4 + (1 << 18));
  std::vector<Comp> comps;
  std::string error;
  for (const char *n : {"", "zlib", "null", "bad", "post", "tfdf", "tfdf:component"}) {
    std::string name = n, recipe;
    if (name == "tfdf:component") {
      name = "tfdf";
      recipe = "component";
    }
    auto c = Compressor::make(name, recipe, &error);
    if (!c && recipe == "component")
      continue;
    if (!c) {
      printf("@VIOL make:%s\t%s\n", n, error.c_str());
      return 0;
    }
    comps.push_back({n, c});
  }
  auto of = [&](const std::string &n) -> Comp & {
    for (auto &c : comps)
      if (c.name == n)
        return c;
    abort();
  };

  // bytes
  const std::vector<int> A = {0, 1, 'a', 0x7F, 0x80, 0xFF};
  vx::opt.chunk = 1;
  vx::run("C01:byte strings", 36, [&](uint64_t id) {
    std::function<void(std::string, int)> go = [&](std::string s, int left) {
      for (auto &k : comps)
        if (k.name == "" || k.name == "zlib" || k.name == "null" || k.name == "bad")
          round_trip(k, s, vx::sfmt("%zu bytes %s", s.size(), vx::esc(s).c_str()));
      if (left)
        for (int c : A)
          go(s + (char)c, left - 1);
    };
    if (id == 0)
      go("", 0);
    if (id % 6 == 0)
      go(std::string(1, A[id / 6]), 0);
    go({(char)A[id / 6], (char)A[id % 6]}, std::max(0, nbytes - 2));
  });
  // longer inputs: every length about the powers of two, compressible, periodic and incompressible
  std::vector<size_t> lengths;
  for (size_t n = 8; n <= (size_t)big; n *= 2)
    for (int d = -9; d <= 9; d++)
      if ((long)n + d > 0)
        lengths.push_back(n + d);
  vx::run("C01:long byte strings", lengths.size(), [&](uint64_t id) {
    size_t n = lengths[id];
    for (int shape = 0; shape < 6; shape++) {
      std::string s;
      uint64_t x = 88172645463325252ull + n;
      for (size_t i = 0; i < n; i++) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        s += (char)(shape == 0 ? 0 : shape == 1 ? 0xFF : shape == 2 ? i : shape == 3 ? i * i >> 3 : shape == 4 ? x >> 24 : (i % 1000 < 500 ? x >> 24 : 'a'));
      }
      for (auto &k : comps)
        if (k.name == "" || k.name == "zlib" || k.name == "null" || k.name == "bad")
          round_trip(k, s, vx::sfmt("%zu bytes, shape %d", n, shape));
    }
  });
  if (num("huge", "0"))
    vx::run("C01:huge", 1, [&](uint64_t) {
      size_t n = 260 << 20;
      areas(n + (n >> 8) + (1 << 20));
      std::string in(n, 0);
      uint64_t x = 88172645463325252ull;
      for (auto &c : in)
        x ^= x << 13, x ^= x >> 7, x ^= x << 17, c = (char)(x >> 24);
      round_trip(of("zlib"), in, "260 MB of noise");
    });
  // lists of addresses
  std::vector<addr> V = {0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 16385, 0x1FFFFF, 0x200000, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x7FFFFFFF, 0xFFFFFFFFll, 1ll << 34, 1ll << 35, (1ll << 42) - 1, 1ll << 42, 1ll << 49, 1ll << 56, (1ll << 56) + 1, maxfinity / 4, maxfinity / 2, maxfinity - 1, maxfinity};
  vx::run("C01:ascending lists", V.size() * V.size(), [&](uint64_t id) {
    std::vector<addr> l;
    std::function<void(size_t, int)> go = [&](size_t from, int left) {
      std::string name;
      for (addr x : l)
        name += vx::sfmt("%lld ", (long long)x);
      std::string in((const char *)l.data(), l.size() * sizeof(addr));
      for (auto &k : comps)
        round_trip(k, in, "list " + name, k.name == "tfdf:component");
      if (left)
        for (size_t i = from; i < V.size(); i++) {
          l.push_back(V[i]);
          go(i, left - 1);
          l.pop_back();
        }
    };
    size_t a = id / V.size(), b = id % V.size();
    if (id == 0)
      go(0, 0);
    l.push_back(V[a]);
    if (b == 0)
      go(0, 0);
    if (b < a)
      return;
    l.push_back(V[b]);
    go(b, std::max(0, naddr - 2));
  });
  // the frequency compressor takes any order, and falls back on values it cannot code
  std::vector<addr> F = {1, 2, 3, 4, 7, 8, 15, 16, 255, 256, 0x3FFFFFFF, 0x40000000, 0, -1, 0x40000001, maxfinity, minfinity};
  vx::run("C01:any-order lists", F.size() * F.size(), [&](uint64_t id) {
    std::vector<addr> l = {F[id / F.size()]};
    std::function<void(int)> go = [&](int left) {
      std::string name;
      for (addr x : l)
        name += vx::sfmt("%lld ", (long long)x);
      std::string in((const char *)l.data(), l.size() * sizeof(addr));
      for (auto &k : comps)
        if (k.name != "post")
          round_trip(k, in, "list " + name, k.name == "tfdf:component");
      if (left)
        for (addr x : F) {
          l.push_back(x);
          go(left - 1);
          l.pop_back();
        }
    };
    if (id % F.size() == 0)
      go(0);
    l.push_back(F[id % F.size()]);
    go(std::max(0, naddr - 2));
  });
  // long runs of one gap, of each width
  vx::run("C01:long lists", V.size(), [&](uint64_t id) {
    for (int n : {1, 2, 7, 8, 9, 63, 64, 65, 511, 512, 513, 1024, 4097}) {
      addr gap = std::min(V[id], maxfinity / n);
      for (int mode = 0; mode < 3; mode++) {
        std::vector<addr> l;
        addr at = mode == 1 ? maxfinity - gap * (n - 1) : 0;
        for (int i = 0; i < n; i++) {
          l.push_back(mode == 2 ? V[id] : at);
          at += i + 1 < n ? gap : 0;
        }
        std::string in((const char *)l.data(), l.size() * sizeof(addr));
        for (auto &k : comps)
          round_trip(k, in, vx::sfmt("%d values %lld apart, mode %d", n, (long long)V[id], mode), k.name == "tfdf:component");
      }
    }
  });

  // postings written and read back
  std::vector<std::pair<std::string, std::string>> pairs;
  for (const char *p : {"post", "zlib", "null", "bad", "tfdf"})
    for (const char *v : {"null", "zlib", "bad", "tfdf", "post"})
      if (std::string(v) != "post")
        pairs.push_back({p, v});
  std::vector<List> shapes;
  nonnesting({0, 1, 130, 70000, 1ll << 40}, npost, &shapes);
  std::vector<fval> values = {0.0, 1.0, -2.5, 1e300};
  vx::run("C01:postings", shapes.size(), [&](uint64_t id) {
    std::vector<List> ls;
    size_t n = shapes[id].size(), total = 1;
    for (size_t i = 0; i < n; i++)
      total *= values.size();
    for (size_t m = 0; m < total; m++) {
      List l = shapes[id];
      size_t x = m;
      for (auto &i : l) {
        i.v = values[x % values.size()];
        x /= values.size();
      }
      ls.push_back(l);
    }
    for (auto &pr : pairs) {
      vx::count(s_post, ls.size());
      auto f = SimplePostingFactory::make(of(pr.first).c, of(pr.second).c);
      std::string key = pr.first + "/" + pr.second + " ";
      vx::what(key + str(shapes[id]));
      // all of them in one file
      std::stringstream ss;
      std::vector<std::string> blobs;
      std::vector<std::shared_ptr<SimplePosting>> ps;
      addr feature = 1000;
      for (auto &l : ls) {
        ps.push_back(posting(f, feature++, l));
        if (!ps.back()->invariants())
          return vx::viol(key + str(l), "fails its own invariants");
        size_t before = ss.str().size();
        ps.back()->write(&ss);
        blobs.push_back(ss.str().substr(before));
      }
      char path[64];
      snprintf(path, sizeof path, "/dev/shm/c01.%d", (int)getpid());
      {
        std::ofstream o(path, std::ios::binary);
        o << ss.str();
      }
      std::fstream file(path, std::ios::in | std::ios::binary);
      unlink(path);
      for (size_t i = 0; i < ls.size(); i++) {
        vx::count(s_calls, 3);
        auto x = f->posting_from_file(&file);
        if (!x || x->feature() != (addr)(1000 + i) || !(listed(x) == ls[i]) || !(*x == *ps[i]) || !x->invariants())
          return vx::viol(key + str(ls[i]), "read from a file as " + str(listed(x)));
        auto y = f->posting_from_compressed_blob(blobs[i].data(), blobs[i].size(), &error);
        if (!y || y->feature() != (addr)(1000 + i) || !(listed(y) == ls[i]) || !(*y == *ps[i]))
          return vx::viol(key + str(ls[i]), "read from a blob as " + str(listed(y)));
        if (!ls[i].empty() && !(walked(ArrayHopper::make(x)) == ls[i]))
          return vx::viol(key + str(ls[i]), "walks as " + str(walked(ArrayHopper::make(x))));
        auto r = std::make_shared<CacheRecord>();
        r->n = ls[i].size();
        if (!f->cache_entry_from_compressed_blob(r, blobs[i].data(), blobs[i].size(), &error))
          return vx::viol(key + str(ls[i]), "refused as a cache entry: " + error);
        if (r->n > 0 && !(walked(ArrayHopper::make(r)) == ls[i]))
          return vx::viol(key + str(ls[i]), "cached as " + str(walked(ArrayHopper::make(r))));
        // a piece of a blob is refused
        if (blobs[i].size() < 200 && i < 8)
          for (size_t k = 0; k < blobs[i].size(); k++) {
            vx::count(s_calls);
            if (f->posting_from_compressed_blob(blobs[i].data(), k, &error))
              return vx::viol(key + str(ls[i]), vx::sfmt("the first %zu of its %zu bytes are accepted", k, blobs[i].size()));
          }
      }
      if (f->posting_from_file(&file))
        return vx::viol(key + str(ls[0]), "something is read after the last posting");
    }
  });

  // combining
  std::vector<List> parts;
  std::vector<addr> at;
  for (int i = 0; i < nmerge; i++)
    at.push_back(i);
  nonnesting(at, 9, &parts);
  auto f = SimplePostingFactory::make(of("post").c, of("zlib").c);
  auto valued = [](List l, fval v) {
    for (auto &i : l)
      i.v = v;
    return l;
  };
  vx::run("C01:merging", parts.size() * parts.size(), [&](uint64_t id) {
    List a = valued(parts[id % parts.size()], 1.0), b = valued(parts[id / parts.size()], 2.0);
    auto pa = posting(f, 7, a), pb = posting(f, 7, b);
    auto na = posting(f, null_feature, parts[id % parts.size()]), nb = posting(f, null_feature, parts[id / parts.size()]);
    auto key = [&](const List &c) { return str(a) + " + " + str(b) + " + " + str(c); };
    for (auto &c0 : parts) {
      List c = valued(c0, 0.0);
      vx::what(key(c));
      auto pc = posting(f, 7, c), nc = posting(f, null_feature, c0);
      List want = minimal({a, b, c});
      vx::count(s_merge);
      vx::count(s_calls, 9);
      auto all = f->posting_from_merge({pa, pb, pc});
      if (!(listed(all) == want) || all->feature() != 7 || !all->invariants())
        return vx::viol("merge " + key(c), "gives " + str(listed(all)) + ", expected " + str(want));
      auto left = f->posting_from_merge({f->posting_from_merge({pa, pb}), pc}), right = f->posting_from_merge({pa, f->posting_from_merge({pb, pc})});
      if (!(listed(left) == want) || !(listed(right) == want))
        return vx::viol("regroup " + key(c), "gives " + str(listed(left)) + " and " + str(listed(right)) + ", expected " + str(want));
      // what is erased goes, and nothing else
      auto kept = f->posting_from_merge({pa, pb}, nc);
      List two = minimal({a, b}), rest;
      for (auto &i : two) {
        bool gone = false;
        for (auto &e : c0)
          gone = gone || (e.p <= i.p && i.q <= e.q);
        if (!gone)
          rest.push_back(i);
      }
      if (!(listed(kept) == rest))
        return vx::viol("erase " + key(c), "gives " + str(listed(kept)) + ", expected " + str(rest));
      // erasures keep the widest
      auto wide = f->posting_from_merge({na, nb, nc});
      List w = widest({a, b, c});
      if (!(listed(wide) == w))
        return vx::viol("erasures " + key(c), "gives " + str(listed(wide)) + ", expected " + str(w));
      if (!(listed(f->posting_from_merge({f->posting_from_merge({na, nb}), nc})) == w) || !(listed(f->posting_from_merge({na, f->posting_from_merge({nb, nc})})) == w))
        return vx::viol("regroup erasures " + key(c), "expected " + str(w));
      // appending, when one follows the other
      if (a.empty() || c.empty() || (a.back().p < c[0].p && a.back().q < c[0].q)) {
        auto x = posting(f, 7, a);
        x->append(pc);
        List cat = a;
        cat.insert(cat.end(), c.begin(), c.end());
        if (!(listed(x) == cat) || !x->invariants())
          return vx::viol("append " + key(c), "gives " + str(listed(x)) + ", expected " + str(cat));
      }
    }
    // from tokens and annotations in the order the writers sort them
    std::vector<Annotation> ann;
    for (auto &i : a)
      ann.push_back({7, i.p, i.q, i.v});
    for (auto &i : b)
      ann.push_back({7, i.p, i.q, i.v});
    std::stable_sort(ann.begin(), ann.end(), [](const Annotation &x, const Annotation &y) { return x.q < y.q || (x.q == y.q && x.p > y.p); });
    ann.push_back({8, 0, 0, 0.0});
    auto it = ann.begin();
    auto x = f->posting_from_annotations(&it, ann.end());
    List want = minimal({b, a});
    if (a.size() + b.size() > 0 && (!(listed(x) == want) || x->feature() != 7 || it->feature != 8))
      return vx::viol("annotations " + str(a) + " " + str(b), "gives " + str(listed(x)) + ", expected " + str(want));
    auto y = f->posting_from_annotations(&it, ann.end());
    if (!(listed(y) == (a.size() + b.size() > 0 ? List{{0, 0, 0.0}} : listed(y))))
      return vx::viol("annotations " + str(a) + " " + str(b), "the next feature gives " + str(listed(y)));
    if (f->posting_from_annotations(&it, ann.end()))
      return vx::viol("annotations " + str(a) + " " + str(b), "a posting after the end");
  });
  vx::run("C01:tokens", 1u << 12, [&](uint64_t id) {
    // two features, each address once, twice or not at all
    std::vector<TokRecord> t;
    List w[2];
    for (int k = 0; k < 2; k++)
      for (int i = 0; i < 3; i++) {
        int n = id >> (2 * (3 * k + i)) & 3;
        for (int j = 0; j < n; j++)
          t.emplace_back(10 + k, i);
        if (n)
          w[k].push_back({i, i, 0.0});
      }
    auto it = t.begin();
    for (int k = 0; k < 2; k++)
      if (!w[k].empty()) {
        auto x = f->posting_from_tokens(&it, t.end());
        vx::count(s_calls);
        if (!x || !(listed(x) == w[k]) || x->feature() != 10 + k)
          return vx::viol(vx::sfmt("tokens %llx", (unsigned long long)id), "gives " + str(listed(x)) + ", expected " + str(w[k]));
      }
    if (it != t.end() || f->posting_from_tokens(&it, t.end()))
      vx::viol(vx::sfmt("tokens %llx", (unsigned long long)id), "not all tokens taken");
  });
  return 0;
}
