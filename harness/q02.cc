// Q02: every structural operator x every pair/triple of operand lists x call sequences.
#include "gclref.h"
using namespace gref;
using namespace cottontail;

static int s_expr, s_calls, s_nonempty;

static std::vector<addr> near(addr n, bool inf = true) {
  std::vector<addr> k;
  if (inf)
    k.push_back(minfinity);
  for (addr i = -1; i <= n; i++)
    k.push_back(i);
  if (inf)
    k.push_back(maxfinity);
  return k;
}
static void tally(const List &w, uint64_t calls) {
  vx::count(s_expr);
  vx::count(s_calls, calls);
  if (!w.empty())
    vx::count(s_nonempty);
}

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_expr = vx::stat_id("expressions");
  s_calls = vx::stat_id("cursor_calls");
  s_nonempty = vx::stat_id("expressions_with_solutions");
  auto num = [&](const char *n, const char *d) { return atoi(vx::arg(argc, argv, n, d).c_str()); };
  int n1 = num("n1", "6"), n1s = num("n1s", "4"), n2 = num("n2", "3"), nm = num("nm", "3"), nf = num("nf", "4"), n1t = num("n1t", "3");

  // 1. one operator, single calls and walks on larger lists; pairs and triples of calls on smaller ones.
  for (int pass = 0; pass < 3; pass++) {
    int n = pass == 0 ? n1 : pass == 1 ? n1s : n1t, len = pass + 1;
    auto L = antichains(n);
    std::vector<Leaf> A, B;
    for (auto &l : L) {
      A.push_back(Leaf(l, true, 0));
      B.push_back(Leaf(l, true, 100));
    }
    auto alpha = alphabet(pass == 0 ? keys(n) : near(n));
    vx::opt.chunk = 1;
    vx::run(vx::sfmt("op(A,B)n=%d,calls^%d", n, len), L.size(), [&](uint64_t i) {
      for (size_t j = 0; j < L.size(); j++)
        for (int op = 0; op < NBIN; op++) {
          List w = apply(op, A[i].l, B[j].l);
          vx::what(vx::sfmt("(%s ", oname(op)) + A[i].name() + " " + B[j].name() + ")");
          if (L[i].size() == 2 && L[j].size() == 2 && !w.empty())
            vx::sample(vx::sfmt("(%s %s %s) -> %s", oname(op), A[i].name().c_str(), B[j].name().c_str(), str(w).c_str()));
          tally(w, check(w, alpha, len, true, [&] { return combine(op, A[i].make(), B[j].make()); },
                         [&] { return vx::sfmt("(%s ", oname(op)) + A[i].name() + " " + B[j].name() + ")"; }));
        }
    });
  }

  // 2. nested: op1(op2(A,B),C) and op1(A,op2(B,C)), optionally with the inner part materialised.
  {
    auto L = antichains(n2);
    std::vector<Leaf> A, B, C;
    for (auto &l : L) {
      A.push_back(Leaf(l, true, 0));
      B.push_back(Leaf(l, true, 100));
      C.push_back(Leaf(l, true, 200));
    }
    auto alpha1 = alphabet(near(n2)), alpha2 = alphabet({0, n2 / 2, n2 - 1, n2}, 4);
    size_t m = L.size();
    vx::run(vx::sfmt("op1(op2)n=%d", n2), m * m, [&](uint64_t c) {
      size_t i = c / m, j = c % m;
      for (size_t k = 0; k < m; k++)
        for (int o1 = 0; o1 < NBIN; o1++)
          for (int o2 = 0; o2 < NBIN; o2++)
            for (int shape = 0; shape < 4; shape++) {
              bool left = shape & 1, mat = shape & 2;
              List in = left ? apply(o2, A[i].l, B[j].l) : apply(o2, B[j].l, C[k].l);
              List w = left ? apply(o1, in, C[k].l) : apply(o1, A[i].l, in);
              auto make = [&]() -> std::unique_ptr<Hopper> {
                auto inner = left ? combine(o2, A[i].make(), B[j].make()) : combine(o2, B[j].make(), C[k].make());
                if (mat)
                  inner = std::make_unique<gcl::Materialize>(std::move(inner));
                return left ? combine(o1, std::move(inner), C[k].make()) : combine(o1, A[i].make(), std::move(inner));
              };
              auto name = [&] {
                std::string t = mat ? "materialize" : "";
                return left ? vx::sfmt("(%s %s(%s ", oname(o1), t.c_str(), oname(o2)) + A[i].name() + " " + B[j].name() + ") " + C[k].name() + ")"
                            : vx::sfmt("(%s ", oname(o1)) + A[i].name() + vx::sfmt(" %s(%s ", t.c_str(), oname(o2)) + B[j].name() + " " + C[k].name() + "))";
              };
              vx::what(name());
              tally(w, check(w, alpha1, 1, true, make, name) + check(w, alpha2, 2, true, make, name, false));
            }
    });
  }

  // 3. merge of many sources (the cursor a multi-shard store uses), alone and under operators.
  {
    auto L = antichains(nm);
    size_t m = L.size();
    std::vector<std::vector<Leaf>> S(3);
    for (int s = 0; s < 3; s++)
      for (auto &l : L)
        S[s].push_back(Leaf(l, true, 100 * s));
    auto alpha = alphabet(near(nm));
    vx::run(vx::sfmt("vector^3 n=%d", nm), m * m, [&](uint64_t c) {
      size_t i = c / m, j = c % m;
      for (size_t k = 0; k < m; k++)
        for (int variant = 0; variant < 3; variant++) {
          List all = S[0][i].l;
          all.insert(all.end(), S[1][j].l.begin(), S[1][j].l.end());
          if (variant != 1)
            all.insert(all.end(), S[2][k].l.begin(), S[2][k].l.end());
          List w = sweep(all);
          auto vec = [&]() {
            std::vector<std::unique_ptr<Hopper>> v;
            v.push_back(S[0][i].make());
            v.push_back(S[1][j].make());
            if (variant != 1)
              v.push_back(S[2][k].make());
            return gcl::VectorHopper::make(&v, false);
          };
          if (variant == 1) // merged pair with erasures, as an erasing store builds it
            w = apply(NOTIN, w, S[2][k].l);
          auto make = [&]() -> std::unique_ptr<Hopper> {
            if (variant == 1)
              return combine(NOTIN, vec(), S[2][k].make());
            if (variant == 2)
              return std::make_unique<gcl::Materialize>(vec());
            return vec();
          };
          auto name = [&] {
            return vx::sfmt(variant == 0 ? "merge3(" : variant == 1 ? "erased(" : "materialize(") + S[0][i].name() + S[1][j].name() + S[2][k].name() + ")";
          };
          vx::what(name());
          tally(w, check(w, alpha, 2, true, make, name));
        }
    });
  }

  // 4. fixed-width operands: windows are clipped far outside the keys asked for.
  {
    auto L = antichains(nf);
    std::vector<Leaf> A;
    for (auto &l : L)
      A.push_back(Leaf(l, false));
    std::vector<Leaf> F;
    for (int w = 1; w <= 4; w++)
      F.push_back(Leaf::Fixed(w, -40, 40));
    std::vector<addr> kk;
    for (addr k = -2; k <= nf + 1; k++)
      kk.push_back(k);
    auto alpha = alphabet(kk);
    vx::run(vx::sfmt("fixed n=%d", nf), L.size() * 4, [&](uint64_t c) {
      const Leaf &a = A[c / 4], &f = F[c % 4];
      for (int op = 0; op < MERGE; op++)
        for (int side = 0; side < 2; side++) {
          List w = side ? apply(op, f.l, a.l) : apply(op, a.l, f.l);
          auto make = [&] { return side ? combine(op, f.make(), a.make()) : combine(op, a.make(), f.make()); };
          auto name = [&] { return vx::sfmt("(%s ", oname(op)) + (side ? f : a).name() + " " + (side ? a : f).name() + ")"; };
          vx::what(name());
          tally(w, check(w, alpha, 2, false, make, name, false));
          // phrase shape: (>> (# n) (... A B)) and containment of the result in A
          if (op == BEFORE && side == 0)
            for (size_t j = 0; j < L.size(); j++) {
              List ph = apply(IN, apply(BEFORE, a.l, A[j].l), f.l), ph2 = apply(HAS, f.l, apply(BEFORE, a.l, A[j].l));
              auto n1 = [&] { return "(<< (... " + a.name() + " " + A[j].name() + ") " + f.name() + ")"; };
              auto n2 = [&] { return "(>> " + f.name() + " (... " + a.name() + " " + A[j].name() + "))"; };
              vx::what(n1());
              tally(ph, check(ph, alpha, 1, false, [&] { return combine(IN, combine(BEFORE, a.make(), A[j].make()), f.make()); }, n1));
              tally(ph2, check(ph2, alpha, 1, false, [&] { return combine(HAS, f.make(), combine(BEFORE, a.make(), A[j].make())); }, n2, false));
            }
        }
    });
  }

  // 5. link: values are addresses; every first-call direction.
  {
    auto L = antichains(4);
    std::vector<addr> vals{-3, 0, 1, 2, 5, maxfinity, minfinity};
    std::vector<addr> kk{minfinity, -4, -3, -2, 0, 1, 2, 3, 5, 6, maxfinity};
    auto alpha = alphabet(kk);
    vx::run("link", L.size(), [&](uint64_t c) {
      const List &base = L[c];
      size_t n = base.size();
      uint64_t total = 1;
      for (size_t i = 0; i < n; i++)
        total *= vals.size();
      for (uint64_t x = 0; x < total; x++) {
        Leaf leaf(base, true);
        uint64_t y = x;
        std::set<addr> s;
        for (size_t i = 0; i < n; i++, y /= vals.size()) {
          addr v = vals[y % vals.size()];
          leaf.l[i].v = addr2fval(v);
          leaf.f.get()[i] = leaf.l[i].v;
          if (v > minfinity && v < maxfinity)
            s.insert(v);
        }
        List w;
        for (addr a : s)
          w.push_back(Iv(a, a));
        auto name = [&] {
          std::string t = "(@ ";
          for (auto &i : leaf.l)
            t += str(i) + "->" + ks(fval2addr(i.v));
          return t + ")";
        };
        vx::what(name());
        tally(w, check(w, alpha, n <= 2 ? 2 : 1, true, [&] { return std::make_unique<gcl::Link>(leaf.make()); }, name));
        Leaf cont(L[(c * 7 + x) % L.size()], false);
        List w2 = apply(IN, w, cont.l);
        tally(w2, check(w2, alpha, 1, true, [&] { return combine(IN, std::make_unique<gcl::Link>(leaf.make()), cont.make()); }, name));
      }
    });
  }
  return 0;
}
