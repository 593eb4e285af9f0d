// S02: every sequence of operations on a chunked text file up to a depth, for several chunk sizes and
// compressors, on the real SimpleTxtIO: a writer (appends in and out of transactions, flushes, partial reads,
// ready, commit, abort, reopening) and readers opened and cloned at any time. After each sequence every byte
// range is read through every handle and compared with the bytes that handle has to show.
#include "vx.h"

#include "src/compressor.h"
#include "src/simple_txt_io.h"
#include <algorithm>
#include <cstdio>
#include <sys/stat.h>
#include <memory>
using namespace cottontail;

static int s_seq, s_ops, s_reads;
static std::string dir;
static const char *NAMES[] = {"append1", "append2", "appendC", "append2C+1", "transaction", "ready", "commit", "abort", "flush", "read-first", "read-last", "reader", "clone", "reader-first", "reopen", "recover"};
enum { A1, A2, AC, A7, TX, READY, COMMIT, ABORT, FLUSH, RFIRST, RLAST, READER, CLONE, RRFIRST, REOPEN, RECOVER, NOPS };

struct Run {
  addr C;
  std::shared_ptr<Compressor> comp;
  std::string cname, c, m;
  std::shared_ptr<SimpleTxtIO> w;
  struct R {
    std::shared_ptr<SimpleTxtIO> io;
    std::string want;
  };
  std::vector<R> readers;
  std::string before, now; // what readers are to see; what the writer is to see
  bool tx = false, readied = false, dirty = false;
  int serial = 0;
  std::string error;
  std::string why;
  Run(addr chunk, const std::string &name) : C(chunk), comp(Compressor::make(name, "")), cname(name), c(dir + "/c"), m(dir + "/m") {
    for (const char *x : {"", ".lock", ".limits", ".temp"})
      unlink((c + x).c_str());
    unlink(m.c_str());
    w = SimpleTxtIO::make(c, m, C, comp, &error);
  }
  std::shared_ptr<SimpleTxtIO> open() { return SimpleTxtIO::make(c, m, C, comp, &error); }
  bool fail(const std::string &s) {
    why = s;
    return false;
  }
  bool compare(std::shared_ptr<SimpleTxtIO> io, const std::string &want, addr s, addr n, const char *who) {
    addr got = -7;
    vx::count(s_reads);
    auto t = io->read(s, n, &got);
    addr from = std::max<addr>(s, 0);
    std::string exp = from < (addr)want.size() && n > 0 ? want.substr(from, n) : "";
    if (got != (addr)exp.size() || (got > 0 && (!t || memcmp(t.get(), exp.data(), got) != 0)))
      return fail(vx::sfmt("%s read(%lld,%lld) gave %lld bytes \"%s\", expected \"%s\"", who, (long long)s, (long long)n, (long long)got,
                           t && got > 0 ? vx::esc(std::string(t.get(), got)).c_str() : "", exp.c_str()));
    return true;
  }
  // false without `why`: not an operation here
  bool apply(int op) {
    vx::count(s_ops);
    switch (op) {
    case A1:
    case A2:
    case AC:
    case A7: {
      if (readied || (!tx && !readers.empty()))
        return false;
      if (op == AC && C <= 2)
        return false;
      int n = op == A1 ? 1 : op == A2 ? 2 : op == AC ? C : 2 * C + 1;
      std::string s;
      for (int i = 0; i < n; i++)
        s += (char)('a' + serial++ % 26);
      w->append(&s[0], n);
      now += s;
      if (!tx) {
        before = now;
        dirty = true;
      }
      return true;
    }
    case TX: {
      if (dirty)
        return false;
      bool ok = w->transaction(&error);
      if (ok == tx)
        return fail(tx ? "a transaction begins inside another" : "refused a transaction: " + error);
      if (tx)
        return false;
      // a second writer is refused while one is writing
      auto other = open();
      if (!other || other->transaction(&error))
        return fail("a second transaction begins beside the first");
      tx = true;
      return true;
    }
    case READY:
      if (!tx || readied)
        return false;
      if (!w->ready(&error))
        return fail("not ready: " + error);
      readied = true;
      return true;
    case COMMIT:
      if (!readied)
        return false;
      w->commit();
      before = now;
      tx = readied = false;
      return true;
    case ABORT:
      if (!tx)
        return false;
      w->abort();
      now = before;
      tx = readied = false;
      return true;
    case FLUSH:
      if (readied)
        return false;
      w->flush();
      dirty = false;
      return true;
    case RFIRST:
      if (now.empty())
        return false;
      dirty = false;
      return compare(w, now, 0, 1, "writer");
    case RLAST:
      if (now.empty())
        return false;
      dirty = false;
      return compare(w, now, now.size() - 1, 1, "writer");
    case READER: {
      if (dirty || readers.size() >= 2)
        return false;
      auto io = open();
      if (!io)
        return fail("cannot open for reading: " + error);
      readers.push_back({io, before});
      return true;
    }
    case CLONE: {
      if (readers.empty() || readers.size() >= 2)
        return false;
      auto io = readers.back().io->clone(&error);
      if (!io)
        return fail("cannot clone: " + error);
      readers.push_back({io, readers.back().want});
      return true;
    }
    case RRFIRST:
      if (readers.empty() || readers.back().want.empty())
        return false;
      return compare(readers.back().io, readers.back().want, 0, 1, "reader");
    case REOPEN:
      if (tx)
        return false;
      w = nullptr;
      w = open();
      if (!w)
        return fail("cannot reopen: " + error);
      dirty = false;
      return true;
    case RECOVER:
      // the writer is gone in the middle of a transaction, all it wrote having reached the file
      if (!tx)
        return false;
      w = nullptr;
      SimpleTxtIO::recover(c, m, C, comp, readied);
      if (readied)
        before = now;
      else
        now = before;
      tx = readied = false;
      w = open();
      if (!w)
        return fail("cannot reopen: " + error);
      return true;
    }
    return false;
  }
  bool finish() {
    for (size_t k = 0; k < readers.size(); k++)
      if (!all(readers[k].io, readers[k].want, "reader"))
        return false;
    if (!dirty) {
      auto io = open();
      if (!io || !all(io, before, "new reader"))
        return io ? false : fail("cannot open: " + error);
    }
    if (!all(w, now, "writer"))
      return false;
    for (size_t k = 0; k < readers.size(); k++)
      if (!all(readers[k].io, readers[k].want, "reader, again,"))
        return false;
    return true;
  }
  bool all(std::shared_ptr<SimpleTxtIO> io, const std::string &want, const char *who) {
    addr n = want.size();
    if (io->size() != n)
      return fail(vx::sfmt("%s has size %lld, expected %lld", who, (long long)io->size(), (long long)n));
    // every range, in an order that keeps changing chunks
    for (addr len = 1; len <= n; len++)
      for (addr s = 0; s + len <= n; s += 1 + (len > 6))
        if (!compare(io, want, len & 1 ? s : n - len - s, len, who))
          return false;
    for (addr s : {(addr)-1, (addr)0, n - 1, n, n + 1})
      for (addr len : {(addr)-1, (addr)0, n + 1, n + 2 * C + 1, maxfinity})
        if (!compare(io, want, s, len, who))
          return false;
    return true;
  }
};

// where a sequence begins: an empty file; three chunks; the same being read; a reader beside a transaction that has
// rewritten the last chunk; a reader that opened during a transaction
static const std::vector<std::vector<int>> STARTS = {
    {}, {A7, FLUSH}, {A7, FLUSH, READER, RRFIRST}, {A1, FLUSH, READER, TX, A1, FLUSH}, {A7, A1, FLUSH, TX, A7, FLUSH, READER}};

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  s_seq = vx::stat_id("sequences");
  s_ops = vx::stat_id("operations");
  s_reads = vx::stat_id("reads");
  vx::stat_id("cases");
  int depth = atoi(vx::arg(argc, argv, "depth", "5").c_str());
  std::string comps = vx::arg(argc, argv, "comps", "zlib,null,bad"), chunks = vx::arg(argc, argv, "chunks", "1,2,3");
  auto cut = [](const std::string &s) {
    std::vector<std::string> v(1);
    for (char c : s)
      if (c == ',')
        v.emplace_back();
      else
        v.back() += c;
    return v;
  };
  vx::opt.chunk = 1;
  for (auto &comp : cut(comps))
    for (auto &chunk : cut(chunks)) {
      addr C = atoi(chunk.c_str());
      for (auto &start : STARTS)
      vx::run(vx::sfmt("S02:%s,chunk %s,start %zu", comp.c_str(), chunk.c_str(), start.size()), NOPS * NOPS * NOPS, [&](uint64_t id) {
        dir = vx::sfmt("/dev/shm/s02.%d", (int)getpid());
        mkdir(dir.c_str(), 0700);
        std::vector<int> path = {(int)(id / NOPS / NOPS), (int)(id / NOPS % NOPS), (int)(id % NOPS)};
        auto name = [&] {
          std::string s = comp + ",chunk " + chunk + ":";
          for (int op : start)
            s += std::string(" ") + NAMES[op];
          s += ";";
          for (int op : path)
            s += std::string(" ") + NAMES[op];
          return s;
        };
        bool stop = false;
        // 0: some step of the path is not an operation there
        auto go = [&]() {
          vx::what(name());
          Run r(C, comp);
          if (!r.w) {
            vx::viol(name(), "cannot create: " + r.error);
            return false;
          }
          auto steps = start;
          steps.insert(steps.end(), path.begin(), path.end());
          for (int op : steps)
            if (!r.apply(op)) {
              if (!r.why.empty())
                vx::viol(name(), r.why);
              return false;
            }
          vx::count(s_seq);
          if (!r.finish()) {
            vx::viol(name(), r.why);
            return false;
          }
          return true;
        };
        std::function<void(int)> dfs = [&](int left) {
          if (stop || !go())
            return;
          if (left)
            for (int op = 0; op < NOPS; op++) {
              path.push_back(op);
              dfs(left - 1);
              path.pop_back();
            }
        };
        dfs(depth - 3);
        for (const char *x : {"/c", "/m", "/c.lock", "/c.limits", "/c.temp"})
          unlink((dir + x).c_str());
        rmdir(dir.c_str());
      });
    }
  return 0;
}
