// Scheduler, vector-clock race detector and exploration driver.  Compiled without instrumentation.
#include "mcrt.h"
#include "vx.h"
#include <cerrno>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/syscall.h>
#include <thread>
#include <time.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
constexpr int MAXT = 40;

long raw_futex(volatile int *a, int op, int v) {
  long r;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

// allocator that never enters the interposed malloc
template <class T> struct RawAlloc {
  typedef T value_type;
  RawAlloc() {}
  template <class U> RawAlloc(const RawAlloc<U> &) {}
  T *allocate(size_t n) { return (T *)__libc_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __libc_free(p); }
  template <class U> bool operator==(const RawAlloc<U> &) const { return true; }
  template <class U> bool operator!=(const RawAlloc<U> &) const { return false; }
};
template <class K, class V> using RMap = std::map<K, V, std::less<K>, RawAlloc<std::pair<const K, V>>>;

struct VC {
  u32 c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};
enum Status { RUN, BMUTEX, BCOND, BFUTEX, BJOIN, BDRAIN, BGUARD, DONE };
struct Thr {
  Status st = DONE;
  void *obj = nullptr; // what it waits for
  volatile int baton = 0;
  volatile int never = 0;
  void *stk = nullptr;
  VC vc;
  pthread_t pt{};
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool detached = false, yielded = false;
  int yields = 0;
  uintptr_t stack[512];
  int sp = 0;
};
struct Mutex {
  int owner = -1;
  int depth = 0;
  int readers = 0;
  VC vc;
};

uintptr_t text_base = 0;
Thr *T = nullptr;
int nthreads = 0;
int current = -1;
bool on = false;
__thread int tid = -1;
__thread int in_rt = 0;
struct Rt {
  Rt() { in_rt++; }
  ~Rt() { in_rt--; }
};
RMap<void *, Mutex> *mutexes;
RMap<void *, VC> *atoms; // release clocks of atomics and guards
RMap<void *, int> *guards;

// ---------------------------------------------------------------- one execution's record
struct Dev {
  u32 pos;
  u8 alt;
};
constexpr int MAXDEV = 6;
struct Prefix {
  u8 n = 0;
  Dev d[MAXDEV];
};
constexpr u32 MAXP = 60000;
struct Point {
  u64 obj;
  u8 n;       // enabled threads
  u8 preempt; // 1: the running thread could have gone on
};
struct Result {
  volatile int state; // 0 running, 1 finished
  u32 npoints;
  u32 used; // deviations applied
  int bad;
  char key[512];
  char detail[3000];
  u64 outcome;
  char outcome_text[400];
  u64 accesses;
  Point p[MAXP];
};
Result *res = nullptr;
Prefix prefix;
u32 step_limit = 400000;
u64 steps = 0;
RMap<u64, u64> *touch; // object -> mask of threads

void set_bad(const std::string &key, const std::string &detail) {
  if (res == nullptr) { // a deterministic run (begin/drain/end), not an exploration
    fprintf(stderr, "mcrt: %s: %s\n", key.c_str(), detail.c_str());
    _exit(72);
  }
  if (res->bad)
    return;
  snprintf(res->key, sizeof res->key, "%s", key.c_str());
  snprintf(res->detail, sizeof res->detail, "%s", detail.c_str());
  res->bad = 1;
}
std::string func_at(uintptr_t pc) {
  Dl_info i;
  if (pc && dladdr((void *)(pc - 1), &i) && i.dli_fname) {
    if ((uintptr_t)i.dli_fbase != text_base)
      return i.dli_sname ? i.dli_sname : "library";
    return vx::sfmt("+0x%lx", (long)(pc - 1 - (uintptr_t)i.dli_fbase)) + "@" + i.dli_fname;
  }
  return vx::sfmt("0x%lx", (long)pc);
}
void die_now() {
  res->state = 1;
  _exit(0);
}

bool recording = true;
__thread bool creating = false;
bool enabled(int t) { return T[t].st == RUN; }

void hand_to(int t) {
  if (t == current)
    return;
  int me = tid;
  current = t;
  T[me].baton = 0;
  __atomic_store_n(&T[t].baton, 1, __ATOMIC_SEQ_CST);
  raw_futex(&T[t].baton, FUTEX_WAKE_PRIVATE, 1);
  if (T[me].st == DONE)
    return; // this thread is over
  while (__atomic_load_n(&T[me].baton, __ATOMIC_SEQ_CST) == 0)
    raw_futex(&T[me].baton, FUTEX_WAIT_PRIVATE, 0);
}

std::string blocked_report() {
  static const char *n[] = {"run", "mutex", "condition", "futex", "join", "drain", "guard", "done"};
  std::string s;
  for (int t = 0; t < nthreads; t++)
    if (T[t].st != DONE) {
      s += vx::sfmt("thread %d waits on %s", t, n[T[t].st]);
      int k = 0;
      for (int i = T[t].sp - 1; i >= 0 && k < 6; i--, k++)
        if (i < 512)
          s += " " + func_at(T[t].stack[i]);
      s += "; ";
    }
  return s;
}

// Chooses who runs next.  `runnable`: the calling thread may go on.
void choose(void *obj, bool preemptible) {
  Rt _;
  int me = tid;
  if (mc::on_point)
    mc::on_point();
  if (++steps > step_limit) {
    set_bad("livelock", "no end after " + std::to_string(steps) + " synchronisation steps: " + blocked_report());
    die_now();
  }
  if (res && obj)
    (*touch)[(u64)obj] |= 1ull << me;
  int order[MAXT], n = 0;
  bool self = preemptible && enabled(me) && !T[me].yielded;
  if (self)
    order[n++] = me;
  for (int k = 1; k <= nthreads; k++) {
    int t = (me + k) % nthreads;
    if (t != me && enabled(t))
      order[n++] = t;
  }
  if (!self && enabled(me))
    order[n++] = me; // yielded: last choice
  T[me].yielded = false;
  if (n && order[0] != me)
    T[me].yields = 0;
  if (n == 0) {
    // only the drain waiter left?
    for (int t = 0; t < nthreads; t++)
      if (T[t].st == BDRAIN) {
        bool others = false;
        for (int u = 0; u < nthreads; u++)
          if (u != t && T[u].st != DONE)
            others = true;
        if (!others) {
          T[t].st = RUN;
          for (int u = 0; u < nthreads; u++)
            if (u != t)
              T[t].vc.join(T[u].vc);
          hand_to(t);
          return;
        }
      }
    set_bad("deadlock", blocked_report());
    die_now();
  }
  if (mc::policy == 3) // the newest thread first
    std::sort(order + (self ? 1 : 0), order + n, [](int a, int b) { return a > b; });
  int pick = 0;
  if (n > 1 && self && mc::policy == 3 && creating)
    pick = 1;
  if (n > 1 && self && (mc::policy == 2 || (mc::policy == 1 && creating)))
    for (pick = 1; mc::policy == 1 && order[pick] != nthreads - 1 && pick < n - 1;)
      pick++;
  if (n > 1 && res && recording) {
    u32 i = res->npoints;
    if (i < MAXP) {
      res->p[i].obj = (u64)obj;
      res->p[i].n = n;
      res->p[i].preempt = self;
      res->npoints++;
    }
    for (int k = 0; k < prefix.n; k++)
      if (prefix.d[k].pos == i) {
        if (prefix.d[k].alt >= n) {
          set_bad("divergence", "replay diverged");
          die_now();
        }
        pick = prefix.d[k].alt;
        res->used++;
      }
  }
  hand_to(order[pick]);
}

inline bool managed() { return on && tid >= 0 && !in_rt; }
void tick() { T[tid].vc.c[tid]++; }

// ---------------------------------------------------------------- race detection
struct Rd {
  u32 clk, pc;
  u8 t, mask, pad[2];
};
struct Cell {
  u32 wclk, wpc;
  u8 wt, wmask, pad[2]; // t: bit7 = atomic, low bits tid+1 (0 = none)
  Rd r[4];
};
static_assert(sizeof(Cell) == 60, "");
struct Region {
  u64 tag;
  Cell *cells;
};
constexpr u32 NREG = 4096;
Region *regions = nullptr;
Region *last_region = nullptr;

Cell *cells_of(uintptr_t a, bool create) {
  u64 tag = (a >> 20) + 1;
  if (last_region && last_region->tag == tag)
    return last_region->cells;
  u32 h = (u32)((tag * 0x9E3779B97F4A7C15ull) >> 52) & (NREG - 1);
  for (u32 k = 0; k < NREG; k++) {
    Region *r = &regions[(h + k) & (NREG - 1)];
    if (r->tag == tag) {
      last_region = r;
      return r->cells;
    }
    if (r->tag == 0) {
      if (!create)
        return nullptr;
      r->tag = tag;
      r->cells = (Cell *)mmap(nullptr, sizeof(Cell) << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (r->cells == MAP_FAILED)
        abort();
      last_region = r;
      return r->cells;
    }
  }
  abort();
}
void race(uintptr_t a, u32 pc1, u32 pc2, const char *what, int other) {
  Rt _;
  std::string stack;
  int k = 0;
  for (int i = T[tid].sp - 1; i >= 0 && k < 8; i--, k++)
    if (i < 512)
      stack += " " + func_at(T[tid].stack[i]);
  set_bad(vx::sfmt("race %s %x %x", what, pc1, pc2),
          vx::sfmt("data race (%s) at %p: thread %d pc +0x%x with thread %d pc +0x%x; stack of the former:", what, (void *)a, tid, pc1, other, pc2) + stack);
}
inline bool before(const VC &v, int t, u32 clk) { return clk <= v.c[t]; }

void access8(uintptr_t a, u8 mask, bool write, bool atomic, u32 pc) {
  Cell *c = cells_of(a, true) + ((a & 0xFFFFF) >> 3);
  VC &v = T[tid].vc;
  u8 me = (u8)(tid + 1) | (atomic ? 0x80 : 0);
  if (c->wt && (c->wmask & mask)) {
    int wt = (c->wt & 0x7f) - 1;
    if (wt != tid && !(atomic && (c->wt & 0x80)) && !before(v, wt, c->wclk))
      race(a, pc, c->wpc, write ? "write/write" : "read/write", wt);
  }
  if (write) {
    for (auto &r : c->r)
      if (r.t && (r.mask & mask)) {
        int rt = (r.t & 0x7f) - 1;
        if (rt != tid && !(atomic && (r.t & 0x80)) && !before(v, rt, r.clk))
          race(a, pc, r.pc, "write/read", rt);
      }
    if (c->wt == me && c->wclk == v.c[tid])
      c->wmask |= mask;
    else {
      c->wmask = mask;
      c->wt = me;
      c->wclk = v.c[tid];
    }
    c->wpc = pc;
  } else {
    Rd *slot = nullptr;
    for (auto &r : c->r) {
      if (r.t == me) {
        if (r.clk == v.c[tid]) {
          r.mask |= mask;
          return;
        }
        slot = &r;
        break;
      }
      if (!r.t && !slot)
        slot = &r;
    }
    if (!slot) {
      for (auto &r : c->r)
        if (before(v, (r.t & 0x7f) - 1, r.clk)) {
          slot = &r;
          break;
        }
      if (!slot)
        slot = &c->r[0];
    }
    slot->t = me;
    slot->clk = v.c[tid];
    slot->mask = mask;
    slot->pc = pc;
  }
}
void access(const void *p, size_t n, bool write, bool atomic, void *ra) {
  if (!managed() || !mc::detect_races || n == 0)
    return;
  in_rt++;
  u32 pc = (u32)((uintptr_t)ra - text_base);
  if (res)
    res->accesses++;
  uintptr_t a = (uintptr_t)p, e = a + n;
  uintptr_t b = a & ~7ull;
  for (; b < e; b += 8) {
    uintptr_t lo = b < a ? a : b, hi = b + 8 > e ? e : b + 8;
    u8 mask = (u8)((0xFFu >> (8 - (hi - lo))) << (lo - b));
    access8(b, mask, write, atomic, pc);
  }
  in_rt--;
}
void forget(uintptr_t a, size_t n) {
  if (!regions)
    return;
  uintptr_t b = a & ~7ull, e = (a + n + 7) & ~7ull;
  while (b < e) {
    uintptr_t stop = (b | 0xFFFFF) + 1;
    if (stop > e)
      stop = e;
    Cell *c = cells_of(b, false);
    if (c) {
      Cell *x = c + ((b & 0xFFFFF) >> 3);
      size_t bytes = ((stop - b) >> 3) * sizeof(Cell);
      if (bytes > 65536) {
        uintptr_t s = ((uintptr_t)x + 4095) & ~4095ull, t = ((uintptr_t)x + bytes) & ~4095ull;
        memset(x, 0, s - (uintptr_t)x);
        madvise((void *)s, t - s, MADV_DONTNEED);
        memset((void *)t, 0, (uintptr_t)x + bytes - t);
      } else
        memset(x, 0, bytes);
    }
    b = stop;
  }
}
void on_alloc(void *p) {
  if (!p || !on || in_rt || !mc::detect_races)
    return;
  in_rt++;
  forget((uintptr_t)p, malloc_usable_size(p));
  in_rt--;
}
void on_free(void *p, void *ra) {
  if (!p || !on || in_rt || tid < 0 || !mc::detect_races)
    return;
  size_t n = malloc_usable_size(p);
  if (n <= 65536)
    access(p, n, true, false, ra);
  in_rt++;
  auto lo = (void *)p, hi = (void *)((char *)p + n);
  if (!mutexes->empty())
    mutexes->erase(mutexes->lower_bound(lo), mutexes->lower_bound(hi));
  if (!atoms->empty())
    atoms->erase(atoms->lower_bound(lo), atoms->lower_bound(hi));
  in_rt--;
}

// ---------------------------------------------------------------- real functions
template <class F> F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) \
  static auto r_##name = real<decltype(&name)>(#name)

void init_runtime() {
  mallopt(M_ARENA_MAX, 1);
  static bool done = false;
  if (done)
    return;
  done = true;
  in_rt++;
  T = (Thr *)mmap(nullptr, sizeof(Thr) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  regions = (Region *)mmap(nullptr, sizeof(Region) * NREG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mutexes = new (__libc_malloc(sizeof *mutexes)) RMap<void *, Mutex>;
  atoms = new (__libc_malloc(sizeof *atoms)) RMap<void *, VC>;
  guards = new (__libc_malloc(sizeof *guards)) RMap<void *, int>;
  touch = new (__libc_malloc(sizeof *touch)) RMap<u64, u64>;
  Dl_info i;
  if (dladdr((void *)&init_runtime, &i))
    text_base = (uintptr_t)i.dli_fbase;
  in_rt--;
}

void *trampoline(void *x) {
  int me = (int)(intptr_t)x;
  tid = me;
  while (__atomic_load_n(&T[me].baton, __ATOMIC_SEQ_CST) == 0)
    raw_futex(&T[me].baton, FUTEX_WAIT_PRIVATE, 0);
  void *r = T[me].fn(T[me].arg);
  in_rt++;
  T[me].ret = r;
  T[me].st = DONE;
  tick();
  for (int t = 0; t < nthreads; t++)
    if (T[t].st == BJOIN && T[t].obj == &T[me])
      T[t].st = RUN;
  in_rt--;
  choose(nullptr, false);
  // The real thread never exits: its exit would run beside the next thread and make the
  // addresses malloc returns, and so the execution, depend on real time.
  // end() lets it go when an execution is over and the process goes on.
  while (__atomic_load_n(&T[me].never, __ATOMIC_SEQ_CST) == 0)
    raw_futex(&T[me].never, FUTEX_WAIT_PRIVATE, 0);
  return r;
}

void lock_mutex(void *m) {
  choose(m, true);
  Rt _;
  for (;;) {
    Mutex &x = (*mutexes)[m];
    if (x.owner < 0 && x.readers == 0) {
      x.owner = tid;
      x.depth = 1;
      T[tid].vc.join(x.vc);
      return;
    }
    T[tid].st = BMUTEX;
    T[tid].obj = m;
    in_rt--;
    choose(m, false);
    in_rt++;
  }
}
void unlock_mutex(void *m) {
  Rt _;
  Mutex &x = (*mutexes)[m];
  if (x.owner != tid) {
    set_bad("unlock of a mutex not held", func_at(T[tid].sp ? T[tid].stack[T[tid].sp - 1] : 0));
    die_now();
  }
  x.vc = T[tid].vc;
  tick();
  x.owner = -1;
  for (int t = 0; t < nthreads; t++)
    if (T[t].st == BMUTEX && T[t].obj == m)
      T[t].st = RUN;
}
void acquire_from(void *a) {
  auto it = atoms->find(a);
  if (it != atoms->end())
    T[tid].vc.join(it->second);
}
void release_to(void *a, bool keep) {
  VC &v = (*atoms)[a];
  if (keep)
    v.join(T[tid].vc);
  else
    v = T[tid].vc;
  tick();
}
} // namespace

namespace mc {
void (*on_point)() = nullptr;
Totals totals;
bool detect_races = true;
int policy = 0;
bool active() { return on; }
void point(void *obj) {
  if (managed())
    choose(obj, true);
}
namespace { u64 stamp_counter = 0; }
uint64_t stamp() { return ++stamp_counter; }
int self() { return tid; }
void begin() {
  init_runtime();
  in_rt++;
  for (int i = 0; i < MAXT; i++)
    new (&T[i]) Thr();
  mutexes->clear();
  atoms->clear();
  guards->clear();
  touch->clear();
  nthreads = 1;
  T[0].st = RUN;
  T[0].baton = 1;
  T[0].vc.c[0] = 1;
  tid = 0;
  current = 0;
  steps = 0;
  in_rt--;
  on = true;
}
void drain() {
  if (!on)
    return;
  bool others = false;
  for (int t = 0; t < nthreads; t++)
    if (t != tid && T[t].st != DONE)
      others = true;
  if (others) {
    T[tid].st = BDRAIN;
    choose(nullptr, false);
  }
  for (int u = 0; u < nthreads; u++)
    if (u != tid)
      T[tid].vc.join(T[u].vc);
}
void end() {
  bool over = true;
  for (int t = 1; t < nthreads; t++)
    over = over && T[t].st == DONE;
  on = false;
  tid = -1;
  for (int t = 1; over && t < nthreads; t++) {
    __atomic_store_n(&T[t].never, 1, __ATOMIC_SEQ_CST);
    raw_futex(&T[t].never, FUTEX_WAKE_PRIVATE, 1);
    pthread_join(T[t].pt, nullptr);
    munmap(T[t].stk, 1 << 21);
  }
  if (over)
    nthreads = 1;
}
void fail(const std::string &key, const std::string &detail) {
  Rt _;
  if (res)
    set_bad(key, detail);
}
void outcome(const std::string &s) {
  if (!res)
    return;
  Rt _;
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  res->outcome = h;
  snprintf(res->outcome_text, sizeof res->outcome_text, "%s", s.c_str());
}
} // namespace mc

// ================================================================ interposition
extern "C" {
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  on_alloc(p);
  return p;
}
void free(void *p) {
  on_free(p, __builtin_return_address(0));
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  on_alloc(p);
  return p;
}
void *realloc(void *q, size_t n) {
  void *p = __libc_realloc(q, n);
  on_alloc(p);
  return p;
}
void *memalign(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  on_alloc(p);
  return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static int (*r)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = real<decltype(r)>("pthread_create");
  if (!managed())
    return r(pt, attr, fn, arg);
  in_rt++;
  if (nthreads >= MAXT) {
    set_bad("too many threads", "more than the model allows");
    die_now();
  }
  int t = nthreads++;
  T[t].st = RUN;
  T[t].fn = fn;
  T[t].arg = arg;
  T[t].vc = T[tid].vc;
  T[t].vc.c[t] = 1;
  tick();
  pthread_attr_t a;
  pthread_attr_init(&a);
  size_t sz = 1 << 21;
  void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_setstack(&a, stk, sz);
  T[t].stk = stk;
  int rc = r(&T[t].pt, &a, trampoline, (void *)(intptr_t)t);
  pthread_attr_destroy(&a);
  *pt = T[t].pt;
  in_rt--;
  if (rc)
    abort();
  creating = true;
  choose(&T[t], true);
  creating = false;
  return 0;
}
static int thread_of(pthread_t p) {
  for (int t = 0; t < nthreads; t++)
    if (T[t].pt == p && T[t].fn)
      return t;
  return -1;
}
int pthread_join(pthread_t p, void **ret) {
  static int (*r)(pthread_t, void **) = real<decltype(r)>("pthread_join");
  if (!managed())
    return r(p, ret);
  int t = thread_of(p);
  if (t < 0)
    return r(p, ret);
  while (T[t].st != DONE) {
    T[tid].st = BJOIN;
    T[tid].obj = &T[t];
    choose(&T[t], false);
  }
  T[tid].vc.join(T[t].vc);
  if (ret)
    *ret = T[t].ret;
  return 0; // the real thread is left to die with the execution
}
int pthread_detach(pthread_t p) {
  static int (*r)(pthread_t) = real<decltype(r)>("pthread_detach");
  if (!managed())
    return r(p);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = real<decltype(r)>("pthread_mutex_lock");
  if (!managed())
    return r(m);
  {
    Mutex &x = (*mutexes)[m];
    if (x.owner == tid) {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        x.depth++;
        return 0;
      }
    }
  }
  lock_mutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = real<decltype(r)>("pthread_mutex_trylock");
  if (!managed())
    return r(m);
  choose(m, true);
  Rt _;
  Mutex &x = (*mutexes)[m];
  if (x.owner >= 0 || x.readers)
    return EBUSY;
  x.owner = tid;
  x.depth = 1;
  T[tid].vc.join(x.vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = real<decltype(r)>("pthread_mutex_unlock");
  if (!managed())
    return r(m);
  {
    Mutex &x = (*mutexes)[m];
    if (x.owner == tid && x.depth > 1) {
      x.depth--;
      return 0;
    }
  }
  unlock_mutex(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (managed()) {
    Rt _;
    mutexes->erase(m);
  }
  return 0;
}
// shared mutexes
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  static int (*r)(pthread_rwlock_t *) = real<decltype(r)>("pthread_rwlock_wrlock");
  if (!managed())
    return r(m);
  lock_mutex(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  static int (*r)(pthread_rwlock_t *) = real<decltype(r)>("pthread_rwlock_rdlock");
  if (!managed())
    return r(m);
  choose(m, true);
  for (;;) {
    {
      Rt _;
      Mutex &x = (*mutexes)[m];
      if (x.owner < 0) {
        x.readers++;
        T[tid].vc.join(x.vc);
        return 0;
      }
      T[tid].st = BMUTEX;
      T[tid].obj = m;
    }
    choose(m, false);
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  static int (*r)(pthread_rwlock_t *) = real<decltype(r)>("pthread_rwlock_unlock");
  if (!managed())
    return r(m);
  {
    Rt _;
    Mutex &x = (*mutexes)[m];
    if (x.owner != tid && x.readers > 0) {
      x.vc.join(T[tid].vc);
      tick();
      if (--x.readers == 0)
        for (int t = 0; t < nthreads; t++)
          if (T[t].st == BMUTEX && T[t].obj == m)
            T[t].st = RUN;
      return 0;
    }
  }
  unlock_mutex(m);
  return 0;
}
static int cond_wait(void *c, pthread_mutex_t *m, bool timed) {
  unlock_mutex(m);
  if (timed) {
    // a timed wait may time out at any moment: treat it as a yield that re-checks
    T[tid].yielded = true;
    choose(c, true);
    lock_mutex(m);
    return ETIMEDOUT;
  }
  T[tid].st = BCOND;
  T[tid].obj = c;
  choose(c, false);
  lock_mutex(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static int (*r)(pthread_cond_t *, pthread_mutex_t *) = real<decltype(r)>("pthread_cond_wait");
  if (!managed())
    return r(c, m);
  choose(c, true);
  return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) = real<decltype(r)>("pthread_cond_timedwait");
  if (!managed())
    return r(c, m, ts);
  return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) = real<decltype(r)>("pthread_cond_clockwait");
  if (!managed())
    return r(c, m, k, ts);
  return cond_wait(c, m, true);
}
static void cond_wake(void *c, bool all) {
  // several waiters: the longest-waiting (lowest id) first; every order is reached through mutex choices
  for (int t = 0; t < nthreads; t++)
    if (T[t].st == BCOND && T[t].obj == c) {
      T[t].st = RUN;
      if (!all)
        break;
    }
}
int pthread_cond_signal(pthread_cond_t *c) {
  static int (*r)(pthread_cond_t *) = real<decltype(r)>("pthread_cond_signal");
  if (!managed())
    return r(c);
  choose(c, true);
  cond_wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  static int (*r)(pthread_cond_t *) = real<decltype(r)>("pthread_cond_broadcast");
  if (!managed())
    return r(c);
  choose(c, true);
  cond_wake(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  static int (*r)(pthread_once_t *, void (*)(void)) = real<decltype(r)>("pthread_once");
  return r(o, fn);
}

// std::atomic::wait / notify
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && managed()) {
    int op = (int)b & 0x7f & ~FUTEX_PRIVATE_FLAG;
    op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      choose((void *)a, true);
      if (*(volatile int *)a != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      if (d) { // with a timeout
        T[tid].yielded = true;
        choose((void *)a, true);
        errno = ETIMEDOUT;
        return -1;
      }
      T[tid].st = BFUTEX;
      T[tid].obj = (void *)a;
      choose((void *)a, false);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      choose((void *)a, true);
      long k = 0;
      for (int t = 0; t < nthreads && k < c; t++)
        if (T[t].st == BFUTEX && T[t].obj == (void *)a) {
          T[t].st = RUN;
          k++;
        }
      return k;
    }
  }
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
int sched_yield(void) {
  if (managed()) {
    // The first few yields of a spin (std::atomic::wait makes some before it sleeps) change nothing.
    if (++T[tid].yields <= 8)
      return 0;
    T[tid].yielded = true;
    choose(nullptr, true);
    return 0;
  }
  return 0;
}
int usleep(useconds_t us) {
  static int (*r)(useconds_t) = real<decltype(r)>("usleep");
  if (managed())
    return sched_yield();
  return r(us);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  static int (*r)(const struct timespec *, struct timespec *) = real<decltype(r)>("nanosleep");
  if (managed())
    return sched_yield();
  return r(a, b);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b) {
  static int (*r)(clockid_t, int, const struct timespec *, struct timespec *) = real<decltype(r)>("clock_nanosleep");
  if (managed())
    return sched_yield();
  return r(k, fl, a, b);
}
unsigned int sleep(unsigned int s) {
  static unsigned (*r)(unsigned) = real<decltype(r)>("sleep");
  if (managed())
    return sched_yield();
  return r(s);
}

// function-local statics
int __cxa_guard_acquire(long long *g) {
  if (*(u8 *)g) {
    if (managed()) {
      Rt _;
      acquire_from(g);
    }
    return 0;
  }
  if (!managed()) {
    return 1;
  }
  choose(g, true);
  for (;;) {
    {
      Rt _;
      if (*(u8 *)g) {
        acquire_from(g);
        return 0;
      }
      if (!(*guards)[g]) {
        (*guards)[g] = 1;
        return 1;
      }
      T[tid].st = BGUARD;
      T[tid].obj = g;
    }
    choose(g, false);
  }
}
void __cxa_guard_release(long long *g) {
  *(u8 *)g = 1;
  if (managed()) {
    Rt _;
    (*guards)[g] = 0;
    release_to(g, false);
    for (int t = 0; t < nthreads; t++)
      if (T[t].st == BGUARD && T[t].obj == g)
        T[t].st = RUN;
  }
}
void __cxa_guard_abort(long long *g) {
  if (managed()) {
    Rt _;
    (*guards)[g] = 0;
    for (int t = 0; t < nthreads; t++)
      if (T[t].st == BGUARD && T[t].obj == g)
        T[t].st = RUN;
  }
}

// ---------------------------------------------------------------- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (!on || tid < 0)
    return;
  Thr &t = T[tid];
  if (t.sp < 512)
    t.stack[t.sp] = (uintptr_t)pc;
  t.sp++;
}
void __tsan_func_exit() {
  if (!on || tid < 0)
    return;
  if (T[tid].sp > 0)
    T[tid].sp--;
}
#define RW(n)                                                                                                         \
  void __tsan_read##n(void *a) { access(a, n, false, false, __builtin_return_address(0)); }                           \
  void __tsan_write##n(void *a) { access(a, n, true, false, __builtin_return_address(0)); }                           \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, false, __builtin_return_address(0)); }                 \
  void __tsan_unaligned_write##n(void *a) { access(a, n, true, false, __builtin_return_address(0)); }                 \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, false, __builtin_return_address(0)); }                  \
  void __tsan_volatile_write##n(void *a) { access(a, n, true, false, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access(a, n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void *a, size_t n) { access(a, n, true, false, __builtin_return_address(0)); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, true, false, __builtin_return_address(0)); }
void __tsan_vptr_read(void **a) { access(a, 8, false, false, __builtin_return_address(0)); }

static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// Reference counts (acq_rel add on 4 bytes) order memory but are not choice points; an increment
// is never relied on for ordering.
static inline void atom_pre(void *a, size_t n, bool write, int mo, bool refcount, void *ra) {
  if (!refcount)
    choose(a, true);
  access(a, n, write, true, ra);
}
}
namespace {
template <class V> V a_load(volatile V *a, int mo, void *ra) {
  if (managed()) {
    atom_pre((void *)a, sizeof(V), false, mo, false, ra);
    Rt _;
    if (acq(mo))
      acquire_from((void *)a);
  }
  return __atomic_load_n(a, __ATOMIC_SEQ_CST);
}
template <class V> void a_store(volatile V *a, V v, int mo, void *ra) {
  if (managed()) {
    atom_pre((void *)a, sizeof(V), true, mo, false, ra);
    Rt _;
    if (rel(mo))
      release_to((void *)a, false);
    else
      atoms->erase((void *)a);
  }
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template <class V, class F> V a_rmw(volatile V *a, int mo, bool refcount, bool increment, void *ra, F f) {
  if (managed()) {
    atom_pre((void *)a, sizeof(V), true, mo, refcount, ra);
    Rt _;
    if (!(refcount && increment)) {
      if (acq(mo))
        acquire_from((void *)a);
      if (rel(mo))
        release_to((void *)a, true);
    }
  }
  return f();
}
template <class V> int a_cas(volatile V *a, V *exp, V des, int mo, int fmo, void *ra) {
  if (managed()) {
    atom_pre((void *)a, sizeof(V), true, mo, false, ra);
    Rt _;
    V cur = *a;
    bool ok = cur == *exp;
    int m = ok ? mo : fmo;
    if (acq(m))
      acquire_from((void *)a);
    if (ok) {
      if (rel(mo))
        release_to((void *)a, true);
      *a = des;
      return 1;
    }
    *exp = cur;
    return 0;
  }
  return __atomic_compare_exchange_n(a, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
} // namespace
extern "C" {
#define RA __builtin_return_address(0)
#define ATOM(bits, V)                                                                                                  \
  V __tsan_atomic##bits##_load(const volatile V *a, int mo) { return a_load((volatile V *)a, mo, RA); }                \
  void __tsan_atomic##bits##_store(volatile V *a, V v, int mo) { a_store(a, v, mo, RA); }                              \
  V __tsan_atomic##bits##_exchange(volatile V *a, V v, int mo) {                                                       \
    return a_rmw(a, mo, false, false, RA, [&] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); });                \
  }                                                                                                                    \
  V __tsan_atomic##bits##_fetch_add(volatile V *a, V v, int mo) {                                                      \
    bool rc = bits == 32 && mo == __ATOMIC_ACQ_REL;                                                                    \
    return a_rmw(a, mo, rc, (int)v > 0, RA, [&] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); });               \
  }                                                                                                                    \
  V __tsan_atomic##bits##_fetch_sub(volatile V *a, V v, int mo) {                                                      \
    bool rc = bits == 32 && mo == __ATOMIC_ACQ_REL;                                                                    \
    return a_rmw(a, mo, rc, false, RA, [&] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); });                    \
  }                                                                                                                    \
  V __tsan_atomic##bits##_fetch_and(volatile V *a, V v, int mo) {                                                      \
    return a_rmw(a, mo, false, false, RA, [&] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); });                 \
  }                                                                                                                    \
  V __tsan_atomic##bits##_fetch_or(volatile V *a, V v, int mo) {                                                       \
    return a_rmw(a, mo, false, false, RA, [&] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); });                  \
  }                                                                                                                    \
  V __tsan_atomic##bits##_fetch_xor(volatile V *a, V v, int mo) {                                                      \
    return a_rmw(a, mo, false, false, RA, [&] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); });                 \
  }                                                                                                                    \
  V __tsan_atomic##bits##_fetch_nand(volatile V *a, V v, int mo) {                                                     \
    return a_rmw(a, mo, false, false, RA, [&] { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); });                \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile V *a, V *e, V d, int mo, int f) {                         \
    return a_cas(a, e, d, mo, f, RA);                                                                                  \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile V *a, V *e, V d, int mo, int f) {                           \
    return a_cas(a, e, d, mo, f, RA);                                                                                  \
  }                                                                                                                    \
  V __tsan_atomic##bits##_compare_exchange_val(volatile V *a, V e, V d, int mo, int f) {                               \
    a_cas(a, &e, d, mo, f, RA);                                                                                        \
    return e;                                                                                                          \
  }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block operations called from instrumented objects (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (managed()) {
    access(s, n, false, false, RA);
    access(d, n, true, false, RA);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (managed()) {
    access(s, n, false, false, RA);
    access(d, n, true, false, RA);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (managed())
    access(d, n, true, false, RA);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (managed()) {
    access(a, n, false, false, RA);
    access(b, n, false, false, RA);
  }
  return __real_memcmp(a, b, n);
}
}

// The number of workers the store starts depends on this; two keeps the model small.
unsigned std::thread::hardware_concurrency() noexcept { return 1; }

// ================================================================ exploration driver
namespace mc {
namespace {
struct Queue { // shared between the workers
  volatile int lock;
  volatile u64 next, size, cap; // level being executed
  volatile u64 nsize;           // next level
  volatile int busy, stop;
  volatile u64 execs, points, accesses, nviol, noutcomes, diverged, toolong;
  u64 outcomes[4096];
  char keys[64][512];
  volatile int nkeys;
  Prefix level[0];
};
void qlock(Queue *q) {
  while (__atomic_exchange_n(&q->lock, 1, __ATOMIC_ACQUIRE)) {
    struct timespec ts = {0, 20000};
    clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, nullptr);
  }
}
void qunlock(Queue *q) { __atomic_store_n(&q->lock, 0, __ATOMIC_RELEASE); }

std::string symbolize(const std::string &key) {
  // +0xOFF@file -> function names, via addr2line on this executable
  std::string out;
  size_t i = 0;
  std::vector<std::string> offs;
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  std::set<std::string> done;
  std::map<std::string, std::string> names;
  std::string cmd = std::string("addr2line -fCse ") + exe;
  size_t at = 0;
  while ((at = key.find("+0x", at)) != std::string::npos) {
    size_t e = at + 3;
    while (e < key.size() && isxdigit(key[e]))
      e++;
    std::string off = key.substr(at + 1, e - at - 1);
    if (!names.count(off)) {
      names[off] = "";
      FILE *p = popen((cmd + " " + off + " 2>/dev/null").c_str(), "r");
      if (p) {
        char a[1000] = "", b[1000] = "";
        if (fgets(a, sizeof a, p) && fgets(b, sizeof b, p)) {
          a[strcspn(a, "\n")] = 0;
          b[strcspn(b, " \n")] = 0;
          std::string fn = a;
          size_t par = fn.find('(');
          if (par != std::string::npos && par > 0)
            fn = fn.substr(0, par);
          names[off] = fn + " (" + b + ")";
        }
        pclose(p);
      }
    }
    at = e;
  }
  for (i = 0; i < key.size();) {
    if (key.compare(i, 3, "+0x") == 0) {
      size_t e = i + 3;
      while (e < key.size() && isxdigit(key[e]))
        e++;
      out += names[key.substr(i + 1, e - i - 1)];
      if (e < key.size() && key[e] == '@') {
        while (e < key.size() && key[e] != ' ' && key[e] != ';')
          e++;
      }
      i = e;
    } else
      out += key[i++];
  }
  return out;
}

void run_child(const Scenario &s, const Prefix &p) {
  prefix = p;
  res->state = 0;
  res->npoints = 0;
  res->used = 0;
  res->bad = 0;
  res->key[0] = res->detail[0] = 0;
  res->outcome = 0;
  res->outcome_text[0] = 0;
  res->accesses = 0;
  // the setup runs on the default schedule: its threads are under control, its choices are not explored
  begin();
  if (s.setup) {
    recording = false;
    s.setup();
    drain();
    recording = true;
    Rt _;
    touch->clear();
  }
  s.body();
  drain();
  // keep only what expansion needs: drop preemption points at objects one thread used
  for (u32 i = 0; i < res->npoints; i++) {
    Point &q = res->p[i];
    if (q.preempt && q.obj) {
      auto it = touch->find(q.obj);
      u64 m = it == touch->end() ? 0 : it->second;
      if (!(m & (m - 1)))
        q.n = 1;
    }
  }
  end();
  if (s.check && !res->bad)
    s.check();
  res->state = 1;
  fflush(nullptr);
  _exit(0);
}
} // namespace

bool explore(const Scenario &s, int bound, int budget_s, uint64_t max_execs) {
  init_runtime();
  u64 cap = 3000000;
  size_t bytes = sizeof(Queue) + 2 * cap * sizeof(Prefix);
  Queue *q = (Queue *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  q->cap = cap;
  Prefix *cur = q->level, *nxt = q->level + cap;
  new (&cur[0]) Prefix();
  q->size = 1;
  u64 t0 = vx::now_s();
  bool complete = true;
  int done_bound = -1;
  int W = vx::opt.workers;
  fflush(stdout);
  for (int level = 0; level <= bound && complete; level++) {
    q->next = 0;
    q->nsize = 0;
    static pid_t kids[256]; // not on the heap: every worker must start from the same heap
    int nkids = 0;
    for (int w = 0; w < W; w++) {
      pid_t pid = fork();
      if (pid == 0) {
        Result *r = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        res = r;
        FILE *out = stdout;
        // Executions are forked from a launcher whose heap never changes, so that all of them
        // start from the same heap and allocate the same addresses.
        int to_z[2], from_z[2];
        if (pipe(to_z) || pipe(from_z))
          _exit(9);
        pid_t zp = fork();
        if (zp == 0) {
          close(to_z[1]);
          static Prefix pp;
          for (;;) {
            if (read(to_z[0], &pp, sizeof pp) != (ssize_t)sizeof pp)
              _exit(0);
            r->state = 0;
            r->bad = 0;
            pid_t c = fork();
            if (c == 0) {
              close(to_z[0]);
              close(from_z[0]);
              close(from_z[1]);
              run_child(s, pp);
            }
            int ans[2] = {0, 0};
            u64 start = vx::now_s();
            for (u64 spins = 0;; spins++) {
              pid_t x = waitpid(c, &ans[1], WNOHANG);
              if (x == c)
                break;
              struct timespec ts = {0, spins < 50 ? 100000 : 1000000};
              clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, nullptr);
              if (vx::now_s() - start > 120) {
                kill(c, SIGKILL);
                waitpid(c, &ans[1], 0);
                ans[0] = 1;
                break;
              }
            }
            if (write(from_z[1], ans, sizeof ans) != (ssize_t)sizeof ans)
              _exit(0);
          }
        }
        close(to_z[0]);
        close(from_z[1]);
        for (;;) {
          if (q->stop)
            break;
          u64 i = __sync_fetch_and_add(&q->next, 1);
          if (i >= q->size)
            break;
          if ((budget_s && vx::now_s() - t0 > (u64)budget_s) || (max_execs && q->execs >= max_execs)) {
            q->stop = 1;
            break;
          }
          Prefix p = cur[i];
          auto once = [&](const Prefix &pp) -> std::string {
            int ans[2] = {0, 0};
            if (write(to_z[1], &pp, sizeof pp) != (ssize_t)sizeof pp || read(from_z[0], ans, sizeof ans) != (ssize_t)sizeof ans)
              return "explorer lost its launcher";
            int st = ans[1];
            if (ans[0])
              return "hang";
            if (WIFSIGNALED(st))
              return vx::sfmt("crash signal %d", WTERMSIG(st));
            if (!r->state)
              return vx::sfmt("exit status %d", WEXITSTATUS(st));
            return "";
          };
          std::string died = once(p);
          if (getenv("MC_DUMP")) { // is the execution of one prefix reproducible?
            static Result *r0 = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            memcpy(r0, r, sizeof(Result));
            once(p);
            u32 k = 0;
            while (k < r->npoints && k < r0->npoints && r->p[k].n == r0->p[k].n && r->p[k].obj == r0->p[k].obj && r->p[k].preempt == r0->p[k].preempt)
              k++;
            if (k < r->npoints || k < r0->npoints)
              fprintf(stderr, "DIFF at %u of %u/%u: n %d/%d obj %llx/%llx self %d/%d\n", k, r->npoints, r0->npoints, r->p[k].n, r0->p[k].n, (unsigned long long)r->p[k].obj, (unsigned long long)r0->p[k].obj, r->p[k].preempt, r0->p[k].preempt);
          }
          __sync_fetch_and_add(&q->execs, 1);
          __sync_fetch_and_add(&q->points, r->npoints);
          __sync_fetch_and_add(&q->accesses, r->accesses);
          if (r->bad && !strcmp(r->key, "divergence")) {
            __sync_fetch_and_add(&q->diverged, 1);
            continue;
          }
          std::string key = died.empty() ? (r->bad ? r->key : "") : died, det = r->bad ? r->detail : "";
          if (!key.empty()) {
            // replay before report
            std::string died2 = once(p);
            std::string key2 = died2.empty() ? (r->bad ? r->key : "") : died2;
            std::string sched;
            for (int k = 0; k < p.n; k++)
              sched += vx::sfmt("%s%u:%u", k ? "," : "", p.d[k].pos, p.d[k].alt);
            if (getenv("MC_DUMP"))
              fprintf(stderr, "FIRST %s / %s; THEN %s [%s]\n", key.c_str(), det.substr(0, 300).c_str(), key2.c_str(), sched.c_str());
            if (key2.empty()) {
              __sync_fetch_and_add(&q->diverged, 1);
              continue;
            }
            std::string k3, d3;
            if (key.compare(0, 5, "race ") == 0) {
              // name the two places
              std::string kind = key.substr(5, key.find(' ', 5) - 5);
              size_t sp1 = key.find(' ', 5), sp2 = key.find(' ', sp1 + 1);
              std::string a = symbolize("+0x" + key.substr(sp1 + 1, sp2 - sp1 - 1)), b = symbolize("+0x" + key.substr(sp2 + 1));
              k3 = "race " + kind + " " + a + " | " + b;
            } else
              k3 = key;
            qlock(q);
            bool seen = false;
            std::string full = s.name + ": " + k3;
            for (int k = 0; k < q->nkeys; k++)
              if (full.substr(0, 511) == q->keys[k])
                seen = true;
            if (!seen && q->nkeys < 64) {
              snprintf(q->keys[q->nkeys], 512, "%s", full.c_str());
              q->nkeys = q->nkeys + 1;
            }
            qunlock(q);
            if (!seen) {
              d3 = symbolize(det);
              vx::one_line(full);
              vx::one_line(d3);
              std::string line = "@VIOL " + full + "\t" + d3 + " [schedule deviations " + (sched.empty() ? "none" : sched) + "]\n";
              if (write(1, line.data(), line.size())) {
              }
              u64 nv = __sync_add_and_fetch(&q->nviol, 1);
              if (nv >= 12)
                q->stop = 1;
            }
            continue;
          }
          if (r->outcome) {
            qlock(q);
            bool seen = false;
            for (u64 k = 0; k < q->noutcomes && k < 4096; k++)
              if (q->outcomes[k] == r->outcome)
                seen = true;
            if (!seen && q->noutcomes < 4096) {
              q->outcomes[q->noutcomes] = r->outcome;
              q->noutcomes = q->noutcomes + 1;
              if (q->noutcomes <= 2) {
                std::string line = "@SAMPLE " + s.name + ": " + vx::esc(r->outcome_text) + vx::sfmt(" (%d deviations)\n", p.n);
                if (write(1, line.data(), line.size())) {
                }
              }
            }
            qunlock(q);
          }
          if (level < bound && p.n < MAXDEV) {
            if (r->npoints >= MAXP)
              __sync_fetch_and_add(&q->toolong, 1);
            std::vector<Prefix> add;
            u32 from = p.n ? p.d[p.n - 1].pos + 1 : 0;
            for (u32 k = from; k < r->npoints; k++)
              for (int alt = 1; alt < r->p[k].n; alt++) {
                Prefix x = p;
                x.d[x.n].pos = k;
                x.d[x.n].alt = alt;
                x.n++;
                add.push_back(x);
              }
            u64 at = __sync_fetch_and_add(&q->nsize, add.size());
            for (u64 k = 0; k < add.size(); k++)
              if (at + k < cap)
                nxt[at + k] = add[k];
              else
                q->toolong = 1;
          }
        }
        fflush(out);
        _exit(0);
      }
      kids[nkids++] = pid;
    }
    for (int kk = 0; kk < nkids; kk++) {
      pid_t k = kids[kk];
      int st;
      waitpid(k, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        printf("@VIOL %s: explorer died\tworker ended abnormally\n", s.name.c_str());
        complete = false;
      }
    }
    if (q->stop || q->toolong)
      complete = false;
    if (complete)
      done_bound = level;
    u64 n = q->nsize < cap ? q->nsize : cap;
    if (getenv("MC_VERBOSE"))
      fprintf(stderr, "%s level %d: %llu executions so far, next level %llu, %llu s\n", s.name.c_str(), level, (unsigned long long)q->execs, (unsigned long long)n, (unsigned long long)(vx::now_s() - t0));
    std::swap(cur, nxt);
    q->size = n;
    if (n == 0)
      break;
  }
  totals.execs += q->execs;
  totals.points += q->points;
  totals.outcomes += q->noutcomes;
  totals.accesses += q->accesses;
  printf("@STAT schedules %llu\n@STAT choice_points %llu\n@STAT distinct_outcomes %llu\n@STAT checked_accesses %llu\n@STAT diverged %llu\n",
         (unsigned long long)q->execs, (unsigned long long)q->points, (unsigned long long)q->noutcomes, (unsigned long long)q->accesses, (unsigned long long)q->diverged);
  printf("@SPACE %s:deviations<=%d(completed-bound=%d) %llu %s\n", s.name.c_str(), bound, complete ? bound : done_bound, (unsigned long long)q->execs, complete ? "complete" : "incomplete");
  fflush(stdout);
  munmap(q, bytes);
  return complete;
}
} // namespace mc
