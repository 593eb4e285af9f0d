// Common driver for the exhaustive harnesses: forks workers over a dense case space,
// attributes crashes and hangs to the case that caused them, and reports on stdout:
//   @STAT <name> <count>          summed by the runner
//   @SAMPLE <text>
//   @VIOL <key>\t<detail>
#ifndef VX_H_
#define VX_H_
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vx {
inline std::string sfmt(const char *f, ...) {
  va_list ap, ap2;
  va_start(ap, f);
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap);
  va_end(ap);
  std::string s(n, 0);
  vsnprintf(&s[0], n + 1, f, ap2);
  va_end(ap2);
  return s;
}
// printable, single-line form of arbitrary bytes
inline std::string esc(const std::string &s) {
  std::string t;
  for (unsigned char c : s)
    if (c == '\\')
      t += "\\\\";
    else if (c >= 32 && c < 127)
      t += c;
    else
      t += sfmt("\\x%02x", c);
  return t;
}

constexpr int MAXW = 64, NSTAT = 48;
struct Shared {
  volatile uint64_t next;
  volatile int stop;
  volatile uint64_t nviol;
  struct W {
    volatile uint64_t current; // case index + 1, 0 when idle
    volatile uint64_t started; // monotonic seconds
    char what[4096];           // description of the current sub-case
    uint64_t stat[NSTAT];
  } w[MAXW];
};
inline Shared *sh = nullptr;
inline int me = 0;
inline std::vector<std::string> &stat_names() {
  static std::vector<std::string> v;
  return v;
}
inline int stat_id(const char *name) {
  auto &v = stat_names();
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] == name)
      return i;
  if ((int)v.size() >= NSTAT)
    abort();
  v.push_back(name);
  return v.size() - 1;
}
inline FILE *out = nullptr; // per worker
inline std::set<std::string> &reported() {
  static std::set<std::string> s;
  return s;
}
inline int viol_in_worker = 0;
// Names must be registered (stat_id) before the fork.
inline void count(int id, uint64_t n = 1) { sh->w[me].stat[id] += n; }
inline void what(const std::string &s) {
  size_t n = s.size() < 4095 ? s.size() : 4095;
  memcpy(sh->w[me].what, s.data(), n);
  sh->w[me].what[n] = 0;
}
inline void one_line(std::string &s) {
  for (auto &c : s)
    if (c == '\n' || c == '\t')
      c = ' ';
}
inline void viol(std::string key, std::string detail) {
  one_line(key);
  one_line(detail);
  if (reported().size() >= 40 || !reported().insert(key).second) {
    return;
  }
  fprintf(out, "@VIOL %s\t%s\n", key.c_str(), detail.c_str());
  fflush(out);
  __sync_fetch_and_add(&sh->nviol, 1);
}
inline int samples_left = 2;
inline void sample(std::string s) {
  if (samples_left <= 0 || me != 0)
    return;
  samples_left--;
  one_line(s);
  FILE *to = out ? out : stdout;
  fprintf(to, "@SAMPLE %s\n", s.c_str());
  fflush(to);
}
inline uint64_t now_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec;
}
struct Options {
  int workers = 8;
  uint64_t chunk = 1;
  int hang_s = 60;
  int budget_s = 0;     // 0: none
  uint64_t stop_after = 200;
  long only = -1;       // replay a single case
};
inline Options opt;
inline void parse(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *p) -> const char * {
      size_t n = strlen(p);
      return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr;
    };
    if (auto v = val("--workers="))
      opt.workers = atoi(v);
    else if (auto v = val("--budget="))
      opt.budget_s = atoi(v);
    else if (auto v = val("--hang="))
      opt.hang_s = atoi(v);
    else if (auto v = val("--case="))
      opt.only = atol(v);
  }
}
inline std::string arg(int argc, char **argv, const std::string &name,
                       const std::string &def = "") {
  std::string p = "--" + name + "=";
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]).compare(0, p.size(), p) == 0)
      return std::string(argv[i]).substr(p.size());
  return def;
}

// Runs body(i) for every i in [0,total).  `phase` names the space in reports.
inline bool run(const std::string &phase, uint64_t total,
                const std::function<void(uint64_t)> &body) {
  if (total == 0)
    return true;
  int W = opt.workers;
  if (W > MAXW)
    W = MAXW;
  if ((uint64_t)W > total)
    W = total;
  if (opt.only >= 0)
    W = 1;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shared));
  fflush(stdout);
  struct Kid {
    pid_t pid = 0;
    FILE *f = nullptr;
  };
  std::vector<Kid> kids(W);
  uint64_t t0 = now_s();
  int case_id = stat_id("cases");
  auto launch = [&](int w, uint64_t from_after) {
    FILE *f = kids[w].f ? kids[w].f : tmpfile();
    kids[w].f = f;
    fseek(f, 0, SEEK_END);
    pid_t pid = fork();
    if (pid == 0) {
      me = w;
      out = f;
      uint64_t chunk = opt.chunk;
      if (opt.only >= 0) {
        sh->w[w].started = now_s();
        sh->w[w].current = opt.only + 1;
        body(opt.only);
        fflush(out);
        _exit(0);
      }
      // a restarted worker first finishes the chunk its predecessor died in
      uint64_t a = from_after, b = from_after ? ((from_after - 1) / chunk + 1) * chunk : 0;
      for (;;) {
        for (; a < b && a < total; a++) {
          if (sh->stop)
            break;
          sh->w[w].what[0] = 0;
          sh->w[w].started = now_s(); // before `current`: the monitor reads them in that order
          __sync_synchronize();
          sh->w[w].current = a + 1;
          body(a);
          sh->w[w].stat[case_id]++;
        }
        if (sh->stop)
          break;
        a = __sync_fetch_and_add(&sh->next, chunk);
        b = a + chunk;
        if (a >= total)
          break;
      }
      sh->w[w].current = 0;
      fflush(out);
      _exit(0);
    }
    kids[w].pid = pid;
  };
  for (int w = 0; w < W; w++)
    launch(w, 0);
  int crashes = 0;
  bool complete = true;
  for (;;) {
    int alive = 0;
    for (int w = 0; w < W; w++) {
      if (!kids[w].pid)
        continue;
      int st;
      pid_t r = waitpid(kids[w].pid, &st, WNOHANG);
      if (r == 0) {
        alive++;
        if (sh->w[w].current &&
            now_s() - sh->w[w].started > (uint64_t)opt.hang_s) {
          kill(kids[w].pid, SIGKILL);
          waitpid(kids[w].pid, &st, 0);
          printf("@VIOL %s:hang:%s\tcase %llu did not finish in %d s: %s\n",
                 phase.c_str(), sh->w[w].what,
                 (unsigned long long)sh->w[w].current - 1, opt.hang_s,
                 sh->w[w].what);
          kids[w].pid = 0;
          crashes++;
          sh->nviol = sh->nviol + 1;
          complete = false;
        }
        continue;
      }
      kids[w].pid = 0;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        continue;
      crashes++;
      std::string wh = sh->w[w].what;
      one_line(wh);
      printf("@VIOL %s:crash:%s\tcase %llu ended with %s %d: %s\n",
             phase.c_str(), wh.c_str(),
             (unsigned long long)sh->w[w].current - 1,
             WIFSIGNALED(st) ? "signal" : "status",
             WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), wh.c_str());
      sh->nviol = sh->nviol + 1;
      if (crashes < 24 && opt.only < 0) {
        launch(w, sh->w[w].current);
        alive++;
      } else
        complete = false;
    }
    if (!alive)
      break;
    if (sh->nviol > opt.stop_after) {
      sh->stop = 1;
      complete = false;
    }
    if (opt.budget_s && now_s() - t0 > (uint64_t)opt.budget_s && !sh->stop) {
      sh->stop = 1;
      complete = false;
    }
    usleep(3000);
  }
  auto &names = stat_names();
  for (size_t i = 0; i < names.size(); i++) {
    uint64_t s = 0;
    for (int w = 0; w < W; w++)
      s += sh->w[w].stat[i];
    if (s)
      printf("@STAT %s %llu\n", names[i].c_str(), (unsigned long long)s);
  }
  for (int w = 0; w < W; w++) {
    FILE *f = kids[w].f;
    rewind(f);
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0)
      fwrite(buf, 1, n, stdout);
    fclose(f);
  }
  printf("@SPACE %s %llu %s\n", phase.c_str(), (unsigned long long)total,
         complete ? "complete" : "incomplete");
  fflush(stdout);
  munmap((void *)sh, sizeof(Shared));
  return complete;
}
} // namespace vx
#endif
