// Interposed libc entry points; compiled without instrumentation.
#include "fsx.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fsx {
bool include_reads = false;
void (*on_op)() = nullptr;
void (*on_torn)() = nullptr;
bool (*torn_bytes)(const char *) = nullptr;
namespace {
Log *L = nullptr;
Mode mode = OFF;
std::string root;
uint32_t at = 0;
int variant = 0;
bool full = false; // variant 2 reached
constexpr uint32_t full_for = 12;
constexpr int MAXFD = 4096;
char fdpath[MAXFD][200];
bool fdin[MAXFD];

template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
std::string absolute(const char *p) {
  std::string s = p;
  if (!s.empty() && s[0] == '/')
    return s;
  char b[4096];
  if (!getcwd(b, sizeof b))
    return s;
  return std::string(b) + "/" + s;
}
bool inside(const char *p, std::string *rel) {
  if (mode == OFF || !p)
    return false;
  std::string s = absolute(p);
  // normalise "//" and "/./"
  std::string t;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '/' && (i + 1 < s.size() && s[i + 1] == '/'))
      continue;
    if (s[i] == '/' && s.compare(i, 3, "/./") == 0) {
      i += 1;
      continue;
    }
    t += s[i];
  }
  if (t.compare(0, root.size(), root) != 0)
    return false;
  *rel = t.substr(root.size());
  return true;
}
bool is_write(const char *k) { return strcmp(k, "write") == 0; }

// Returns 0 to go on, or an errno; may not return at all.  *cut: bytes of a write to let through.
int step(const char *kind, const std::string &rel, uint64_t size, bool quiet, int64_t *cut = nullptr) {
  if (quiet && !include_reads)
    return 0;
  if (on_op && !quiet && mode == RECORD)
    on_op();
  uint32_t k = L->n;
  if (k < MAXOPS) {
    Op &o = L->op[k];
    snprintf(o.kind, sizeof o.kind, "%s", kind);
    snprintf(o.path, sizeof o.path, "%s", rel.c_str());
    o.size = size;
    o.mark = L->mark;
    o.quiet = quiet;
  }
  L->n = k + 1;
  if (full && !quiet) {
    L->faulted++;
    if (L->faulted >= full_for) // the disk has room again
      full = false;
    return ENOSPC;
  }
  if (mode == RECORD || mode == OFF || k != at)
    return 0;
  if (mode == CRASH) {
    if (cut && variant == 1)
      *cut = size / 2;
    else if (cut && variant == 2)
      *cut = size ? size - 1 : 0;
    else
      _exit(KILLED);
    return -1; // write the part, then die
  }
  if (mode == FAULT) {
    L->faulted++;
    snprintf(L->fault_at, sizeof L->fault_at, "%s %s", kind, rel.c_str());
    if (variant == 1 && cut) {
      *cut = size / 2;
      full = false;
      return -2; // short, and the retry fails
    }
    if (variant == 2)
      full = true;
    return is_write(kind) || !strcmp(kind, "create") ? ENOSPC : EIO;
  }
  return 0;
}
bool retry_fails = false;
} // namespace

Log *new_log() {
  Log *l = (Log *)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return l;
}
void start(Log *log, const std::string &r, Mode m, uint32_t k, int v) {
  L = log;
  L->n = 0;
  L->mark = 0;
  L->faulted = 0;
  L->fault_at[0] = 0;
  root = absolute(r.c_str());
  if (root.empty() || root.back() != '/')
    root += "/";
  at = k;
  variant = v;
  full = false;
  retry_fails = false;
  memset(fdin, 0, sizeof fdin);
  mode = m;
}
void stop() { mode = OFF; }
void pause(bool p) {
  static Mode was = OFF;
  if (p) {
    was = mode;
    mode = OFF;
  } else
    mode = was;
}
void mark(uint32_t m) {
  if (L)
    L->mark = m;
}
int variants(const Op &op, Mode m) {
  if (m == CRASH)
    return is_write(op.kind) && op.size > 1 ? 3 : 1;
  if (m == FAULT) {
    if (op.quiet)
      return 1;
    return is_write(op.kind) ? 3 : 2; // variant 1 of a non-write is skipped by the caller
  }
  return 1;
}
} // namespace fsx

using namespace fsx;

static void note_fd(int fd, const std::string &rel) {
  if (fd >= 0 && fd < MAXFD) {
    fdin[fd] = true;
    snprintf(fdpath[fd], sizeof fdpath[fd], "%s", rel.c_str());
  }
}
static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

extern "C" {
#define GO(kind, rel, size, quiet)             \
  do {                                         \
    int _e = step(kind, rel, size, quiet);     \
    if (_e > 0) {                              \
      errno = _e;                              \
      return -1;                               \
    }                                          \
  } while (0)

static int open_step(const char *path, bool creates, bool truncates, bool writes, std::string *rel, bool *in) {
  *in = inside(path, rel);
  if (!*in)
    return 0;
  struct stat st;
  bool exists = stat(path, &st) == 0;
  if (!exists && creates)
    return step("create", *rel, 0, false);
  if (exists && truncates && st.st_size > 0)
    return step("trunc", *rel, st.st_size, false);
  return step(writes ? "openw" : "openr", *rel, 0, true);
}
static FILE *fopen_with(FILE *(*r)(const char *, const char *), const char *path, const char *m) {
  std::string rel;
  bool in;
  bool w = m[0] == 'w', a = m[0] == 'a', plus = strchr(m, '+') != nullptr;
  int e = open_step(path, w || a, w, w || a || plus, &rel, &in);
  if (e > 0) {
    errno = e;
    return nullptr;
  }
  FILE *f = r(path, m);
  if (f && in)
    note_fd(fileno(f), rel);
  else if (f && fileno(f) >= 0 && fileno(f) < MAXFD)
    fdin[fileno(f)] = false;
  return f;
}
FILE *fopen(const char *path, const char *m) {
  static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
  return fopen_with(r, path, m);
}
FILE *fopen64(const char *path, const char *m) {
  static auto r = real<FILE *(*)(const char *, const char *)>("fopen64");
  return fopen_with(r, path, m);
}
static int open_with(int dfd, const char *path, int flags, mode_t md) {
  std::string rel;
  bool in = false;
  if (dfd == AT_FDCWD || path[0] == '/') {
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    int e = open_step(path, flags & O_CREAT, flags & O_TRUNC, wr, &rel, &in);
    if (e > 0) {
      errno = e;
      return -1;
    }
  }
  int fd = syscall(SYS_openat, dfd, path, flags, md);
  if (fd >= 0 && in)
    note_fd(fd, rel);
  else if (fd >= 0 && fd < MAXFD)
    fdin[fd] = false;
  return fd;
}
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t md = va_arg(ap, mode_t);
  va_end(ap);
  return open_with(AT_FDCWD, path, flags, md);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t md = va_arg(ap, mode_t);
  va_end(ap);
  return open_with(AT_FDCWD, path, flags, md);
}
int openat(int d, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t md = va_arg(ap, mode_t);
  va_end(ap);
  return open_with(d, path, flags, md);
}
int openat64(int d, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t md = va_arg(ap, mode_t);
  va_end(ap);
  return open_with(d, path, flags, md);
}
int creat(const char *path, mode_t md) { return open_with(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, md); }
int close(int fd) {
  if (fd >= 0 && fd < MAXFD)
    fdin[fd] = false;
  return syscall(SYS_close, fd);
}
int fclose(FILE *f) {
  static auto r = real<int (*)(FILE *)>("fclose");
  int fd = f ? fileno(f) : -1;
  if (fd >= 0 && fd < MAXFD)
    fdin[fd] = false;
  return r(f);
}
static bool tracked(int fd) { return mode != OFF && fd >= 0 && fd < MAXFD && fdin[fd]; }
ssize_t write(int fd, const void *b, size_t n) {
  if (!tracked(fd) || n == 0)
    return raw_write(fd, b, n);
  if (retry_fails) {
    retry_fails = false;
    errno = ENOSPC;
    return -1;
  }
  int64_t cut = n;
  int e = step("write", fdpath[fd], n, false, &cut);
  if (e > 0) {
    errno = e;
    return -1;
  }
  if (e == -1) {
    raw_write(fd, b, cut);
    _exit(KILLED);
  }
  if (e == -2) {
    retry_fails = true;
    if (cut == 0) {
      retry_fails = false;
      errno = ENOSPC;
      return -1;
    }
    return raw_write(fd, b, cut);
  }
  if (on_torn && mode == RECORD && n > 1) {
    size_t done = 0;
    std::vector<size_t> parts = {n / 2, n - 1};
    if (torn_bytes && torn_bytes(fdpath[fd])) {
      parts.clear();
      for (size_t i = 1; i < n; i++)
        parts.push_back(i);
    }
    parts.push_back(n);
    for (size_t part : parts) {
      if (part <= done)
        continue;
      if (raw_write(fd, (const char *)b + done, part - done) != (ssize_t)(part - done))
        return -1;
      done = part;
      if (part < n)
        on_torn();
    }
    return n;
  }
  return raw_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd))
    return syscall(SYS_writev, fd, v, c);
  std::string all;
  for (int i = 0; i < c; i++)
    all.append((const char *)v[i].iov_base, v[i].iov_len);
  return write(fd, all.data(), all.size());
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (tracked(fd))
    GO("pwrite", fdpath[fd], n, false);
  return syscall(SYS_pwrite64, fd, b, n, o);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  static auto r = real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
  return r(b, s, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
  if (tracked(fd) && include_reads)
    GO("read", fdpath[fd], n, true);
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (tracked(fd) && include_reads)
    GO("read", fdpath[fd], n, true);
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int rename(const char *a, const char *b) {
  std::string x, y;
  if (inside(a, &x) || inside(b, &y)) {
    inside(b, &y);
    GO("rename", x + ">" + y, 0, false);
  }
  return syscall(SYS_rename, a, b);
}
int link(const char *a, const char *b) {
  std::string x, y;
  if (inside(b, &y)) {
    inside(a, &x);
    GO("link", x + ">" + y, 0, false);
  }
  return syscall(SYS_link, a, b);
}
int symlink(const char *a, const char *b) {
  std::string y;
  if (inside(b, &y))
    GO("symlink", y, 0, false);
  return syscall(SYS_symlink, a, b);
}
static int unlink_step(const char *p) {
  std::string x;
  struct stat st;
  if (inside(p, &x) && lstat(p, &st) == 0)
    return step("unlink", x, 0, false);
  return 0;
}
int unlink(const char *p) {
  int e = unlink_step(p);
  if (e > 0) {
    errno = e;
    return -1;
  }
  return syscall(SYS_unlink, p);
}
int unlinkat(int d, const char *p, int fl) {
  if (d == AT_FDCWD || p[0] == '/') {
    int e = unlink_step(p);
    if (e > 0) {
      errno = e;
      return -1;
    }
  }
  return syscall(SYS_unlinkat, d, p, fl);
}
int rmdir(const char *p) { return syscall(SYS_rmdir, p); }
int remove(const char *p) {
  int e = unlink_step(p);
  if (e > 0) {
    errno = e;
    return -1;
  }
  int r = syscall(SYS_unlink, p);
  if (r < 0 && (errno == EISDIR || errno == EPERM))
    r = syscall(SYS_rmdir, p);
  return r;
}
int truncate(const char *p, off_t n) {
  std::string x;
  struct stat st;
  if (inside(p, &x) && !(stat(p, &st) == 0 && st.st_size == n))
    GO("truncate", x, n, false);
  return syscall(SYS_truncate, p, n);
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) {
  if (tracked(fd))
    GO("truncate", fdpath[fd], n, false);
  return syscall(SYS_ftruncate, fd, n);
}
int chmod(const char *p, mode_t m) {
  std::string x;
  if (inside(p, &x))
    GO("chmod", x, 0, false);
  return syscall(SYS_chmod, p, m);
}
int mkdir(const char *p, mode_t m) {
  std::string x;
  if (inside((std::string(p) + "/").c_str(), &x))
    GO("mkdir", x, 0, false);
  return syscall(SYS_mkdir, p, m);
}

// The shell commands the store uses, done here one operation at a time.
static std::vector<std::string> listing(const std::string &d) {
  std::vector<std::string> v;
  if (DIR *dir = opendir(d.c_str())) {
    while (struct dirent *e = readdir(dir))
      if (e->d_name[0] != '.')
        v.push_back(e->d_name);
    closedir(dir);
  }
  std::sort(v.begin(), v.end());
  return v;
}
static bool plain(const std::string &s) { return s.find_first_of(" ;&|<>$`'\"*?[]()\\\n") == std::string::npos; }
static bool unquote(const std::string &s, size_t *i, std::string *out) { // one '...' word
  out->clear();
  if (*i >= s.size() || s[*i] != '\'')
    return false;
  size_t e = s.find('\'', *i + 1);
  if (e == std::string::npos)
    return false;
  *out = s.substr(*i + 1, e - *i - 1);
  *i = e + 1;
  return *i >= s.size() || s[*i] != '\\'; // no escaped quotes
}
static bool word(const std::string &s, std::string *out) { // all of s is one word, quoted or plain, maybe after "-- "
  std::string w = s.compare(0, 3, "-- ") == 0 ? s.substr(3) : s;
  size_t i = 0;
  if (unquote(w, &i, out))
    return i == w.size() && out->size() > 0;
  *out = w;
  return w.size() > 0 && plain(w);
}
static int run_script(const std::string &path, bool *known) {
  // only lines of the form: mv -n 'a' 'b' 2>/dev/null; rm -f 'a'
  *known = false;
  std::ifstream f(path);
  std::string line;
  struct Line {
    std::string a, b, c;
  };
  std::vector<Line> todo;
  bool first = true;
  while (std::getline(f, line)) {
    if (first && line == "#!/bin/sh") {
      first = false;
      continue;
    }
    first = false;
    if (line.empty())
      continue;
    Line l;
    size_t i = 6;
    if (line.compare(0, 6, "mv -n ") != 0 || !unquote(line, &i, &l.a) || line.compare(i, 1, " ") != 0)
      return 0;
    i++;
    if (!unquote(line, &i, &l.b) || line.compare(i, 20, " 2>/dev/null; rm -f ") != 0)
      return 0;
    i += 20;
    if (!unquote(line, &i, &l.c) || i != line.size())
      return 0;
    todo.push_back(l);
  }
  struct stat st;
  if (access(path.c_str(), X_OK) != 0)
    return 0;
  *known = true;
  int rc = 0;
  for (auto &l : todo) {
    if (stat(l.a.c_str(), &st) == 0 && stat(l.b.c_str(), &st) != 0)
      rename(l.a.c_str(), l.b.c_str());
    rc = 0;
    if (unlink(l.c.c_str()) != 0 && errno != ENOENT)
      rc = 256;
  }
  return rc;
}
int system(const char *cmd) {
  static auto r = real<int (*)(const char *)>("system");
  std::string s = cmd ? cmd : "";
  if (mode == OFF && getenv("FSX_REAL_SHELL"))
    return r(cmd);
  std::string d;
  if (s.compare(0, 14, "/bin/mkdir -p ") == 0 && word(s.substr(14), &d)) {
    int rc = 0;
    for (size_t i = 1; i <= d.size(); i++)
      if (i == d.size() || d[i] == '/') {
        struct stat st;
        std::string part = d.substr(0, i);
        if (stat(part.c_str(), &st) != 0)
          rc = mkdir(part.c_str(), 0777) ? 256 : 0;
      }
    return rc;
  }
  if (s.compare(0, 11, "/bin/rm -f ") == 0 && s.size() > 18 && s.compare(s.size() - 7, 7, "/temp.*") == 0 &&
      word(s.substr(11, s.size() - 18), &d)) {
    int rc = 0;
    for (auto &n : listing(d))
      if (n.compare(0, 5, "temp.") == 0)
        if (unlink((d + "/" + n).c_str()) != 0)
          rc = 256;
    return rc;
  }
  std::string path;
  size_t i = 0;
  if (unquote(s, &i, &path) && i == s.size()) {
    bool known;
    int rc = run_script(path, &known);
    if (known)
      return rc;
  }
  return r(cmd);
}
static std::set<FILE *> *fake_pipes;
FILE *popen(const char *cmd, const char *m) {
  static auto r = real<FILE *(*)(const char *, const char *)>("popen");
  std::string s = cmd;
  std::string d;
  for (const char *p : {"/usr/bin/ls ", "/bin/ls "})
    if (d.empty() && s.compare(0, strlen(p), p) == 0 && !word(s.substr(strlen(p)), &d))
      d.clear();
  if (d.empty() || m[0] != 'r')
    return r(cmd, m);
  std::string out;
  for (auto &n : listing(d))
    out += n + "\n";
  int fd = syscall(SYS_memfd_create, "ls", 0);
  raw_write(fd, out.data(), out.size());
  lseek(fd, 0, SEEK_SET);
  FILE *f = fdopen(fd, "r");
  if (!fake_pipes)
    fake_pipes = new std::set<FILE *>;
  fake_pipes->insert(f);
  return f;
}
int pclose(FILE *f) {
  static auto r = real<int (*)(FILE *)>("pclose");
  if (fake_pipes && fake_pipes->erase(f))
    return fclose(f);
  return r(f);
}
}
