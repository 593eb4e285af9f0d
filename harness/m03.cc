// M03: a single-file shard that is cut short or altered in its structure is refused, or answers as the intact one does.
// Every truncation length, every appended length up to a bound, and for every structural field (magic numbers, blob
// dictionary, headers, directories, posting record headers) a menu of values or every single-byte change.  Each damaged
// file is opened and asked everything, forwards and backwards, in a process of its own.
#include "content.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static int s_files, s_cases, s_refused, s_same, s_stopped, s_fields;

struct Field {
  std::string name;  // role
  size_t at, size;   // where
  bool number;       // 64-bit number, else bytes
  long k = -1;       // index of the directory entry
};
struct Entry {
  addr feature, end, count;
  addr start;
};
struct Layout {
  bool ok = false;
  std::vector<Field> fields;
  std::vector<Entry> entries;
  addr directory_offset = 0;
  size_t dna_end = 0, idx = 0;
};
static addr num(const std::string &f, size_t at) {
  addr x = 0;
  if (at + 8 <= f.size())
    memcpy(&x, &f[at], 8);
  return x;
}
// The format as documented by its writer, read from an intact file.
static Layout parse(const std::string &f) {
  Layout l;
  size_t end = f.find("\n\n");
  if (end == std::string::npos)
    return l;
  size_t magic = f.find('\n');
  if (magic == std::string::npos || magic > end)
    return l;
  l.fields.push_back({"file.magic", 0, magic, false});
  size_t at = end + 2;
  l.dna_end = at;
  std::string bm = hazel_blob_dictionary_magic;
  if (f.compare(at, bm.size(), bm))
    return l;
  l.fields.push_back({"blobs.magic", at, bm.size(), false});
  at += bm.size();
  addr count = num(f, at);
  l.fields.push_back({"blobs.count", at, 8, true});
  at += 8;
  std::map<std::string, std::pair<addr, addr>> blobs;
  for (addr i = 0; i < count && i < 8; i++) {
    addr n = num(f, at);
    l.fields.push_back({"blob.name_length", at, 8, true});
    at += 8;
    std::string name = f.substr(at, n);
    l.fields.push_back({"blob.name", at, (size_t)n, false});
    at += n;
    blobs[name] = {num(f, at), num(f, at + 8)};
    l.fields.push_back({"blob.offset", at, 8, true});
    l.fields.push_back({"blob.length", at + 8, 8, true});
    at += 16;
  }
  if (!blobs.count("idx") || !blobs.count("txt"))
    return l;
  size_t b = l.idx = blobs["idx"].first;
  std::string im = hazel_idx_magic, tm = hazel_txt_magic;
  if (f.compare(b, im.size(), im))
    return l;
  l.fields.push_back({"idx.magic", b, im.size(), false});
  size_t h = b + im.size();
  l.fields.push_back({"idx.directory_offset", h, 8, true});
  l.fields.push_back({"idx.directory_length", h + 8, 8, true});
  l.fields.push_back({"idx.directory_count", h + 16, 8, true});
  addr off = num(f, h), n = num(f, h + 16);
  l.directory_offset = off;
  addr start = im.size() + 24;
  for (addr i = 0; i < n; i++) {
    size_t e = b + off + 24 * i;
    Entry x = {num(f, e), num(f, e + 8), num(f, e + 16), start};
    l.fields.push_back({"idx.entry.feature", e, 8, true, i});
    l.fields.push_back({"idx.entry.end", e + 8, 8, true, i});
    l.fields.push_back({"idx.entry.count", e + 16, 8, true, i});
    if (x.end > start)
      for (int k = 0; k < 5; k++)
        l.fields.push_back({vx::sfmt("idx.record.%d", k), (size_t)(b + start + 8 * k), 8, true, i});
    start = x.end;
    l.entries.push_back(x);
  }
  b = blobs["txt"].first;
  if (f.compare(b, tm.size(), tm))
    return l;
  l.fields.push_back({"txt.magic", b, tm.size(), false});
  h = b + tm.size();
  const char *names[] = {"directory_offset", "directory_length", "directory_count", "raw_text_length", "target_chunk_size"};
  for (int k = 0; k < 5; k++)
    l.fields.push_back({std::string("txt.") + names[k], h + 8 * k, 8, true});
  off = num(f, h), n = num(f, h + 16);
  for (addr i = 0; i < n; i++) {
    size_t e = h + 40 + off + 16 * i;
    std::string last = i == n - 1 ? "txt.last." : "txt.entry.";
    l.fields.push_back({last + "raw_end", e, 8, true, i});
    l.fields.push_back({last + "compressed_end", e + 8, 8, true, i});
  }
  l.ok = true;
  return l;
}

struct Sample {
  std::string label, file, name;
  Files directory; // the whole store around it
  Probe probe;
  Layout layout;
  std::vector<std::string> want, want_back; // pieces, in the order asked
};

// Asks in pieces, so that what was answered before a stop can be compared.
static void ask(Warren *w, const Sample &s, bool back, const std::function<void(const std::string &)> &emit) {
  std::vector<std::function<std::string()>> q;
  for (auto &e : s.layout.entries) {
    addr f = e.feature;
    q.push_back([w, f] {
      auto h = w->idx()->hopper(f);
      return vx::sfmt("feature %ld: ", (long)f) + (h ? probe::list(h.get()) : "null");
    });
    q.push_back([w, f] { return vx::sfmt("count %ld: %ld", (long)f, (long)w->idx()->count(f)); });
  }
  q.push_back([w] { return vx::sfmt("vocab %ld", (long)w->idx()->vocab()); });
  for (size_t i = 0; i < s.probe.keys.size(); i++)
    for (size_t j : {i, i + 1, i + 5, s.probe.keys.size() - 1})
      if (j >= i && j < s.probe.keys.size()) {
        addr p = s.probe.keys[i], r = s.probe.keys[j];
        q.push_back([w, p, r] { return vx::sfmt("text [%ld,%ld] ", (long)p, (long)r) + w->txt()->translate(p, r); });
      }
  const Probe *p = &s.probe;
  q.push_back([w] {
    std::string v;
    w->get_parameter("colour", &v);
    return "colour=" + v;
  });
  if (back)
    std::reverse(q.begin(), q.end());
  for (auto &x : q)
    emit(x());
  emit(p->ask(w, back));
}

struct Board {
  volatile size_t size;
  volatile int opened, finished;
  char text[1 << 20];
};
static Board *board;
// 0 refused, 1 opened and asked to the end, 2 stopped (signal), 3 hang; text: the pieces answered
struct Outcome {
  int what;
  int signal = 0;
  bool opened = false;
  std::vector<std::string> pieces;
  std::string error;
};
static Outcome open_and_ask(const std::string &path, const Sample &s, bool back) {
  board->size = 0;
  board->opened = board->finished = 0;
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {(rlim_t)8 << 30, (rlim_t)8 << 30};
    setrlimit(RLIMIT_AS, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!freopen("/dev/null", "w", stderr))
      _exit(3);
    alarm(40);
    std::string e = "";
    auto w = Warren::make(path, &e);
    auto put = [&](const std::string &x) {
      uint32_t n = x.size();
      if (board->size + 4 + n <= sizeof(board->text)) {
        memcpy(board->text + board->size, &n, 4);
        memcpy(board->text + board->size + 4, x.data(), n);
        board->size = board->size + 4 + n;
      }
    };
    if (!w) {
      board->finished = e.empty() ? 4 : 3;
      put(e);
      _exit(0);
    }
    board->opened = 1;
    w->start();
    ask(w.get(), s, back, put);
    w->end();
    board->finished = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  Outcome o;
  o.opened = board->opened;
  for (size_t a = 0; a + 4 <= board->size;) {
    uint32_t n;
    memcpy(&n, board->text + a, 4);
    o.pieces.push_back(std::string(board->text + a + 4, n));
    a += 4 + n;
  }
  if (WIFSIGNALED(st)) {
    o.signal = WTERMSIG(st);
    o.what = o.signal == SIGALRM ? 3 : 2;
  } else if (board->finished == 1)
    o.what = 1;
  else if (board->finished >= 3) {
    o.what = 0;
    o.error = o.pieces.size() ? o.pieces[0] : "";
    if (board->finished == 4)
      o.error = "";
  } else {
    o.what = 2;
    o.signal = -WEXITSTATUS(st);
  }
  return o;
}

// What the alteration of a field amounts to.
//   ""      inconsistent: must be refused or make no difference
//   "data"  a different but well-formed file: not judged
//   "late"  can only be noticed when the list is read: may also stop the process there
//   other   a named class
static std::string judge(const Layout &l, const Field &f, const std::string &bytes) {
  if (f.k < 0 || f.name.compare(0, 4, "idx."))
    return f.name.compare(0, 10, "txt.entry.") == 0 ? "late" : "";
  const Entry &e = l.entries[f.k];
  addr v = num(bytes, f.at);
  bool single = e.start == e.end;
  addr before = f.k ? l.entries[f.k - 1].feature : minfinity, after = f.k + 1 < (long)l.entries.size() ? l.entries[f.k + 1].feature : maxfinity;
  if (f.name == "idx.entry.feature") {
    if ((f.k && v <= before) || (f.k + 1 < (long)l.entries.size() && v >= after))
      return "";
    return single ? "data" : "late";
  }
  if (f.name == "idx.entry.count")
    return single ? "data" : v <= 0 ? "" : "late";
  if (f.name == "idx.entry.end") {
    addr next = f.k + 1 < (long)l.entries.size() ? l.entries[f.k + 1].end : l.directory_offset;
    if (v < e.start || v > next || f.k + 1 == (long)l.entries.size())
      return "";
    // turns this entry into a single position, or the next one into one or from one
    if (v == e.start || v == next || e.end == next)
      return "single-or-list";
    return "late";
  }
  return "late"; // record headers
}

static void one(const Sample &s, const std::string &dir, const std::string &bytes, const std::string &cls, const std::string &what, bool store) {
  std::string path = dir;
  if (store) {
    Files f = s.directory;
    f[s.name] = bytes;
    restore(dir, f);
  } else {
    path = dir + "/" + s.name;
    spit(path, bytes);
  }
  vx::count(s_cases);
  vx::what(s.label + ":" + what);
  for (int back = 0; back < 2; back++) {
    Outcome o = open_and_ask(path, s, back);
    const auto &want = back ? s.want_back : s.want;
    std::string key = s.label + ":" + (cls.empty() ? "" : cls + ":") + what;
    if (o.what == 0) {
      if (o.error.empty())
        vx::viol(key, what + ": refused without an error message");
      vx::count(s_refused);
      return;
    }
    if (o.what == 3) {
      vx::viol(key + ":hang", what + ": " + (o.opened ? "reading" : "opening") + " does not end");
      return;
    }
    for (size_t i = 0; i < o.pieces.size(); i++)
      if (i >= want.size() || o.pieces[i] != want[i]) {
        // what nothing in the file can contradict until the list itself is read is reported once for its kind
        std::string kind = cls == "" || what.compare(0, 10, "idx.entry.") ? key : "shard:" + cls + ":" + what.substr(0, what.find('['));
        vx::viol(kind + ":misread", what + ": accepted, and " + (i < want.size() ? probe::diff(want[i], o.pieces[i]) : std::string("answers more")));
        return;
      }
    if (o.what == 2) {
      if ((cls == "late" || cls == "single-or-list") && o.opened && o.signal == SIGABRT) {
        vx::count(s_stopped);
        continue;
      }
      vx::viol(key + ":crash", what + ": " + (o.opened ? "reading" : "opening") + vx::sfmt(" ends with signal %d", o.signal));
      return;
    }
    if (o.pieces.size() != want.size()) {
      vx::viol(key + ":misread", what + ": answers less");
      return;
    }
    if (back)
      vx::count(s_same);
  }
}

static std::vector<Sample> make_samples(const std::string &root, bool thorough) {
  std::vector<Sample> v;
  struct Plan {
    const char *label, *code;
    int opt;
    addr chunk;
    bool merged;
  };
  std::vector<Plan> plans = {{"null", "ab", 0, 6, true}, {"post-zlib", "ao", 1, 4, true}, {"zlib", "b", 2, 1 << 20, false}, {"notes", "n", 1, 64, false}};
  if (thorough) {
    plans.push_back({"erased", "abo", 0, 8, true});
    plans.push_back({"punctuation", "pa", 2, 3, true});
    plans.push_back({"tokenless", "d", 0, 8, false});
    plans.push_back({"long", "L", 1, 64, false});
  }
  for (auto &p : plans) {
    Sample s;
    s.label = p.label;
    std::string dir = root + "/make", error;
    fs::remove_all(dir);
    Content c;
    if (!build(dir, p.code, OPTS[p.opt], &c, false))
      return {};
    const Options &o = OPTS[p.opt];
    Store st = open_parts(dir, o.pc, o.vc, o.tc);
    std::map<std::string, std::string> ps = {{"colour", "blue"}};
    std::vector<std::string> names;
    for (auto &x : shards(snapshot(dir)))
      if (x.kind == "fiver") {
        if (!fiver_hazel(st, x.name, p.chunk, freeze(ps), &error)) {
          vx::viol("setup", "single-file shard not written: " + error);
          return {};
        }
      }
    for (auto &x : shards(snapshot(dir)))
      names.push_back(x.name);
    if (p.merged && names.size() > 1 && !hazel_merge(st, names, &error)) {
      vx::viol("setup", "single-file shards not merged: " + error);
      return {};
    }
    s.directory = snapshot(dir);
    auto sh = shards(s.directory);
    if (sh.size() != 1) {
      vx::viol("setup", "one shard expected");
      return {};
    }
    s.name = sh[0].name;
    s.file = s.directory[s.name];
    s.layout = parse(s.file);
    s.probe = c.probe;
    if (!s.layout.ok) {
      vx::viol("setup:" + s.label, "the shard does not have the documented layout");
      return {};
    }
    v.push_back(s);
  }
  return v;
}

struct Case {
  int sample;
  int kind; // 0 truncate, 1 append, 2 field, 3 settings byte
  long a = 0;
  size_t field = 0;
  bool store = false;
};

int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string set = vx::arg(argc, argv, "set", "all");
  bool thorough = vx::arg(argc, argv, "samples", "few") == "many", bytes = vx::arg(argc, argv, "values", "menu") == "bytes";
  s_files = vx::stat_id("files");
  s_fields = vx::stat_id("fields");
  s_cases = vx::stat_id("damaged");
  s_refused = vx::stat_id("refused");
  s_same = vx::stat_id("identical");
  s_stopped = vx::stat_id("stopped");
  char tmpl[] = "/tmp/m03XXXXXX";
  if (!mkdtemp(tmpl))
    return 2;
  std::string root = tmpl;
  board = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bool ok = true;
  std::vector<Sample> samples;
  // the samples are built here (in a worker they could not be shared); build() reports through vx, so give it a worker
  struct Head { size_t n; };
  std::string cache = root + "/samples";
  ok = vx::run("setup", 1, [&](uint64_t) {
    auto v = make_samples(root, thorough);
    fs::create_directories(cache);
    int i = 0;
    for (auto &s : v) {
      std::string d = cache + "/" + std::to_string(i++);
      fs::create_directories(d);
      restore(d + "", s.directory);
      std::string k;
      for (addr x : s.probe.keys)
        k += std::to_string((long)x) + " ";
      std::string fz;
      for (auto &f : s.probe.features)
        fz += f + " ";
      spit(cache + "/" + std::to_string(i - 1) + ".about", s.label + "\n" + s.name + "\n" + k + "\n" + fz + "\n");
      vx::count(s_files);
      vx::count(s_fields, s.layout.fields.size());
      // the intact file, both ways
      std::string path = d + "/" + s.name;
      for (int store = 0; store < 2; store++)
        for (int back = 0; back < 2; back++) {
          Outcome o = open_and_ask(store ? d : path, s, back);
          if (o.what != 1)
            vx::viol("intact:" + s.label, "the intact shard cannot be read: " + o.error + vx::sfmt(" (signal %d)", o.signal));
        }
    }
  }) && ok;
  for (int i = 0;; i++) {
    std::string about = cache + "/" + std::to_string(i) + ".about";
    if (!fs::exists(about))
      break;
    Sample s;
    std::istringstream in(slurp(about));
    std::string k, fz;
    std::getline(in, s.label);
    std::getline(in, s.name);
    std::getline(in, k);
    std::getline(in, fz);
    std::istringstream ki(k), fi(fz);
    long x;
    while (ki >> x)
      s.probe.keys.push_back(x);
    std::string f;
    while (fi >> f)
      s.probe.features.push_back(f);
    std::string d = cache + "/" + std::to_string(i);
    s.directory = snapshot(d);
    s.file = s.directory[s.name];
    s.layout = parse(s.file);
    s.want = open_and_ask(d + "/" + s.name, s, false).pieces;
    s.want_back = open_and_ask(d + "/" + s.name, s, true).pieces;
    samples.push_back(s);
  }
  std::vector<Case> cases;
  for (size_t i = 0; i < samples.size(); i++) {
    const Sample &s = samples[i];
    if (set == "all" || set == "cut")
      for (int store = 0; store < 2; store++) {
        for (size_t n = 0; n < s.file.size(); n += n < s.file.size() ? 1 : 1)
          if (s.file.size() < 20000 || n % 16 < 2)
            cases.push_back({(int)i, 0, (long)n, 0, store == 1});
        for (long n : {1, 7, 8, 16, 24, 64, 4096})
          cases.push_back({(int)i, 1, n, 0, store == 1});
      }
    if (set == "all" || set == "fields")
      for (size_t f = 0; f < s.layout.fields.size(); f++)
        cases.push_back({(int)i, 2, 0, f, false});
    if (set == "all" || set == "settings")
      for (size_t b = 0; b < s.layout.dna_end; b++)
        cases.push_back({(int)i, 3, (long)b, 0, false});
  }
  vx::opt.chunk = 1;
  ok = vx::run("damage", cases.size(), [&](uint64_t i) {
    const Case &c = cases[i];
    const Sample &s = samples[c.sample];
    // the board is one per process
    static bool mine = false;
    if (!mine) {
      board = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      mine = true;
    }
    std::string dir = root + "/w" + std::to_string(vx::me);
    fs::create_directories(dir);
    std::string where = c.store ? "in its store: " : "";
    if (c.kind == 0)
      one(s, dir, s.file.substr(0, c.a), "", where + vx::sfmt("cut to %ld of %zu bytes", c.a, s.file.size()), c.store);
    else if (c.kind == 1)
      one(s, dir, s.file + std::string(c.a, '\x01'), "", where + vx::sfmt("%ld bytes appended", c.a), c.store);
    else if (c.kind == 2) {
      const Field &f = s.layout.fields[c.field];
      std::string role = f.name + (f.k >= 0 ? vx::sfmt("[%ld]", f.k) : "");
      std::set<std::string> values;
      std::string old = s.file.substr(f.at, f.size);
      auto add = [&](addr x) {
        std::string y(8, 0);
        memcpy(&y[0], &x, 8);
        values.insert(y);
      };
      for (size_t b = 0; b < f.size; b++)
        if (bytes && f.number) {
          for (int x = 0; x < 256; x++) {
            std::string y = old;
            y[b] = x;
            values.insert(y);
          }
        } else
          for (int bit = 0; bit < 8; bit++) {
            std::string y = old;
            y[b] = y[b] ^ (1 << bit);
            values.insert(y);
          }
      if (f.number) {
        addr x = num(s.file, f.at);
        for (addr y : {(addr)0, (addr)1, (addr)-1, x - 1, x + 1, x - 8, x + 8, x - 16, x + 16, x - 24, x + 24, x - 40, x + 40, -x, 2 * x, x / 2, (addr)s.file.size(), (addr)s.file.size() - 1,
                       (addr)1 << 40, ((addr)1 << 60) + x, ((addr)1 << 59) + x, ((addr)1 << 61) + x, (addr)0x7fffffffffffffffL, (addr)0x7fffffffffffffffL - x, (addr)0x8000000000000000L, maxfinity, minfinity})
          add(y);
        if (f.name == "idx.entry.end" || f.name == "idx.directory_offset")
          for (auto &e : s.layout.entries) {
            add(e.end);
            add(e.end + 1);
          }
        if (f.name == "idx.entry.feature")
          for (auto &e : s.layout.entries) {
            add(e.feature);
            add(e.feature + 1);
          }
        if (f.name.compare(0, 4, "blob") == 0 || f.name.compare(0, 4, "txt.") == 0)
          for (auto &g : s.layout.fields)
            if (g.number && (g.name.compare(0, 4, "blob") == 0 || g.name.compare(0, 4, "txt.") == 0))
              add(num(s.file, g.at));
      }
      values.erase(old);
      for (auto &y : values) {
        std::string b = s.file;
        b.replace(f.at, f.size, y);
        std::string cls = judge(s.layout, f, b);
        if (cls == "data")
          continue;
        std::string to = f.number ? vx::sfmt("%ld to %ld", (long)num(s.file, f.at), (long)num(b, f.at)) : vx::esc(old) + " to " + vx::esc(y);
        one(s, dir, b, cls, role + " from " + to, false);
      }
    } else {
      // the settings text: any outcome but a crash or a hang
      std::string b = s.file;
      for (int how = 0; how < 4; how++) {
        std::string y = b;
        if (how == 0)
          y.erase(c.a, 1);
        else if (how == 1)
          y[c.a] ^= 1;
        else if (how == 2)
          y[c.a] = '"';
        else
          y.insert(c.a, 1, '[');
        if (y == b)
          continue;
        std::string what = vx::sfmt("settings byte %ld %s", c.a, how == 0 ? "removed" : how == 1 ? "flipped" : how == 2 ? "made a quote" : "after a bracket");
        spit(dir + "/" + s.name, y);
        vx::count(s_cases);
        vx::what(s.label + ":" + what);
        Outcome o = open_and_ask(dir + "/" + s.name, s, false);
        if (o.what == 3)
          vx::viol(s.label + ":" + what + ":hang", what + ": does not end");
        else if (o.what == 2 && !(o.opened && o.signal == SIGABRT))
          vx::viol(s.label + ":" + what + ":crash", what + ": " + (o.opened ? "reading" : "opening") + vx::sfmt(" ends with signal %d", o.signal));
        else if (o.what == 0)
          vx::count(s_refused);
        else if (o.what == 2)
          vx::count(s_stopped);
      }
    }
  }) && ok;
  fs::remove_all(root);
  return ok ? 0 : 1;
}
