"""Builds /repo's working tree and the harnesses, with a content-addressed object cache.

Objects live in /verif/build (ignored by git).  An object's name is the hash of its
flags, its own text and the text of every header it could include, so a stale object
is never used and nothing depends on file times.
"""
import glob, hashlib, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

STD = ["-std=c++20", "-w", "-pthread"]
VARIANTS = {
    # plain: sequential and crash exploration
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"],
    # san: as plain, with memory and UB checking as additional monitors
    "san": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    # mc: every shared access is reported to harness/mcrt.cc (no libtsan)
    "mc": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-fno-omit-frame-pointer", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp"],
}
HOOKS = ["-DCOTTONTAIL_VERIF"]
CXX = os.environ.get("CXX", "g++")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(d, "*.h")) + glob.glob(os.path.join(d, "*.hpp"))):
            h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_all(jobs):
    """jobs: list of (src, obj, cmd). Runs missing ones in parallel."""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    todo.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        src, obj, cmd = j
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(obj)); os.close(fd)
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            os.unlink(tmp)
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, todo))


def repo_sources():
    s = []
    for d in ("src", "gcl", "meadowlark"):
        s += sorted(glob.glob(os.path.join(REPO, d, "*.cc")))
    return s


_rh = {}


def repo_header_digest():
    if "d" not in _rh:
        _rh["d"] = _headers_digest([os.path.join(REPO, d) for d in ("src", "gcl", "meadowlark")])
    return _rh["d"]


def lib_jobs(variant, extra=()):
    flags = STD + VARIANTS[variant] + HOOKS + list(extra) + ["-I", REPO]
    jobs = []
    for src in repo_sources():
        h = hashlib.sha256()
        h.update(CXX.encode()); h.update(" ".join(flags).encode())
        h.update(repo_header_digest().encode()); h.update(src.encode()); h.update(_read(src))
        obj = os.path.join(BUILD, "obj", variant, os.path.basename(src)[:-3] + "-" + h.hexdigest()[:24] + ".o")
        jobs.append((src, obj, [CXX] + flags))
    return jobs


def harness_jobs(sources, variant, extra=(), instrument=True):
    flags = list(STD)
    v = list(VARIANTS[variant])
    flags += v + HOOKS + list(extra) + ["-I", REPO, "-I", os.path.join(VERIF, "harness")]
    hd = _headers_digest([os.path.join(VERIF, "harness")])
    jobs = []
    for s in sources:
        src = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
        f = list(flags)
        if os.path.basename(src) in ("mcrt.cc", "fsx.cc"):
            f = [x for x in f if not x.startswith("-fsanitize") and not x.startswith("-fno-sanitize")]
            f += ["-O2"]
        h = hashlib.sha256()
        h.update(CXX.encode()); h.update(" ".join(f).encode()); h.update(hd.encode())
        h.update(repo_header_digest().encode()); h.update(src.encode()); h.update(_read(src))
        obj = os.path.join(BUILD, "obj", variant, "h-" + os.path.basename(src)[:-3] + "-" + h.hexdigest()[:24] + ".o")
        jobs.append((src, obj, [CXX] + f))
    return jobs


def build(name, sources, variant="plain", libs=(), extra=()):
    """Builds harness `name` from `sources` (in /verif/harness) against /repo; returns its path."""
    lj, hj = lib_jobs(variant), harness_jobs(sources, variant, extra)
    compile_all(lj + hj)
    objs = [j[1] for j in hj] + [j[1] for j in lj]
    h = hashlib.sha256("\n".join(objs).encode()); h.update(repr(tuple(libs)).encode())
    exe = os.path.join(BUILD, "bin", name + "-" + variant + "-" + h.hexdigest()[:24])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(exe)); os.close(fd)
        link = [CXX, "-o", tmp, "-rdynamic", "-pthread"]
        if "mcrt.cc" in [os.path.basename(x) for x in sources]:
            link += ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]
        if variant == "san":
            link += ["-fsanitize=address,undefined"]
        r = sh(link + objs + ["-lz", "-ldl"] + list(libs))
        if r.returncode != 0:
            if os.path.exists(tmp): os.unlink(tmp)
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.chmod(tmp, 0o755)
        os.rename(tmp, exe)
    return exe


def prune():
    """Keeps the cache small: drops objects older than the newest 3 per source."""
    import collections
    groups = collections.defaultdict(list)
    for p in glob.glob(os.path.join(BUILD, "obj", "*", "*.o")) + glob.glob(os.path.join(BUILD, "bin", "*")):
        groups[p.rsplit("-", 1)[0]].append(p)
    for g in groups.values():
        g.sort(key=os.path.getmtime, reverse=True)
        for p in g[4:]:
            try: os.unlink(p)
            except OSError: pass
