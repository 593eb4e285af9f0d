#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]   decides one property against /repo."""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK) and shutil.disk_usage(d).free > 2 << 30:
            return d
    return tempfile.gettempdir()


def run_harness(exe, args, scratch, timeout, env_extra, as_nobody=True):
    """Runs one harness as an unprivileged user inside its own scratch directory."""
    env = {"PATH": "/usr/bin:/bin", "HOME": scratch, "LC_ALL": "C.UTF-8", "TMPDIR": scratch,
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
           "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"}
    env.update(env_extra)

    def pre():
        os.setsid()
        if as_nobody and os.getuid() == 0:
            os.setgroups([]); os.setgid(65534); os.setuid(65534)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    log = open(os.path.join(scratch, "stderr.log"), "w+b")
    p = subprocess.Popen([exe] + args, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=log,
                         stdin=subprocess.DEVNULL, preexec_fn=pre)
    timed_out = False
    try:
        so, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, signal.SIGKILL)
        so, _ = p.communicate()
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    log.seek(0, 2); n = log.tell(); log.seek(max(0, n - 20000)); err = log.read().decode("utf8", "replace"); log.close()
    return p.returncode, so.decode("utf8", "replace"), err, timed_out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None, help="replay one harness argument string")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    c = CHECKS[a.id]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = known_findings(a.id)
    stats, samples, viols, spaces, runs = {}, [], [], [], []
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % a.id, dir=scratch_root())
    os.chmod(scratch, 0o755)
    broken = None
    bins = tempfile.mkdtemp(prefix="bin-", dir=scratch); os.chmod(bins, 0o755)
    try:
        for step in c["steps"]:
            if a.tier == "quick" and step.get("thorough_only"): continue
            exe0 = vbuild.build(step["name"], step["sources"], step.get("variant", "plain"), step.get("libs", ()))
            exe = os.path.join(bins, os.path.basename(exe0)); shutil.copy(exe0, exe); os.chmod(exe, 0o755)
            tb = time.time()
            for args in (step[a.tier] if a.tier in step else step["quick"]):
                if a.v: print("# %.1fs build+; run %s %s" % (time.time() - t0, step["name"], " ".join(args)), flush=True)
                d = tempfile.mkdtemp(prefix="run-", dir=scratch); os.chmod(d, 0o755)
                if os.getuid() == 0: os.chown(d, 65534, 65534)
                budget = 840 if a.tier == "quick" else 24 * 3600
                left = max(30, budget - (time.time() - t0))
                rc, so, err, to = run_harness(exe, list(args), d, left, {"VERIF_SEED": str(seed)})
                tr = time.time()
                nv = 0
                for line in so.splitlines():
                    if line.startswith("@STAT "):
                        k, v = line[6:].rsplit(" ", 1); stats[k] = stats.get(k, 0) + int(v)
                    elif line.startswith("@SAMPLE "):
                        samples.append(line[8:][:600])
                    elif line.startswith("@VIOL "):
                        k, _, det = line[6:].partition("\t")
                        viols.append((k, det, step["name"], list(args))); nv += 1
                    elif line.startswith("@SPACE "):
                        f = line[7:].rsplit(" ", 2); spaces.append({"space": f[0], "cases": int(f[1]), "complete": f[2] == "complete"})
                    elif a.v: print("  " + line)
                runs.append({"harness": step["name"], "args": " ".join(args), "rc": rc})
                if to:
                    broken = "harness %s %s exceeded the time limit" % (step["name"], args)
                elif rc == 90:
                    broken = "harness %s %s refused to run\n%s" % (step["name"], args, err[-3000:])
                elif rc != 0 and nv == 0:
                    viols.append(("abnormal end of %s %s" % (step["name"], " ".join(args)),
                                  "status %s; last output: %s" % (rc, (err or so)[-1200:].replace("\n", " | ")), step["name"], list(args)))
                if a.v: print("# %.1fs done rc=%s viols=%d\n%s" % (time.time() - t0, rc, nv, err[-1500:] if a.v else ""), flush=True)
                shutil.rmtree(d, ignore_errors=True)
                if broken: break
            if broken: break
    except vbuild.BuildError as e:
        print("BUILD-ERROR: %s" % e); sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    outdir = os.path.join(VERIF, "out", a.id)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir, exist_ok=True)
    seen_known, fresh = {}, []
    for k, det, name, args in viols:
        for kk, text in known:
            if k == kk or (kk.endswith("*") and k.startswith(kk[:-1])):
                seen_known.setdefault(kk, (text, 0)); seen_known[kk] = (text, seen_known[kk][1] + 1); break
        else:
            fresh.append((k, det, name, args))
    for kk, text in known:
        print("KNOWN-FINDING: property=%s %s (key %s, seen %d times this run)" % (a.id, text, kk, seen_known.get(kk, ("", 0))[1]))
    cov = dict(c["coverage"](stats)) if callable(c.get("coverage")) else {}
    cov.setdefault("samples", samples[:8] or ["(no sample)"])
    cov["spaces"] = spaces
    cov["exhaustive"] = bool(spaces) and all(s["complete"] for s in spaces) and not broken
    cov["counters"] = stats
    ev = {"property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": c["level"],
          "coverage": cov, "assumptions": c.get("assumptions", []), "violations": len(fresh), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for i, (k, det, name, args) in enumerate(fresh[:10]):
        rp = os.path.join(outdir, "replay-%d.json" % i)
        with open(rp, "w") as f:
            json.dump({"property": a.id, "key": k, "detail": det, "harness": name, "args": args}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        print("  %s: %s" % (k[:300], det[:1500]))
    if fresh:
        sys.exit(1)
    if broken:
        print("CHECK-ERROR: " + broken); sys.exit(3)
    print("OK property=%s %s in %.1fs: %s" % (a.id, a.tier, time.time() - t0, json.dumps(stats)))
    sys.exit(0)


if __name__ == "__main__":
    main()
