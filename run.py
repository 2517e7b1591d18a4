#!/usr/bin/env python3
"""Driver: build a check's harness against /repo's working tree, explore, write evidence.

usage: run.py <ID> [quick|thorough]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; other: error.
"""
import array
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
NPROC = os.cpu_count() or 8
VER = {"PT_VERSION_MAJOR": "2", "PT_VERSION_MINOR": "2", "PT_VERSION_PATCH": "0",
       "PT_VERSION_BUILD": "0", "PT_VERSION_EXT": "devel"}

sys.path.insert(0, os.path.join(HERE, "src"))
from checks import CHECKS  # noqa: E402

BASE = ["-D_POSIX_C_SOURCE=200809L", "-DFEATURE_THREADS", "-DFEATURE_ELF", "-DFEATURE_SIDEBAND",
        "-DFEATURE_PEVENT", "-DPT_VERSION_MAJOR=2", "-DPT_VERSION_MINOR=2",
        "-DPT_VERSION_PATCH=0", "-DPT_VERSION_BUILD=0", '-DPT_VERSION_EXT="devel"',
        "-fvisibility=hidden", "-w", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    "fast": ["-O2"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
}


def version():
    """Read the library version from the top-level build file, so headers match."""
    v = dict(VER)
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
        for k in ("MAJOR", "MINOR", "PATCH"):
            m = re.search(r"set\(PT_VERSION_%s\s+\"?(\d+)\"?" % k, t)
            if m:
                v["PT_VERSION_" + k] = m.group(1)
    except OSError:
        pass
    return v


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    return p.returncode, p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for d in ("include", "libipt", "sideband", "pevent", "ptdump", "pttc", "ptseg"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs if f.endswith((".c", ".h", ".in"))]
    return out


def gen_headers(dst):
    os.makedirs(dst, exist_ok=True)
    v = version()
    for src, name in (("libipt/include/intel-pt.h.in", "intel-pt.h"),
                      ("sideband/include/libipt-sb.h.in", "libipt-sb.h")):
        t = open(os.path.join(REPO, src)).read()
        for k, x in v.items():
            t = t.replace("${%s}" % k, x).replace("@%s@" % k, x)
        p = os.path.join(dst, name)
        with open(p, "w") as f:
            f.write(t)


def incs(gen):
    return ["-I" + x for x in (gen, REPO + "/include", REPO + "/include/posix",
                               REPO + "/libipt/internal/include",
                               REPO + "/libipt/internal/include/posix",
                               REPO + "/sideband/include", REPO + "/sideband/internal/include",
                               REPO + "/pevent/include", REPO + "/pttc/include")]


def lib_sources(which):
    if which == "ipt":
        return sorted(glob.glob(REPO + "/libipt/src/*.c") + glob.glob(REPO + "/libipt/src/posix/*.c"))
    if which == "sb":
        return sorted(glob.glob(REPO + "/sideband/src/*.c") + glob.glob(REPO + "/pevent/src/*.c"))
    if which == "pttc":
        return [f for f in sorted(glob.glob(REPO + "/pttc/src/*.c") + glob.glob(REPO + "/pttc/src/posix/*.c"))
                if os.path.basename(f) != "main.c"]
    raise KeyError(which)


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.flags = VARIANTS[variant]
        self.th = tree_hash(repo_files())
        self.dir = os.path.join(CACHE, self.th + "-" + variant)
        self.gen = os.path.join(CACHE, self.th + "-gen")
        if not os.path.exists(os.path.join(self.gen, "libipt-sb.h")):
            gen_headers(self.gen)
        self.cc_flags = ["-std=gnu11"] + BASE + self.flags + incs(self.gen)

    def objs(self, which):
        od = os.path.join(self.dir, which)
        done = os.path.join(od, ".done")
        srcs = lib_sources(which)
        objs = [os.path.join(od, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o") for s in srcs]
        if os.path.exists(done):
            return objs
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)

        def one(so):
            return sh(["gcc"] + self.cc_flags + ["-c", so[0], "-o", so[1]])
        # biggest first
        order = sorted(zip(srcs, objs), key=lambda p: -os.path.getsize(p[0]))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (rc, out), (s, _) in zip(ex.map(one, order), order):
                if rc:
                    fail("compiling %s:\n%s" % (s, out[-3000:]))
        open(done, "w").close()
        return objs


def prune_cache():
    try:
        ds = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE))
    except OSError:
        return
    now = time.time()
    while len(ds) > 24:
        m, d = ds.pop(0)
        if now - m > 3600:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)


def build_harness(b, spec, outdir):
    libs = []
    for w in spec.get("libs", ["ipt"]):
        libs += b.objs(w)
    skip = spec.get("skip", [])
    libs = [o for o in libs if not any(o.endswith(s) for s in skip)]
    srcs = [os.path.join(HERE, "src", s) for s in spec["src"]]
    objs = []
    cxx = ["g++", "-std=c++17", "-D_GNU_SOURCE", "-D_DEFAULT_SOURCE", "-w", "-g1",
           "-DREPO=\"%s\"" % REPO] + spec.get("cxxflags", []) + \
        (spec["harness_flags"] if "harness_flags" in spec else b.flags) + incs(b.gen) + \
        ["-I" + os.path.join(HERE, "src")]
    cc = ["gcc"] + b.cc_flags + ["-I" + os.path.join(HERE, "src")]
    jobs = []
    for s in srcs:
        o = os.path.join(outdir, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append((cxx if s.endswith(".cpp") else cc) + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, out in ex.map(sh, jobs):
            if rc:
                fail("compiling the harness:\n" + out[-4000:])
    exe = os.path.join(outdir, "h")
    ld = ["g++"] + b.flags + objs + libs + ["-o", exe, "-pthread"]
    for w in spec.get("wrap", []):
        ld.append("-Wl,--wrap=" + w)
    ld += spec.get("ldflags", [])
    rc, out = sh(ld)
    if rc:
        fail("linking:\n" + out[-4000:])
    return exe


def run_shard(exe, pid, tier, seed, shard, n, work, deadline, part):
    out = os.path.join(work, "%s-%d.json" % (part, shard))
    hashes = array.array("Q")
    cur = os.path.join(work, "%s-%d.cur" % (part, shard))
    scratch = os.path.join(work, "scratch-%s-%d" % (part, shard))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    for p in (out, cur):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:" \
        "quarantine_size_mb=16:handle_abort=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=98:second_deadlock_stack=1"
    cmd = [exe, tier, str(shard), str(n), str(seed), out, cur, str(deadline), scratch, part]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                           timeout=deadline + 120, cwd=scratch)
        rc, log = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, log = -999, (e.stdout or b"").decode("utf-8", "replace")
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    if res is not None and os.path.exists(out + ".h"):
        hashes.frombytes(open(out + ".h", "rb").read())
        res["hashes"] = hashes
    curtext = ""
    if os.path.exists(cur):
        curtext = open(cur, "rb").read().split(b"\0\0\0\0\0\0\0\0", 1)[0].decode("utf-8", "replace")
    return rc, log, res, curtext, time.time() - t


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, bool):
            dst[k] = dst.get(k, True) and v
        elif isinstance(v, (int, float)):
            if k.startswith("max_"):
                dst[k] = max(dst.get(k, 0), v)
            elif k.startswith("const_"):
                dst[k] = v
            else:
                dst[k] = dst.get(k, 0) + v
        elif isinstance(v, list):
            dst.setdefault(k, [])
            dst[k] += v
        elif isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        else:
            dst.setdefault(k, v)


def known(pid):
    ks = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                ks[m.group(2)] = m.group(3).strip()
    return ks


def main():
    if sys.argv[1:2] == ["--warm"]:
        want = {(p.get("variant", "fast"), w) for c in CHECKS.values() for p in c["parts"]
                for w in p.get("libs", ["ipt"])}
        for v, w in sorted(want):
            Builder(v).objs(w)
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    work = os.path.join(HERE, "build", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    viols, cov, errors = [], {}, []
    try:
        parts = spec["parts"]
        # phase 1: build everything
        exes, built = [], {}
        for i, part in enumerate(parts):
            key = repr(sorted((k, v) for k, v in part.items() if k not in ("name", "deadline", "shards")))
            if key not in built:
                b = Builder(part.get("variant", "fast"))
                d = os.path.join(work, "p%d" % i)
                os.makedirs(d)
                built[key] = build_harness(b, part, d)
            exes.append(built[key])
        tb = time.time() - t0
        for i, part in enumerate(parts):
            n = part.get("shards", NPROC)
            total = part.get("deadline", {}).get(tier, 400 if tier == "quick" else 6000)
            name = part.get("name", "p%d" % i)

            def job(s, i=i, n=n, total=total, name=name):
                r = run_shard(exes[i], pid, tier, seed, s, n, work, total, name)
                if r[0] not in (0, 1) or r[2] is None:
                    # a crash or a hang: only believed when it repeats
                    r2 = run_shard(exes[i], pid, tier, seed, s, n, work, total, name)
                    if r2[0] not in (0, 1) or r2[2] is None:
                        return r2 + (True,)
                    return r2 + (False,)
                return r + (False,)
            with cf.ThreadPoolExecutor(NPROC) as ex:
                rs = list(ex.map(job, range(n)))
            pc, hs = {}, set()
            for s, (rc, log, res, cur, w, crashed) in enumerate(rs):
                if crashed:
                    if rc == 3:
                        errors.append("harness error (%s/%d): %s" % (name, s, log[-2000:]))
                        continue
                    kind = {99: "memory-error", -999: "hang", 97: "hang"}.get(rc, "crash(%d)" % rc)
                    viols.append({"key": "%s:%s" % (kind, name),
                                  "text": "%s in %s shard %d\ncase: %s\n%s" %
                                  (kind, name, s, cur, log[-6000:])})
                    continue
                if res.get("errors"):
                    errors += res["errors"]
                viols += res.get("violations", [])
                merge(pc, res.get("coverage", {}))
                hs.update(res.get("hashes", ()))
            if hs:
                pc["distinct_nontrivial"] = len(hs)
                if "distinct_set_full" in pc:
                    pc["distinct_set_full"] = True
            if len(parts) == 1:
                cov = pc
            else:
                cov.setdefault("parts", {})[name] = pc
                for k in ("evaluations", "distinct_nontrivial", "states", "transitions",
                          "traces_validated_against_impl", "samples", "exhaustive"):
                    if k in pc:
                        merge(cov, {k: pc[k]})
        cov["build_s"] = round(tb, 2)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune_cache()
    sm = []
    for x in cov.get("samples", []):
        if x not in sm:
            sm.append(x)
    cov["samples"] = sm[:8]
    cov.setdefault("rule", spec.get("rule", ""))
    cov["explanation"] = spec.get("explanation", "")
    ks = known(pid)
    seen_known, fresh = {}, []
    for v in viols:
        if v["key"] in ks:
            seen_known.setdefault(v["key"], v)
        else:
            fresh.append(v)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in seen_known:
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, ks[k]))
    if fresh:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            f.write("# property %s tier %s seed %d\n# reproduce: cd /verif && ./run.py %s %s\n" %
                    (pid, tier, seed, pid, tier))
            for v in fresh[:20]:
                f.write("\n== key: %s\n%s\n" % (v["key"], v["text"]))
        for v in fresh[:5]:
            print("  [%s] %s" % (v["key"], v["text"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        sys.exit(1)
    if errors:
        fail("; ".join(errors)[:4000])
    print("OK property=%s tier=%s %s wall=%.1fs" % (
        pid, tier, " ".join("%s=%s" % (k, cov[k]) for k in
                            ("evaluations", "distinct_nontrivial", "states", "transitions",
                             "traces_validated_against_impl", "exhaustive") if k in cov),
        time.time() - t0), flush=True)


if __name__ == "__main__":
    main()
