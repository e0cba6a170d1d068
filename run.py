#!/usr/bin/env python3
"""Driver of the property checks.

  run.py C01            build from /repo's working tree, run the check, write evidence/C01.json
  run.py C01 --replay F run one saved case (prints the verdict)
  run.py --setup        nothing is needed beforehand: verifies the toolchain only

Exit status of a check: 0 = held on everything explored, 1 = VIOLATION line printed.
"""
import fcntl, hashlib, json, os, random, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
INC = "-include cassert -include cmath -include cstddef -include cstring -include limits"
SAN = "-O1 -g1 -DNDEBUG -DEXSEISDAT_VERIF_HOOKS -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined"
NPROC = os.cpu_count() or 8

# id -> jobs: list of np per parallel job; utils: utilities linked in-process
CHECKS = json.load(open(os.path.join(ROOT, "tools", "checks.json")))


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_osc="pt2pt",
             # Open MPI 4.1.6's default collective-I/O component writes stray bytes into the
             # holes of strided views from 3 processes on (DESIGN.md, trusted base).
             OMPI_MCA_fcoll="individual",
             OMPI_MCA_orte_tmpdir_base=SCRATCH[0] or "/tmp",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:allow_user_segv_handler=0",
             UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", LC_ALL="C.UTF-8", HOME="/root")
    return e


SCRATCH = [None]


def tree_hash():
    h = hashlib.sha256()
    for top in ("src", "include", "util", "CMakeLists.txt"):
        p = os.path.join(REPO, top)
        fl = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in fl:
            h.update(f.encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
    h.update(SAN.encode())
    return h.hexdigest()[:16]


def sh(cmd, logf, timeout=800):
    with open(logf, "ab") as f:
        return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=f, stderr=f, timeout=timeout,
                              env=env()).returncode


def showme(what):
    return subprocess.check_output(["mpicxx", "--showme:" + what], text=True, env=env()).strip()


class BuildError(Exception):
    pass


def build(prop):
    """Library (sanitized) from REPO, utilities the check asks for, and the harness."""
    cfg = CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    d = os.path.join(BUILD, "t-" + th)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    lf = os.path.join(d, "build.log")
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    old = sorted((x for x in os.listdir(BUILD) if x.startswith("t-") and x != os.path.basename(d)),
                 key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
    for x in old[:-3]:
        shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    lib = os.path.join(d, "libexseisdat.a")
    utils = cfg.get("utils", [])
    src = os.path.join(HARN, cfg.get("harness", prop) + ".cc")
    flags = "-std=c++14 -w %s %s -DEXSEISDAT_MPIIO_COLLECTIVES" % (INC, SAN)
    flags += " " + cfg.get("cxxflags", "")
    inc = "-I%s/include -I%s %s" % (REPO, HARN, showme("compile"))
    hh = hashlib.sha256()
    for f in sorted(os.listdir(HARN)):
        if f.endswith((".hh", ".h")) or f == os.path.basename(src):
            hh.update(open(os.path.join(HARN, f), "rb").read())
    hh.update((flags + " ".join(utils) + " ".join(cfg.get("extra_src", []))).encode())
    exe = os.path.join(d, prop + "-" + hh.hexdigest()[:12])
    if os.path.exists(exe) and os.path.exists(lib):
        return exe, d
    obj = exe + ".o"
    with ThreadPoolExecutor(4) as ex:
        futs = [(src, ex.submit(sh, "g++ %s %s -c %s -o %s" % (flags, inc, src, obj), lf))]
        eobjs = []
        for s in cfg.get("extra_src", []):
            eo = exe + "-" + s.replace(".", "_") + ".o"
            eobjs.append(eo)
            cc = "gcc -w -O1 -g1 -fsanitize=address,undefined" if s.endswith(".c") else "g++ " + flags
            futs.append((s, ex.submit(sh, "%s %s -c %s -o %s" % (cc, inc, os.path.join(HARN, s), eo), lf)))
        if not os.path.exists(lib) or any(not os.path.exists(os.path.join(d, u + ".o")) for u in utils):
            cm = ["cmake", "-S", REPO, "-B", os.path.join(d, "lib"), "-G", "Unix Makefiles",
                  "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                  "-DCMAKE_BUILD_TYPE=None", "-DEXSEISDAT_BUILD_UTILITIES=ON",
                  "-DEXSEISDAT_BUILD_EXAMPLES=OFF", "-DEXSEISDAT_BUILD_TESTS=OFF",
                  "-DEXSEISDAT_BUILD_DOCUMENTATION=OFF",
                  "-DCMAKE_C_FLAGS=-w -Wno-error " + SAN,
                  "-DCMAKE_CXX_FLAGS=-w -Wno-error -fno-gnu-unique %s %s" % (INC, SAN)]
            if sh(cm, lf) != 0:
                raise BuildError("cmake failed")
            if sh(["make", "-C", os.path.join(d, "lib"), "-j%d" % NPROC, "exseisdat"] + utils, lf) != 0:
                raise BuildError("the library does not build")
            found = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(d, "lib")) for f in fs
                     if f == "libexseisdat.a"]
            if not found:
                raise BuildError("no libexseisdat.a was built")
            shutil.copyfile(found[0], lib + ".tmp")
            os.rename(lib + ".tmp", lib)
            for u in utils:
                od = [os.path.join(r, x) for r, ds, _ in os.walk(os.path.join(d, "lib")) for x in ds
                      if x == u + ".dir"]
                objs = sorted(os.path.join(r, f) for r, _, fs in os.walk(od[0]) for f in fs if f.endswith(".o"))
                sym = "util_main_" + u.replace("exseis-", "").replace("-", "_")
                t = os.path.join(d, u + ".r.o")
                if sh(["ld", "-r", "--force-group-allocation", "-o", t] + objs, lf) != 0:
                    raise BuildError("ld -r failed for " + u)
                if sh(["objcopy", "--redefine-sym", "main=" + sym, "--keep-global-symbol=" + sym, t,
                       os.path.join(d, u + ".o")], lf) != 0:
                    raise BuildError("objcopy failed for " + u)
        for s, f in futs:
            if f.result() != 0:
                raise BuildError("the harness does not build: " + s)
    link = "g++ %s %s %s %s %s %s -lfftw3f -lfftw3 %s -o %s.tmp" % (
        SAN, obj, " ".join(eobjs), " ".join(os.path.join(d, u + ".o") for u in utils), lib,
        showme("link"), cfg.get("ldflags", ""), exe)
    if sh(link, lf) != 0:
        raise BuildError("the harness does not link")
    os.rename(exe + ".tmp", exe)
    return exe, d


# ---------------------------------------------------------------------------
def read_live(path):
    """Draws of the running case, and the heartbeat."""
    try:
        b = open(path, "rb").read()
    except OSError:
        return [], 0
    if len(b) < 16:
        return [], 0
    n = struct.unpack_from("<Q", b, 0)[0]
    n = min(n, len(b) // 8 - 2)
    return list(struct.unpack_from("<%dQ" % n, b, 8)), struct.unpack_from("<Q", b, len(b) - 8)[0]


class Proc:
    """One harness run under mpirun, with progress supervision."""

    def __init__(self, exe, np, args, tag, hang=60.0, tier="quick"):
        self.np, self.tag, self.hang = np, tag, hang
        self.dir = tempfile.mkdtemp(prefix="j-", dir=SCRATCH[0])
        self.live = os.path.join(self.dir, "live")
        self.out = os.path.join(self.dir, "out.json")
        self.fail = os.path.join(self.dir, "fail.case")
        self.logf = os.path.join(self.dir, "log")
        work = os.path.join(self.dir, "w")
        os.mkdir(work)
        cmd = [exe, "--live", self.live, "--out", self.out, "--fail", self.fail, "--scratch", work,
               "--tier", tier] + args
        if np > 1:
            cmd = ["mpirun", "--oversubscribe", "-np", str(np)] + cmd
        e = env()
        e["OMPI_MCA_orte_tmpdir_base"] = self.dir
        e["TMPDIR"] = self.dir
        self.f = open(self.logf, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=self.f, stdin=subprocess.DEVNULL,
                                  cwd=work, env=e, start_new_session=True)
        self.last = (None, None)
        self.since = time.time()
        self.hung = False
        self.start = time.time()

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return True
        lv, hb = read_live(self.live)
        cur = (hb, len(lv))
        if cur != self.last:
            self.last, self.since = cur, time.time()
        elif time.time() - self.since > self.hang:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGTERM)
            time.sleep(0.3)
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass

    def wait(self):
        while not self.poll():
            time.sleep(0.05)
        return self.result()

    def result(self):
        self.f.close()
        r = {}
        try:
            r = json.load(open(self.out))
        except Exception:
            pass
        txt = open(self.logf, "rb").read().decode("utf8", "replace")
        if r.get("done") and (self.p.returncode == 0 or r.get("failed")):
            if r.get("failed"):
                return dict(kind="fail", msg=r.get("msg", ""), stats=r, log=txt)
            return dict(kind="pass", stats=r, msg="", log=txt)
        if self.hung:
            return dict(kind="hang", msg="a collective operation did not complete within %ds" % self.hang,
                        stats=r, log=txt)
        return dict(kind="crash", msg=crash_summary(txt, self.p.returncode), stats=r, log=txt)

    def case(self):
        """The failing case: saved by the harness, or recovered from the live record."""
        if os.path.exists(self.fail):
            return read_case(self.fail)
        return read_live(self.live)[0]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def crash_summary(txt, rc):
    for key in ("ERROR: AddressSanitizer", "runtime error:", "MPI_ERR", "terminate called", "what():",
                "Fatal Error", "signal"):
        for l in txt.splitlines():
            if key in l:
                return "the process ended abnormally: " + l.strip()[:300]
    return "the process ended abnormally (status %s)" % rc


def read_case(f):
    return [int(l) for l in open(f) if l.strip() and not l.startswith("#")]


def write_case(f, case, np, msg, desc=""):
    with open(f, "w") as o:
        o.write("# np %d\n" % np)
        for l in msg.splitlines()[:30]:
            o.write("# msg %s\n" % l)
        for l in desc.splitlines()[:30]:
            o.write("# case %s\n" % l)
        o.writelines("%d\n" % x for x in case)


def replay(exe, np, case, hang=60.0, tier="quick", extra=()):
    cf = tempfile.mktemp(prefix="case-", dir=SCRATCH[0])
    write_case(cf, case, np, "")
    p = Proc(exe, np, ["--replay", cf] + list(extra), "replay", hang, tier)
    r = p.wait()
    r["desc"] = next((l[6:] for l in r["log"].splitlines() if l.startswith("case: ")), "")
    p.close()
    os.unlink(cf)
    return r


def shrink_out(exe, np, case, kind, tier, budget, hang=20.0):
    """Out-of-process shrinking, for crashes (the in-process shrinker cannot survive them)."""
    t0 = time.time()
    best = list(case)

    def tryall(cands):
        with ThreadPoolExecutor(max(1, NPROC // max(2, np))) as ex:
            for c, r in zip(cands, ex.map(lambda c: replay(exe, np, c, hang, tier), cands)):
                if r["kind"] == kind:
                    return c
        return None

    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        n = len(best)
        for ln in (max(1, n // 2), max(1, n // 4), 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() - t0 < budget:
                cands = []
                j = i
                while j < len(best) and len(cands) < 8:
                    cands.append(best[:j] + best[j + ln:])
                    j += ln
                c = tryall([x for x in cands if len(x) < len(best)])
                if c is not None:
                    best, improved = c, True
                else:
                    i = j
        for i in range(len(best)):
            if time.time() - t0 > budget:
                break
            if best[i] == 0:
                continue
            cands = [best[:i] + [v] + best[i + 1:] for v in sorted({0, 1, best[i] // 2, best[i] - 1}) if v < best[i]]
            c = tryall(cands)
            if c is not None:
                best, improved = c, True
    return best


def check(prop, tier, seed):
    cfg = CHECKS[prop]
    t0 = time.time()
    try:
        exe, bdir = build(prop)
    except BuildError as e:
        log("BUILD FAILED:", e, "- see", os.path.join(BUILD))
        subprocess.run("tail -n 40 %s/t-%s/build.log" % (BUILD, tree_hash()), shell=True)
        return 2
    tb = time.time() - t0
    secs = cfg.get("secs", 25) if tier == "quick" else cfg.get("thorough_secs", 400)
    jobs = cfg["jobs"]
    hang = cfg.get("hang", 60.0)
    procs = []
    for j, np in enumerate(jobs):
        procs.append(Proc(exe, np, ["--seed", str(seed * 1000 + j), "--secs", str(secs),
                                    "--min-cases", str(cfg.get("min_cases", 40)),
                                    "--shrink-secs", "25", "--job", str(j)], "job%d" % j, hang, tier))
    results = []
    pending = list(procs)
    stopat = None
    while pending:
        for p in list(pending):
            if p.poll():
                pending.remove(p)
                results.append((p, p.result()))
                if results[-1][1]["kind"] != "pass" and stopat is None:
                    stopat = time.time() + 30  # let the others end, briefly
        if stopat and time.time() > stopat:
            for p in pending:
                p.kill()
            break
        time.sleep(0.05)

    ev = dict(evaluations=0, distinct_nontrivial=0, discarded=0)
    labels, counters, samples, per = {}, {}, [], []
    for p, r in results:
        s = r["stats"]
        if not s:
            continue
        for k in ev:
            ev[k] += s.get(k, 0)
        for k, v in s.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        samples += ["np=%d: %s" % (p.np, x) for x in s.get("samples", [])[:3]]
        per.append(dict(np=p.np, evaluations=s.get("evaluations", 0),
                        distinct_nontrivial=s.get("distinct_nontrivial", 0)))

    violation = None
    unrepro = []
    for p, r in results:
        if r["kind"] == "pass":
            continue
        case = p.case()
        log("job np=%d ended with %s: %s" % (p.np, r["kind"], r["msg"][:400]))
        if r["kind"] in ("crash", "hang"):
            log("\n".join(r["log"].splitlines()[-60:])[:6000])
        # replay before believing it
        n = 3
        h = min(hang, 45.0)
        with ThreadPoolExecutor(3) as ex:
            rs = list(ex.map(lambda _: replay(exe, p.np, case, h, tier), range(n)))
        bad = [x for x in rs if x["kind"] != "pass"]
        if r["kind"] == "fail" and not bad:
            # schedule dependent: look harder
            with ThreadPoolExecutor(4) as ex:
                rs = list(ex.map(lambda _: replay(exe, p.np, case, h, tier), range(16)))
            bad = [x for x in rs if x["kind"] != "pass"]
            need = 1
        else:
            need = 3 if r["kind"] == "hang" else 1
        if len(bad) >= need:
            kind = bad[0]["kind"]
            if kind == "crash":
                case = shrink_out(exe, p.np, case, kind, tier, 40)
                x = replay(exe, p.np, case, h, tier)
                if x["kind"] == "pass":
                    x = bad[0]
            elif kind == "hang":
                x = bad[0]
            else:
                x = bad[0]
            violation = (p.np, case, x)
            break
        unrepro.append((p.np, r))
        log("  not reproduced in replays (%d of %d): not reported" % (len(bad), len(rs)))
    if violation is None and len([1 for _, r in unrepro if r["kind"] == "fail"]) >= 2:
        # two independent jobs saw an explicit wrong answer that depends on scheduling
        np_, r = unrepro[0]
        violation = (np_, [], r)

    known = []
    if violation is None:
        for k in known_findings(prop):
            r = replay_finding(exe, k, tier)
            if r["kind"] != "pass":
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                known.append(k["id"])
            else:
                log("note: known finding %s no longer reproduces" % k["id"])

    nviol = 0
    if violation:
        np_, case, x = violation
        nviol = 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", "%s-%s-%d.case" % (prop, tier, seed))
        write_case(rp, case, np_, x["msg"], x.get("desc", ""))
        log("minimal case (np=%d, %d draws): %s" % (np_, len(case), x.get("desc", "")))
        log("reason: " + x["msg"])
        log("replay: python3 run.py %s --replay %s" % (prop, rp))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=ev["evaluations"], distinct_nontrivial=ev["distinct_nontrivial"],
                                  rule=cfg["rule"], samples=samples[:12] or ["(no non-trivial case completed)"],
                                  classes=labels, discarded=ev["discarded"], jobs=per,
                                  known_findings_replayed=known, **({"counters": counters} if counters else {})),
                    assumptions=cfg.get("assumptions", []),
                    wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs%s" % (
        prop, tier, seed, ev["evaluations"], ev["distinct_nontrivial"], tb, time.time() - t0,
        "" if nviol else ", no violation"))
    for p in procs:
        p.close()
    return 1 if violation else 0


def known_findings(prop):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["known"] if k["property"] == prop]


def replay_finding(exe, k, tier):
    """A known finding is one specific case, named inside the harness."""
    p = Proc(exe, k.get("np", 1), ["--finding", k["id"]], "finding", 45.0, tier)
    r = p.wait()
    p.close()
    return r


def main():
    a = sys.argv[1:]
    if not a or a[0] == "--setup":
        for t in ("g++", "cmake", "make", "mpirun", "mpicxx", "objcopy", "ld"):
            if shutil.which(t) is None:
                log("missing tool", t)
                return 1
        log("toolchain present; every check builds what it needs from", REPO)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    SCRATCH[0] = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir="/tmp")
    try:
        if "--replay" in a:
            f = a[a.index("--replay") + 1]
            np = int(next((l.split()[2] for l in open(f) if l.startswith("# np")), "1"))
            exe, _ = build(prop)
            r = replay(exe, np, read_case(f), 60.0, tier)
            log(r["log"][-6000:])
            log(r["kind"], r["msg"])
            return 0 if r["kind"] == "pass" else 1
        return check(prop, tier, seed)
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
