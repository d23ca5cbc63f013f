#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C01

Environment: VERIF_TIER (quick, thorough), VERIF_SEED. See DESIGN.md.
Exit 0: held on everything observed. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
HARN = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import CHECKS, UNITS, FLAVOURS   # noqa: E402

JOBS = 8


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


class Builder:
    """Compiles the units against the include tree of /repo as it is now."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.repo = tree_hash(os.path.join(REPO, "include"), ("",))
        self.harness = tree_hash(HARN, (".hpp", ".cpp", ".inc"))
        self.locks = {}
        self.guard = threading.Lock()
        self.slots = threading.Semaphore(JOBS)
        # drop what belongs to other trees
        keep = {self.repo[:16]}
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d.startswith("t-") and d[2:] not in keep and time.time() - os.path.getmtime(p) > 1200:
                shutil.rmtree(p, ignore_errors=True)
        self.dir = os.path.join(BUILD, "t-" + self.repo[:16])
        os.makedirs(self.dir, exist_ok=True)
        self.errors = {}

    def obj(self, source, defs, flavour, uses_repo=True):
        fl = FLAVOURS[flavour]
        cmd = [fl["cxx"], "-std=c++17", "-include", os.path.join(HARN, "prelude.hpp"), "-I", HARN]
        cmd += ["-isystem", os.path.join(REPO, "include")]
        cmd += fl["flags"] + defs
        key = sha(source, " ".join(cmd), self.repo, self.harness)
        out = os.path.join(self.dir, key + ".o")
        with self.guard:
            lock = self.locks.setdefault(out, threading.Lock())
        with lock:
            if out in self.errors:
                return None, self.errors[out]
            if os.path.exists(out):
                return out, None
            tmp = out + ".tmp%d.o" % os.getpid()
            with self.slots:
                r = subprocess.run(cmd + ["-c", os.path.join(HARN, source), "-o", tmp], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                self.errors[out] = r.stdout
                return None, r.stdout
            os.rename(tmp, out)
            return out, None

    def binary(self, unit, flavour):
        """-> (path, None) or (None, compiler output)"""
        u = UNITS[unit]
        fl = FLAVOURS[flavour]
        parts = [(u["source"], u.get("defs", []))]
        parts += [(s, []) if isinstance(s, str) else (s[0], s[1]) for s in u.get("with", [])]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda p: self.obj(p[0], p[1], flavour), parts))
        for o, err in res:
            if o is None:
                return None, err
        objs = [o for o, _ in res]
        out = os.path.join(self.dir, sha(*objs) + ".exe")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run([fl["cxx"]] + fl["flags"] + objs + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                return None, r.stdout
            os.rename(tmp, out)
        return out, None


def toolchain_ok(tmpdir):
    p = os.path.join(tmpdir, "sane.cpp")
    with open(p, "w") as f:
        f.write("#include <vector>\n#include <string>\nint main(){std::vector<std::string> v{\"a\"};return v.size()!=1;}\n")
    exe = os.path.join(tmpdir, "sane")
    for cxx in ("g++", "clang++"):
        if subprocess.run([cxx, "-std=c++17", p, "-o", exe], stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode != 0 or subprocess.run([exe]).returncode != 0:
            return False
    return True


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=97"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=96:history_size=4"
    return env


def read_status(path):
    try:
        with open(path, "rb") as f:
            b = f.read(24)
        return int.from_bytes(b[0:8], "little"), int.from_bytes(b[8:16], "little"), int.from_bytes(b[16:24], "little")
    except OSError:
        return 0, 0, 0


def execute(cmd, timeout):
    """-> (returncode or None on timeout, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=run_env(), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace")


def classify(rc, out):
    """-> None, or (kind, message)"""
    m = re.search(r"^@@FAIL (\{.*\})$", out, re.M)
    if m:
        try:
            d = json.loads(m.group(1))
            return d["kind"], d["message"]
        except ValueError:
            return "FAIL", m.group(1)
    if rc == 0:
        return None
    if rc is None:
        return "HANG", "an operation did not return in time"
    s = re.search(r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|runtime error: .*|Assertion .*failed.*|.*__glibcxx_assert.*|terminate called.*|ERROR SUMMARY.*|.*Invalid (?:read|write).*|.*uninitialised.*)", out)
    if s:
        text = s.group(1).strip()[:300]
        text = re.sub(r"0x[0-9a-f]+", "0x..", text)
        kind = "SANITIZER" if "Sanitizer" in text or "runtime error" in text or "nvalid" in text or "uninit" in text else "ABORT"
        return kind, text
    if rc is not None and rc < 0:
        return "CRASH", "killed by signal %s" % signal.Signals(-rc).name
    return "CRASH", "exit status %s: %s" % (rc, out.strip()[-300:])


class Job:
    def __init__(self, unit, flavour, profile, seed, cases, seconds, extra, idx):
        self.unit, self.flavour, self.profile = unit, flavour, profile
        self.seed, self.cases, self.seconds, self.extra, self.idx = seed, cases, seconds, extra, idx


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    check = CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = run_check(prop, check, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings():
    """lines: known: property=<id> unit=<unit> match=<regular expression on 'kind: message'>"""
    res = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) unit=(\S+) match=(.*)$", line.strip())
                if m:
                    res.append((m.group(1), m.group(2), re.compile(m.group(3))))
    except OSError:
        pass
    return res


def run_check(prop, check, tier, seed, work, t0):
    builder = Builder()
    plan = check[tier]
    pairs = []
    for j in plan:
        if (j["unit"], j["flavour"]) not in pairs:
            pairs.append((j["unit"], j["flavour"]))
    exes, skipped, compile_error = {}, [], None
    with ThreadPoolExecutor(16) as ex:
        for (u, f), (path, err) in zip(pairs, ex.map(lambda p: builder.binary(*p), pairs)):
            if path:
                exes[(u, f)] = path
            else:
                # The types of some units are unusual; that one of them does not
                # compile is no verdict as long as others can be observed.
                skipped.append("%s/%s" % (u, f))
                if not FLAVOURS[f].get("optional"):
                    compile_error = compile_error or (u, f, err)
    build_s = time.time() - t0
    if compile_error and exes and toolchain_ok(work):
        print("%s: not compiled, left out: %s" % (prop, " ".join(skipped)))
    elif compile_error:
        u, f, err = compile_error
        if not toolchain_ok(work):
            print("error: the compiler does not work here")
            return 2
        path = os.path.join(EVID, "replay-%s.txt" % prop)
        with open(path, "w") as fh:
            fh.write("unit %s (flavour %s) uses only the public interface and does not compile any more:\n%s\n" % (u, f, err[:20000]))
        first = re.search(r".*error.*", err)
        print("%s: valid uses of the public interface do not compile any more: %s" % (prop, first.group(0)[:400] if first else ""))
        write_evidence(prop, check, tier, seed, t0, {}, [], skipped, 1, build_s)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1

    jobs = []
    for n, j in enumerate(plan):
        if (j["unit"], j["flavour"]) not in exes:
            continue
        for r in range(j.get("reps", 1)):
            jobs.append(Job(j["unit"], j["flavour"], j.get("profile", prop), seed * 1009 + len(jobs) * 31 + 7 if not j.get("same_seed") else seed,
                            j.get("cases", 1000000), j.get("seconds", 8), j.get("extra", []), len(jobs)))
    stop = threading.Event()
    results = {}
    known = known_findings()

    def is_known(job, kind, msg):
        return any(k[0] == prop and k[1] == job.unit and k[2].search("%s: %s" % (kind, msg)) for k in known)

    def base_cmd(job):
        return FLAVOURS[job.flavour].get("wrapper", []) + [exes[(job.unit, job.flavour)], "--profile", job.profile] + job.extra

    def run_job(job):
        if stop.is_set():
            return
        st = os.path.join(work, "st%d" % job.idx)
        cov = os.path.join(work, "cov%d" % job.idx)
        cmd = base_cmd(job) + ["--seed", str(job.seed), "--cases", str(job.cases), "--seconds", str(job.seconds),
                               "--cov", cov, "--status", st]
        rc, out = execute(cmd, job.seconds * 4 + 90)
        failure = classify(rc, out)
        cs, op, done = read_status(st)
        if failure and (rc is None or rc == -9):
            # run the case again, alone, before believing it
            rc2, out2 = execute(base_cmd(job) + ["--single", str(cs), "--status", st + "b"], 120)
            f2 = classify(rc2, out2)
            if f2 is None:
                failure, out = None, ""
                results[job.idx] = ("inconclusive", cs)
            else:
                failure, out = f2, out2
        if failure:
            if not is_known(job, *failure):
                stop.set()
            results[job.idx] = ("fail", failure, cs, op, out, job)
            return
        c = None
        try:
            with open(cov) as f:
                c = json.load(f)
        except (OSError, ValueError):
            pass
        results.setdefault(job.idx, ("ok", c, job))

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run_job, jobs))

    fails = [r for _, r in sorted(results.items()) if r[0] == "fail"]
    covs = [(r[1], r[2]) for _, r in sorted(results.items()) if r[0] == "ok" and r[1]]
    violations = 0
    rc = 0
    for f in fails:
        _, (kind, msg), cs, op, out, job = f
        text = "%s: %s" % (kind, msg)
        if is_known(job, kind, msg):
            print("KNOWN-FINDING: property=%s unit %s: %s" % (prop, job.unit, text))
            continue
        violations += 1
        if violations > 1:
            continue
        path = os.path.join(EVID, "replay-%s.txt" % prop)
        write_replay(path, prop, job, base_cmd(job), cs, op, kind, msg, out, work)
        print("%s: %s (unit %s, flavour %s, case seed %d, operation %d)" % (prop, text, job.unit, job.flavour, cs, op))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    merged = write_evidence(prop, check, tier, seed, t0, covs, jobs, skipped, violations, build_s)
    if rc == 0 and merged["evaluations"] == 0 and not merged["observed"].get("foreign_divergences"):
        print("error: the run observed nothing")
        return 2
    if rc == 0:
        print("%s: held on %d executions (%d distinct and non-trivial), %.1f s" %
              (prop, merged["evaluations"], merged["distinct_nontrivial"], time.time() - t0))
    return rc


def write_replay(path, prop, job, cmd, cs, op, kind, msg, out, work):
    lines = ["property %s" % prop, "%s: %s" % (kind, msg), "",
             "unit %s (harness/%s %s), flavour %s" % (job.unit, UNITS[job.unit]["source"], " ".join(UNITS[job.unit].get("defs", [])), job.flavour),
             "built with: %s %s" % (FLAVOURS[job.flavour]["cxx"], " ".join(FLAVOURS[job.flavour]["flags"])),
             "found by: case seed %d, operation %d" % (cs, op)]
    single = cmd + ["--single", str(cs)]
    lines.append("replay: " + " ".join(single) + " --trace")
    if UNITS[job.unit].get("shrink") and kind != "HANG":
        keep = shrink(single, kind, op)
        if keep is not None:
            only = ",".join(map(str, keep))
            lines.append("shrunk: " + " ".join(single) + " --trace --only " + only)
            rc, o = execute(single + ["--trace", "--only", only], 30)
            lines += ["", "the shrunk history:", o[-12000:]]
    lines += ["", "output of the failing run:", out[-8000:]]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def shrink(single, kind, op, budget=20.0):
    end = time.time() + budget

    def fails(ops):
        rc, out = execute(single + ["--only", ",".join(map(str, ops)) if ops else "-1"], 10)
        f = classify(rc, out)
        return f is not None and f[0] == kind

    ops = list(range(int(op) + 1)) if op < 100000 else []
    if not ops or not fails(ops):
        ops = list(range(600))
        if not fails(ops):
            return None
    chunk = max(1, len(ops) // 2)
    while time.time() < end:
        cands = [ops[:i] + ops[i + chunk:] for i in range(0, len(ops), chunk)]
        changed = False
        with ThreadPoolExecutor(JOBS) as ex:
            for c, bad in zip(cands, ex.map(lambda c: time.time() < end and fails(c), cands)):
                if bad:
                    ops, changed = c, True
                    break
        if not changed:
            if chunk == 1:
                break
            chunk = max(1, chunk // 2)
        else:
            chunk = min(chunk, max(1, len(ops) // 2))
    return ops


def write_evidence(prop, check, tier, seed, t0, covs, jobs, skipped, violations, build_s):
    distinct, counters, samples, evals, states = set(), {}, [], 0, 0
    per = {}
    for c, job in covs:
        evals += c["evaluations"]
        distinct.update("%s/%s" % (job.unit, h) for h in c["distinct"])
        states += c["states"]
        for k, v in c["counters"].items():
            counters[k] = counters.get(k, 0) + v
        key = "%s/%s" % (job.unit, job.flavour)
        per[key] = per.get(key, 0) + c["evaluations"]
        for s in c["samples"]:
            if len(samples) < 4 and not any(x[:30] == s[:30] for x in samples):
                samples.append(s)
    cov = {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": check["rule"], "samples": samples,
           "observed": dict(sorted(counters.items())), "executions_per_build": per,
           "states_seen_summed_over_processes": states, "builds_skipped": skipped, "build_s": round(build_s, 1)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check["level"], "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return cov


if __name__ == "__main__":
    main()
