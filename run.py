#!/usr/bin/env python3
"""Runs one check:  run.py C01 [--tier quick|thorough] [--replay FILE] [--job NAME]

Builds the check's harnesses from /repo's current working tree (headers in
/repo/include), runs them, merges what they report into evidence/<id>.json and
prints a VIOLATION line (exit 1) or nothing (exit 0).  Any other exit status is
an error of the check itself.
"""
import sys, os, json, time, subprocess, hashlib, argparse, shutil, signal, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)

NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


class Job:
    """One program: compiled from /verif/harness/<src> against /repo/include, then run.

    kind: 'run'     compile, link, run; the program writes its report to $VERIF_OUT
          'compile' must compile (a compile-time check); nothing is run
          'reject'  must NOT compile although it compiles with -DVERIF_CONTROL
    """

    def __init__(self, name, src, flags=(), std="gnu++17", cxx="g++", args=(), kind="run", tier="both",
                 timeout=600, cost=1.0, libs=(), env=None, opt="asan", evals=1, srcs=()):
        self.name, self.src, self.flags, self.std, self.cxx = name, src, list(flags), std, cxx
        self.args, self.kind, self.tier, self.timeout, self.cost = list(args), kind, tier, timeout, cost
        self.libs, self.env, self.opt, self.evals, self.srcs = list(libs), env or {}, opt, evals, list(srcs)


M32 = os.path.join(VERIF, "lib", "m32", "cxx")
M32_NOTE = "32 bit programs cannot be built or run here; the programs of that kind were left out"


def m32_works(build):
    """Whether 32 bit programs can be built and run: a fixed program of no interest, nothing of /repo."""
    if not os.path.isdir(build):
        os.makedirs(build)
    exe = os.path.join(build, "m32probe")
    for cxx in ("g++", "clang++"):
        rc, _ = sh([M32, "-std=gnu++17", "-O1", os.path.join(VERIF, "lib", "m32", "probe.cpp"), "-o", exe], 120, env=dict(os.environ, M32_CXX=cxx))
        if rc != 0:
            return False
        rc, out = sh([exe], 30)
        if rc != 0 or "m32 works 4" not in out:
            return False
    return True


CONSTEXPR14 = re.compile("not a return-statement|called in a constant expression|not usable in a constant expression|call to non-.?.?.?constexpr|"
                         "non-constant condition|does not have .?.?.?constexpr.* type|is not a constant expression")

OPT = {
    # assertions and sanitizers on
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # as the project's own test build: assertions compiled out, optimised
    "rel": ["-O2", "-DNDEBUG"],
    # assertions on, undefined behaviour traps (no run-time library needed)
    "trap": ["-O1", "-fsanitize=undefined", "-fno-sanitize=nonnull-attribute", "-fsanitize-undefined-trap-on-error"],
    # assertions on, optimised, no sanitizers
    "dbg": ["-O1"],
    "o0": ["-O0"],
    "none": [],
}


# Once a violation is established, what is still running gets this much longer, and no more.
GRACE = 45
stop_at = [None]


class Stopped(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    """Runs cmd; returns (returncode or None on timeout, output)."""
    if stop_at[0] is not None and time.time() > stop_at[0]:
        raise Stopped()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         start_new_session=True)
    end = time.time() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=max(0.05, min(2.0, end - time.time())))
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            stopped = stop_at[0] is not None and time.time() > stop_at[0]
            if time.time() < end and not stopped:
                continue
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        if stopped:
            raise Stopped()
        return None, out.decode("utf-8", "replace")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.build = os.path.join(VERIF, "build", pid + "." + tier)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        self.replays = os.path.join(VERIF, "replays", pid)
        self.results = {}
        self.notes = []
        self.known = {k for k, w in load_known(pid)}

    def compile_cmd(self, job, out, extra=()):
        cmd = (["env", "M32_CXX=" + job.cxx[4:], M32] if job.cxx.startswith("m32:") else [job.cxx]) + ["-std=" + job.std, "-I" + REPO + "/include", "-I" + VERIF + "/lib",
               "-I" + VERIF + "/harness", "-fdiagnostics-color=never"]
        cmd += OPT[job.opt] + job.flags + list(extra)
        src = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in [job.src] + job.srcs]
        if job.kind == "run":
            cmd += src + ["-o", out] + job.libs
        else:
            cmd += ["-fsyntax-only"] + src
        return cmd

    def cache_path(self, cmd):
        # Only used while developing (VERIF_CACHE=dir): content-addressed by every input.
        d = os.environ.get("VERIF_CACHE")
        if not d:
            return None
        h = hashlib.sha256(" ".join(c for c in cmd if not c.startswith(self.build)).encode())
        for top in (REPO + "/include", VERIF + "/lib", VERIF + "/harness"):
            for r, ds, fs in sorted(os.walk(top)):
                if top.startswith(VERIF):
                    # the harness' own source and all helper headers
                    fs = [f for f in fs if f.endswith(".h") or any(c.endswith("/" + f) for c in cmd)]
                for f in sorted(fs):
                    h.update(open(os.path.join(r, f), "rb").read())
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, h.hexdigest())

    def build_job(self, job):
        """Returns (ok, log, exe, cmd)."""
        exe = os.path.join(self.build, job.name)
        cmd = self.compile_cmd(job, exe)
        cp = self.cache_path(cmd) if job.kind == "run" else None
        if cp and os.path.exists(cp):
            return True, "", cp, cmd
        for attempt in (1, 2):
            rc, log = sh(cmd, 700)
            if rc == 0:
                if cp:
                    shutil.copy2(exe, cp)
                return True, log, exe, cmd
            if rc is not None and rc > 0 and "error:" in log and "internal compiler error" not in log \
                    and "No space left" not in log and "Killed" not in log:
                break
        else:
            raise CheckError("compiler failed: %s\n%s" % (" ".join(cmd), log[-2000:]))
        if job.kind == "run" and job.std in ("c++11", "gnu++11") and CONSTEXPR14.search(log):
            # A constant expression function with more than a return statement: C++14.  If that
            # is all there is to it, the property is decided there.
            job.std = job.std.replace("11", "14")
            ok, log14, exe, cmd14 = self.build_job(job)
            if ok:
                self.notes.append("%s: constant expression functions need C++14, which was used instead of C++11" % job.name)
                return ok, log14, exe, cmd14
        return False, log, exe, cmd

    def run_once(self, job, exe, n):
        out = os.path.join(self.build, "%s.%d.json" % (job.name, n))
        env = dict(os.environ, VERIF_OUT=out, VERIF_TIER=self.tier, VERIF_SEED=str(self.seed),
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                                "detect_stack_use_after_return=1",
                   UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1:handle_abort=0", LC_ALL="C", VERIF_SCRATCH=self.build)
        env.update(job.env)
        rc, log = sh([exe] + job.args, job.timeout * n, env=env, cwd=self.build)
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        return rc, log, res

    def outcome(self, job, rc, log, res):
        """-> (kind, violations) with kind ok | violation | error"""
        if rc == 0 and res is not None and not res.get("violations"):
            return "ok", []
        if res is not None and res.get("crash"):
            key = "%s:crash:%s:%s:%s" % (job.name, res["crash"], res["where"], res["detail"])
            return "violation", [{"key": key, "msg": "%s while executing %s [%s]\n%s" % (
                res["crash"], res["where"], res["detail"], log[-3000:])}]
        if rc == 1 and res is not None and res.get("violations"):
            return "violation", [dict(v, key=job.name + ":" + v["key"]) for v in res["violations"]]
        if rc is not None and rc < 0 and rc != -signal.SIGKILL and rc != -signal.SIGTERM:
            return "violation", [{"key": "%s:died:%d" % (job.name, rc), "msg": "died with signal %d\n%s" % (
                -rc, log[-3000:])}]
        return "error", [{"key": "error", "msg": "rc=%s log=%s" % (rc, log[-2000:])}]

    def do(self, job):
        r = self.decide(job)
        if r["violations"] and stop_at[0] is None and not any(v["key"] in self.known for v in r["violations"]):
            stop_at[0] = time.time() + GRACE
        return r

    def decide(self, job):
        t0 = time.time()
        r = {"job": job.name, "violations": [], "res": {}, "cmd": "", "log": ""}
        if job.kind == "reject":
            rc, log = sh(self.compile_cmd(job, "", ["-DVERIF_CONTROL"]), 700)
            if rc != 0:
                if rc is None or "error:" not in log:
                    raise CheckError("control of %s: %s" % (job.name, log[-1500:]))
                r["violations"] = [{"key": job.name + ":control-rejected", "msg":
                                    "the corresponding valid program does not compile:\n" + first_errors(log)}]
            else:
                rc, log = sh(self.compile_cmd(job, ""), 700)
                if rc == 0:
                    r["violations"] = [{"key": job.name + ":accepted", "msg":
                                        "a program that must be rejected compiles"}]
                elif rc is None or "error:" not in log:
                    raise CheckError("reject of %s: %s" % (job.name, log[-1500:]))
            r["cmd"] = " ".join(self.compile_cmd(job, ""))
            r["res"] = {"evaluations": 2, "distinct": 1}
            r["wall"] = time.time() - t0
            return r
        ok, log, exe, cmd = self.build_job(job)
        r["cmd"] = " ".join(cmd)
        r["compile_s"] = round(time.time() - t0, 2)
        if not ok:
            r["violations"] = [{"key": job.name + ":compile:" + error_key(log),
                                "msg": "valid use of the documented interface does not compile, or a "
                                       "compile-time check failed:\n" + first_errors(log)}]
        elif job.kind == "compile":
            r["res"] = {"evaluations": job.evals, "distinct": job.evals}
        else:
            rc, log, res = self.run_once(job, exe, 1)
            kind, v = self.outcome(job, rc, log, res)
            if kind != "ok":
                if rc is None:
                    raise CheckError("job %s: no result within %d s" % (job.name, job.timeout))
                # replay before report: the same program must fail the same way again
                rc2, log2, res2 = self.run_once(job, exe, 2)
                kind2, v2 = self.outcome(job, rc2, log2, res2)
                if kind2 == "ok" or kind2 == "error":
                    raise CheckError("job %s: first run %s %s, second run %s %s" % (
                        job.name, kind, json.dumps(v)[:1500], kind2, json.dumps(v2)[:1500]))
                k2 = {x["key"] for x in v2}
                common = [x for x in v if x["key"] in k2] if kind == "violation" else v2
                r["violations"] = common or v2
                res = res2
            r["res"] = res or {}
            r["log"] = log[-1500:]
        r["wall"] = time.time() - t0
        return r


def error_key(log):
    m = re.search(r"error: (.*)", log)
    return (m.group(1) if m else "?")[:120]


def first_errors(log):
    lines = [l for l in log.splitlines() if "error:" in l or "required from here" in l]
    return "\n".join(lines[:12])


def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) key=(.*?) what=(.*)$", line.strip())
        if m and m.group(1) == pid:
            known.append((m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", action="append")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    import checks
    chk = checks.CHECKS[a.property]
    if a.replay:
        rp = json.load(open(a.replay))
        tier, a.job = rp["tier"], [rp["job"]]
    t0 = time.time()
    ctx = Ctx(a.property, tier)
    jobs = [j for j in chk["jobs"](tier) if j.tier in ("both", tier)]
    if a.job:
        jobs = [j for j in jobs if j.name in a.job]
        if not jobs:
            raise CheckError("no such job")
    if any(j.cxx.startswith("m32:") for j in jobs) and not m32_works(ctx.build):
        ctx.notes.append(M32_NOTE)
        jobs = [j for j in jobs if not j.cxx.startswith("m32:")]
    names = [j.name for j in jobs]
    assert len(names) == len(set(names)), "duplicate job names"
    if tier == "quick":
        for j in jobs:
            j.timeout = min(j.timeout, 600)
    jobs.sort(key=lambda j: -j.cost)
    results, errors, stopped = [], [], []
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [(j, ex.submit(ctx.do, j)) for j in jobs]
        for j, f in futs:
            try:
                results.append(f.result())
            except CheckError as e:
                errors.append("%s: %s" % (j.name, e))
            except Stopped:
                stopped.append(j.name)
    if "post" in chk and not stopped:
        try:
            results += chk["post"](ctx, results)
        except CheckError as e:
            errors.append("post: %s" % e)
        except Stopped:
            stopped.append("post")
    cov = dict(evaluations=0, states=0, transitions=0, traces=0, distinct=0)
    samples, notes = [], list(ctx.notes)
    for r in results:
        for k in cov:
            cov[k] += r["res"].get(k, 0)
        for s in r["res"].get("samples", [])[:3]:
            if len(samples) < 24:
                samples.append("%s: %s" % (r["job"], s))
        notes += r["res"].get("notes", [])
        if a.v:
            print("%-28s %.1fs (compile %.1fs) %s" % (r["job"], r.get("wall", 0), r.get("compile_s", 0), {
                k: r["res"].get(k, 0) for k in cov}), file=sys.stderr)
    known = load_known(a.property)
    viol, kn = [], []
    for r in results:
        for v in r["violations"]:
            k = [w for (kk, w) in known if kk == v["key"]]
            (kn if k else viol).append((r, v))
    coverage = {"programs": len(jobs), "samples": samples or ["compiled: " + ", ".join(names)[:400]],
                "jobs": {r["job"]: {k: v for k, v in r["res"].items() if isinstance(v, int)} for r in results}}
    lvl = chk["level"]
    if lvl == "model_checking":
        coverage.update(states=cov["states"], transitions=cov["transitions"],
                        traces_validated_against_impl=cov["traces"], evaluations=cov["evaluations"])
    else:
        coverage.update(evaluations=cov["evaluations"], distinct_nontrivial=cov["distinct"])
    coverage["rule"] = chk["rule"]
    coverage["exhaustive"] = not errors and not stopped
    if notes:
        coverage["notes"] = notes[:40]
    ev = {"property": a.property, "tier": tier, "seed": ctx.seed, "level": lvl, "coverage": coverage,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not a.job:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r, v in kn:
        print("KNOWN-FINDING: property=%s %s" % (a.property, [w for (kk, w) in known if kk == v["key"]][0]))
    if viol:
        os.makedirs(ctx.replays, exist_ok=True)
        r, v = viol[0]
        path = os.path.join(ctx.replays, hashlib.sha1(v["key"].encode()).hexdigest()[:12] + ".json")
        with open(path, "w") as f:
            json.dump({"property": a.property, "tier": tier, "job": r["job"], "key": v["key"], "message": v["msg"],
                       "compile": r["cmd"], "how": "python3 run.py %s --replay %s" % (a.property, path),
                       "all": [x[1] for x in viol]}, f, indent=1)
        for rr, vv in viol[:8]:
            print("  [%s] %s" % (vv["key"][:200], vv["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    shutil.rmtree(ctx.build, ignore_errors=True)
    if viol:
        return 1
    if errors:
        print("ERROR of the check:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    print("OK property=%s tier=%s %s wall=%.1fs" % (a.property, tier, json.dumps(cov), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        sys.exit(2)
