#!/usr/bin/env python3
"""Development aid: failfast.py ID BUILDDIR -- runs a check's programs one after another, cheapest first,
on the tree in VERIF_REPO and stops at the first violation.  Writes no evidence and no replay files."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run, checks
pid, build = sys.argv[1:3]
ctx = run.Ctx.__new__(run.Ctx)
ctx.pid, ctx.tier, ctx.seed, ctx.build, ctx.results, ctx.notes = pid, "quick", 1, build, {}, []
shutil.rmtree(build, ignore_errors=True)
os.makedirs(build)
once = ctx.run_once
memo = {}
def run_once(job, exe, n):   # no replay
    if job.name not in memo:
        memo[job.name] = once(job, exe, n)
    return memo[job.name]
ctx.run_once = run_once
ctx.known, run.GRACE = set(), 1e9
results, err = [], 0
for j in sorted(checks.CHECKS[pid]["jobs"]("quick"), key=lambda j: (j.opt == "asan", j.cost)):
    try:
        r = ctx.do(j)
    except run.CheckError as e:
        print("ERROR", str(e)[:500])
        err = 2
        continue
    exe = os.path.join(build, j.name)
    if os.path.exists(exe):
        os.unlink(exe)
    results.append(r)
    if r["violations"]:
        v = r["violations"][0]
        print("VIOLATION %s [%s] %s" % (pid, v["key"][:100], v["msg"][:300]))
        err = 1
        break
else:
    if "post" in checks.CHECKS[pid]:
        for r in checks.CHECKS[pid]["post"](ctx, results):
            if r["violations"]:
                print("VIOLATION %s post %s" % (pid, r["violations"][0]["msg"][:300]))
                err = 1
shutil.rmtree(build, ignore_errors=True)
if not err:
    print("OK")
sys.exit(err)
