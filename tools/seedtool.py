#!/usr/bin/env python3
"""Development aid for the planted bugs.

  seedtool.py make  ID PROPERTY FILE      (reads a description from FILE, see below) writes seeded/ID
  seedtool.py check ID...                 apply, build, stable tests, demo on both trees, the property's check
  seedtool.py detect ID...                only the property's check on the patched tree

Everything runs on a copy of /repo under /tmp (via VERIF_REPO for the checks) except the
build and the tests, which need /repo itself (build.sh has the path built in) and are undone at once.
"""
import sys, os, json, subprocess, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")


def run(cmd, cwd=None, env=None, timeout=1800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def clean():
    rc, o = run("git -C /repo status --porcelain --untracked-files=no")
    assert rc == 0 and not o.strip(), "repo not clean: " + o


def detect(i, tmp=None):
    d = os.path.join(SEED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        run("git -C /repo archive HEAD | tar x -C " + tmp)
        rc, o = run("git init -q . && git apply " + d + "/patch.diff", cwd=tmp)
        assert rc == 0, o
        env = dict(os.environ, VERIF_REPO=tmp, VERIF_CACHE="/tmp/vcache")
        rc, o = run(["python3", VERIF + "/run.py", prop], env=env)
        hit = rc == 1 and ("VIOLATION property=%s " % prop) in o
        return hit, o
    finally:
        shutil.rmtree(tmp)


def check(i):
    d = os.path.join(SEED, i)
    clean()
    out = []
    ok = True
    rc, o = run(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
    if rc != 0:
        return False, "demo fails on the unchanged tree: " + o[-1500:]
    rc, o = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if rc:
        return False, "patch: " + o
    try:
        rc, o = run("bash /opt/vp/test.sh /tmp/seedout.json")
        b = json.load(open("/opt/vp/BASELINE.json"))
        base = set(b.get("passed") or b.get("stable"))
        got = set(json.load(open("/tmp/seedout.json"))["passed"])
        if base - got:
            ok = False
            out.append("TESTS FAIL %d: %s\n%s" % (len(base - got), sorted(base - got)[:4], o[-1500:] if not got else ""))
        rc, o = run(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
        if rc == 0:
            ok = False
            out.append("DEMO PASSES with the patch")
        else:
            out.append("demo: " + o.strip()[-200:])
    finally:
        run("git -C /repo checkout -- .")
    clean()
    if ok:
        hit, o = detect(i)
        out.append("CAUGHT" if hit else "MISSED " + o[-1500:])
        if hit:
            out.append(o[:300])
    return ok, "\n".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "check":
        for i in sys.argv[2:]:
            ok, m = check(i)
            print("=== %s %s\n%s" % (i, "OK" if ok else "BAD", m), flush=True)
    elif sys.argv[1] == "detect":
        for i in sys.argv[2:]:
            hit, o = detect(i)
            print("=== %s %s\n%s" % (i, "CAUGHT" if hit else "MISSED", o[:400] if hit else o[-1500:]), flush=True)
