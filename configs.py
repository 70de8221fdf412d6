"""C28: the same transcript in every build configuration, and every header alone and in
ordered pairs."""
import os, re, itertools, time
from concurrent.futures import ThreadPoolExecutor
import run

STDS = ("11", "14", "17", "20", "23")
HINT = {"11": "gnu++11", "14": "c++14", "17": "gnu++17", "20": "c++20", "23": "gnu++2b"}
# headers that adapt a third-party library get a stand-in for it
STUBS = {"variant.h": ["-I%s/harness/stub" % run.VERIF],
         "ostream_ops.h": ["-include", "%s/harness/stub/fpm.h" % run.VERIF]}
GCEM = "-I%s/harness/stub_gcem" % run.VERIF
NOCX = "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR"


def combos(tier):
    """(compiler, std, exceptions, rtti, assertions, level, extra) of every configuration."""
    out = []
    for cxx in ("g++", "clang++"):
        for std, ex, rt, nd, o in itertools.product(STDS, (1, 0), (1, 0), (1, 0), "0123s"):
            out.append((cxx, std, ex, rt, nd, o, ()))
        for std, x in itertools.product(STDS, (("-funsigned-char",), ("-fno-strict-aliasing",), ("-flto",), ("-fno-inline",), ("-ftrapv",), ("-fshort-enums",),
                                              ("-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute"), ("-march=x86-64-v2",),
                                              ("-D_GLIBCXX_ASSERTIONS",), ("-D_GLIBCXX_USE_CXX11_ABI=0",), (NOCX, GCEM))):
            out.append((cxx, std, 1, 1, 0, "2" if "-fsan" not in x[0] else "1", x))
    # 32 bit programs
    for cxx in ("m32:g++", "m32:clang++"):
        for std, ex, nd, o in itertools.product(STDS, (1, 0), (1, 0), "02s"):
            # quick: every language mode and every pair of the other settings
            if tier == "thorough" or ((STDS.index(std) + ex + 2 * nd + "02s".index(o)) % 6 == 0 and (cxx == "m32:g++" or STDS.index(std) % 2 == 0)):
                out.append((cxx, std, ex, ex, nd, o, ()))
    small = [c for c in out if c[0].startswith("m32")]
    out = [c for c in out if not c[0].startswith("m32")]
    if tier == "thorough":
        return out + small
    # every (compiler, mode, level), and every pair of all settings, occurs in one of these
    main = [c for c in out if not c[6]]
    groups = [(0, 1, 5)] + list(itertools.combinations(range(6), 2))
    want = {(g,) + tuple(c[i] for i in g) for c in main for g in groups}
    quick = []
    while want:
        hit = lambda c: want & {(g,) + tuple(c[i] for i in g) for g in groups}
        best = max(main, key=lambda c: (len(hit(c)), run.hashlib.md5(str(c).encode()).digest()))
        quick.append(best)
        want -= hit(best)
    # every (compiler, further flag)
    for cxx in ("g++", "clang++"):
        for k, x in enumerate(sorted({c[6] for c in out if c[6]})):
            quick += [c for c in out if c[6] == x and c[0] == cxx and c[1] == STDS[k % 5]]
    return quick + small


def jobs(tier):
    r = []
    for cxx, ref in (("g++", "ref.gcc"), ("clang++", "ref.clang")):
        r.append(run.Job(ref, "transcript.cpp", flags=["-w", "-O2", "-DNDEBUG"] + ([] if cxx == "g++" else [GCEM]), cxx=cxx, opt="none", std="gnu++17",
                         srcs=["transcript2.cpp"], cost=20))
    for cxx, std, ex, rt, nd, o, extra in combos(tier):
        fl = ["-w", "-O" + o] + list(extra)
        if not cxx.endswith(":g++") and cxx != "g++":
            fl.append(GCEM)
        if not ex:
            fl.append("-fno-exceptions")
        if not rt:
            fl.append("-fno-rtti")
        if not nd:
            fl.append("-DNDEBUG")
        name = "%s.%s.%s%s%s%s%s" % (cxx.split(":")[-1][:3] + ("m32" if ":" in cxx else ""), std, "ex" if ex else "noex", "" if rt else ".nortti", ".assert" if nd else "", ".O" + o,
                                     "".join(re.sub("[^a-zA-Z0-9]", "", x)[:24] for x in extra))
        r.append(run.Job(name, "transcript.cpp", flags=fl, cxx=cxx, opt="none", std=HINT[std], srcs=["transcript2.cpp"], cost=3 if o in "01" else 5))
    return r


NUM = re.compile(r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?)")


def same_rounded(a, b, tol):
    if NUM.sub("#", a) != NUM.sub("#", b):
        return False
    x, y = NUM.findall(a), NUM.findall(b)
    scale = 0.0
    pairs = []
    for s, t in zip(x, y):
        u, v = float(s), float(t)
        if s != t:
            if u != u and v != v:
                continue
            pairs.append((u, v))
        if abs(u) < float("inf"):
            scale = max(scale, min(abs(u), 1e300))
    return all(abs(u - v) <= tol * max(scale, abs(u)) for u, v in pairs)


# what differs between 32 and 64 bits: long has another size
M32_LONG = re.compile(r"(?:[A-Z] )?varint of (?:unsigned )?long:")


def compare(name, ref, got, exceptions):
    """-> violations"""
    if "m32" in name:
        ref, got = [l for l in ref if not M32_LONG.match(l)], [l for l in got if not M32_LONG.match(l)]
    if not exceptions:
        ref, got = [l for l in ref if not l.startswith("X ")], [l for l in got if not l.startswith("X ")]
    out, n = [], 0
    for i in range(max(len(ref), len(got))):
        a = ref[i] if i < len(ref) else "(nothing)"
        b = got[i] if i < len(got) else "(nothing)"
        if a == b:
            continue
        tol = 2e-3 if "float" in a else 1e-9
        if a.startswith("F ") and b.startswith("F ") and same_rounded(a, b, tol):
            continue
        n += 1
        if n <= 3:
            out.append({"key": "%s:%s" % (name, a.split(":")[0][:60]), "msg": "in this configuration: %s\nelsewhere: %s" % (b, a)})
    return out


def syntax(std, cxx, headers, src):
    cmd = [cxx, "-std=" + std, "-I" + run.REPO + "/include", "-fsyntax-only", "-w", "-fdiagnostics-color=never"]
    for h in headers:
        cmd += STUBS.get(h, [])
    if cxx != "g++":
        cmd.append(GCEM)
    cmd += ["-x", "c++", src]
    rc, log = run.sh(cmd, 300)
    if rc == 0:
        return None
    if rc is None or "error:" not in log or "internal compiler error" in log:
        raise run.CheckError("%s\n%s" % (" ".join(cmd), log[-1500:]))
    if std.endswith("11") and run.CONSTEXPR14.search(log):
        return syntax(std.replace("11", "14"), cxx, headers, src)
    return log


def post(ctx, results):
    t0 = time.time()
    out = []
    by = {r["job"]: r for r in results}
    logs = {}
    for j in by:
        p = os.path.join(ctx.build, j + ".1.json.log")
        if not by[j]["violations"]:
            if not os.path.exists(p):
                raise run.CheckError("no transcript of " + j)
            logs[j] = open(p, encoding="latin-1").read().splitlines()
    for j in sorted(logs):
        if j.startswith("ref."):
            continue
        ref = logs.get("ref.gcc" if j.startswith("g++") else "ref.clang")
        if ref is None:
            continue
        v = compare(j, ref, logs[j], ".noex" not in j)
        if v:
            out.append({"job": j, "violations": v, "res": {}, "cmd": by[j]["cmd"], "log": ""})
    if "ref.gcc" in logs and "ref.clang" in logs:
        # what both have in common, section by section
        c = set(l.split(":")[0] for l in logs["ref.clang"]) - {"second unit"}
        v = compare("clang", [l for l in logs["ref.gcc"] if l.split(":")[0] in c], [l for l in logs["ref.clang"] if l.split(":")[0] in c], True)
        if v:
            out.append({"job": "ref.clang", "violations": v, "res": {}, "cmd": by["ref.clang"]["cmd"], "log": ""})
    if not any(j.startswith("ref.") for j in by):
        return out
    # headers
    inc = os.path.join(run.REPO, "include", "embedded")
    heads = sorted(os.path.relpath(os.path.join(r, f), inc) for r, d, fs in os.walk(inc) for f in fs if f.endswith(".h"))
    public = [h for h in heads if "detail/" not in h]
    work = []

    def add(headers, std, cxx):
        name = os.path.join(ctx.build, "h%d.cpp" % len(work))
        with open(name, "w") as f:
            f.write("".join("#include <embedded/%s>\n" % h for h in headers) + "int main() {}\n")
        work.append((headers, std, cxx, name))
    for h in heads:
        for std in STDS:
            for g in ("c++", "gnu++"):
                add([h], g + std, "g++")
                add([h], g + std.replace("23", "2b"), "clang++")
                add([h, h], g + std, "g++")
    for k, (a, b) in enumerate(itertools.permutations(public, 2)):
        for i, std in enumerate(STDS):
            if ctx.tier == "thorough" or k % len(STDS) == i:
                add([a, b], "gnu++" + std, "g++")
                if ctx.tier == "thorough":
                    add([a, b], "c++" + std.replace("23", "2b"), "clang++")
    # everything, in several orders
    for k in range(len(public)):
        for rev in (1, -1):
            add((public[k:] + public[:k])[::rev], "gnu++" + STDS[k % 5], "g++")

    def one(w):
        headers, std, cxx, name = w
        log = syntax(std, cxx, headers, name)
        os.unlink(name)
        if log is None:
            return None
        return {"job": "headers", "violations": [{"key": "headers:%s:%s:%s" % (cxx, std, "+".join(headers[:2])), "msg": "does not compile alone: %s\n%s" % (
            ", ".join(headers), run.first_errors(log))}], "res": {}, "cmd": "%s -std=%s" % (cxx, std), "log": ""}
    with ThreadPoolExecutor(run.NPROC) as ex:
        bad = [r for r in ex.map(one, work) if r]
    out += bad[:5]
    out.append({"job": "headers", "violations": [], "res": {"evaluations": len(work), "distinct": len(work)}, "cmd": "", "log": "", "wall": time.time() - t0})
    return out
