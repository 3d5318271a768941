#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup              build everything once (warms /verif/build)
  run.py check ID           rebuild from /repo's working tree, run the property's check
  run.py replay FILE        re-run a saved counterexample
  run.py list

Everything is compiled from /repo's current working tree: the library (and, where a
property needs them, the sample programs) through the repository's own CMake files in a
build directory of ours, under sanitizers or scheduler instrumentation; the harness of
the property is linked against that.  Build directories are keyed by the *content* of
/repo and of the harness, so a stale object can never be used.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
JOBS = str(os.cpu_count() or 4)

COMMON = "-include memory -g -fno-omit-frame-pointer -Wno-everything"
FLAVORS = {
    # real threads, memory errors become failures
    "asan": {"cxx": "-O1 -fsanitize=address -fsanitize=bounds -fno-sanitize-recover=all", "link": "-fsanitize=address -fsanitize=bounds"},
    # plain optimized build (used where ASan would only slow things down)
    "plain": {"cxx": "-O2", "link": ""},
    # every memory access and atomic of the library calls into our scheduler
    "sched": {"cxx": "-O1 -fsanitize=thread", "link": "", "sched": True},
    # the select() back end instead of epoll, no pipe2, timedlock, readv
    "select": {"cxx": "-O1 -fsanitize=address -fsanitize=bounds -fno-sanitize-recover=all", "link": "-fsanitize=address -fsanitize=bounds",
               "cmake": ["-DCY_HAVE_EPOLL=0", "-DCY_HAVE_KQUEUE=0", "-DCY_HAVE_PIPE2=0", "-DCY_HAVE_TIMED_LOCK=0", "-DCY_HAVE_READWRITE_V=0"]},
}

# property -> list of harness programs: (name, flavor, sources, extra dict)
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_files():
    out = []
    for top in ("source", "samples", "CMakeLists.txt"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        for d, dn, fn in os.walk(p):
            dn.sort()
            for f in sorted(fn):
                out.append(os.path.join(d, f))
    return out


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()[:16]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        log("FAILED:", " ".join(cmd) if isinstance(cmd, list) else cmd)
        log(r.stdout.decode("utf-8", "replace")[-6000:])
        raise SystemExit(3)
    return r.stdout


def cmake_flavor(flavor, targets):
    """Configure + build `targets` of the repository in this flavor; returns the build dir."""
    F = FLAVORS[flavor]
    key = digest(repo_files(), json.dumps(F, sort_keys=True) + COMMON)
    d = os.path.join(BUILD, "lib-%s-%s" % (flavor, key))
    if not os.path.exists(os.path.join(d, "build.ninja")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, CC="clang", CXX="clang++", LC_ALL="C")
        # test programs are not built here, so the gtest lookup is disabled
        sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
            "-DCMAKE_CXX_FLAGS=%s %s" % (COMMON, F["cxx"]),
            "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
            "-DCMAKE_DISABLE_FIND_PACKAGE_GTest=1"] + F.get("cmake", []), env=env)
        # the repository sets -Wall -Werror after our flags; its warnings are not our business here
        bn = os.path.join(d, "build.ninja")
        s = open(bn).read().replace("-Werror", "")
        open(bn, "w").write(s)
    sh(["ninja", "-C", d, "-j", JOBS] + targets, env=dict(os.environ, LC_ALL="C"))
    return d


def build_program(name, flavor, sources, opt):
    F = FLAVORS[flavor]
    targets = ["cyclone"] + opt.get("targets", [])
    d = cmake_flavor(flavor, targets)
    srcs = [os.path.join(H, s) for s in sources] + [os.path.join(H, "vh/vh.cpp")]
    if F.get("sched"):
        srcs.append(os.path.join(H, "vh/vsched.cpp"))
    hdrs = []
    for dd, dn, fn in os.walk(H):
        hdrs += [os.path.join(dd, f) for f in fn if f.endswith(".h")]
    key = digest(srcs + sorted(hdrs), name + flavor + json.dumps(opt, sort_keys=True) + COMMON)
    od = os.path.join(d, "h-%s-%s" % (name, key))
    exe = os.path.join(od, name)
    if os.path.exists(exe):
        return exe, d
    os.makedirs(od, exist_ok=True)
    inc = ["-I" + H, "-I" + os.path.join(H, "vh"), "-I" + os.path.join(d, "source")]
    for m in ("cyCore", "cyEvent", "cyNetwork", "cyCrypt", "cyUtility"):
        inc.append("-I" + os.path.join(REPO, "source", m))
    inc += ["-I" + os.path.join(REPO, i) for i in opt.get("inc", [])]
    procs = []
    objs = []
    for s in srcs + [os.path.join(REPO, x) for x in opt.get("repo_sources", [])]:
        o = os.path.join(od, re.sub(r"[^A-Za-z0-9]", "_", s) + ".o")
        objs.append(o)
        flags = F["cxx"]
        if F.get("sched") and (s.endswith("vh.cpp") or s.endswith("vsched.cpp")):
            flags = "-O1"
        cmd = ["clang++", "-std=c++17", "-c", s, "-o", o] + COMMON.split() + flags.split() + inc + opt.get("flags", [])
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            log("FAILED:", " ".join(cmd)); log(out.decode("utf-8", "replace")[-6000:])
            raise SystemExit(3)
    tmp = exe + ".tmp"
    sh(["clang++", "-o", tmp] + objs + [os.path.join(d, "source", "libcyclone.a")] + F["link"].split() + opt.get("link", []) + ["-lpthread", "-ldl"])
    os.rename(tmp, exe)
    return exe, d


def prune(keep_seconds=6 * 3600, maxn=14):
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("lib-")]
    except OSError:
        return
    ds.sort(key=lambda p: os.path.getmtime(p), reverse=True)
    for p in ds[maxn:]:
        shutil.rmtree(p, ignore_errors=True)


def child_env(libdir):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:malloc_context_size=12"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    env["VH_LIBDIR"] = libdir
    env["VH_HARNESS"] = H
    return env


def load_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def check(pid, tier, seed, scale, only):
    t0 = time.time()
    progs = CHECKS[pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    rep = os.path.join(VERIF, "replays")
    os.makedirs(rep, exist_ok=True)
    scratch = "/tmp/vh-%s-%d" % (pid, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    total = {"evaluations": 0, "distinct": 0, "rule": [], "samples": [], "assumptions": []}
    detail = []
    rc = 0
    findings = [f for f in load_findings() if f.get("property") == pid and f.get("status") == "known"]
    quick_budget = float(os.environ.get("VERIF_BUDGET", "200"))
    budget = quick_budget if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3000"))
    try:
        for (name, flavor, sources, opt) in progs:
            exe, d = build_program(name, flavor, sources, opt)
            outj = os.path.join(scratch, name + ".json")
            env = child_env(d)
            env["VH_TMP"] = scratch
            env["VERIF_SEED"] = str(seed)
            cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", outj, "--replays", rep,
                   "--budget", str(budget / len(progs)), "--scale", str(scale)]
            if only:
                cmd += ["--only", only]
            r = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=None)
            out = r.stdout.decode("utf-8", "replace")
            # a replay file must know which program it belongs to
            sys.stdout.write(out); sys.stdout.flush()
            if os.path.exists(outj):
                j = json.load(open(outj))
                total["rule"].append(j["rule"])
                total["assumptions"] += [a for a in j["assumptions"] if a not in total["assumptions"]]
                for p in j["props"]:
                    total["evaluations"] += p["evaluations"]
                    total["distinct"] += p["distinct_nontrivial"]
                    for s in p["samples"][:2]:
                        total["samples"].append("%s: %s" % (p["name"], s[:1800]))
                    p.pop("samples")
                    p["program"] = name; p["flavor"] = flavor
                    detail.append(p)
            if r.returncode == 1:
                for m in re.finditer(r"replay=(\S+)", out):
                    try:
                        with open(m.group(1), "a") as fh:
                            fh.write("\n--- program ---\nprogram %s %s\n" % (pid, name))
                    except OSError:
                        pass
                rc = 1
                break
            if r.returncode != 0:
                rc = 3
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        prune()
    for f in findings:
        if rc == 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct"],
                       "rule": " | ".join(dict.fromkeys(total["rule"])), "samples": total["samples"][:8] or ["(none)"],
                       "detail": detail},
          "assumptions": total["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    scale, only = 1.0, None
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--scale" in a:
        i = a.index("--scale"); scale = float(a[i + 1]); del a[i:i + 2]
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
    if a[0] == "list":
        for k in sorted(CHECKS):
            print(k, [(p[0], p[1]) for p in CHECKS[k]])
        return 0
    if a[0] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        for k in sorted(CHECKS):
            for (name, flavor, sources, opt) in CHECKS[k]:
                build_program(name, flavor, sources, opt)
        return 0
    if a[0] == "build":
        for (name, flavor, sources, opt) in CHECKS[a[1]]:
            exe, d = build_program(name, flavor, sources, opt)
            print(exe, d)
        return 0
    if a[0] == "check":
        return check(a[1], tier, seed, scale, only)
    if a[0] == "replay":
        txt = open(a[1]).read()
        pid = re.search(r"^property (\S+)", txt, re.M).group(1)
        m = re.search(r"^program \S+ (\S+)", txt, re.M)
        for (name, flavor, sources, opt) in CHECKS[pid]:
            if m and m.group(1) != name:
                continue
            exe, d = build_program(name, flavor, sources, opt)
            r = subprocess.run([exe, "--replay", os.path.abspath(a[1])], env=child_env(d), cwd="/tmp")
            if r.returncode != 2:
                return r.returncode
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
