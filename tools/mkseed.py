#!/usr/bin/env python3
"""Build and confirm a planted bug: mkseed.py SPEC.py [id ...]
SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(path, old, new)], demo="C++ text" or files={name: text})}.
In a scratch clone of /repo: apply, build, run the tests, run the demo with and without the change;
only then write /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "637a45d"
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -g -include memory @FLAGS@ -I_build/source -Isource/cyCore -Isource/cyEvent -Isource/cyNetwork -Isource/cyCrypt -Isource/cyUtility \\
	-o "$t/demo" "$here/demo.cpp" _build/source/libcyclone.a -lpthread -ldl || exit 2
cd "$t" && timeout @TIMEOUT@ ./demo
'''
def run(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
def copy(d):
    # the copied build directory belongs to /repo and is configured afresh
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d]); shutil.rmtree(d + "/_build", ignore_errors=True)
def build(d):
    # the build script names /repo: the same commands on the copy
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C")
    if os.path.exists(d + "/_build/.ours"): pass
    else: shutil.rmtree(d + "/_build", ignore_errors=True); os.makedirs(d + "/_build"); open(d + "/_build/.ours", "w").close()
    r = run(["cmake", "-S", d, "-B", d + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g -Wno-error", "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_CXX_FLAGS=-include memory", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"], d, env)
    r = run(["ninja", "-C", d + "/_build"], d, env)
    if r.returncode: print(r.stdout.decode("utf-8", "replace")[-3000:])
    return r.returncode == 0
def tests(d):
    r = run(["ctest", "--test-dir", d + "/_build", "--timeout", "120"], d)
    return r.returncode == 0, r.stdout.decode("utf-8", "replace")
def orig_lines_ok(d, edits):
    diff = subprocess.check_output(["git", "-C", d, "diff", "-U0"]).decode("utf-8", "replace")
    import re
    f = None; ok = True; seen = False
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+", l)
        if m:
            a = int(m.group(1)); n = int(m.group(2) or 1)
            if n == 0: continue
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", f]).decode("utf-8", "replace")
            for x in b.splitlines():
                h = x.split()[0].lstrip("^")
                old = subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, BASE]).returncode == 0
                if old: seen = True
                else: ok = False; print("   not an original line:", x[-100:])
    return ok and seen
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    base = "/tmp/seed-base"; d = "/tmp/seed-work"
    copy(base)
    assert build(base)
    copy(d); assert build(d)
    for i, s in g["SEEDS"].items():
        if want and i not in want: continue
        out = os.path.join(V, "seeded", i)
        if not want and os.path.exists(out): continue
        subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
        bad_edit = False
        for path, old, new in s["edits"]:
            p = os.path.join(d, path); t = open(p, encoding="utf-8", newline="").read(); crlf = "\r\n" in t
            if crlf: t = t.replace("\r\n", "\n")
            n = s.get("nth", 1)
            if t.count(old) != 1: print(i, "NO MATCH", t.count(old), repr(old), flush=True); bad_edit = True; break
            t = t.replace(old, new)
            if crlf: t = t.replace("\n", "\r\n")
            open(p, "w", encoding="utf-8", newline="").write(t)
        if bad_edit: continue
        if not orig_lines_ok(d, s["edits"]): print(i, "REJECTED: touches lines of our own"); continue
        diff = subprocess.check_output(["git", "-C", d, "diff", "--binary"])
        if not build(d): print(i, "REJECTED: does not build"); continue
        ok, txt = tests(d)
        if not ok: print(i, "REJECTED: tests fail", txt[-600:]); continue
        tmp = "/tmp/seed-out/" + i
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/patch.diff", "wb").write(diff)
        sh = s.get("demo_sh") or DEMO.replace("@FLAGS@", s.get("flags", "")).replace("@TIMEOUT@", str(s.get("timeout", 120)))
        open(tmp + "/demo.sh", "w").write(sh); os.chmod(tmp + "/demo.sh", 0o755)
        if "demo" in s: open(tmp + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        for n, c in s.get("files", {}).items(): open(tmp + "/" + n, "w").write(c.lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        good = [run(["bash", tmp + "/demo.sh"], base) for _ in range(s.get("repeat", 3))]
        bad = [run(["bash", tmp + "/demo.sh"], d) for _ in range(s.get("repeat", 3))]
        if any(r.returncode for r in good): print(i, "REJECTED: demo fails on the unchanged tree", [r.returncode for r in good], good[0].stdout.decode("utf-8", "replace")[-1500:]); continue
        if not all(r.returncode for r in bad): print(i, "REJECTED: demo does not show it", [r.returncode for r in bad], bad[0].stdout.decode("utf-8", "replace")[-800:]); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
        print(i, "KEPT", bad[0].stdout.decode("utf-8", "replace").strip()[-150:], flush=True)
    for x in (base, d, "/tmp/seed-out"): shutil.rmtree(x, ignore_errors=True)
if __name__ == "__main__":
    main()
