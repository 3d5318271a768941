#!/usr/bin/env python3
"""Re-introduce each repaired defect (reverse patch of a "fix:" commit) in a scratch copy of
/repo and run the property's check there: it must report a violation.
usage: refix.py [commit-prefix ...]   (reads KNOWN_FINDINGS.jsonl)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for line in open(os.path.join(V, "KNOWN_FINDINGS.jsonl")):
    f = json.loads(line)
    if f.get("status") != "fixed" or (want and not any(f["commit"].startswith(w) for w in want)):
        continue
    d = "/tmp/refix-repo"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    p = subprocess.run(["git", "-C", "/repo", "show", f["commit"]], stdout=subprocess.PIPE).stdout
    r = subprocess.run(["git", "-C", d, "apply", "-R", "--3way", "-"], input=p, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(f["property"], f["commit"], "DOES NOT REVERT", r.stdout.decode()[-300:].strip()); continue
    e = dict(os.environ, VERIF_REPO=d)
    r = subprocess.run(["python3", os.path.join(V, "run.py"), "check", f["property"]], env=e, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode("utf-8", "replace")
    msg = [l for l in out.splitlines() if l.startswith("FAILED")]
    print(f["property"], f["commit"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, msg[-1][:160] if msg else f["what"][:100], flush=True)
    shutil.rmtree(d, ignore_errors=True)
