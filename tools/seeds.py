#!/usr/bin/env python3
"""Run the property's check against each planted bug (scratch copy of /repo): seeds.py [id ...]; writes tools/seeds.json."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "tools", "seeds.json")
want = sys.argv[1:]
res = json.load(open(P)) if os.path.exists(P) else {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    sd = os.path.join(V, "seeded", i)
    if not os.path.exists(sd + "/patch.diff") or (want and i not in want) or (not want and i in res): continue
    m = json.load(open(sd + "/meta.json"))
    d = "/tmp/seedrun-%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    subprocess.check_call(["git", "-C", d, "apply", sd + "/patch.diff"])
    t = time.time()
    r = subprocess.run(["python3", V + "/run.py", "check", m["property"]], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode("utf-8", "replace")
    f = [l for l in o.splitlines() if l.startswith("FAILED")]
    res[i] = ("caught by %s" % m["property"]) if r.returncode == 1 else "MISSED (rc %d)" % r.returncode
    print(i, res[i], "%.0fs" % (time.time() - t), f[-1][:200] if f else "", flush=True)
    json.dump(res, open(P, "w"), indent=1, sort_keys=True)
    shutil.rmtree(d, ignore_errors=True)
for i in list(res):
    if not os.path.exists(os.path.join(V, "seeded", i)): del res[i]
json.dump(res, open(P, "w"), indent=1, sort_keys=True)
