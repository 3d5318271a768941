#!/usr/bin/env python3
"""Rebuild the "fixed" part of KNOWN_FINDINGS.jsonl from the fix: commits of /repo; `known` entries are kept."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "KNOWN_FINDINGS.jsonl")
old = [json.loads(l) for l in open(P)] if os.path.exists(P) else []
prop = {f["subject"]: f["property"] for f in old if f.get("status") == "fixed"}
for a in sys.argv[1:]:      # PROPERTY=commit
    k, c = a.split("=")
    prop[subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "-1", "--format=%s", c]).decode().strip()] = k
out = []
for l in subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"]).decode().splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    if s not in prop: print("no property for", h, s); continue
    out.append({"property": prop[s], "status": "fixed", "commit": h, "subject": s, "what": "fixed: property=%s %s %s" % (prop[s], h, s[5:])})
out += [f for f in old if f.get("status") == "known"]
open(P, "w").write("".join(json.dumps(f) + "\n" for f in out))
