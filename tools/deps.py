#!/usr/bin/env python3
"""Recompute tools/deps.json: which library sources each harness links (a build-time shortcut only; run.py falls back to all)."""
import json, os, re, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(R + "/checks.json")); f = R + "/tools/deps.json"
deps = json.load(open(f)) if os.path.exists(f) else {}
ids = sys.argv[1:] or sorted(checks)
srcs = []
for d, _, fs in os.walk("/repo/stingraykit"):
    for x in fs:
        if x.endswith(".cpp"): srcs.append(os.path.relpath(os.path.join(d, x), "/repo/stingraykit"))
for pid in ids:
    subprocess.check_call([sys.executable, R + "/run.py", pid, "--build-only", "--all-sources"], env=dict(os.environ, VERIF_KEEP="1"))
    for p in checks[pid]["parts"]:
        m = open("%s/build/%s/%s-%s.map" % (R, pid, os.path.basename(p["src"])[:-4], p["mode"])).read()
        used = set(re.findall(r"\.a\(([^)]+)\.o\)", m))
        deps[p["mode"] + ":" + p["src"]] = sorted(s for s in srcs if s.replace("/", "_") in used)
    subprocess.call(["rm", "-rf", "%s/build/%s" % (R, pid)])
json.dump({k: deps[k] for k in sorted(deps)}, open(f, "w"), indent=0)
