#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the checker has (run by hand after adding one)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off")
subprocess.run(["go", "build", "-o", "/tmp/mkm_checker", "."], cwd=V + "/checker", env=env, check=True)
have = subprocess.run(["/tmp/mkm_checker", "-list"], capture_output=True, text=True).stdout.split()
os.remove("/tmp/mkm_checker")
T = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in T["technique"]:
        t, note = T["technique"][i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": T["na"].get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "cd checker && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod go build -o /dev/null .",
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
