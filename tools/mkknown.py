"""Write known_findings.jsonl: the defects repaired by 'fix:' commits in /repo (and open findings, if any)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(V + "/tools/fixmap.json"))  # subject -> [property, what failed]
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        prop, what = MAP[s[5:]]
        out.append(dict(property=prop, status="fixed", commit=h, what=what, line=f"fixed: property={prop} {h[:12]} {what}"))
for o in json.load(open(V + "/tools/open_findings.json")):
    out.append(dict(status="open", **o))
with open(V + "/known_findings.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
