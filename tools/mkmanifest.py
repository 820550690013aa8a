import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
built = {os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/mc/props/c*.py")}
T = {}
exec(open(V + "/tools/techniques.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        tech, note, *lvl = T.get(i, ("bounded exhaustive exploration of operation histories on the real code against a reference model", ""))
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=(lvl or ["model_checking"])[0], level_note=note or
                           "Exhaustive within the bounds listed per space in the evidence file; every explored history runs on the "
                           "real code in /repo and is compared with an independent reference model. Trusts numpy/pandas and the "
                           "reference model; nothing is claimed beyond the bounds."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet; not claimed")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks drive the public API of the working tree directly. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
