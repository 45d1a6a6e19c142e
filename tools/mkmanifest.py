"""writes MANIFEST.json from properties.jsonl and the META of the check modules"""
import json, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
NA = json.load(open(R + "/tools/not_applicable.json")) if os.path.exists(R + "/tools/not_applicable.json") else {}
checks, na = [], []
for p in props:
    n = p["id"][1:]
    f = f"checks/p{n}.py"
    if os.path.exists(os.path.join(R, f)) and p["id"] not in NA:
        src = open(os.path.join(R, f)).read()
        tech = re.search(r'^TECHNIQUE = \(?"((?:[^"\\]|\\.)*)"', src, re.M)
        note = re.search(r'^LEVEL_NOTE = \(((?:\s*"(?:[^"\\]|\\.)*"\s*)+)\)', src, re.M)
        note = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', note.group(1))) if note else p["quantifier"]["text"]
        checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python {f} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python {f} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique=tech.group(1) if tech else "runtime monitoring: differential trace oracle",
                           level=re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1), level_note=note))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
         notes="All checks drive /repo's working tree directly (pure Python: nothing to build). No hooks were needed in /repo.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
