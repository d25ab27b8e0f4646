"""addfix.py PROPERTY 'commit subject' 'what failed' ...: record repaired defects."""
import json,subprocess,sys
log=subprocess.run(["git","-C","/repo","log","--oneline"],capture_output=True,text=True).stdout.splitlines()
H={l.split(" ",1)[1]:l.split(" ",1)[0] for l in log}
k=json.load(open("/verif/known_findings.json"))
have={f["commit"] for f in k["fixed"]}
a=sys.argv[1:]
for p,m,t in zip(a[::3],a[1::3],a[2::3]):
    h=H[m]
    if h not in have: k["fixed"].append({"property":p,"commit":h,"line":f"fixed: property={p} {h} {t}"})
json.dump(k,open("/verif/known_findings.json","w"),indent=1)
missing=[m for m,h in H.items() if m.startswith("fix:") and h not in {f["commit"] for f in k["fixed"]}]
print("unrecorded:",missing)
