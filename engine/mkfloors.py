"""Regenerate floors.json (labels each law reaches on a reviewed tree).  Run by hand only.
mkfloors.py [prefix]: only the laws with that prefix."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
out = os.path.join(build.BUILD, "all.json")
path = os.path.join(build.VERIF, "engine", "floors.json")
prefix = sys.argv[1] if len(sys.argv) > 1 else "law_"
with build.lock():
    build.dump(prefix, out)
    check.init(out)
    res = check.run(out, list(check._prog.roots), {"timeout": 600}, 8)
fl = {k: v for k, v in json.load(open(path)).items() if not k.startswith(prefix)}
for r in res:
    n = r["law"].split("::")[-1]
    fl[n] = sorted(set(r.get("labels") or []))
    if r["violations"] or r.get("vacuous"):
        print(n, r["wall"], [(v["kind"], v["what"]) for v in r["violations"]], "vacuous:", r.get("vacuous"))
json.dump(fl, open(path, "w"), indent=0, sort_keys=True)
print(len(fl), "laws,", sum(len(x) for x in fl.values()), "labels")
