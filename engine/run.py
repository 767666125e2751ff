"""run.py <property> [--tier quick|thorough]: decide one property of /repo's current tree.

exit 0: every obligation of the property was discharged (known findings excepted)
exit 1: a line `VIOLATION property=<id> replay=<path>`
"""
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
import check
from build import BuildError, BUILD, VERIF

ASSUME = [
    "f32 arithmetic is treated as exact real arithmetic: the verdict is up to rounding, over finite inputs whose intermediate results neither overflow nor underflow; -0 and +0 are one value; NaN and the infinities are tracked where the code produces or tests for them",
    "a frontier of library functions (glam's SIMD intrinsics, libm sqrt/sin_cos/atan2, Vec/Box/HashMap/BTreeMap containers, iterator adaptors that are not analysed from their MIR) is replaced by the summaries in engine/models.py; trigonometric functions are an arbitrary point of the unit circle with the addition theorems",
    "rustc's MIR (nightly, -Zmir-opt-level=0) of the features std,2d,poly,serde,tilemap,bevy is what is analysed; bevy itself is replaced by a type stub with glam's Transform formulae",
]


def law_source():
    """law name -> file, from the harness itself"""
    out = {}
    src = os.path.join(VERIF, "harness", "src")
    for f in sorted(os.listdir(src)):
        for m in re.finditer(r"pub fn (law_\w+)\s*\(", open(os.path.join(src, f)).read()):
            out[m.group(1)] = f
    return out


def run_laws(prop, tier, prefix=None, only=None, features=()):
    """-> (violations, coverage)"""
    prefix = prefix or "law_%s_" % prop.lower()
    expected = {k for k in law_source() if k.startswith(prefix) and (only is None or re.match(only, k))}
    if tier != "thorough":
        expected = {k for k in expected if not k.endswith("_deep")}
    out = os.path.join(BUILD, prop.lower() + "_dump.json")
    t0 = time.time()
    build.dump(prefix, out, features)
    check.init(out)
    roots = {r.split("::")[-1]: r for r in check._prog.roots}
    vio = []
    for l in sorted(expected - set(roots)):
        vio.append({"law": l, "kind": "missing", "what": "the law is not in the analysed program", "where": []})
    # the long ones first
    todo = [roots[l] for l in sorted(expected & set(roots), key=lambda l: (not re.match(r"law_c1[1236]", l), l))]
    limit = 600 if tier == "quick" else 800
    rounds = (len(todo) + 7) // 8
    per = limit if len(todo) > 60 else max(60, min(limit, (640 if tier == "quick" else 840) // max(1, rounds)))
    # whatever happens, there is an answer within a quarter of an hour
    res = check.run(out, todo, {"timeout": per, "until": t0 + (780 if tier == "quick" else 1e9)}, 8)
    floors = json.load(open(os.path.join(VERIF, "engine", "floors.json")))
    fns, blocks, labels, obl, dis = set(), 0, 0, 0, 0
    laws = []
    for r in res:
        name = r["law"].split("::")[-1]
        fns |= set(r["functions"])
        blocks += r["nblocks"]
        obl += r["obligations"]
        dis += r["discharged"]
        for v in r["violations"]:
            v["law"] = name
            vio.append(v)
        got = set(r.get("labels", []))
        labels += len(got)
        if not r["violations"]:
            for l in floors.get(name, []):
                if l not in got:
                    vio.append({"law": name, "kind": "vacuous", "what": l + ": no execution reaches this obligation any more", "where": []})
        laws.append({"law": name, "obligations": r["obligations"], "discharged": r["discharged"], "obligations_reached": r.get("reached", 0), "functions": len(r["functions"]), "basic_blocks": r["nblocks"], "decision_atoms": r["atoms"], "wall_s": r["wall"]})
    if not fns:
        vio.append({"law": prefix, "kind": "missing", "what": "no function of auburn was analysed", "where": []})
    cov = {
        "laws": laws,
        "laws_analysed": len(res),
        "obligations": obl,
        "discharged": dis,
        "obligation_labels_reached": labels,
        "functions_analysed": len(fns),
        "basic_blocks_analysed": blocks,
        "auburn_functions": sorted(fns),
        "repo_files": sorted({f for r in res for f in r.get("files", [])}),
        "fixpoint_or_domain_queries": sum(r["queries"] for r in res),
        "assumptions_used": sorted({a for r in res for a in r["assumptions"]}),
        "extract_and_analyse_s": round(time.time() - t0, 1),
    }
    return vio, cov


def key(v):
    return "%s|%s|%s" % (v.get("law", ""), v["kind"], v["what"])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    from props import PROPS

    spec = PROPS[prop]
    vio, cov = [], {}
    with build.lock():
        for name, fn in spec["analyses"]:
            try:
                v, c = fn(prop, tier)
            except BuildError as e:
                v, c = [{"law": name, "kind": "undecided", "what": "cannot analyse /repo's current tree", "detail": str(e)[-3000:], "where": []}], {}
            for k, x in c.items():
                if k in cov and isinstance(x, int):
                    cov[k] += x
                elif k in cov:
                    cov[name + "_" + k] = x
                else:
                    cov[k] = x
            vio += v
    known = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == prop:
            known[m.group(2)] = {"key": m.group(2), "what": m.group(3)}
    fresh, seen = [], []
    for v in vio:
        e = known.get(key(v))
        if e:
            seen.append(e)
        else:
            fresh.append(v)
    for e in {e["key"]: e for e in seen}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    cov["explanation"] = spec["explain"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": spec.get("assume", ASSUME),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not fresh:
        print("%s holds: %s" % (prop, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int))))
        return 0
    rp = os.path.join(VERIF, "evidence", prop + ".violation.json")
    with open(rp, "w") as f:
        json.dump({"property": prop, "title": spec["title"], "violations": fresh}, f, indent=1, default=str)
    for v in fresh[:8]:
        print("%s: %s [%s] %s" % (v.get("law", ""), v["what"], v["kind"], "; ".join(str(w) for w in (v.get("branches") or v.get("where") or [])[:6])))
        if v.get("detail"):
            print(v["detail"][-1500:])
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # fail closed
        import traceback

        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        rp = os.path.join(VERIF, "evidence", p + ".violation.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump({"property": p, "violations": [{"kind": "undecided", "what": "analyser error: %r" % (e,)}]}, f)
        print("VIOLATION property=%s replay=%s" % (p, rp))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
