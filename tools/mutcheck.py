"""development helper: which mutants that the tests miss do the laws catch?
mutcheck.py MUTS.json TESTRES.json BASE.json OUT.json [workers] [file substring]
BASE.json: mutcheck.py base BASE.json   (one run of all laws on the unchanged tree)"""
import json, os, shutil, subprocess, sys, time
from multiprocessing import Process, Queue, Lock

V = "/verif"


def setup(k):
    d = "/tmp/mv%d" % k
    os.makedirs(d, exist_ok=True)
    subprocess.run("rsync -a --delete --exclude target --exclude .git /repo/ %s/repo/ 2>/dev/null || (rm -rf %s/repo && mkdir %s/repo && cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock /repo/tests /repo/examples %s/repo/)" % (d, d, d, d), shell=True)
    subprocess.run("rm -rf %s/verif && mkdir -p %s/verif && cp -a /verif/engine /verif/driver /verif/stubs /verif/harness /verif/.build %s/verif/" % (d, d, d), shell=True)
    return d


def dump(d):
    out = d + "/dump.json"
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/verif/.build/target", CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0", RUSTC_WORKSPACE_WRAPPER=d + "/verif/.build/mirdump", MIRDUMP_CRATE="laws", MIRDUMP_OUT=out, MIRDUMP_ROOT="law_")
    subprocess.run("cargo +nightly clean --offline -q -p auburn -p laws", shell=True, cwd=d + "/verif/harness", env=env, stderr=subprocess.DEVNULL)
    r = subprocess.run("cargo +nightly check --offline -q", shell=True, cwd=d + "/verif/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return out if os.path.exists(out) else None, r.stdout


ONE = r'''
import sys, json
sys.path.insert(0, sys.argv[1] + "/verif/engine")
sys.setrecursionlimit(20000)
import check
check.init(sys.argv[1] + "/dump.json")
laws = json.loads(sys.argv[2])
slack = float(sys.argv[3])
for l, t in laws:
    if l not in check._prog.roots:
        print(json.dumps([l, "missing", ""])); sys.exit()
    r = check.run_law((l, {"timeout": max(20, int(t * slack))}))
    if r["violations"]:
        v = r["violations"][0]
        print(json.dumps([l, v["kind"], v["what"][:200]]), flush=True)
        sys.exit()
print(json.dumps(None))
'''


def work(k, q, lock, out, base):
    d = setup(k)
    while True:
        m = q.get()
        if m is None:
            return
        src = "%s/repo/%s" % (d, m["file"])
        orig = open("/repo/" + m["file"]).read()
        L = orig.split("\n")
        L[m["line"] - 1] = m["new"]
        open(src, "w").write("\n".join(L))
        t0 = time.time()
        o, err = dump(d)
        if o is None:
            res = ["-", "nodump", err[-300:]]
        else:
            laws = sorted([(l, w) for l, (w, fs) in base.items() if any(m["file"] in f for f in fs) and not l.endswith("_deep")], key=lambda x: x[1])
            r = subprocess.run([sys.executable, "-c", ONE, d, json.dumps(laws), "4"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            try:
                res = json.loads(r.stdout.strip().split("\n")[-1])
            except Exception:
                res = ["-", "crash", r.stderr[-300:]]
        open(src, "w").write(orig)
        with lock:
            done = json.load(open(out)) if os.path.exists(out) else {}
            done[str(m["id"])] = {"res": res, "t": round(time.time() - t0, 1), "m": m}
            json.dump(done, open(out + ".tmp", "w"), indent=0)
            os.rename(out + ".tmp", out)


if __name__ == "__main__":
    if sys.argv[1] == "base":
        sys.path.insert(0, V + "/engine")
        sys.setrecursionlimit(20000)
        import check

        check.init(V + "/.build/dump.json")
        laws = [l for l in check._prog.roots if not l.endswith("_deep")]
        res = check.run(V + "/.build/dump.json", laws, {"timeout": 600}, 8)
        json.dump({r["law"]: (r["wall"], r["files"]) for r in res}, open(sys.argv[2], "w"))
        for r in res:
            if r["violations"]:
                print(r["law"], r["violations"][0]["what"][:200])
        for r in sorted(res, key=lambda r: -r["wall"])[:25]:
            print(r["law"], r["wall"])
        sys.exit()
    muts = json.load(open(sys.argv[1]))
    tr = json.load(open(sys.argv[2]))
    base = json.load(open(sys.argv[3]))
    out = sys.argv[4]
    W = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    pat = sys.argv[6] if len(sys.argv) > 6 else ""
    done = json.load(open(out)) if os.path.exists(out) else {}
    q = Queue()
    n = 0
    for m in sorted(muts, key=lambda m: "minkowski" in m["file"]):
        if tr.get(str(m["id"])) == "survives" and pat in m["file"] and str(m["id"]) not in done:
            q.put(m)
            n += 1
    print(n, "mutants")
    lock = Lock()
    ps = [Process(target=work, args=(k, q, lock, out, base)) for k in range(W)]
    for _ in ps:
        q.put(None)
    [p.start() for p in ps]
    [p.join() for p in ps]
    done = json.load(open(out))
    from collections import Counter

    print(Counter("miss" if r["res"] is None else r["res"][1] for r in done.values()))
