"""development helper: which mutants do the existing tests miss?  mutrun.py MUTS.json OUT.json [workers]"""
import json, os, re, subprocess, sys, threading, queue

muts = json.load(open(sys.argv[1])); out = sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 4
done = json.load(open(out)) if os.path.exists(out) else {}
q = queue.Queue()
for m in muts:
    if str(m["id"]) not in done:
        q.put(m)
lock = threading.Lock()


def worker(k):
    wt = "/tmp/mw%d" % k
    if not os.path.exists(wt):
        subprocess.run("cp -a /repo %s" % wt, shell=True)
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=wt + "/target", CARGO_NET_OFFLINE="true")
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(wt, m["file"])
        orig = open("/repo/" + m["file"]).read()
        L = orig.split("\n")
        assert L[m["line"] - 1] == m["old"]
        L[m["line"] - 1] = m["new"]
        open(p, "w").write("\n".join(L))
        try:
            for part in ("--lib --features serde,tilemap,logging,bevy", "--workspace --features serde,tilemap,logging,bevy"):
                r = subprocess.run("timeout 240 cargo test --offline %s -- --test-threads 2" % part, shell=True, cwd=wt, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                if "error: could not compile" in r.stdout or "error[E" in r.stdout:
                    s = "nocompile"
                elif r.returncode == 0 and re.search(r"test result: ok\. ", r.stdout):
                    s = "survives"
                else:
                    s = "killed"
                if s != "survives":
                    break
        except subprocess.TimeoutExpired:
            s = "killed"
        open(p, "w").write(orig)
        with lock:
            done[str(m["id"])] = s
            if len(done) % 10 == 0:
                json.dump(done, open(out, "w"))


ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
json.dump(done, open(out, "w"))
from collections import Counter
print(Counter(done.values()))
