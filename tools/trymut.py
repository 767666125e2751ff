"""trymut.py SPEC.py [names…]: try edits of auburn in a scratch copy against the engine.
SPEC.py defines EDITS = [(name, law substring, [(file, old, new)…])…]."""
import os, subprocess, sys, shutil
W = "/tmp/tr"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(W, exist_ok=True)
sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/repo/ ; rsync -a --exclude .git --exclude evidence /verif/ %s/verif/ ; sed -i 's#^REPO = .*#REPO = \"%s/repo\"#' %s/verif/engine/build.py" % (W, W, W, W))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for name, laws, edits in ns["EDITS"]:
    if want and name not in want:
        continue
    saved = {}
    bad = False
    for f, old, new in edits:
        p = W + "/repo/" + f
        s = open(p).read()
        saved.setdefault(p, s)
        if old not in s:
            print("==", name, "OLD TEXT NOT FOUND in", f); bad = True; break
        open(p, "w").write(s.replace(old, new, 1))
    if not bad:
        print("==", name)
        r = sh("""cd %s/verif && python3 -c "
import sys; sys.path.insert(0,'engine')
import build
try:
    build.dump('law_','%s/d.json')
except build.BuildError as e:
    print('BUILD', e); sys.exit(1)
" && for l in %s; do T=%s NV=3 python3 engine/check.py %s/d.json $l; done""" % (W, W, laws, os.environ.get("T", "300"), W))
        out = r.stdout
        fails = [l for l in out.splitlines() if l.startswith("FAIL")]
        print("   ", "ok:", sum(l.startswith("ok") for l in out.splitlines()), "FAIL:", len(fails), "" if r.returncode == 0 else out[-1500:])
        if os.environ.get("V"):
            print(out[:int(os.environ["V"])])
        else:
            for l in fails[:6]:
                print("     ", l[:110])
            whats = sorted({l.strip() for l in out.splitlines() if l.strip().startswith('"what"')})
            for l in whats[:8]:
                print("       ", l[:200])
    for p, s in saved.items():
        open(p, "w").write(s)
