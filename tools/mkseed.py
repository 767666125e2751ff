"""mkseed.py SPEC.py: plant the bugs described in SPEC.py (development helper, not used by checks).

SPEC.py calls seed(id, prop, [(file, old, new)...], demo_rs, needs, breaks, features="")"""
import json, os, re, shutil, subprocess, sys

WT = "/tmp/seedwt"
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after build.sh
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
dir="$(mktemp -d)"
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
auburn = { path = "$repo", features = [%s] }
%s
[workspace]
EOT
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cd "$dir" || exit 3
cargo build --offline -q 2> "$dir/log" || { cat "$dir/log"; exit 4; }
timeout 60 "$dir/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def reset():
    if not os.path.exists(WT):
        sh("cp -a /repo " + WT)
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (WT, WT))


def tests():
    r = sh("cd %s && find src tests examples -name '*.rs' -exec touch {} + ; HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=%s/target cargo test --workspace --no-fail-fast --offline --features serde,tilemap,logging,bevy -- --test-threads 8" % (WT, WT))
    ok = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M))
    bad = re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, re.M)
    return ok, bad, r.stdout


def seed(id, prop, edits, demo, needs, breaks, features="", deps=""):
    if len(sys.argv) > 2 and not any(a in id for a in sys.argv[2:]):
        return
    d = os.path.join(SEED, id)
    reset()
    for f, a, b in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(id, "EDIT DOES NOT MATCH", f, s.count(a))
            return
        open(p, "w").write(s.replace(a, b))
    patch = sh("git -C %s diff" % WT).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO % (", ".join('"%s"' % x for x in features.split(",") if x), deps))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok, bad, out = tests()
    r1 = sh("cd %s && bash %s/demo.sh" % (WT, d))
    reset()
    r0 = sh("cd %s && bash %s/demo.sh" % (WT, d))
    good = r0.returncode == 0 and r1.returncode not in (0, 3, 4) and not bad and ok == 111
    print("%s %s: tests %d ok %s; demo clean=%d patched=%d" % ("OK " if good else "BAD", id, ok, bad[:4], r0.returncode, r1.returncode))
    if not good:
        print(r0.stdout[-600:], r1.stdout[-600:], out[-600:] if ok != 111 else "")
        shutil.rmtree(d)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
