"""Build the MIR extractor and extract the program under analysis from /repo's current tree."""
import fcntl
import os
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = "/repo"


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC", "MIRDUMP")) and k not in ("CARGO_HOME",):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def sh(cmd, e=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=e or env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return _sysroot


def driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    out = os.path.join(BUILD, "mirdump")
    tag = out + ".src"
    text = open(src).read()
    if os.path.exists(out) and os.path.exists(tag) and open(tag).read() == text:
        return out
    p = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out, "-C", "link-arg=-Wl,-rpath," + sysroot() + "/lib"])
    if p.returncode:
        raise BuildError("the MIR extractor does not build:\n" + p.stderr[-3000:])
    open(tag, "w").write(text)
    return out


def kernel():
    """the polyhedron emptiness kernel as a shared library; None if it cannot be built"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "engine", "lp.cc")
    out = os.path.join(BUILD, "lp.so")
    tag = out + ".src"
    text = open(src).read()
    if os.path.exists(out) and os.path.exists(tag) and open(tag).read() == text:
        return out
    tmp = "%s.%d" % (out, os.getpid())
    try:
        p = sh(["g++", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-lgmpxx", "-lgmp"])
    except OSError:
        return None
    if p.returncode:
        return None
    os.rename(tmp, out)
    open(tag, "w").write(text)
    return out


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def forget(e, cwd, *crates):
    """make cargo compile these crates again, whatever it remembers about them"""
    cmd = ["cargo", "+nightly", "clean", "--offline"]
    for c in crates:
        cmd += ["-p", c]
    p = sh(cmd, e, cwd)
    if p.returncode:
        raise BuildError("cargo clean: " + p.stderr[-800:])


def dump(root, out, features=()):
    """MIR of the harness functions whose name starts with `root`, and of all they reach"""
    drv = driver()
    target = os.path.join(BUILD, "target" + "".join("_" + f for f in features))
    if os.path.exists(out):
        os.remove(out)
    t = time.time()
    e = env(
        CARGO_TARGET_DIR=target,
        CARGO_INCREMENTAL="0",
        RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0",
        RUSTC_WORKSPACE_WRAPPER=drv,
        MIRDUMP_CRATE="laws",
        MIRDUMP_OUT=out,
        MIRDUMP_ROOT=root,
    )
    cwd = os.path.join(VERIF, "harness")
    forget(e, cwd, "auburn", "laws")
    p = sh(["cargo", "+nightly", "check", "--offline", "-q"] + ["--features=" + f for f in features], e, cwd)
    if p.returncode or not os.path.exists(out):
        raise BuildError("the laws do not compile against /repo:\n" + "\n".join(l for l in p.stderr.splitlines() if "warning" not in l)[-3000:])
    return round(time.time() - t, 1)


if __name__ == "__main__":
    with lock():
        driver()
        print("kernel:", kernel())
        print("extractor built; sample extraction took", dump("law_c25", os.path.join(BUILD, "setup.json")), "s")
