"""C14: an effect analysis over every function of auburn (generic bodies and closures included,
whether or not a law reaches them).

Facts come from the compiled MIR of the crate, once with the tilemap/bevy features and once with
logging on top.  A function of auburn is pure when everything it mentions is: calls outside the
crate go to libraries that cannot reach anything but their arguments, no static that can change is
mentioned, no address becomes a number, nothing is walked in the order of a hash table.
"""
import os
import re
import time

import build
from build import BUILD, BuildError

# crates whose functions depend on nothing but their arguments and change nothing else
PURE = {"auburn", "core", "alloc", "glam", "lk_math", "round_to", "serde", "serde_core", "serde_json", "serde_with", "bevy", "libm", "hashbrown"}

# std is a door to the world: only these parts are functions of their arguments
STD_OK = re.compile(
    r"^(<impl |<)?std::(f32|f64|collections|num|i32|option|result|vec|string|boxed|ops|cmp|iter|slice|mem|ascii|char|borrow|error)\b"
    r"|^<.* as std::(error::Error|ops|cmp|iter)"
)
# ... and core and alloc have doors as well
DOORS = [
    (re.compile(r"\bcore::sync::atomic::"), "shared mutable state (atomic)"),
    (re.compile(r"\b(alloc|std)::sync::|\balloc::rc::"), None),
    (re.compile(r"\b_?_?(rdtsc|rdtscp|rdrand|rdseed|cpuid)"), "a machine register"),
    (re.compile(r"\b(core|alloc)::io::"), "input or output"),
    (re.compile(r"\bcore::ptr::(addr_eq|eq|fn_addr_eq|hash)$|::expose_provenance|::addr$|::align_offset$|is_aligned"), "an address"),
    (re.compile(r"\bcore::fmt::(Pointer|rt::Argument::<.*>::new_pointer)"), "an address"),
    (re.compile(r"MaybeUninit.*::assume_init|core::mem::uninitialized"), "memory that may not have been written"),
    (re.compile(r"\bcore::intrinsics::(volatile|atomic)|core::ptr::(read_volatile|write_volatile)"), "volatile memory"),
    (re.compile(r"\balloc::alloc::(alloc|realloc|alloc_zeroed)$"), "memory that may not have been written"),
]
HASHED = re.compile(r"(collections::hash::(map::HashMap|set::HashSet)|hashbrown::(map::HashMap|set::HashSet)|std::collections::Hash(Map|Set))")
HASH_ITER = re.compile(r"hash::(map|set)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
WALK = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if", "into_iter", "union", "intersection", "difference", "symmetric_difference"}
# ways to consume a walk that do not show its order
ORDERLESS = {"any", "all", "count", "into_iter", "iter", "map", "filter", "cloned", "copied", "by_ref", "size_hint", "len", "contains", "is_empty"}
# save and load exist to touch the file they are given
WORLD = re.compile(r"^auburn::col2d::shape::tilemap::Tilemap::(save|load)(::\{closure#\d+\})*$")
WORLD_OK = re.compile(r"^(std::fs::|std::io::|alloc::io::|core::io::|<.* as (std|alloc|core)::io::)")
DERIVED = re.compile(r"serde::(ser|de)::|core::fmt::Debug")


def facts(features):
    drv = build.driver()
    out = os.path.join(BUILD, "items.json")
    if os.path.exists(out):
        os.remove(out)
    e = build.env(
        CARGO_TARGET_DIR=os.path.join(BUILD, "target_items"),
        CARGO_INCREMENTAL="0",
        RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0",
        RUSTC_WORKSPACE_WRAPPER=drv,
        MIRDUMP_CRATE="laws",
        MIRDUMP_OUT=out,
        MIRDUMP_ITEMS="auburn",
    )
    cwd = os.path.join(build.VERIF, "harness")
    build.forget(e, cwd, "auburn", "laws")
    p = build.sh(["cargo", "+nightly", "check", "--offline", "-q"] + features, e, cwd)
    if p.returncode or not os.path.exists(out):
        raise BuildError("auburn does not compile:\n" + "\n".join(l for l in p.stderr.splitlines() if "warning" not in l)[-3000:])
    import json

    return json.load(open(out))


def call_rule(fn, call, logging):
    """why this callee is not a function of its arguments, or None"""
    path, krate, args, how, file, line = call
    name = path.rsplit("::", 1)[-1]
    world = WORLD.match(fn) is not None
    if world and WORLD_OK.match(path):
        return None
    if krate == "log":
        return None if logging else "calls the logger with logging off"
    if krate not in PURE and krate != "std":
        return "calls %s of the crate %s, which is not known to be pure" % (path, krate)
    if krate == "auburn":
        return None
    for r, what in DOORS:
        if what and r.search(path):
            return "calls %s: depends on %s" % (path, what)
    if krate == "std" and not STD_OK.search(path):
        return "calls %s: reaches outside its arguments" % path
    if "RandomState" in path or (name in ("build_hasher", "hash_one") and any("RandomState" in a for a in args)):
        return "calls %s: depends on the randomly chosen hash function" % path
    hashed = bool(HASHED.search(path)) or (name == "into_iter" and bool(args) and bool(HASHED.search(args[0])))
    if hashed and name in WALK and name not in ("into_iter", "iter", "keys", "values", "iter_mut", "values_mut") and not DERIVED.search(fn):
        return "calls %s: goes through a hash table in its random order" % path
    if args and HASH_ITER.search(args[0]) and name not in ORDERLESS and not DERIVED.search(fn):
        return "calls %s on %s: depends on the random order of a hash table" % (path, args[0])
    if "Argument" in path and name.startswith("new_debug") and any(HASHED.search(a) for a in args):
        return "formats a hash table: depends on its random order"
    return None


def effects(prop, tier):
    t0 = time.time()
    vio, fns, calls, fields, files = [], {}, 0, 0, set()
    runs = [("serde,tilemap,bevy", []), ("serde,tilemap,bevy,logging", ["--features", "logging"])]
    seen = set()
    for label, feat in runs:
        d = facts(feat)
        logging = bool(feat)

        def report(fn, what, file, line):
            if (fn, what) not in seen:
                seen.add((fn, what))
                vio.append({"law": "effects", "kind": "effect", "what": "%s %s" % (fn, what), "where": ["%s:%s" % (file, line)], "detail": "features " + label})

        for f in d["fns"]:
            if "body" not in f or not f["body"]:
                continue
            fns[f["path"]] = max(fns.get(f["path"], 0), f["blocks"])
            files.add(f["file"])
            for c in f["calls"]:
                calls += 1
                why = call_rule(f["path"], c, logging)
                if why:
                    report(f["path"], why, c[4], c[5])
            for kind, what, file, line in f["other"]:
                if kind in ("raw write", "address") and not file.startswith(build.REPO):
                    continue
                if kind == "pointer" or kind == "unknown":
                    continue
                report(f["path"], "%s: %s" % (kind, what), file, line)
        for t, field, ty, cell, file, line in d["types"]:
            fields += 1
            if cell:
                report(t, "has the field `%s: %s`, which can change behind a shared reference (%s)" % (field, ty, cell), file, line)
    if len(fns) < 150:
        vio.append({"law": "effects", "kind": "missing", "what": "only %d functions of auburn were found" % len(fns), "where": []})
    cov = {
        "functions_analysed": len(fns),
        "basic_blocks_analysed": sum(fns.values()),
        "calls_classified": calls,
        "fields_classified": fields,
        "feature_sets": [r[0] for r in runs],
        "repo_files": sorted(files),
        "auburn_functions": sorted(fns),
        "obligations": calls + fields,
        "discharged": calls + fields - len(vio),
        "effects_s": round(time.time() - t0, 1),
    }
    return vio, cov
