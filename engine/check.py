"""Decide the laws of one property."""
import json
import os
import sys
import time
import resource
import signal
import traceback
from multiprocessing import Pipe, Process, connection

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from poly import *
from add import *
import theory
from theory import feasible, sign_expr, g_prune, g_false
import interp
from interp import Program, Interp, State, GaveUp, Unsupported
from models import Models

_prog = None
MEMORY = 6 << 30  # bytes a law may take
_models = None


def diff(M, a, b):
    """diagram: the two values differ (True / False / Top)"""

    def f(x, y):
        if x is BOT or y is BOT:
            return False
        if isinstance(x, Top):
            return x
        if isinstance(y, Top):
            return y
        if x is ANY or y is ANY:
            return Top("comparison of a float nothing is known about")
        if isinstance(x, Special) or isinstance(y, Special):
            return x is not y
        if isinstance(x, Expr) and isinstance(y, Expr):
            d = esub(x, y)
            if not d.n.t:
                return False
            s = theory.sign_poly(d.n)
            return apply(lambda z: z != "0", s)
        if isinstance(x, bool) and isinstance(y, bool):
            return x != y
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.var != y.var or len(x.f) != len(y.f):
                return True
            r = False
            for p, q in zip(x.f, y.f):
                r = b_or_top(r, diff(M, p, q))
            return r
        if isinstance(x, Seq) and isinstance(y, Seq):
            if len(x.e) != len(y.e):
                return True
            r = False
            for p, q in zip(x.e, y.e):
                r = b_or_top(r, diff(M, p, q))
            return r
        if x == y:
            return False
        return Top("cannot compare %s with %s" % (type(x).__name__, type(y).__name__))

    return apply(f, a, b)


def b_or_top(a, b):
    def f(x, y):
        if x is True or y is True:
            return True
        if isinstance(x, Top):
            return x
        if isinstance(y, Top):
            return y
        return False

    return apply(f, a, b)


def guard_with(g, v):
    """v where g, False elsewhere"""
    memo = {}

    def rec(g, v):
        if g is False or g is BOT or v is BOT or v is False:
            return False
        if not isinstance(g, Node) and not isinstance(v, Node):
            return v
        key = (id(g), id(v))
        r = memo.get(key)
        if r is None:
            t = min(x.atom.id for x in (g, v) if isinstance(x, Node))
            at = DD.atoms[t]
            r = ordered(at, tuple(rec(cof(g, at, o), cof(v, at, o)) for o in range(len(at.outs))))
            memo[key] = r
        return r

    return rec(g, v)


def witnesses(bad, limit=6):
    """satisfiable cubes on which bad is not False"""
    out = []
    for cube, leaf in paths(bad, feasible):
        if leaf is False:
            continue
        if not theory.refute(cube):
            out.append((cube, leaf))
            if len(out) >= limit:
                break
    return out


def fmt_path(cp):
    out = []
    for name, f, l in cp:
        if f.startswith("/repo/"):
            out.append("%s (%s:%d)" % (name, f[6:], l))
        elif f.startswith("src/"):
            out.append("%s (harness/%s:%d)" % (name, f, l))
    return out


class LawTimeout(Exception):
    pass


def run_law(arg):
    name, opts = arg
    t0 = time.time()
    C.reset()
    DD.reset()
    theory.reset()
    it = Interp(_prog, _models, opts)
    res = {"law": name, "violations": [], "obligations": 0, "discharged": 0}

    def alarm(*_):
        raise LawTimeout()

    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, alarm)
    left = int(opts.get("timeout", 600))
    if "until" in opts:
        left = min(left, int(opts["until"] - time.time()))
    try:
        if left < 1:
            raise LawTimeout()
        signal.alarm(left)
        analyse(it, name, res, opts)
    except LawTimeout:
        res["violations"].append({"kind": "undecided", "what": "analysis time limit reached", "where": fmt_path(it.callpath())})
    except MemoryError:
        C.reset()
        DD.reset()
        theory.reset()
        res["violations"].append({"kind": "undecided", "what": "analysis memory limit reached", "where": fmt_path(it.callpath())})
    except (GaveUp, Unsupported) as e:
        if os.environ.get("DEBUG"):
            traceback.print_exc()
        res["violations"].append({"kind": "undecided", "what": "%s: %s" % (type(e).__name__, e), "where": fmt_path(it.callpath())})
    except Exception as e:
        res["violations"].append({"kind": "undecided", "what": "analyser error %s: %s" % (type(e).__name__, str(e)[:300]), "trace": traceback.format_exc()[-1800:], "where": fmt_path(it.callpath())})
    finally:
        signal.alarm(0)
    res["functions"] = sorted(it.visited)
    res["labels"] = sorted(res.get("labels", []))
    res["files"] = sorted(it.files)
    res["blocks"] = it.blocks
    res["nblocks"] = sum(len(v) for v in it.visited.values())
    res["calls"] = it.calls
    res["atoms"] = len(DD.atoms)
    res["unmodelled"] = sorted(it.unmodelled)
    res["assumptions"] = sorted(it.assumptions)
    res["queries"] = theory.T.queries
    res["gave_up"] = theory.T.gave_up
    res["wall"] = round(time.time() - t0, 2)
    return res


def analyse(it, name, res, opts):
    i = _prog.roots[name]
    inst = _prog.insts[i]
    body = inst["body"]
    args = []
    names = body.get("names") or {}
    for k in range(body["argc"]):
        nm = None
        if isinstance(names, dict):
            nm = names.get(str(k + 1))
        else:
            for e in names:
                if e[0] == k + 1:
                    nm = e[1]
        args.append(it.fresh(body["locals"][k + 1], nm or "a%d" % k))
    it.base_mem = dict(it.constmem)
    v, st = it.call_inst(i, args, State({}, True))
    it.stack = []
    side = it.models.side_conditions(it)
    for e in it.events:
        g = guard_with(e.g, side) if side is not True else e.g
        w = witnesses(g, 2)
        res["obligations"] += 1
        if not w:
            res["discharged"] += 1
            continue
        res["violations"].append(
            {
                "kind": e.kind,
                "what": e.what if not e.extra else "%s %s" % (e.what, e.extra[:1]),
                "where": fmt_path(e.stack),
                "when": [cube_str(c)[:1500] for c, _ in w],
            }
        )
    reached = 0
    res["labels"] = set()
    for kind, a, b, g, label, cp in it.checks:
        res["obligations"] += 1
        if side is not True:
            g = guard_with(g, side)
        if not witnesses(g, 1):
            res.setdefault("vacuous", []).append(label)
        else:
            reached += 1
            res["labels"].add(label)
        bad = diff(_models, a, b) if kind == "eq" else apply(lambda x: (not x) if isinstance(x, bool) else (x if isinstance(x, Top) else Top("not a bool")), a)
        bad = guard_with(g, bad)
        w = witnesses(bad)
        if not w:
            res["discharged"] += 1
            continue
        vio = {
            "kind": "law",
            "what": label,
            "where": fmt_path(cp)[-1:],
            "when": [cube_str(c)[:1500] for c, _ in w[:3]],
        }
        if any(isinstance(l, Top) for _, l in w):
            vio["kind"] = "undecided"
            vio["what"] = label + ": " + [l.why for _, l in w if isinstance(l, Top)][0]
        if kind == "eq" and opts.get("show", True):
            c = w[0][0]
            vio["left"] = repr(cofactor(a, c))[:600]
            vio["right"] = repr(cofactor(b, c))[:600]
        vio["branches"] = sorted({x.where for c, _ in w[:1] for x, _ in c if x.where})[:12]
        res["violations"].append(vio)
    if v is None and not reached:
        res["violations"].append({"kind": "undecided", "what": "the law does not reach its end: every path diverges", "where": []})
    if not it.checks:
        res["violations"].append({"kind": "undecided", "what": "no obligation reached", "where": []})
    res["reached"] = reached
    res["labels"] = sorted(res["labels"])
    res["vacuous"] = sorted(set(res.get("vacuous", [])) - set(res["labels"]))
    return res


def cofactor(v, cube):
    d = {a.id: o for a, o in cube}

    def rec(x):
        while isinstance(x, Node) and x.atom.id in d:
            x = x.ch[d[x.atom.id]]
        if isinstance(x, Agg):
            return Agg(x.tag.split("::")[-1], x.var, tuple(rec(y) for y in x.f))
        if isinstance(x, Seq):
            return Seq(rec(y) for y in x.e)
        return x

    return rec(v)


def init(path):
    global _prog, _models
    _prog = Program(path)
    _models = Models()


def run(dump, laws, opts, jobs=8):
    init(dump)
    todo = [(l, dict(opts, **opts.get("per", {}).get(l, {}))) for l in laws]
    res = [None] * len(todo)
    waiting, busy = list(range(len(todo)))[::-1], {}
    # a process for each law: whatever becomes of it (killed, out of memory in a library, stuck), there is an answer
    while waiting or busy:
        while waiting and len(busy) < jobs:
            k = waiting.pop()
            here, there = Pipe(False)
            p = Process(target=answer, args=(todo[k], there), daemon=True)
            p.start()
            there.close()
            limit = time.time() + todo[k][1].get("timeout", 600) + 20
            if "until" in todo[k][1]:
                limit = min(limit, max(todo[k][1]["until"], time.time()) + 20)
            busy[k] = (p, here, limit)
        ready = connection.wait([b[1] for b in busy.values()], 5)
        for k, (p, here, limit) in list(busy.items()):
            if here in ready:
                try:
                    res[k] = here.recv()
                except EOFError:
                    res[k] = lost(todo[k][0], "the analysis of this law broke off (out of memory?)")
            elif time.time() > limit:
                p.kill()
                res[k] = lost(todo[k][0], "analysis time limit reached")
            else:
                continue
            here.close()
            p.join()
            del busy[k]
    return res


def answer(task, out):
    out.send(run_law(task))


def lost(name, why):
    return {"law": name, "violations": [{"kind": "undecided", "what": why, "where": []}], "obligations": 0, "discharged": 0, "functions": [], "labels": [], "files": [], "blocks": 0, "nblocks": 0, "calls": 0, "atoms": 0, "unmodelled": [], "assumptions": [], "queries": 0, "gave_up": 0, "wall": 0}


if __name__ == "__main__":
    dump = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else "law_"
    init(dump)
    laws = [l for l in _prog.roots if pat in l and not (os.environ.get("NODEEP") and l.endswith("_deep"))]
    jobs = int(os.environ.get("JOBS", "8"))
    t = time.time()
    for r in run(dump, laws, {"timeout": int(os.environ.get("T", "120"))}, jobs):
        ok = "ok  " if not r["violations"] else "FAIL"
        print("%s %-40s obl %d/%d reached %s atoms %d blocks %d q %d %.1fs %s" % (ok, r["law"], r["discharged"], r["obligations"], r.get("reached"), r["atoms"], r["blocks"], r["queries"], r["wall"], r.get("vacuous", "")))
        if r["unmodelled"]:
            print("    unmodelled:", r["unmodelled"])
        for v in r["violations"][: int(os.environ.get("NV", "4"))]:
            print("    ", json.dumps(v, indent=1)[:3500].replace("\n", "\n     "))
    print("total %.1fs" % (time.time() - t))
