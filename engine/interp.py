"""Abstract interpreter over monomorphic MIR.

One abstract state per program point: a store of guarded values plus the guard
under which the point is reached.  States that meet at a control-flow join are
merged (values become guarded by the branch atoms), callees are analysed in
the context of their call site, loops are iterated until the back edge is
unreachable (bounded trip counts) or generalised to a fixpoint."""
import json
import sys
from fractions import Fraction
from poly import *
from add import *
import theory
from theory import feasible, g_prune, g_false, sign_expr, sign_poly, prune

sys.setrecursionlimit(20000)

UNIT = Agg("()", 0, ())


class Unsupported(Exception):
    pass


class GaveUp(Exception):
    pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots = dict((n.split("::", 1)[-1], i) for n, i in d["roots"])
        self.files = d["files"]
        self.tys = d["tys"]
        self.insts = d["insts"]
        self.order_cache = {}
        self.dead_cache = {}
        self.adts = {}
        for t in self.tys:
            if t["k"] == "adt" and t["n"] not in self.adts:
                self.adts[t["n"]] = t

    def dead_at(self, i, b0):
        """locals certainly assigned before they are used from block b0 on"""
        key = (i, b0)
        r = self.dead_cache.get(key)
        if r is not None:
            return r
        body = self.insts[i]["body"]
        blocks = body["blocks"]
        n = len(body["locals"])
        gen, kill = [], []
        for blk in blocks:
            g, k = set(), set()
            for s in blk["s"]:
                u = set()
                uses(s[2:3] if s[0] == "=" else s[1:], u)
                if s[0] == "=" and s[1][1]:
                    u.add(s[1][0])
                    uses(s[1][1], u)
                g |= u - k
                if s[0] == "=" and not s[1][1]:
                    k.add(s[1][0])
            t = blk["t"]
            u = set()
            if t[0] == "call":
                uses(t[2], u)
                if isinstance(t[1], dict) and "p" in t[1]:
                    uses(t[1]["p"], u)
                if t[3][1]:
                    u.add(t[3][0])
                g |= u - k
                if not t[3][1]:
                    k.add(t[3][0])
            elif t[0] == "ret":
                g |= {0} - k
            else:
                uses(list(t[1:]), u)
                g |= u - k
            gen.append(g)
            kill.append(k)
        live = [set() for _ in blocks]
        change = True
        while change:
            change = False
            for b in range(len(blocks) - 1, -1, -1):
                o = set()
                for s in succs(blocks[b]["t"]):
                    o |= live[s]
                v = gen[b] | (o - kill[b])
                if v != live[b]:
                    live[b] = v
                    change = True
        r = set(range(n)) - live[b0]
        self.dead_cache[key] = r
        return r

    def blocks_order(self, i):
        """weak topological order of the blocks of instance i"""
        r = self.order_cache.get(i)
        if r is None:
            r = wto(self.insts[i]["body"]["blocks"])
            self.order_cache[i] = r
        return r


def uses(x, out):
    """locals read, or borrowed, by an operand or rvalue"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.add(x[0])
        elif len(x) == 2 and x[0] == "i" and isinstance(x[1], int):
            out.add(x[1])
        for y in x:
            uses(y, out)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    return []


def wto(blocks):
    """Bourdoncle's weak topological order, flattened; plus the loop heads, each with the
    position just behind its component"""
    n = len(blocks)
    dfn = [0] * n
    num = [0]
    stack = []
    heads = {}

    def component(v):
        part = []
        for s in succs(blocks[v]["t"]):
            if dfn[s] == 0:
                visit(s, part)
        part.insert(0, v)
        return part

    INF = 1 << 60

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for s in succs(blocks[v]["t"]):
            m = visit(s, part) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                c = component(v)
                heads[v] = len(c)
                part[:0] = c
            else:
                part.insert(0, v)
        return head

    part = []
    visit(0, part)
    order = {b: k for k, b in enumerate(part)}
    return order, {v: order[v] + k for v, k in heads.items()}


class State:
    __slots__ = ("mem", "g")

    def __init__(self, mem, g):
        self.mem = mem
        self.g = g

    def copy(self):
        return State(dict(self.mem), self.g)


def merge_states(a, b):
    g = g_or(a.g, b.g)
    mem = {}
    for c, v in a.mem.items():
        w = b.mem.get(c, BOT)
        if w is BOT:
            mem[c] = v
        elif v is w:
            mem[c] = v
        elif v is BOT:
            mem[c] = w
        else:
            mem[c] = merge(a.g, v, b.g, w)
    for c, w in b.mem.items():
        if c not in mem:
            mem[c] = w
    return State(mem, g)


def const_bits(bits, n):
    import struct
    import math

    if n == 4:
        f = struct.unpack("<f", struct.pack("<I", bits))[0]
    elif n == 8:
        f = struct.unpack("<d", struct.pack("<Q", bits))[0]
    else:
        return Top("float width")
    if math.isnan(f):
        return NAN
    if math.isinf(f) or abs(f) > 1e37:
        return PINF if f > 0 else NINF
    return econst(num(Fraction(f)))


class Event:
    __slots__ = ("kind", "what", "g", "stack", "extra")

    def __init__(self, kind, what, g, stack, extra=None):
        self.kind = kind
        self.what = what
        self.g = g
        self.stack = stack
        self.extra = extra


class Interp:
    def __init__(self, prog, models, opts=None):
        self.p = prog
        self.models = models
        self.opts = opts or {}
        self.ncell = 0
        self.stack = []  # (inst index, file, line)
        self.events = []
        self.checks = []
        self.visited = {}  # repo function path -> set of blocks
        self.files = set()
        self.calls = 0
        self.blocks = 0
        self.effects = []
        self.max_blocks = self.opts.get("max_blocks", 200000)
        self.max_loop = self.opts.get("max_loop", 70)
        self.widen = self.opts.get("widen", False)
        self.unmodelled = set()
        self.fresh_count = {}
        self.mapbase = {}
        self.vtab = {}
        self.constmem = {}
        self.wild = False
        self.foralls = []
        self.sinks = []
        self.assumptions = set()
        self.trusted = set()
        self.assumed = True  # the guard made of assumptions only
        self.opaque = set()  # trait methods taken as uninterpreted in this law (decided by other laws)

    # ---------------------------------------------------------------- helpers
    def newcell(self):
        self.ncell += 1
        return self.ncell

    def loc(self):
        for i, f, l in reversed(self.stack):
            fn = self.p.files[f] if f is not None else "?"
            if fn.startswith("/repo/") or fn.startswith("src/"):
                return "%s:%d" % (fn, l)
        return "?"

    def callpath(self):
        out = []
        for i, f, l in self.stack:
            out.append((self.p.insts[i]["path"], self.p.files[f] if f is not None else "?", l))
        return out

    def event(self, kind, what, g, extra=None):
        g = g_prune(g)
        if g_false(g):
            return
        self.events.append(Event(kind, what, g, self.callpath(), extra))

    # ---------------------------------------------------------------- constants
    def const(self, ty, v):
        t = self.p.tys[ty] if ty is not None else None
        if "i" in v:
            return econst(v["i"])
        if "b" in v:
            return bool(v["b"])
        if "fl" in v:
            return const_bits(v["fl"], v["n"])
        if "ch" in v:
            return econst(v["ch"])
        if "str" in v:
            return Obj("str", v["str"])
        if "fn" in v:
            return Obj("fn", v["fn"])
        if "z" in v:
            if t is not None:
                if t["k"] == "adt" and t["ak"] != "enum":
                    return Agg(t["n"], 0, tuple(self.zst(f[1]) for f in t["v"][0]["f"]))
                return self.zst(ty)
            return UNIT
        if t is None:
            return Top("const")
        k = t["k"]
        if k == "adt":
            if "s" in v:
                if t["n"].endswith("sse2::quat::Quat"):
                    fl = v["s"][0]
                    comps = fl
                    while "a" not in comps:
                        comps = comps["s"][0]
                    return Agg(t["n"], 0, tuple(const_bits(c["fl"], 4) for c in comps["a"]))
                var = t["v"][v["v"]]
                return Agg(t["n"], v["v"], tuple(self.const(f[1], x) for f, x in zip(var["f"], v["s"])))
            if "u" in v:
                return Top("const " + v["u"])
        if k == "tuple" and "s" in v:
            return Agg("()", 0, tuple(self.const(f, x) for f, x in zip(t["f"], v["s"])))
        if k == "array" and "a" in v:
            return Seq(self.const(t["e"], x) for x in v["a"])
        if k in ("ref", "ptr") and "r" in v:
            e = t["e"]
            et = self.p.tys[e]
            if "a" in v["r"] and et["k"] == "slice":
                val = Seq(self.const(et["e"], x) for x in v["r"]["a"])
            else:
                val = self.const(e, v["r"])
            c = ("const", val) if not isinstance(val, Top) else ("const", id(val))
            c = ("const", hash(val), self.newcell())
            self.constmem[c] = val
            return Ref(c)
        if "static" in v:
            return Obj("static", v["static"])
        return Top("const %s" % (json.dumps(v)[:60]))

    def zst(self, ty):
        t = self.p.tys[ty]
        if t["k"] == "adt" and t["ak"] != "enum":
            return Agg(t["n"], 0, tuple(self.zst(f[1]) for f in t["v"][0]["f"]))
        if t["k"] == "tuple":
            return Agg("()", 0, tuple(self.zst(f) for f in t["f"]))
        if t["k"] == "array":
            return Seq(())
        if t["k"] == "closure":
            return Agg(t["n"], 0, ())
        if t["k"] == "fndef":
            return Obj("fndef", ty)
        return UNIT

    # ---------------------------------------------------------------- places
    def read_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            v = self.constmem.get(cell)
            if v is None:
                return Top("uninit %r" % (cell,))
        return v

    def proj_read(self, v, e):
        k = e[0]

        def f(x):
            if isinstance(x, Top):
                return x
            if k == "f":
                if isinstance(x, Agg):
                    if e[1] < len(x.f):
                        return x.f[e[1]]
                    return Top("field %d of %r" % (e[1], x))
                if isinstance(x, Ref):
                    return x  # Box internals
                if isinstance(x, Obj) and x.kind in ("any",):
                    return Top("field of opaque")
                return Top("field %d of %r" % (e[1], type(x).__name__))
            if k == "d":
                if isinstance(x, Agg):
                    return x if x.var == e[1] else BOT
                return Top("downcast of %r" % (x,))
            if k == "i":
                if isinstance(x, Seq):
                    i = e[1]
                    if 0 <= i < len(x.e):
                        return x.e[i]
                    return BOT
                if isinstance(x, Obj) and x.kind == "sarr":
                    return self.models.sarr_read(self, x, econst(e[1]))
                return Top("index of %s" % type(x).__name__)
            if k == "x":
                if isinstance(x, Seq):
                    r = BOT
                    idx = e[1]
                    for i in range(len(x.e) - 1, -1, -1):
                        c = apply(lambda s: s == "0", sign_expr(esub(idx, econst(i))))
                        r = x.e[i] if r is BOT else ite(c, x.e[i], r)
                    return r
                if isinstance(x, Obj) and x.kind == "sarr":
                    return self.models.sarr_read(self, x, e[1])
                return Top("symbolic index of %s" % type(x).__name__)
            if k == "map":
                return self.models.map_payload(self, x, e[1])
            return Top("projection %s" % k)

        if isinstance(v, Node):
            return apply(f, v)
        if v is BOT:
            return BOT
        return f(v)

    def proj_write(self, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]

        def f(x):
            if k == "f":
                if isinstance(x, Agg):
                    i = e[1]
                    return Agg(x.tag, x.var, x.f[:i] + (self.proj_write(x.f[i], path[1:], new),) + x.f[i + 1 :])
                if isinstance(x, Top):
                    return x
                return Top("write field of %r" % (x,))
            if k == "d":
                return self.proj_write(x, path[1:], new)
            if k == "i":
                i = e[1]
                if isinstance(x, Seq):
                    if 0 <= i < len(x.e):
                        return Seq(x.e[:i] + (self.proj_write(x.e[i], path[1:], new),) + x.e[i + 1 :])
                    return BOT
                if isinstance(x, Obj) and x.kind == "sarr":
                    old = self.models.sarr_read(self, x, econst(i))
                    return self.models.sarr_write(self, x, econst(i), self.proj_write(old, path[1:], new))
                return Top("write index")
            if k == "x":
                if isinstance(x, Obj) and x.kind == "sarr":
                    old = self.models.sarr_read(self, x, e[1])
                    return self.models.sarr_write(self, x, e[1], self.proj_write(old, path[1:], new))
                if isinstance(x, Seq):
                    out = []
                    for i, old in enumerate(x.e):
                        c = apply(lambda s: s == "0", sign_expr(esub(e[1], econst(i))))
                        out.append(ite(c, self.proj_write(old, path[1:], new), old))
                    return Seq(out)
                return Top("write symbolic index")
            if k == "map":
                old = self.models.map_payload(self, x, e[1])
                return self.models.map_write(self, x, e[1], self.proj_write(old, path[1:], new))
            return Top("write %s" % k)

        if isinstance(v, Node):
            return apply(f, v)
        if v is BOT:
            return BOT
        return f(v)

    def lvalue(self, st, fr, pl):
        local, projs = pl
        cur = Ref((fr, local))
        for e in projs:
            k = e[0]
            if k == "*":
                cur = self.load(st, cur)
            elif k == "f":
                cur = self.ref_ext(cur, ("f", e[1]))
            elif k == "d":
                cur = self.ref_ext(cur, ("d", e[1]))
            elif k == "i":
                iv = st.mem.get((fr, e[1]), BOT)

                def g(r, i):
                    if isinstance(r, Ref) and isinstance(i, Expr):
                        if i.is_const():
                            ii = int(i.cval())
                            if r.rng:
                                return Ref(r.cell, r.path + (("i", ii + r.rng[0]),))
                            return Ref(r.cell, r.path + (("i", ii),))
                        off = i if not r.rng else eadd(i, econst(r.rng[0]))
                        return Ref(r.cell, r.path + (("x", off),))
                    return Top("index ref")

                cur = apply(g, cur, iv)
            elif k == "ci":

                def g(r):
                    if not isinstance(r, Ref):
                        return Top("const index of non-ref")
                    if e[3]:
                        n = self.seq_len(st, r)
                        if n is None:
                            return Top("const index from end")
                        i = n - e[1]
                    else:
                        i = e[1]
                    if r.rng:
                        return Ref(r.cell, r.path + (("i", i + r.rng[0]),))
                    return Ref(r.cell, r.path + (("i", i),))

                cur = apply(g, cur)
            elif k == "ss":

                def g(r):
                    if not isinstance(r, Ref):
                        return Top("subslice of non-ref")
                    n = self.seq_len(st, r)
                    if n is None:
                        return Top("subslice")
                    hi = n - e[2] if e[3] else e[2]
                    base = r.rng[0] if r.rng else 0
                    return Ref(r.cell, r.path, (base + e[1], hi - e[1]))

                cur = apply(g, cur)
            elif k == "oc":
                pass
            else:
                raise Unsupported("projection " + k)
        return cur

    def seq_len(self, st, r):
        """python length of the sequence a (leaf) reference denotes, or None"""
        if r.rng:
            return r.rng[1]
        v = self.load(st, r)
        ls = leaves(v)
        if len(ls) == 1 and isinstance(ls[0], Seq):
            return len(ls[0].e)
        return None

    def ref_ext(self, r, e):
        def f(x):
            if isinstance(x, Ref):
                return Ref(x.cell, x.path + (e,))
            if isinstance(x, Top):
                return x
            return Top("project through %s" % (type(x).__name__,))

        return apply(f, r)

    def load(self, st, r):
        def f(x):
            if isinstance(x, Ref):
                v = self.read_cell(st, x.cell)
                for e in x.path:
                    v = self.proj_read(v, e)
                if x.rng:

                    def sl(y):
                        if isinstance(y, Seq):
                            return Seq(y.e[x.rng[0] : x.rng[0] + x.rng[1]])
                        return Top("slice of %s" % type(y).__name__)

                    v = apply(sl, v)
                return v
            if isinstance(x, Top):
                return x
            if isinstance(x, Obj) and x.kind == "str":
                return x
            return Top("deref of %r" % (x,))

        v = apply(f, r)
        return v

    def store(self, st, r, val):
        if isinstance(r, Node):
            lv = leaves(r)
            old = dict(st.mem)
            for x in lv:
                if not isinstance(x, Ref):
                    raise Unsupported("store through %r" % (x,))
                cond = apply(lambda y: same(y, x), r)
                cur = self.read_cell(st, x.cell)
                new = self.proj_write(cur, x.path, val)
                st.mem[x.cell] = ite(cond, new, cur)
            return
        if isinstance(r, Ref):
            if not r.path:
                st.mem[r.cell] = val
            else:
                cur = self.read_cell(st, r.cell)
                if isinstance(cur, Obj) and cur.kind == "uninit" and all(e[0] == "f" for e in r.path):
                    # MaybeUninit / ManuallyDrop wrappers around a value that is written whole
                    st.mem[r.cell] = val
                    return
                if isinstance(cur, Top) and r.path[0][0] in ("f", "d"):
                    # initialisation of an aggregate field by field
                    raise Unsupported("field write to uninitialised aggregate")
                st.mem[r.cell] = self.proj_write(cur, r.path, val)
            return
        if r is BOT:
            return
        raise Unsupported("store through %r at %s" % (r, self.loc()))

    # ---------------------------------------------------------------- rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            pl = o[1]
            if not pl[1]:
                v = st.mem.get((fr, pl[0]))
                if v is None:
                    return Top("uninit local %d" % pl[0])
                return v
            return self.load(st, self.lvalue(st, fr, pl))
        if k == "k":
            return self.const(o[1], o[2])
        if k == "rc":
            return False if o[1] != "OverflowChecks" else True
        raise Unsupported("operand")

    def arith(self, op, a, b, isfloat):
        return apply(lambda x, y: arith_leaf(op, x, y, isfloat), a, b)

    def binop(self, st, op, a, b, ta, tb):
        t = self.p.tys[ta] if ta is not None and ta >= 0 else {"k": "?"}
        isfloat = t["k"] == "float"
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            DD.slot = {}
            try:
                return apply(lambda x, y: compare(op, x, y), a, b)
            finally:
                DD.slot = None
        if op == "Cmp":

            def f(x, y):
                s = three_way(x, y)
                return apply(lambda z: Agg("core::cmp::Ordering", {"-": 0, "0": 1, "+": 2}[z], ()) if isinstance(z, str) else z, s)

            return apply(f, a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return apply(lambda x, y: bit_leaf(op, x, y), a, b)
        base = op.replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            return self.arith(base, a, b, isfloat)
        if base == "Div":
            if isfloat:
                return apply(fdiv, a, b)
            return apply(lambda x, y: int_div(x, y, t.get("signed", False)), a, b)
        if base == "Rem":
            if isfloat:
                return apply(lambda x, y: Top("float rem"), a, b)
            return apply(lambda x, y: int_rem(x, y, t.get("signed", False)), a, b)
        if base in ("Shl", "Shr"):

            def f(x, y):
                if isinstance(x, Expr) and isinstance(y, Expr) and y.is_const():
                    k = int(y.cval())
                    if base == "Shl":
                        return emul(x, econst(1 << k))
                    import models

                    return models.div_floor(x, 1 << k)
                return Top("shift")

            return apply(f, a, b)
        if op == "Offset":
            return Top("pointer offset")
        raise Unsupported("binop " + op)

    def op_ty(self, fr_locals, o):
        """type id of an operand (approximate: only for whole locals / constants / last field)"""
        if o[0] == "k":
            return o[1]
        if o[0] in ("c", "m"):
            pl = o[1]
            return self.place_ty(fr_locals, pl)
        return -1

    def place_ty(self, locs, pl):
        t = locs[pl[0]]
        var = 0
        for e in pl[1]:
            ty = self.p.tys[t]
            k = e[0]
            if k == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["e"]
                elif ty["k"] == "adt" and ty["args"]:
                    t = ty["args"][0]
                else:
                    return -1
            elif k == "f":
                t = e[2]
            elif k in ("i", "ci"):
                t = ty.get("e", -1)
                if t == -1:
                    return -1
            elif k in ("d", "oc", "ss"):
                pass
        return t

    def rvalue(self, st, fr, rv, locs):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "reb":
            pl = rv[1]
            # reborrow of a whole deref: reuse the reference itself (keeps slice ranges)
            if pl[1] and pl[1][-1][0] == "*":
                r = self.lvalue(st, fr, [pl[0], pl[1][:-1]])
                v = self.load(st, r)
                return v
            return self.lvalue(st, fr, pl)
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.op_ty(locs, rv[2]), self.op_ty(locs, rv[3]))
        if k == "cbin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ta = self.op_ty(locs, rv[2])
            r = self.binop(st, rv[1], a, b, ta, ta)
            t = self.p.tys[ta]
            ov = False
            if not t.get("signed", True) and rv[1].startswith("Sub"):
                # unsigned underflow is a real behaviour, not a size assumption
                ov = apply(lambda x, y: compare("Lt", x, y), a, b)
            return Agg("()", 0, (r, ov))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":

                def f(x):
                    if isinstance(x, bool):
                        return not x
                    return Top("bit not")

                return apply(f, a)
            if rv[1] == "Neg":
                return apply(neg_leaf, a)
            if rv[1] == "PtrMetadata":
                return self.models.length(self, st, a)
            raise Unsupported("unop")
        if k == "len":
            r = self.lvalue(st, fr, rv[1])
            return self.models.length(self, st, r)
        if k == "discr":
            v = self.load(st, self.lvalue(st, fr, rv[1])) if rv[1][1] else st.mem.get((fr, rv[1][0]), BOT)

            def f(x):
                if isinstance(x, Agg):
                    t = self.p.adts.get(x.tag)
                    if t is None or not t["v"]:
                        return econst(x.var)
                    d = t["v"][x.var]["d"]
                    if d >= 1 << 63:
                        d -= 1 << 128
                    return econst(d)
                return Top("discriminant of %r" % (x,))

            return apply(f, v)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            kk = rv[1]
            if kk[0] == "tuple":
                return Agg("()", 0, ops)
            if kk[0] == "array":
                return Seq(ops)
            if kk[0] == "adt":
                t = self.p.tys[kk[2]]
                return Agg(t["n"], kk[1], ops)
            if kk[0] == "closure":
                t = self.p.tys[kk[1]]
                return Agg(t["n"], 0, ops)
            if kk[0] == "rawptr":
                return ops[0]
            raise Unsupported("aggregate " + kk[0])
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                return Seq((v,) * n)
            return self.models.sarr_const(self, v, econst(n))
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            kind = rv[1]
            tt = self.p.tys[rv[3]]
            sty = self.p.tys[rv[4]] if rv[4] >= 0 else None
            if isinstance(rv[5], dict):
                for x in leaves(v):
                    if isinstance(x, Ref):
                        self.vtab[(x.cell, x.path)] = rv[5]["vt"]
                return v
            if rv[5] is not None:
                return Obj("fn", rv[5])
            if kind.startswith("PointerCoercion(Unsize"):
                return v
            if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype", "FnPtrToPtr", "BoxDerefTransmute"):
                if kind == "Transmute" and (tt["k"] == "float" or (sty and sty["k"] == "float")):
                    return Top("float transmute")
                return v
            if kind == "IntToInt":
                return self.int_cast(v, sty, tt)
            if kind == "IntToFloat":
                return v
            if kind == "FloatToFloat":
                return v
            if kind == "FloatToInt":
                return apply(lambda x: self.models.float_to_int(self, x), v)
            return Top("cast " + kind)
        if k == "tls":
            return Top("thread local")
        raise Unsupported("rvalue " + k)

    def int_cast(self, v, s, t):
        if t["k"] not in ("int", "char") or s is None:
            return Top("int cast")

        def f(x):
            if isinstance(x, bool):
                return econst(1 if x else 0)
            if isinstance(x, Agg):  # fieldless enum cast
                td = self.p.adts.get(x.tag)
                return econst(td["v"][x.var]["d"])
            if not isinstance(x, Expr):
                return x
            tb = t.get("bits", 32)
            ts = t.get("signed", False)
            lo, hi = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if ts else (0, (1 << tb) - 1)
            if x.is_const():
                c = int(x.cval())
                m = c % (1 << tb)
                if ts and m >= 1 << (tb - 1):
                    m -= 1 << tb
                return econst(m)
            sb = s.get("bits", 32)
            ss = s.get("signed", False)
            if not ts and ss:
                # negative values wrap to huge ones
                sg = sign_expr(x)
                return apply(lambda z: eadd(x, econst(1 << tb)) if z == "-" else x, sg)
            if tb < sb or (ts and not ss and tb <= sb):
                self.assumptions.add("narrowing integer casts are assumed not to truncate")
            return x

        return apply(f, v)

    # ---------------------------------------------------------------- control
    def call_inst(self, i, args, st, depth=0):
        """analyse instance i on args; returns (value, state) or (None, None) if it diverges"""
        inst = self.p.insts[i]
        if inst["kind"].startswith("virtual"):
            return self.call_virtual(inst, args, st)
        self.calls += 1
        if self.opaque and inst["trait"] in self.opaque:
            return self.models.opaque_query(self, st, args, inst)
        m = self.models.find(inst)
        if m is not None:
            r = m(self, st, args, inst)
            if r is not None:  # a model may decline: the body is analysed then
                return r
        body = inst["body"]
        if body is None:
            return self.models.unknown_call(self, st, args, inst)
        if len(self.stack) > 120:
            raise GaveUp("recursion deeper than 120 frames at %s" % inst["path"])
        return self.run_body(i, inst, body, args, st)

    def call_virtual(self, inst, args, st):
        """dynamic dispatch: one target per object the receiver may denote"""
        k = int(inst["kind"][7:])
        r = args[0]
        alts = []
        for x in leaves(r):
            vt = self.vtab.get((x.cell, x.path)) if isinstance(x, Ref) else None
            if vt is None or k >= len(vt) or vt[k] is None:
                raise GaveUp("dynamic call %s on an object of unknown type" % inst["path"])
            alts.append((x, vt[k]))
        if len(alts) == 1:
            return self.call_inst(alts[0][1], [alts[0][0]] + list(args[1:]), st)
        out = None
        cell = ("heap", self.newcell())
        for x, j in alts:
            g = g_prune(g_and(st.g, apply(lambda y: same(y, x), r)))
            if g_false(g):
                continue
            ns = State(dict(st.mem), st.g)
            self.refine(ns, g)
            v, ns = self.call_inst(j, [x] + list(args[1:]), ns)
            if ns is None:
                continue
            ns.mem[cell] = v
            out = ns if out is None else merge_states(out, ns)
        if out is None:
            return None, None
        return out.mem.pop(cell), out

    def run_body(self, i, inst, body, args, st):
        fr = self.newcell()
        argc = body["argc"]
        if body["spread"] < 0 and inst["path"].endswith("}") and "{closure#" in inst["path"].rsplit("::", 1)[-1]:
            # rust-call: the last argument is the tuple of the closure's parameters
            tup = args[-1]
            if not (isinstance(tup, Agg) and tup.tag == "()" and len(args) == 2):
                raise Unsupported("closure call convention of %s" % inst["path"])
            args = [args[0]] + list(tup.f)
        if len(args) != argc:
            raise Unsupported("arity %s: %d vs %d" % (inst["path"], len(args), argc))
        for k, a in enumerate(args):
            st.mem[(fr, k + 1)] = a
        order, heads = self.p.blocks_order(i)
        blocks = body["blocks"]
        locs = body["locals"]
        infile = self.p.files[body["file"]]
        is_repo = infile.startswith("/repo/")
        vis = None
        if is_repo:
            vis = self.visited.setdefault(inst["path"], set())
            self.files.add(infile[6:])
        self.stack.append((i, body["file"], body["line"]))
        try:
            ret = self.work((i, fr, body, order, heads, infile, vis), {0: st}).get("ret")
        finally:
            self.stack.pop()
        if ret is None:
            return None, None
        v = ret.mem.get((fr, 0), UNIT)
        for k in range(len(locs)):
            ret.mem.pop((fr, k), None)
        return v, ret

    def work(self, frame, pending, head=None):
        """run the blocks of a frame until all have returned; with a head, only one iteration of its loop:
        {"ret": state, head: state back at the head, block: state having left the loop to it}"""
        i, fr, body, order, heads, infile, vis = frame
        blocks = body["blocks"]
        locs = body["locals"]
        visits = {}
        out = {}
        while pending:
            b = min(pending, key=order.__getitem__)
            while b in heads and len(pending) > 1:
                # every path of this iteration joins before the next one starts
                inner = [x for x in pending if order[b] < order[x] < heads[b]]
                if not inner:
                    break
                b = min(inner, key=order.__getitem__)
            cur = pending.pop(b)
            if b in heads and not (b == head):
                n = visits.get(b, 0) + 1
                visits[b] = n
                if n > self.max_loop:
                    raise GaveUp("loop at %s:%d not bounded by %d iterations" % (infile, blocks[b]["l"], self.max_loop))
                alts = self.search_loop(frame, b, cur)
                if alts is not None:
                    for s2, ns in alts:
                        if s2 == "ret" or (head is not None and not (order[head] < order[s2] < heads[head])):
                            out[s2] = merge_states(out[s2], ns) if s2 in out else ns
                        else:
                            pending[s2] = merge_states(pending[s2], ns) if s2 in pending else ns
                    continue
            self.blocks += 1
            if self.blocks > self.max_blocks:
                raise GaveUp("analysis budget (%d blocks) exhausted" % self.max_blocks)
            if vis is not None:
                vis.add(b)
            for s2, ns in self.exec_block(cur, fr, blocks[b], locs, body):
                if s2 == "ret" or (head is not None and not (order[head] < order[s2] < heads[head])):
                    out[s2] = merge_states(out[s2], ns) if s2 in out else ns
                elif s2 in pending:
                    pending[s2] = merge_states(pending[s2], ns)
                else:
                    pending[s2] = ns
        return out

    def search_loop(self, frame, head, st):
        """a loop over a large symbolic array whose iterations change nothing until one leaves the loop:
        decided at a witness element that leaves, if any does.  None if this loop is not of the kind."""
        i, fr, body, order, heads, infile, vis = frame

        def big(v):
            if isinstance(v, Obj) and v.kind == "siter" and v.f[2] - v.f[1] > 16:
                if any(isinstance(y, Obj) and y.kind == "sarr" for y in leaves(self.load(st, v.f[0]))):
                    return v
            if isinstance(v, Agg):
                for x in v.f:
                    r = big(x)
                    if r is not None:
                        return r
            return None

        def replaced(v, x, y):
            if v is x:
                return y
            if isinstance(v, Agg):
                return Agg(v.tag, v.var, tuple(replaced(z, x, y) for z in v.f))
            return v

        def spent(v):
            if isinstance(v, Obj) and v.kind == "viter" and v.f[1] == 1 and v.f[2] == 1:
                return v
            if isinstance(v, Agg):
                for z in v.f:
                    r = spent(z)
                    if r is not None:
                        return r
            return None

        found = [(c, x) for c, x in ((c, big(v)) for c, v in st.mem.items() if c[0] == fr) if x is not None]
        if not found:
            return None
        dead = self.p.dead_at(i, head)
        for cell, x in found:
            if cell[1] in dead:
                continue
            arr, lo, hi = x.f
            start = st.mem[cell]
            rest = replaced(start, x, None)
            mem0 = dict(st.mem)

            def iteration(mem, g, k):
                """the iteration on element k: (where it leaves to, the state back at the head, what changed: {cell: diagram})"""
                s = State(dict(mem), g)
                s.mem[cell] = replaced(start, x, Obj("viter", Seq((Ref(arr.cell, arr.path + (("x", k),)),)), 0, 1))
                alts = self.work(frame, {head: s}, head)
                back = alts.pop(head, None)
                diff = {}
                if back is not None:
                    z = spent(back.mem.get(cell))
                    if z is None or not same(replaced(back.mem[cell], z, None), rest):
                        raise GaveUp("not a search")
                    for c, v in mem.items():
                        if c != cell and not (c[0] == fr and c[1] in dead):
                            w = back.mem.get(c)
                            if w is v or same(w, v):
                                continue
                            v, w = restrict(v, back.g), restrict(w, back.g)
                            if not same(v, w):
                                if not all(isinstance(y, bool) or isinstance(y, Expr) and y.is_const() for y in leaves(v) + leaves(w)):
                                    raise GaveUp("not a search")
                                diff[c] = apply(lambda p, q: not same(p, q), v, w)
                return alts, back, diff

            def hit(back, diff):
                if back is None:
                    return True
                r = b_not(back.g)
                for d in diff.values():
                    r = b_or(r, b_and(back.g, d))
                return r

            first = []

            def holds(s, k):
                if not first:
                    first.append(iteration(mem0, s.g, k))
                    return hit(*first[0][1:]), s
                n = len(self.events)
                self.stack.append((i, body["file"], body["line"]))
                try:
                    return hit(*iteration(mem0, True, k)[1:]), s
                finally:
                    self.stack.pop()
                    del self.events[n:]

            events, foralls = len(self.events), len(self.foralls)
            try:
                k, c, _ = self.models.witness(self, State(dict(mem0), st.g), lo, hi, holds, lambda s: [z for z in leaves(self.load(s, arr)) if isinstance(z, Obj) and z.kind == "sarr"], True)
                alts, back, diff = first[0]
                res = list(alts.items())
                after = []
                if back is not None:
                    if diff:
                        # a flag is set: once it is, no element may change anything, or leave
                        if alts:
                            raise GaveUp("not a search")
                        changed = False
                        for d in diff.values():
                            changed = b_or(changed, d)
                        g1 = g_prune(g_and(back.g, changed))
                        s1 = State(dict(mem0), g1)
                        self.refine(s1, g1)
                        for cc in diff:
                            s1.mem[cc] = restrict(back.mem[cc], g1)
                        kv = newvar("j%d" % self.newcell(), is_int=True)
                        kv.lo, kv.hi, kv.sign = lo, hi - 1, "0+" if lo == 0 else None
                        n = len(self.events)
                        a2, b2, d2 = iteration(s1.mem, g1, evar(kv))
                        del self.events[n:]
                        if a2 or b2 is None or any(not g_false(g_prune(g_and(b2.g, d))) for d in d2.values()):
                            raise GaveUp("not a search")
                        after.append(s1)
                        g0 = g_prune(g_and(back.g, b_not(changed)))
                    else:
                        g0 = back.g
                    s0 = State(dict(mem0), g0)
                    self.refine(s0, g0)
                    after.append(s0)
            except GaveUp:
                del self.events[events:]
                del self.foralls[foralls:]
                continue
            for s in after:
                if not g_false(s.g):
                    s.mem[cell] = replaced(start, x, Obj("siter", arr, hi, hi))
                    res.append((head, s))
            return res
        return None

    def exec_block(self, st, fr, blk, locs, body):
        f = blk["f"]
        for s in blk["s"]:
            if s[0] == "=":
                self.stack[-1] = (self.stack[-1][0], f, s[3])
                DD.where = self.loc()
                v = self.rvalue(st, fr, s[2], locs)
                if s[2][0] == "discr" and not s[1][1]:
                    dt = self.p.tys[locs[s[1][0]]]
                    if dt.get("signed"):
                        # discriminants are dumped as unsigned numbers
                        half = 1 << (dt["bits"] - 1)
                        v = apply(lambda x: econst(x.cval() - 2 * half) if isinstance(x, Expr) and x.is_const() and x.cval() >= half else x, v)
                self.assign(st, fr, s[1], v)
            elif s[0] == "sd":
                r = self.lvalue(st, fr, s[1])
                v = self.load(st, r)
                nv = apply(lambda x: Agg(x.tag, s[2], x.f) if isinstance(x, Agg) else Top("set discriminant"), v)
                self.store(st, r, nv)
            else:
                raise Unsupported("statement " + s[0])
        t = blk["t"]
        self.stack[-1] = (self.stack[-1][0], f, blk["l"])
        DD.where = self.loc()
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "unreachable":
            # reached only if the guard is inconsistent
            self.event("unreachable", "unreachable MIR block", st.g)
            return []
        if k in ("resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            bad = apply(lambda x: (x is not t[2]) if isinstance(x, bool) else Top("assert on unknown"), c)
            if any(isinstance(x, Top) for x in leaves(bad)):
                self.event("unknown", "assert condition not understood", st.g)
                bad = False
            gb = g_prune(g_and(st.g, bad))
            if not g_false(gb):
                self.event("panic", t[3], gb)
                ng = g_prune(g_and(st.g, b_not(bad)))
                if g_false(ng):
                    return []
                self.refine(st, ng)
            return [(t[4], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            dt = self.p.tys[t[4]] if t[4] >= 0 else {"k": "?"}
            out = []
            if isinstance(v, Node) or v is BOT:
                bad = [x for x in leaves(v) if isinstance(x, Top)]
            else:
                bad = [v] if isinstance(v, Top) else []
            if bad:
                self.event("unknown", "branch on unknown value: %s" % bad[0].why, st.g)
                raise GaveUp("branch on unknown value (%s) at %s" % (bad[0].why, self.loc()))
            rest = True

            def is_val(x, val):
                if isinstance(x, bool):
                    return x == bool(val)
                if isinstance(x, Expr):
                    vv = val
                    if dt.get("signed") and vv >= 1 << (dt["bits"] - 1):
                        vv -= 1 << dt["bits"]
                    if x.is_const():
                        return x.cval() == vv
                    return apply(lambda s: s == "0", sign_expr(esub(x, econst(vv))))
                return Top("switch")

            for val, tgt in t[2]:
                c = apply(lambda x: is_val(x, val), v)
                g = g_and(st.g, c)
                if isinstance(g, Node):
                    g = g_prune(g)
                if not g_false(g):
                    out.append((tgt, g))
                rest = g_and(rest, b_not(c)) if rest is not True else b_not(c)
            g = g_and(st.g, rest)
            if isinstance(g, Node):
                g = g_prune(g)
            if not g_false(g):
                out.append((t[3], g))
            if len(out) == 1 and out[0][1] is st.g:
                return [(out[0][0], st)]
            res = []
            for j, (tgt, g) in enumerate(out):
                ns = st if j == len(out) - 1 else State(dict(st.mem), st.g)
                res.append((tgt, ns, g))
            fin = []
            for tgt, ns, g in res:
                self.refine(ns, g)
                fin.append((tgt, ns))
            return fin
        if k == "call":
            callee, args, dest, tgt, dty = t[1], t[2], t[3], t[4], t[5]
            av = [self.operand(st, fr, a) for a in args]
            if callee is None:
                raise Unsupported("unresolved call at %s" % self.loc())
            if "u" in callee:
                raise Unsupported("unresolved callee %s" % callee["u"])
            if "p" in callee:
                fv = self.operand(st, fr, callee["p"])
                if isinstance(fv, Obj) and fv.kind == "fn":
                    ii = fv.f[0]
                    tb = self.p.insts[ii]["body"]
                    if tb is not None and tb["spread"] >= 0 and self.p.insts[ii]["path"].endswith("::call_once"):
                        # a closure without captures used as a function pointer
                        av = [self.zst(self.p.insts[ii]["args"][0]), Agg("()", 0, tuple(av))]
                else:
                    raise Unsupported("call through unknown pointer at %s" % self.loc())
            else:
                ii = callee["i"]
            if tgt < 0:
                # diverging call: a panic (or process exit)
                self.event("panic", self.p.insts[ii]["path"], st.g, [self.describe(a) for a in av])
                return []
            self.dty = dty
            if callee.get("d", "").startswith("core::ops::function::Fn") and body["spread"] >= 0 and not (len(av) == 2 and args[1][0] in ("c", "m") and args[1][1] == [body["spread"], []]):
                # a call shim passes the arguments one by one; calls through Fn* carry a tuple
                av = [av[0], Agg("()", 0, tuple(av[1:]))]
            v, ns = self.call_inst(ii, av, st)
            if ns is None:
                return []
            self.stack[-1] = (self.stack[-1][0], f, blk["l"])
            self.assign(ns, fr, dest, v)
            return [(tgt, ns)]
        raise Unsupported("terminator " + k)

    def describe(self, v):
        if isinstance(v, Obj) and v.kind == "str":
            return v.f[0]
        if isinstance(v, Ref):
            w = self.constmem.get(v.cell)
            if w is not None:
                return self.describe(w)
        return repr(v)[:80]

    def refine(self, st, g):
        """enter a branch: guard becomes g; drop parts of values that contradict it"""
        st.g = g
        if isinstance(g, Node):
            for c, v in st.mem.items():
                if has_node(v):
                    st.mem[c] = restrict(v, g)

    def assign(self, st, fr, pl, v):
        if isinstance(st.g, Node) and has_node(v):
            v = restrict(v, st.g)
            if isinstance(v, Node) and count_nodes(v) > 6:
                v = self.theory_prune(v, st.g)
        if not pl[1]:
            st.mem[(fr, pl[0])] = v
        else:
            self.store(st, self.lvalue(st, fr, pl), v)

    def theory_prune(self, v, g):
        return prune(v)

    # ---------------------------------------------------------------- fresh values
    def fresh(self, ty, name):
        """an arbitrary value of type ty"""
        t = self.p.tys[ty]
        k = t["k"]
        if k == "float":
            return ANY if self.wild else evar(newvar(name))
        if k == "int":
            v = newvar(name, is_int=True)
            b = t.get("bits", 32)
            if not t.get("signed"):
                v.lo = 0
                v.sign = "0+"
                if b <= 8:
                    v.hi = (1 << b) - 1
            elif b <= 8:
                v.lo, v.hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
            return evar(v)
        if k == "char":
            v = newvar(name, is_int=True)
            v.lo, v.hi = 0, 0x10FFFF
            v.sign = "0+"
            return evar(v)
        if k == "bool":
            return bool_node(name)
        if k == "tuple":
            return Agg("()", 0, tuple(self.fresh(f, "%s.%d" % (name, i)) for i, f in enumerate(t["f"])))
        if k == "array":
            n = t.get("n", t.get("len"))
            return Seq(self.fresh(t["e"], "%s[%d]" % (name, i)) for i in range(int(n)))
        if k == "ref":
            c = ("heap", self.newcell())
            self.constmem[c] = self.fresh(t["e"], name)
            return Ref(c)
        if k == "adt":
            m = self.models.fresh(self, t, name)
            if m is not None:
                return m
            if t["ak"] == "enum":
                alts = []
                for i, var in enumerate(t["v"]):
                    alts.append(Agg(t["n"], i, tuple(self.fresh(f[1], "%s.%s.%s" % (name, var["n"], f[0])) for f in var["f"])))
                if len(alts) == 1:
                    return alts[0]
                a = named_atom(name, tuple(var["n"] for var in t["v"]))
                return mk(a, tuple(alts))
            fs = t["v"][0]["f"]
            return Agg(t["n"], 0, tuple(self.fresh(f[1], name + "." + f[0]) for f in fs))
        return Top("arbitrary value of type %s" % t.get("s"))


def has_node(v):
    if isinstance(v, Node):
        return True
    if isinstance(v, Agg):
        return any(has_node(x) for x in v.f)
    if isinstance(v, Seq):
        return any(has_node(x) for x in v.e)
    return False


# -------------------------------------------------------------------- leaf arithmetic


def isnum(x):
    return isinstance(x, (Expr, Special))


def arith_leaf(op, x, y, isfloat):
    if isinstance(x, Top):
        return x
    if isinstance(y, Top):
        return y
    if isinstance(x, Expr) and isinstance(y, Expr):
        if op == "Add":
            return eadd(x, y)
        if op == "Sub":
            return esub(x, y)
        return emul(x, y)
    if not (isnum(x) and isnum(y)):
        return Top("arith on %r %r" % (x, y))
    if x is NAN or y is NAN:
        return NAN
    if x is ANY or y is ANY:
        return ANY
    if op == "Sub":
        y = neg_leaf(y)
        op = "Add"
    if op == "Add":
        if isinstance(x, Special) and isinstance(y, Special):
            return x if x is y else NAN
        return x if isinstance(x, Special) else y
    # Mul
    sx = sgn(x)
    sy = sgn(y)

    def f(a, b):
        if a == "0" or b == "0":
            return NAN
        return PINF if a == b else NINF

    return apply(f, sx, sy)


def sgn(x):
    if x is PINF:
        return "+"
    if x is NINF:
        return "-"
    return sign_expr(x)


def neg_leaf(x):
    if isinstance(x, Expr):
        return eneg(x)
    if x is NAN or x is ANY:
        return x
    if x is PINF:
        return NINF
    if x is NINF:
        return PINF
    if isinstance(x, Top):
        return x
    return Top("neg of %r" % (x,))


def fdiv(x, y):
    """float division with explicit zero-divisor cases"""
    if isinstance(x, Top):
        return x
    if isinstance(y, Top):
        return y
    if not (isnum(x) and isnum(y)):
        return Top("div")
    if x is NAN or y is NAN:
        return NAN
    if x is ANY or y is ANY:
        return ANY
    if isinstance(y, Special):
        return NAN if isinstance(x, Special) else E0
    if isinstance(x, Special):
        return apply(lambda s: x if s == "+" else (neg_leaf(x) if s == "-" else x), sign_expr(y))
    if y.is_const() and y.cval() != 0:
        return ediv(x, y)
    sy = sign_expr(y)
    q = None

    def f(s):
        if s == "0":
            return apply(lambda z: {"+": PINF, "-": NINF, "0": NAN}[z], sign_expr(x))
        return ediv(x, y)

    return apply(f, sy)


def int_div(x, y, signed):
    if isinstance(x, Expr) and isinstance(y, Expr):
        if x.is_const() and y.is_const() and y.cval() != 0:
            a, b = int(x.cval()), int(y.cval())
            qq = abs(a) // abs(b)
            return econst(qq if (a < 0) == (b < 0) else -qq)
        if y.is_const() and y.cval() > 0:
            import models

            m = int(y.cval())
            fl = models.div_floor(x, m)
            if not signed:
                return fl
            # truncation towards zero
            s = sign_expr(x)
            ng = eneg(models.div_floor(eneg(x), m))
            return apply(lambda z: ng if z == "-" else fl, s)
    return Top("integer division")


def int_rem(x, y, signed):
    q = int_div(x, y, signed)
    return apply(lambda z: esub(x, emul(z, y)) if isinstance(z, Expr) else z, q)


def bit_leaf(op, x, y):
    if isinstance(x, bool) and isinstance(y, bool):
        if op == "BitAnd":
            return x and y
        if op == "BitOr":
            return x or y
        return x != y
    if isinstance(x, Top):
        return x
    if isinstance(y, Top):
        return y
    if isinstance(x, Expr) and isinstance(y, Expr):
        if x.is_const() and y.is_const():
            a, b = int(x.cval()), int(y.cval())
            return econst({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op])
        if op == "BitAnd":
            if x.is_const():
                x, y = y, x
            if y.is_const():
                c = int(y.cval())
                if c >= 0 and (c & (c + 1)) == 0:
                    import models

                    q = models.div_floor(x, c + 1)
                    return apply(lambda z: esub(x, emul(z, econst(c + 1))), q)
    return Top("bit op")


def three_way(x, y):
    """sign of x-y, or a Top / special marker 'NaN'"""
    if isinstance(x, Top):
        return x
    if isinstance(y, Top):
        return y
    if isinstance(x, bool) and isinstance(y, bool):
        return "0" if x == y else ("+" if x else "-")
    if isinstance(x, Expr) and isinstance(y, Expr):
        return sign_expr(esub(x, y))
    if isnum(x) and isnum(y):
        if x is NAN or y is NAN:
            return NAN
        if x is ANY or y is ANY:
            return fresh_case(("-", "0", "+", NAN))
        if x is y:
            return "0"
        if x is PINF or y is NINF:
            return "+"
        return "-"
    return Top("compare %r %r" % (x, y))


def compare(op, x, y):
    if isinstance(x, Agg) and isinstance(y, Agg) and not x.f and not y.f:
        x, y = econst(x.var), econst(y.var)
    if isinstance(x, Ref) and isinstance(y, Ref):
        e = x == y
        return e if op == "Eq" else (not e if op == "Ne" else Top("ref order"))
    s = three_way(x, y)

    def f(z):
        if isinstance(z, Top):
            return z
        if z is NAN:
            return op == "Ne"
        if op == "Eq":
            return z == "0"
        if op == "Ne":
            return z != "0"
        if op == "Lt":
            return z == "-"
        if op == "Le":
            return z != "+"
        if op == "Gt":
            return z == "+"
        return z != "-"

    return apply(f, s)
