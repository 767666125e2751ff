"""Transfer functions for library code that is not interpreted from MIR:
float primitives, raw-pointer based containers and iterators, HashMap, glam's
SIMD quaternion, formatting/logging, and the specification functions of the
law crate."""
import re
from fractions import Fraction
from poly import *
from add import *
from theory import sign_expr, sign_poly, feasible, g_prune, g_false, ASSUME
import theory
import models2


UNIT = Agg("()", 0, ())
OPT = "core::option::Option"


def none():
    return Agg(OPT, 0, ())


def some(v):
    return Agg(OPT, 1, (v,))


# ------------------------------------------------------------------ numeric helpers


def abs_poly(q):
    return apply(lambda s: Expr(-q) if s == "-" else Expr(q), sign_poly(q))


def vmul(a, b):
    import interp

    return apply(lambda x, y: interp.arith_leaf("Mul", x, y, True), a, b)


def vadd(a, b):
    import interp

    return apply(lambda x, y: interp.arith_leaf("Add", x, y, True), a, b)


def vsub(a, b):
    import interp

    return apply(lambda x, y: interp.arith_leaf("Sub", x, y, True), a, b)


def vneg(a):
    import interp

    return apply(interp.neg_leaf, a)


def vdiv(a, b):
    import interp

    return apply(interp.fdiv, a, b)


def sqrt_poly(p):
    """guarded value of sqrt(p), p known non-negative"""
    if not p.t:
        return E0
    tab = C.sqrt_tab
    r = tab.get(p)
    if r is not None:
        return r
    key = p
    out = E1
    if not p.is_const():
        g = mono_gcd(p.t)
        ev = tuple((v, e - (e & 1)) for v, e in g if e >= 2)
        ev = tuple(x for x in ev if x[1])
        if ev:
            p = pdiv_mono(p, ev)
            m = Poly({tuple((v, e // 2) for v, e in ev): 1})
            out = abs_poly(m)
    c = content(p)
    a, b = c.numerator * c.denominator, c.denominator
    # sqrt(a)/b ; extract square part of a
    k = 1
    f = 2
    aa = a
    while f * f <= aa and f < 2000:
        while aa % (f * f) == 0:
            aa //= f * f
            k *= f
        f += 1
    r = isqrt(aa)
    if r * r == aa:
        k *= r
        aa = 1
    p = p.scale(1 / c)
    out = vmul(out, econst(Fraction(k, b)))
    p = p.scale(aa)
    q = perfect_square(p)
    if q is not None:
        res = vmul(out, abs_poly(q) if not q.is_const() else Expr(q))
        tab[key] = res
        return res
    pq = square_factor(p)
    if pq is not None:
        sq, rest = pq
        res = vmul(out, vmul(abs_poly(sq), sqrt_poly(rest)))
        tab[key] = res
        return res
    v = tab.get(("v", p))
    if v is None:
        v = newvar("sqrt(%s)" % pstr(p), kind="sqrt")
        v.sq = p
        s = sign_poly(p)
        v.sign = "+" if s == "+" else "0+"
        tab[("v", p)] = v
    res = vmul(out, evar(v))
    tab[key] = res
    return res


def square_factor(p):
    """p = q^2 * r for a non-constant q among polynomials seen in sign tests"""
    if len(p.t) < 3:
        return None
    for q in list(DD.sign_tab):
        if len(q.t) < 2 or not q.vars() <= p.vars():
            continue
        d = pdivmod_exact(p, q)
        if d is not None and not d.is_const():
            d2 = pdivmod_exact(d, q)
            if d2 is not None:
                return q, d2
    return None


def f_sqrt(x):
    if x is ANY:
        return x
    if isinstance(x, Special):
        return NAN if x is not PINF else PINF
    if not isinstance(x, Expr):
        return x if isinstance(x, Top) else Top("sqrt")
    s = sign_expr(x)

    def f(z):
        if z == "0":
            return E0
        if z == "-":
            return NAN
        if x.d.is_const():
            return sqrt_poly(x.n)
        return vdiv(sqrt_poly(x.n * x.d), abs_poly(x.d))

    return apply(f, s)


def f_abs(x):
    if x is ANY:
        return x
    if isinstance(x, Special):
        return x if x is NAN else PINF
    if not isinstance(x, Expr):
        return x
    return apply(lambda s: eneg(x) if s == "-" else x, sign_expr(x))


def f_signum(x):
    if x is NAN or x is ANY:
        return x
    if x is PINF:
        return E1
    if x is NINF:
        return econst(-1)
    if not isinstance(x, Expr):
        return x
    return apply(lambda s: econst(-1) if s == "-" else E1, sign_expr(x))


def f_minmax(mx):
    import interp

    def f(x, y):
        if isinstance(x, Top):
            return x
        if isinstance(y, Top):
            return y
        if x is NAN:
            return y
        if y is NAN:
            return x
        if x is ANY or y is ANY:
            return ANY
        s = interp.three_way(x, y)
        return apply(lambda z: (x if (z == "+") == mx or z == "0" else y), s)

    return f


def fun_var(name, args, is_int=False):
    key = (name,) + tuple(args)
    v = C.fun_tab.get(key)
    if v is None:
        v = newvar("%s(%s)" % (name, ",".join(repr(a) for a in args)), kind="fun", arg=(name, tuple(args)), is_int=is_int)
        C.fun_tab[key] = v
        return v, True
    return v, False


def div_floor(x, m):
    """floor(x/m) for integer x, constant m>0"""
    if x.is_const():
        return econst(int(x.cval()) // m)
    if m == 1:
        return x
    # pull out exact multiples:  x = m*q0 + r
    q0 = {}
    r = {}
    for mo, c in x.n.t.items():
        c = Fraction(c)
        if c.denominator == 1:
            k = int(c) // m
            rem = int(c) - k * m
            if k:
                q0[mo] = k
            if rem:
                r[mo] = rem
        else:
            r[mo] = c
    rp = Poly(r)
    base = Expr(Poly(q0)) if q0 else E0
    if rp.is_const():
        return eadd(base, econst(int(rp.const()) // m))
    v, new = fun_var("fdiv%d" % m, (Expr(rp),), True)
    if new:
        q = pvar(v).scale(m)
        v.facts.append((rp - q, ">="))
        v.facts.append((q + pconst(m) - rp, ">"))
        for u in rp.vars():
            C.vars[u].facts.append((rp - q, ">="))
            C.vars[u].facts.append((q + pconst(m) - rp, ">"))
        # simple bounds
        if len(rp.t) == 1 and C.vars[list(rp.vars())[0]].lo is not None and list(rp.t.values())[0] == 1:
            u = C.vars[list(rp.vars())[0]]
            v.lo = u.lo // m
            if u.hi is not None:
                v.hi = u.hi // m
    return eadd(base, evar(v))


def surely_pos(p):
    s = sign_poly(p)
    if not isinstance(s, Node):
        return s == "+"
    for cube, leaf in paths(s, feasible):
        if leaf != "+" and not theory.refute(cube):
            return False
    return True


def pinned(p, name):
    """the integer that the real p rounds to, if the assumptions leave only one and no tie"""
    lo, hi = (Fraction(1, 2), Fraction(1, 2)) if name.startswith("round") else ((Fraction(0), Fraction(1)) if name == "floor" else (Fraction(1), Fraction(0)))
    a, b = -33, 32
    if not surely_pos(p + pconst(lo - a)):
        return None
    while a < b:
        k = (a + b + 1) // 2
        if surely_pos(p + pconst(lo - k)):
            a = k
        else:
            b = k - 1
    if a > -33 and surely_pos(pconst(hi + a) - p):
        return a
    return None


def round_fun(name, x):
    """integer-valued rounding of a real"""
    if x is ANY:
        return x
    if isinstance(x, Special) or not isinstance(x, Expr):
        return Top("rounding of non-finite") if isinstance(x, Special) else x
    if x.is_const():
        import math

        c = x.cval()
        fl = math.floor(c)
        d = c - fl
        if name == "floor":
            return econst(fl)
        if name == "ceil":
            return econst(-((-c.numerator) // c.denominator))
        if name == "trunc":
            return econst(int(c))
        if name == "round_even":
            if d < Fraction(1, 2) or (d == Fraction(1, 2) and fl % 2 == 0):
                return econst(fl)
            return econst(fl + 1)
        if name == "round_away":
            a = abs(c)
            f2 = math.floor(a + Fraction(1, 2))
            return econst(f2 if c >= 0 else -f2)
    if x.d.is_const() and all(C.vars[v].is_int for v in x.n.vars()) and all(not isinstance(c, Fraction) for c in x.n.t.values()):
        return x
    # split off integer part that is syntactically integral
    ip = {}
    rp = {}
    if x.d.is_const():
        for mo, c in x.n.t.items():
            if mo != () and not isinstance(c, Fraction) and all(C.vars[v].is_int for v, _ in mo):
                ip[mo] = c
            else:
                rp[mo] = c
        if ip and name in ("floor", "ceil"):
            return eadd(Expr(Poly(ip)), round_fun(name, Expr(Poly(rp))))
        if name != "trunc" and (ip or ASSUME) and len(rp) <= 8:
            k = pinned(Poly(rp), name)
            if k is not None:
                return eadd(Expr(Poly(ip)), econst(k))
    v, new = fun_var(name, (x,), True)
    if new and x.d.is_const():
        e = x.n
        n = pvar(v)
        if name == "floor":
            fs = [(e - n, ">="), (n + P1 - e, ">")]
        elif name == "ceil":
            fs = [(n - e, ">="), (e + P1 - n, ">")]
        elif name in ("round_even", "round_away"):
            h = pconst(Fraction(1, 2))
            fs = [(n - e + h, ">="), (e - n + h, ">=")]
        else:
            fs = [(n - e + P1, ">"), (e - n + P1, ">")]
        v.facts.extend(fs)
        for u in e.vars():
            C.vars[u].facts.extend(fs)
    return evar(v)


def unsupported_float(name):
    def f(it, st, args, inst):
        def g(*xs):
            for x in xs:
                if isinstance(x, Top):
                    return x
                if x is ANY:
                    return x
                if not isinstance(x, Expr):
                    return Top("%s of non-finite" % name)
            v, _ = fun_var(name, xs)
            return evar(v)

        return apply(g, *args), st

    return f


def lift1(fn):
    return lambda it, st, args, inst: (apply(fn, args[0]), st)


def lift2(fn):
    return lambda it, st, args, inst: (apply(fn, args[0], args[1]), st)


def trig(it, st, x):
    """(sin, cos) of an angle; cos^2 = 1 - sin^2, angle addition for linear arguments"""

    def f(e):
        if e is ANY:
            return Agg("()", 0, (ANY, ANY))
        if not isinstance(e, Expr):
            return Agg("()", 0, (Top("trig"), Top("trig")))
        return Agg("()", 0, trig_leaf(e))

    return apply(f, x)


def trig_leaf(e):
    k = C.fun_tab.get(("sin", e))
    if isinstance(k, tuple):
        return (k[1], C.fun_tab[("cos", e)][1])
    if e.is_const() and e.cval() == 0:
        return (E0, E1)
    # normalise sign: leading coefficient positive
    if e.d.is_const() and e.n.t[lead(e.n)] < 0:
        s, c = trig_leaf(eneg(e))
        return (eneg(s), c)
    # sums: sin(a+b)
    if e.d.is_const() and len(e.n.t) > 1:
        m = lead(e.n)
        a = Expr(Poly({m: e.n.t[m]}))
        b = esub(e, a)
        sa, ca = trig_leaf(a)
        sb, cb = trig_leaf(b)
        return (
            eadd(emul(sa, cb), emul(ca, sb)),
            esub(emul(ca, cb), emul(sa, sb)),
        )
    # integer multiples
    if e.d.is_const() and len(e.n.t) == 1:
        (m, c), = e.n.t.items()
        c = Fraction(c)
        if c.denominator == 1 and c > 1:
            k = int(c)
            a = Expr(Poly({m: 1}))
            sa, ca = trig_leaf(a)
            s, cc = E0, E1
            for _ in range(k):
                s, cc = eadd(emul(s, ca), emul(cc, sa)), esub(emul(cc, ca), emul(s, sa))
            return (s, cc)
        if m != () and c == Fraction(1, 2):
            pass
    sv, new = fun_var("sin", (e,))
    cv, _ = fun_var("cos", (e,))
    if new:
        cv.sq = P1 - pvar(sv) * pvar(sv)
        for v in (sv, cv):
            v.lo, v.hi = -1, 1
    return (evar(sv), evar(cv))


# ------------------------------------------------------------------ Models


class Models:
    def __init__(self):
        self.t = {}
        self.rx = []
        self.cache = {}
        self.spec = {}
        register(self)

    def add(self, *names):
        def d(f):
            for n in names:
                self.t[n] = f
            return f

        return d

    def find(self, inst):
        k = inst["path"]
        if k in self.cache:
            return self.cache[k]
        m = self.t.get(k)
        if m is None and inst["crate"] not in ("auburn", "laws"):
            for r, f in self.rx:
                if r.match(k):
                    m = f
                    break
        self.cache[k] = m
        return m

    def unknown_call(self, it, st, args, inst):
        it.unmodelled.add(inst["path"])
        it.effects.append(("unmodelled", inst["path"], it.loc()))
        return Top("call to %s" % inst["path"]), st

    # -- arbitrary values of library types
    def fresh(self, it, t, name):
        n = t["n"]
        if n.endswith("sse2::quat::Quat"):
            return Agg(n, 0, tuple(evar(newvar(name + "." + c)) for c in "xyzw"))
        if n == "std::collections::hash::map::HashMap":
            return Obj("map", name, (), t["args"][1])
        if n == "alloc::vec::Vec":
            v = newvar(name + ".len", is_int=True)
            v.lo = 0
            v.sign = "0+"
            return Obj("sarr", ("any", name), evar(v), (), t["args"][0])
        if n == "auburn::col2d::shape::tilemap::Chunk":
            return self.fresh_chunk(it, t, name)
        return None

    def fresh_chunk(self, it, t, name):
        """a chunk with the dimensions the default constructor gives and arbitrary contents"""
        base = it.__dict__.get("chunk0")
        if base is None:
            base = Top("no constructor for Chunk")
            for i, x in enumerate(it.p.insts):
                if x["path"].startswith("<auburn::col2d::shape::tilemap::Chunk as core::default::Default>::default"):
                    import interp

                    v, _ = it.call_inst(i, [], interp.State({}, True))
                    base = v
            it.chunk0 = base

        def havoc(v, path):
            if isinstance(v, Agg):
                return Agg(v.tag, v.var, tuple(havoc(x, path + (i,)) for i, x in enumerate(v.f)))
            if isinstance(v, Obj) and v.kind == "sarr":
                ety = None
                for x in it.p.tys:
                    if x["k"] == "int" and x["s"] == "u8":
                        ety = it.p.tys.index(x)
                return Obj("sarr", ("any", name), v.f[1], (), ety)
            return v

        return havoc(base, ())

    def opaque_query(self, it, st, args, inst):
        """Option<Vec2> as an uninterpreted function of all its arguments"""
        flat = []

        def rec(v):
            if isinstance(v, Ref):
                rec(it.load(st, v))
            elif isinstance(v, (Agg, Seq)):
                for x in v.f if isinstance(v, Agg) else v.e:
                    rec(x)
            elif isinstance(v, (Expr, Node)):
                flat.append(v)
            else:
                raise_top[0] = True

        raise_top = [False]
        for a in args:
            rec(a)
        if raise_top[0] or not all(isinstance(x, Expr) for v in flat for x in leaves(v)):
            return Top("opaque query on an unknown value"), st
        tag = "%s<%s>" % (inst["trait"].rsplit("::", 1)[-1], ",".join(it.p.tys[x]["s"].rsplit("::", 1)[-1] for x in inst["args"][:2] if isinstance(x, int)))
        it.assumptions.add("%s is an arbitrary function in the laws of resolution (its own laws are C11 and C16)" % tag)

        def f(*xs):
            p, _ = fun_var(tag + "?", xs)
            x, _ = fun_var(tag + ".x", xs)
            y, _ = fun_var(tag + ".y", xs)
            c = apply(lambda s: s == "+", sign_expr(evar(p)))
            return ite(c, some(Agg("glam::f32::vec2::Vec2", 0, (evar(x), evar(y)))), none())

        return apply(f, *flat), st

    # -- lengths
    def length(self, it, st, r):
        def f(x):
            if isinstance(x, Ref):
                if x.rng:
                    return econst(x.rng[1])
                return apply(g, it.load(st, x))
            if isinstance(x, Obj) and x.kind == "str":
                return econst(len(x.f[0].encode()))
            return Top("length of %r" % (x,))

        def g(v):
            if isinstance(v, Seq):
                return econst(len(v.e))
            if isinstance(v, Obj) and v.kind == "sarr":
                return v.f[1]
            if isinstance(v, Ref):
                return f(v)
            return Top("length of %s" % type(v).__name__)

        return apply(f, r)

    # -- symbolic arrays: Obj('sarr', base, len, writes, elemty)
    def sarr_const(self, it, v, n):
        return Obj("sarr", ("const", v), n, (), None)

    def sarr_read(self, it, a, idx):
        base, n, writes, ety = a.f

        def rec(k):
            if k < 0:
                return self.sarr_base(it, base, idx, ety)
            i, v = writes[k]
            c = apply(lambda s: s == "0", sign_expr(esub(idx, i)))
            if c is True:
                return v
            if c is False:
                return rec(k - 1)
            return ite(c, v, rec(k - 1))

        return rec(len(writes) - 1)

    def sarr_base(self, it, base, idx, ety):
        if base[0] == "const":
            return base[1]
        tab = it.mapbase.setdefault(("arr", base), [])
        fresh = None
        for i, v in tab:
            if eeq(i, idx):
                return v
        val = it.fresh(ety, "%s[%r]" % (base[1], idx))
        for i, v in tab:
            c = apply(lambda s: s == "0", sign_expr(esub(idx, i)))
            val = ite(c, v, val)
        tab.append((idx, val))
        return val

    def sarr_write(self, it, a, idx, v):
        base, n, writes, ety = a.f
        writes = tuple((i, x) for i, x in writes if not eeq(i, idx))
        return Obj("sarr", base, n, writes + ((idx, v),), ety)

    # -- maps: Obj('map', base, writes, valty) ; writes: (key, present(bool dd), value)
    def map_lookup(self, it, m, key):
        """(present diagram, value diagram)"""
        base, writes, vty = m.f

        def rec(k):
            if k < 0:
                return self.map_base(it, base, key, vty)
            kk, pr, v = writes[k]
            c = self.veq(key, kk)
            if c is True:
                return pr, v
            if c is False:
                return rec(k - 1)
            p2, v2 = rec(k - 1)
            return ite(c, pr, p2), ite(c, v, v2)

        return rec(len(writes) - 1)

    def map_base(self, it, base, key, vty):
        if base is None:
            return False, BOT
        tab = it.mapbase.setdefault(("map", base), [])
        for k, p, v in tab:
            if self.veq(k, key) is True:
                return p, v
        name = "%s{%s}" % (base, vstr(key))
        p = bool_node("present " + name)
        v = it.fresh(vty, name)
        for k, p2, v2 in tab:
            c = self.veq(key, k)
            p = ite(c, p2, p)
            v = ite(c, v2, v)
        tab.append((key, p, v))
        return p, v

    def map_payload(self, it, x, key):
        if not (isinstance(x, Obj) and x.kind == "map"):
            return Top("map payload of %r" % (x,))
        return self.map_lookup(it, x, key)[1]

    def map_write(self, it, x, key, val, present=True):
        if not (isinstance(x, Obj) and x.kind == "map"):
            return Top("map write")
        base, writes, vty = x.f
        writes = tuple(w for w in writes if self.veq(w[0], key) is not True)
        return Obj("map", base, writes + ((key, present, val),), vty)

    def veq(self, a, b):
        """structural equality diagram"""

        def f(x, y):
            if isinstance(x, Agg) and isinstance(y, Agg):
                if x.var != y.var or len(x.f) != len(y.f):
                    return False
                r = True
                for p, q in zip(x.f, y.f):
                    r = b_and(r, self.veq(p, q))
                return r
            if isinstance(x, Seq) and isinstance(y, Seq):
                if len(x.e) != len(y.e):
                    return False
                r = True
                for p, q in zip(x.e, y.e):
                    r = b_and(r, self.veq(p, q))
                return r
            if isinstance(x, Obj) and isinstance(y, Obj) and x.kind == "str":
                return x.f == y.f
            import interp

            return interp.compare("Eq", x, y)

        return apply(f, a, b)

    def side_conditions(self, it):
        """facts tying quantified container atoms to the elements looked at"""
        r = True
        for f in it.foralls:
            r = b_and(r, f())
        return r

    def float_to_int(self, it, x):
        it.assumptions.add("float-to-integer casts are assumed in range")
        if x is ANY:
            return evar(newvar("int%d" % len(C.vars), is_int=True))
        return round_fun("trunc", x)


def vstr(v):
    if isinstance(v, Agg):
        return "(" + ",".join(vstr(x) for x in v.f) + ")"
    return repr(v)


def fn_consts(x):
    """functions named by the constants of a statement"""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), int):
            yield x["fn"]
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            if isinstance(y, (list, dict)):
                yield from fn_consts(y)


def reach(it, inst, pred, limit=400):
    """the first instance with pred in the call graph below inst, breadth first"""
    seen = set()
    todo = [inst]
    while todo:
        b = todo.pop(0)["body"]
        for blk in b["blocks"] if b else ():
            t = blk["t"]
            found = []
            if t[0] == "call" and t[1] and "i" in t[1]:
                found.append(t[1])
            for x in blk["s"] + ([t] if t[0] == "call" else []):
                found += [{"i": k, "d": it.p.insts[k]["path"]} for k in fn_consts(x)]
            for c in found:
                y = it.p.insts[c["i"]]
                if pred(c, y):
                    return c["i"]
                if c["i"] not in seen and len(seen) < limit:
                    seen.add(c["i"])
                    todo.append(y)
    return None


def closure_calls(it, inst, f=None):
    """instances of Fn*/FnMut calls made directly in the (unused) body of a modelled library function;
    of these, the one that runs the closure value f"""
    tags = {x.tag for x in leaves(f) if isinstance(x, Agg)} if f is not None else ()
    if len(tags) == 1:
        tag = tags.pop()
        i = reach(it, inst, lambda c, y: y["path"] == tag)
        if i is not None:
            return [i]
    out = []
    seen = set()

    def scan(i, depth):
        if i in seen or depth > 3:
            return
        seen.add(i)
        b = it.p.insts[i]["body"] if isinstance(i, int) else i["body"]
        if not b:
            return
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] == "call" and t[1] and "i" in t[1]:
                if t[1]["d"].startswith("core::ops::function::Fn"):
                    out.append(t[1]["i"])
                else:
                    scan(t[1]["i"], depth + 1)

    b = inst["body"]
    if b:
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] == "call" and t[1] and "i" in t[1] and t[1]["d"].startswith("core::ops::function::Fn"):
                out.append(t[1]["i"])
        if not out:
            for blk in b["blocks"]:
                t = blk["t"]
                if t[0] == "call" and t[1] and "i" in t[1]:
                    scan(t[1]["i"], 0)
    return out


def register(M):
    add = M.add
    F = "core::f32::<impl f32>::"
    S = "std::f32::<impl f32>::"
    SN = "std::num::f32::<impl f32>::"

    def fl(name, f):
        for p in (F, S, "core::num::f32::<impl f32>::", SN, "core::f64::<impl f64>::", "std::f64::<impl f64>::", "core::f32::math::", "glam::f32::math::std_math::"):
            M.t[p + name] = f

    fl("sqrt", lift1(f_sqrt))
    M.t["core::intrinsics::sqrtf32"] = lift1(f_sqrt)
    M.t["core::intrinsics::sqrt"] = lift1(f_sqrt)
    fl("abs", lift1(f_abs))
    M.t["core::intrinsics::fabs"] = lift1(f_abs)
    M.t["core::intrinsics::fabsf32"] = lift1(f_abs)
    fl("signum", lift1(f_signum))
    fl("min", lambda it, st, a, inst: (apply(f_minmax(False), a[0], a[1]), st))
    fl("max", lambda it, st, a, inst: (apply(f_minmax(True), a[0], a[1]), st))
    M.t["core::intrinsics::minnumf32"] = M.t[F + "min"]
    M.t["core::intrinsics::maxnumf32"] = M.t[F + "max"]

    def clamp(it, st, a, inst):
        x, lo, hi = a
        import interp

        def f(x, lo, hi):
            if isinstance(x, Top) or x is NAN:
                return x
            if x is ANY or lo is ANY or hi is ANY:
                return ANY
            s1 = interp.three_way(x, lo)
            s2 = interp.three_way(x, hi)
            return apply(lambda p, q: lo if p == "-" else (hi if q == "+" else x), s1, s2)

        return apply(f, x, lo, hi), st

    fl("clamp", clamp)
    fl("recip", lambda it, st, a, inst: (vdiv(E1, a[0]), st))
    fl("is_nan", lift1(lambda x: fresh_case((False, True)) if x is ANY else x is NAN if not isinstance(x, Top) else x))
    fl("is_finite", lift1(lambda x: fresh_case((False, True)) if x is ANY else isinstance(x, Expr) if not isinstance(x, Top) else x))
    fl("is_infinite", lift1(lambda x: fresh_case((False, True)) if x is ANY else x is PINF or x is NINF if not isinstance(x, Top) else x))

    def is_sign_negative(x):
        if isinstance(x, Expr):
            return apply(lambda s: s == "-", sign_expr(x))
        if x is ANY:
            return fresh_case((False, True))
        if x is NINF:
            return True
        if x is PINF:
            return False
        return Top("sign bit of NaN")

    fl("is_sign_negative", lift1(is_sign_negative))
    fl("is_sign_positive", lambda it, st, a, inst: (apply(lambda b: (not b) if isinstance(b, bool) else b, apply(is_sign_negative, a[0])), st))
    fl("mul_add", lambda it, st, a, inst: (vadd(vmul(a[0], a[1]), a[2]), st))

    def powi(it, st, a, inst):
        def f(x, n):
            if isinstance(x, Expr) and isinstance(n, Expr) and n.is_const():
                k = int(n.cval())
                r = E1
                for _ in range(abs(k)):
                    r = emul(r, x)
                return vdiv(E1, r) if k < 0 else r
            if x is ANY:
                return x
            if isinstance(x, Special) and isinstance(n, Expr) and n.is_const() and not isinstance(x, Top):
                k = int(n.cval())
                if k == 0:
                    return E1
                if x is NAN:
                    return x
                if k < 0:
                    return E0
                return PINF if k % 2 == 0 or x is PINF else NINF
            return x if isinstance(x, Top) else Top("powi")

        return apply(f, a[0], a[1]), st

    fl("powi", powi)
    fl("hypot", lambda it, st, a, inst: (apply(f_sqrt, vadd(vmul(a[0], a[0]), vmul(a[1], a[1]))), st))
    fl("copysign", lambda it, st, a, inst: (vmul(apply(f_abs, a[0]), apply(f_signum, a[1])), st))
    for nm, fn in (("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("round", "round_away"), ("round_ties_even", "round_even")):
        fl(nm, lift1(lambda x, fn=fn: round_fun(fn, x)))

    def fract(x):
        t = round_fun("trunc", x)
        return esub(x, t) if isinstance(t, Expr) else t

    fl("fract", lift1(fract))

    def sin_cos(it, st, a, inst):
        return trig(it, st, a[0]), st

    fl("sin_cos", sin_cos)
    fl("sin", lambda it, st, a, inst: (apply(lambda z: z.f[0], trig(it, st, a[0])) if not isinstance(trig(it, st, a[0]), Agg) else trig(it, st, a[0]).f[0], st))
    fl("cos", lambda it, st, a, inst: (trig(it, st, a[0]).f[1] if isinstance(trig(it, st, a[0]), Agg) else apply(lambda z: z.f[1], trig(it, st, a[0])), st))

    def atan2(it, st, a, inst):
        """angle t in (-pi, pi] with (cos t, sin t) = (x, y)/|(x,y)|"""

        def f(y, x):
            if x is ANY or y is ANY:
                return ANY
            if not (isinstance(x, Expr) and isinstance(y, Expr)):
                return Top("atan2")
            key = ("sin", "cos")
            # recognise atan2(sin a, cos a) only up to 2*pi: opaque angle with known sin/cos
            v, new = fun_var("atan2", (y, x))
            if new:
                r2 = eadd(emul(x, x), emul(y, y))
                r = f_sqrt(r2)
                if isinstance(r, Expr):
                    sv, cv = ediv(y, r), ediv(x, r)
                    C.fun_tab[("sin", evar(v))] = ("val", sv)
                    C.fun_tab[("cos", evar(v))] = ("val", cv)
            return evar(v)

        return apply(f, a[0], a[1]), st

    fl("atan2", atan2)
    for nm in ("tan", "asin", "acos", "atan", "exp", "ln", "log2", "log10", "cbrt", "powf", "exp2", "sinh", "cosh", "tanh", "to_bits", "rem_euclid", "div_euclid"):
        fl(nm, unsupported_float(nm))

    PI = Fraction(13176795, 4194304)  # f32 pi

    def total_cmp(it, st, a, inst):
        import interp

        x = it.load(st, a[0])
        y = it.load(st, a[1])
        r = it.binop(st, "Cmp", x, y, None, None)
        # total_cmp orders NaN too: any of the three outcomes
        return apply(lambda z: fresh_case(tuple(Agg("core::cmp::Ordering", i, ()) for i in range(3))) if z is NAN else z, r), st

    fl("total_cmp", total_cmp)

    # integers
    for ty, signed in (("i32", 1), ("i64", 1), ("isize", 1), ("i16", 1), ("i8", 1), ("u8", 0), ("u32", 0), ("usize", 0), ("u64", 0), ("u16", 0)):
        P = "core::num::<impl %s>::" % ty

        def rem_e(x, y):
            if isinstance(x, Expr) and isinstance(y, Expr) and y.is_const() and y.cval() > 0:
                m = int(y.cval())
                return esub(x, emul(div_floor(x, m), y))
            return Top("rem_euclid")

        def div_e(x, y):
            if isinstance(x, Expr) and isinstance(y, Expr) and y.is_const() and y.cval() > 0:
                return div_floor(x, int(y.cval()))
            return Top("div_euclid")

        M.t[P + "rem_euclid"] = lift2(rem_e)
        M.t[P + "div_euclid"] = lift2(div_e)
        M.t[P + "abs"] = lift1(f_abs)
        M.t[P + "signum"] = lift1(lambda x: apply(lambda s: econst({"-": -1, "0": 0, "+": 1}[s]), sign_expr(x)) if isinstance(x, Expr) else x)

        def absdiff(x, y):
            return f_abs(esub(x, y)) if isinstance(x, Expr) and isinstance(y, Expr) else Top("abs_diff")

        M.t[P + "abs_diff"] = lift2(absdiff)
        for nm, op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"), ("unchecked_sub", "Sub")):

            def w(it, st, a, inst, op=op):
                it.assumptions.add("wrapping integer operations are assumed in range")
                return it.arith(op, a[0], a[1], False), st

            M.t[P + nm] = w

        def satsub(it, st, a, inst, signed=signed):
            d = vsub(a[0], a[1])
            if signed:
                return d, st
            return apply(lambda x: apply(lambda s: E0 if s == "-" else x, sign_expr(x)) if isinstance(x, Expr) else x, d), st

        M.t[P + "saturating_sub"] = satsub
        M.t[P + "saturating_add"] = lambda it, st, a, inst: (vadd(a[0], a[1]), st)

        def pow_(it, st, a, inst):
            return powi(it, st, a, inst)

        M.t[P + "pow"] = pow_

        def checked(op, signed):
            def f(it, st, a, inst):
                d = it.arith(op, a[0], a[1], False)
                if op == "Sub" and not signed:
                    return apply(lambda x: apply(lambda s: none() if s == "-" else some(x), sign_expr(x)) if isinstance(x, Expr) else x, d), st
                return some(d), st

            return f

        for op in ("Add", "Sub", "Mul"):
            M.t[P + "checked_" + op.lower()] = checked(op, signed)

    def rt(name, fn):
        for pat in (r"^<f32 as round_to::.*>::%s" % name, r"^round_to::.*::%s" % name):
            M.rx.append((re.compile(pat), lift1(lambda x: round_fun(fn, x))))

    rt("round", "round_even")
    rt("ceil", "ceil")
    rt("floor", "floor")
    rt("truncate", "trunc")

    # ---------------------------------------------------------------- mem / refs / misc
    def cell_ref(it, st, a):
        return apply(lambda r: Ref(r.cell, r.path + (("f", 0), ("f", 0))) if isinstance(r, Ref) else Top("cell"), a)

    @add("core::cell::Cell::<T>::get")
    def _(it, st, a, inst):
        return apply(lambda r: it.load(st, r) if isinstance(r, Ref) else r, cell_ref(it, st, a[0])), st

    @add("core::cell::Cell::<T>::set", "core::cell::Cell::<T>::replace")
    def _(it, st, a, inst):
        r = cell_ref(it, st, a[0])
        old = apply(lambda x: it.load(st, x) if isinstance(x, Ref) else x, r)
        it.store(st, r, a[1])
        return (old if inst["path"].endswith("replace") else UNIT), st

    @add("core::mem::swap")
    def _(it, st, a, inst):
        x = it.load(st, a[0])
        y = it.load(st, a[1])
        it.store(st, a[0], y)
        it.store(st, a[1], x)
        return UNIT, st

    @add("core::mem::replace")
    def _(it, st, a, inst):
        x = it.load(st, a[0])
        it.store(st, a[0], a[1])
        return x, st

    @add("core::mem::drop", "core::mem::forget", "core::hint::black_box", "core::hint::assert_unchecked", "core::intrinsics::assume", "core::intrinsics::cold_path", "core::hint::cold_path")
    def _(it, st, a, inst):
        return UNIT, st

    @add("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::must_use", "core::convert::identity")
    def _(it, st, a, inst):
        return a[0], st

    @add("core::intrinsics::discriminant_value")
    def _(it, st, a, inst):
        v = it.load(st, a[0])

        def f(x):
            if isinstance(x, Agg):
                t = it.p.adts.get(x.tag)
                if t is None or not t["v"]:
                    return econst(x.var)
                d = t["v"][x.var]["d"]
                if d >= 1 << 63:
                    d -= 1 << 128
                return econst(d)
            return Top("discriminant_value")

        return apply(f, v), st

    @add("core::mem::size_of", "core::mem::align_of")
    def _(it, st, a, inst):
        return Top("size_of"), st

    # ---------------------------------------------------------------- clone / eq on modelled containers
    def deep_clone(it, st, a, inst):
        return it.load(st, a[0]), st

    for p in (
        "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone",
        "<std::collections::hash::map::HashMap<K, V, S, A> as core::clone::Clone>::clone",
        "<std::collections::hash::map::HashMap<K, V, S> as core::clone::Clone>::clone",
        "<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone",
        "<alloc::boxed::Box<T, A> as core::clone::Clone>::clone",
    ):
        M.t[p] = deep_clone
    M.rx.append((re.compile(r"^<(alloc|std|hashbrown)::.* as core::clone::Clone>::clone$"), deep_clone))
    M.rx.append((re.compile(r"^core::array::<impl core::clone::Clone for \[T; N\]>::clone$"), deep_clone))
    M.rx.append((re.compile(r"^<core::slice::iter::.* as core::clone::Clone>::clone$"), deep_clone))

    def seq_eq(it, st, a, inst):
        x = it.load(st, a[0])
        y = it.load(st, a[1])
        for _ in range(2):
            if leaves(x) and all(isinstance(l, Ref) for l in leaves(x)):
                x = it.load(st, x)
            if leaves(y) and all(isinstance(l, Ref) for l in leaves(y)):
                y = it.load(st, y)
        big = lambda z: isinstance(z, Obj) and z.kind == "sarr" and z.f[1].is_const()
        if (big(x) or big(y)) and all(big(z) or isinstance(z, Seq) for z in leaves(x) + leaves(y)):
            # large arrays: equal unless they differ at a witness index
            def size(z):
                return len(z.e) if isinstance(z, Seq) else int(z.f[1].cval())

            ns = {size(z) for z in leaves(x) + leaves(y)}
            if len(ns) == 1 and all(big(z) for z in leaves(x) + leaves(y)):

                def differ(stt, i):
                    v, w = (apply(lambda z: M.sarr_read(it, z, i), q) for q in (x, y))
                    return b_not(M.veq(v, w)), stt

                k, c, st = witness(it, st, 0, ns.pop(), differ, lambda stt: leaves(x) + leaves(y))
                r = b_not(c)
            elif len(ns) == 1:
                r = True
                for i in range(ns.pop()):
                    v, w = (apply(lambda z: z.e[i] if isinstance(z, Seq) else M.sarr_read(it, z, econst(i)), q) for q in (x, y))
                    r = b_and(r, M.veq(v, w))
            else:
                r = False
            return (b_not(r) if inst["path"].endswith("::ne") else r), st
        return M.veq(x, y), st

    M.rx.append((re.compile(r"^(<alloc::vec::|alloc::vec::partial_eq::|<\[|core::array::equality::|core::slice::cmp::).*PartialEq.*::eq$"), seq_eq))

    # ---------------------------------------------------------------- Vec
    VP = "alloc::vec::Vec::<T, A>::"
    V0 = "alloc::vec::Vec::<T>::"

    def seqop(fn):
        def g(it, st, a, inst):
            v = it.load(st, a[0])
            nv = apply(lambda s: fn(s) if isinstance(s, Seq) else (s if isinstance(s, Top) else Top("vec op on %s" % type(s).__name__)), v)
            it.store(st, a[0], nv)
            return UNIT, st

        return g

    @add(V0 + "new", V0 + "with_capacity", "alloc::vec::Vec::<T>::with_capacity_in", "<alloc::vec::Vec<T> as core::default::Default>::default")
    def _(it, st, a, inst):
        return Seq(()), st

    @add(VP + "push")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        x = a[1]
        nv = apply(lambda s: Seq(s.e + (x,)) if isinstance(s, Seq) else Top("push on %s" % type(s).__name__), v)
        it.store(st, a[0], nv)
        return UNIT, st

    M.rx.append((re.compile(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend_one(_unchecked)?$"), M.t[VP + "push"]))

    @add(VP + "push_mut")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        n = M.length(it, st, a[0])
        it.store(st, a[0], apply(lambda s: Seq(s.e + (a[1],)) if isinstance(s, Seq) else Top("push on %s" % type(s).__name__), v))
        return apply(lambda r, k: Ref(r.cell, r.path + (("i", int(k.cval())),)) if isinstance(r, Ref) and isinstance(k, Expr) and k.is_const() else Top("push_mut"), a[0], n), st

    @add(VP + "pop")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        r = apply(lambda s: (some(s.e[-1]) if s.e else none()) if isinstance(s, Seq) else Top("pop"), v)
        nv = apply(lambda s: Seq(s.e[:-1]) if isinstance(s, Seq) else Top("pop"), v)
        it.store(st, a[0], nv)
        return r, st

    def idx_cases(it, st, v, i, f, g_bad, what):
        """apply f(seq, int) over in-range constant indices; out of range -> panic event"""
        bad = apply(lambda s, k: not (isinstance(s, Seq) and isinstance(k, Expr) and k.is_const() and g_bad(len(s.e), int(k.cval()))), v, i)
        symbolic = [k for k in leaves(i) if not (isinstance(k, Expr) and k.is_const())]
        if symbolic:
            from interp import GaveUp

            raise GaveUp("%s with a symbolic index" % what)
        gb = g_prune(g_and(st.g, bad))
        if not g_false(gb):
            it.event("panic", what + " index out of range", gb)
            ng = g_prune(g_and(st.g, b_not(bad)))
            if g_false(ng):
                return None
            it.refine(st, ng)
            v = restrict(v, ng)
            i = restrict(i, ng)
        return apply(lambda s, k: f(s, int(k.cval())) if g_bad(len(s.e), int(k.cval())) else BOT, v, i)

    @add(VP + "insert")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        x = a[2]
        nv = idx_cases(it, st, v, a[1], lambda s, k: Seq(s.e[:k] + (x,) + s.e[k:]), lambda n, k: 0 <= k <= n, "Vec::insert")
        if nv is None:
            return None, None
        it.store(st, a[0], nv)
        return UNIT, st

    @add(VP + "remove", VP + "swap_remove")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        ok = lambda n, k: 0 <= k < n
        sw = inst["path"].endswith("swap_remove")

        def rem(s, k):
            if sw:
                e = list(s.e)
                e[k] = e[-1]
                return Seq(e[:-1])
            return Seq(s.e[:k] + s.e[k + 1 :])

        r = idx_cases(it, st, v, a[1], lambda s, k: s.e[k], ok, "Vec::remove")
        if r is None:
            return None, None
        v = it.load(st, a[0])
        nv = idx_cases(it, st, v, a[1], rem, ok, "Vec::remove")
        it.store(st, a[0], nv)
        return r, st

    add(VP + "clear")(seqop(lambda s: Seq(())))

    @add(VP + "truncate")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        nv = apply(lambda s, k: Seq(s.e[: int(k.cval())]) if isinstance(s, Seq) and isinstance(k, Expr) and k.is_const() else Top("truncate"), v, a[1])
        it.store(st, a[0], nv)
        return UNIT, st

    @add(VP + "reserve", VP + "shrink_to_fit", VP + "reserve_exact")
    def _(it, st, a, inst):
        return UNIT, st

    @add(VP + "len", "core::slice::<impl [T]>::len")
    def _(it, st, a, inst):
        return M.length(it, st, a[0]), st

    @add(VP + "is_empty", "core::slice::<impl [T]>::is_empty")
    def _(it, st, a, inst):
        n = M.length(it, st, a[0])
        return apply(lambda x: apply(lambda s: s == "0", sign_expr(x)) if isinstance(x, Expr) else x, n), st

    @add(
        "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
        "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
        VP + "as_slice",
        VP + "as_mut_slice",
        "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref",
        "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow",
        "<[T] as core::convert::AsRef<[T]>>::as_ref",
        "core::array::<impl [T; N]>::as_slice",
        "core::borrow::Borrow::borrow",
        "core::slice::<impl [T]>::as_ref",
    )
    def _(it, st, a, inst):
        return a[0], st

    def to_vec(it, st, a, inst):
        return it.load(st, a[0]), st

    for p in ("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec", "<[T] as alloc::borrow::ToOwned>::to_owned", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned", "alloc::slice::<impl [T]>::to_vec_in"):
        M.t[p] = to_vec
    M.t["alloc::vec::from_elem"] = None

    def from_elem(it, st, a, inst):
        def f(n):
            if isinstance(n, Expr) and n.is_const() and n.cval() <= 16:
                return Seq((a[0],) * int(n.cval()))
            return M.sarr_const(it, a[0], n)

        return apply(f, a[1]), st

    M.t["alloc::vec::from_elem"] = from_elem
    M.t["alloc::boxed::box_new"] = lambda it, st, a, inst: (box_new(it, st, a[0]), st)
    M.t["alloc::boxed::Box::<T>::new"] = lambda it, st, a, inst: (box_new(it, st, a[0]), st)

    def box_new(it, st, v):
        c = ("heap", it.newcell())
        st.mem[c] = v
        return Ref(c)

    def box_uninit(it, st, a, inst):
        return box_new(it, st, Obj("uninit")), st

    M.t["alloc::boxed::Box::<T>::new_uninit"] = box_uninit
    M.rx.append((re.compile(r"^alloc::boxed::box_assume_init_into_vec_unsafe"), to_vec))
    M.rx.append((re.compile(r"^alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init$"), lambda it, st, a, inst: (a[0], st)))
    M.rx.append((re.compile(r"^alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::write$"), lambda it, st, a, inst: (it.store(st, a[0], a[1]), (a[0], st))[1]))

    # into_vec(Box<[T]>) gets a reference
    def index_trait(it, st, a, inst):
        idx = a[1]

        def f(r, i):
            if isinstance(i, Expr):
                if not isinstance(r, Ref):
                    return Top("index of %r" % (r,))
                if i.is_const():
                    return Ref(r.cell, r.path + (("i", int(i.cval()) + (r.rng[0] if r.rng else 0)),))
                return Ref(r.cell, r.path + (("x", i if not r.rng else eadd(i, econst(r.rng[0]))),))
            if isinstance(i, Agg) and isinstance(r, Ref):
                n = it.seq_len(st, r)
                if n is None:
                    return Top("range index")
                base = r.rng[0] if r.rng else 0
                nm = i.tag.split("::")[-1]
                try:
                    if nm == "Range":
                        lo, hi = int(i.f[0].cval()), int(i.f[1].cval())
                    elif nm == "RangeFrom":
                        lo, hi = int(i.f[0].cval()), n
                    elif nm == "RangeTo":
                        lo, hi = 0, int(i.f[0].cval())
                    elif nm == "RangeFull":
                        lo, hi = 0, n
                    elif nm == "RangeInclusive":
                        lo, hi = int(i.f[0].cval()), int(i.f[1].cval()) + 1
                    else:
                        return Top("range index")
                except AttributeError:
                    return Top("range index")
                if not (0 <= lo <= hi <= n):
                    return BOT
                return Ref(r.cell, r.path, (base + lo, hi - lo))
            return Top("index by %r" % (i,))

        # bounds
        n = M.length(it, st, a[0])

        def bad(nn, i):
            if isinstance(i, Expr) and isinstance(nn, Expr):
                hi = apply(lambda s: s != "-", sign_expr(esub(i, nn)))
                lo = apply(lambda s: s == "-", sign_expr(i))
                return b_or(hi, lo)
            if isinstance(i, Agg) and isinstance(nn, Expr):
                if not nn.is_const():
                    return False
                rb = models2.range_bounds(i, int(nn.cval()))
                return rb is not None and not 0 <= rb[0] <= rb[1] <= nn.cval()
            return Top("bounds")

        b = apply(bad, n, idx)
        tops = [x for x in leaves(b) if isinstance(x, Top)]
        if tops:
            it.event("unknown", "index bounds not understood", st.g)
        else:
            gb = g_prune(g_and(st.g, b))
            if not g_false(gb):
                it.event("panic", "index out of bounds", gb)
                ng = g_prune(g_and(st.g, b_not(b)))
                if g_false(ng):
                    return None, None
                it.refine(st, ng)
        return apply(f, a[0], idx), st

    M.rx.append((re.compile(r"^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$"), index_trait))
    M.rx.append((re.compile(r"^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$"), index_trait))
    M.rx.append((re.compile(r"^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$"), index_trait))

    @add("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
    def _(it, st, a, inst):
        n = M.length(it, st, a[0])

        def f(r, i, nn):
            if not (isinstance(i, Expr) and isinstance(r, Ref) and isinstance(nn, Expr)):
                return Top("slice get")
            ref = Ref(r.cell, r.path + (("i", int(i.cval()) + (r.rng[0] if r.rng else 0)) if i.is_const() else ("x", eadd(i, econst(r.rng[0])) if r.rng else i),))
            return apply(lambda s: some(ref) if s == "-" else none(), sign_expr(esub(i, nn)))

        return apply(f, a[0], a[1], n), st

    def first_last(last):
        def g(it, st, a, inst):
            def f(r):
                n = it.seq_len(st, r) if isinstance(r, Ref) else None
                if n is None:
                    # length differs between branches
                    v = it.load(st, r)

                    def h(s):
                        if not isinstance(s, Seq):
                            return Top("first/last")
                        k = len(s.e)
                        return none() if k == 0 else some(Ref(r.cell, r.path + (("i", k - 1 if last else 0),)))

                    return apply(h, v)
                base = r.rng[0] if r.rng else 0
                return none() if n == 0 else some(Ref(r.cell, r.path + (("i", base + (n - 1 if last else 0)),)))

            return apply(f, a[0]), st

        return g

    for p, l in (("first", 0), ("last", 1), ("first_mut", 0), ("last_mut", 1)):
        M.t["core::slice::<impl [T]>::" + p] = first_last(l)

    @add("core::slice::<impl [T]>::swap")
    def _(it, st, a, inst):
        i, j = a[1], a[2]

        def mkref(r, k):
            return Ref(r.cell, r.path + (("i", int(k.cval()) + (r.rng[0] if r.rng else 0)),)) if isinstance(k, Expr) and k.is_const() else Top("swap")

        ri = apply(mkref, a[0], i)
        rj = apply(mkref, a[0], j)
        x = it.load(st, ri)
        y = it.load(st, rj)
        it.store(st, ri, y)
        it.store(st, rj, x)
        return UNIT, st

    @add("core::slice::<impl [T]>::reverse")
    def _(it, st, a, inst):
        v = it.load(st, a[0])
        it.store(st, a[0], apply(lambda s: Seq(tuple(reversed(s.e))) if isinstance(s, Seq) else Top("reverse"), v))
        return UNIT, st

    # ---------------------------------------------------------------- iterators
    def slice_iter(it, st, r):
        def f(x):
            if not isinstance(x, Ref):
                return Top("iter over %r" % (x,))
            if x.rng:
                return Obj("siter", Ref(x.cell, x.path), x.rng[0], x.rng[0] + x.rng[1])
            v = it.load(st, x)

            def g(s):
                if isinstance(s, Seq):
                    return Obj("siter", Ref(x.cell, x.path), 0, len(s.e))
                if isinstance(s, Obj) and s.kind == "sarr" and s.f[1].is_const():
                    return Obj("siter", Ref(x.cell, x.path), 0, int(s.f[1].cval()))
                if isinstance(s, Ref):
                    return f(s)
                return Top("iter over %s" % type(s).__name__)

            return apply(g, v)

        return apply(f, r)

    def mk_iter(it, st, a, inst):
        return slice_iter(it, st, a[0]), st

    for p in (
        "core::slice::<impl [T]>::iter",
        "core::slice::<impl [T]>::iter_mut",
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
        "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
        "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
        "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
        "core::array::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
    ):
        M.t[p] = mk_iter
    M.rx.append((re.compile(r"^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter$"), mk_iter))
    M.rx.append((re.compile(r"^core::array::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$"), mk_iter))

    def own_iter(it, st, a, inst):
        def f(s):
            if isinstance(s, Seq):
                return Obj("viter", s, 0, len(s.e))
            return s if isinstance(s, Top) else Top("into_iter of %s" % type(s).__name__)

        return apply(f, a[0]), st

    M.t["<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter"] = own_iter
    M.rx.append((re.compile(r"^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter$"), own_iter))

    def step(x, back):
        """(item, rest) of a leaf iterator"""
        if not isinstance(x, Obj) or x.kind not in ("siter", "viter"):
            return x if isinstance(x, Top) else Top("next of %s" % (type(x).__name__,)), x
        s, i, j = x.f
        if i >= j:
            return none(), x
        k = j - 1 if back else i
        item = Ref(s.cell, s.path + (("i", k),)) if x.kind == "siter" else s.e[k]
        return some(item), Obj(x.kind, s, i if back else i + 1, j - 1 if back else j)

    def nxt(back):
        def g(it, st, a, inst):
            v = it.load(st, a[0])
            r = apply(lambda x: step(x, back)[0], v)
            n = apply(lambda x: step(x, back)[1], v)
            it.store(st, a[0], n)
            return r, st

        return g

    ITY = r"^<(std::collections::hash::map::(Iter|Keys|Values|IterMut|ValuesMut)<.*>|core::slice::iter::Iter(Mut)?<'a, T>|core::slice::iter::Iter(Mut)?<'_, T>|alloc::vec::into_iter::IntoIter<T, A>|core::array::iter::IntoIter<T, N>|alloc::vec::drain::Drain<'_, T, A>) as core::iter::traits::"
    M.rx.append((re.compile(ITY + r"iterator::Iterator>::next$"), nxt(False)))
    M.rx.append((re.compile(ITY + r"double_ended::DoubleEndedIterator>::next_back$"), nxt(True)))
    M.rx.append((re.compile(r"^core::slice::iter::<impl core::iter::traits::iterator::Iterator for core::slice::iter::Iter(Mut)?<'a, T>>::next$"), nxt(False)))

    def drain_items(it, st, v):
        items = []
        ls = leaves(v)
        if len(ls) != 1:
            return None
        x = ls[0]
        while True:
            r, x2 = step(x, False)
            if isinstance(r, Top):
                return None
            if r.var == 0:
                return items
            items.append(r.f[0])
            x = x2

    def drive(it, st, v, f):
        """f(state, item) for every item of the iterator v, in order; the state, or None if every path diverges"""
        from interp import State, merge_states, GaveUp

        for _ in range(it.max_loop):
            r = apply(lambda x: step(x, False)[0], v)
            v = apply(lambda x: step(x, False)[1], v)
            ls = leaves(r)
            if any(not isinstance(x, Agg) for x in ls):
                raise GaveUp("iteration over %s" % (r,))
            if all(x.var == 0 for x in ls):
                return st
            if all(x.var == 1 for x in ls):
                st = f(st, apply(lambda x: x.f[0], r))
                if st is None:
                    return None
                continue
            live = apply(lambda x: x.var == 1, r)
            g = g_prune(g_and(st.g, live))
            if g_false(g):
                return st
            h = g_prune(g_and(st.g, b_not(live)))
            s1 = State(dict(st.mem), st.g)
            it.refine(s1, g)
            s1 = f(s1, restrict(apply(lambda x: x.f[0] if x.var == 1 else BOT, r), g))
            if g_false(h):
                st = s1
            else:
                it.refine(st, h)
                st = st if s1 is None else merge_states(st, s1)
            if st is None:
                return None
        raise GaveUp("iteration over more than %d items" % it.max_loop)

    def generic_fold(it, st, a, inst):
        cl = closure_calls(it, inst, a[2])
        if not cl:
            return Top("fold"), st
        cell, acc = ("heap", it.newcell()), ("heap", it.newcell())
        st.mem[acc] = a[1]
        st.mem[cell] = a[2]

        def f(s, x):
            v, s = it.call_inst(cl[0], [Ref(cell), Agg("()", 0, (s.mem[acc], x))], s)
            if s is not None:
                s.mem[acc] = v
            return s

        st = drive(it, st, a[0], f)
        return (None, None) if st is None else (st.mem.pop(acc), st)

    FIT = r"^<(std::collections::hash::map::(Iter|Keys|Values|IterMut|ValuesMut)<.*>|core::slice::iter::Iter(Mut)?<'a, T>|alloc::vec::into_iter::IntoIter<T, A>|core::array::iter::IntoIter<T, N>) as core::iter::traits::iterator::Iterator>::"
    M.rx.append((re.compile(FIT + "fold$"), generic_fold))

    def generic_count(it, st, a, inst):
        return apply(lambda x: econst(x.f[2] - x.f[1]) if isinstance(x, Obj) and x.kind in ("siter", "viter") else Top("count"), a[0]), st

    M.rx.append((re.compile(FIT + "count$"), generic_count))

    def size_hint(it, st, a, inst):
        def f(x):
            if isinstance(x, Obj) and x.kind in ("siter", "viter"):
                n = econst(x.f[2] - x.f[1])
                return Agg("()", 0, (n, some(n)))
            return Agg("()", 0, (Top("size_hint"), Top("size_hint")))

        return apply(f, it.load(st, a[0])), st

    M.rx.append((re.compile(r"^<(?!core::iter::adapters::|core::iter::sources::|core::option::)(core|alloc|std|hashbrown)::.* as core::iter::traits::iterator::Iterator>::size_hint$|^core::iter::traits::iterator::Iterator::size_hint$"), size_hint))

    def witness(it, st, lo, hi, holds, bases, first=False):
        """an index k in lo..hi that holds if any does (Hilbert's choice; the first of them on request):
        (k, holds at k, state); what this says about the other elements is recorded"""
        kv = newvar("k%d" % it.newcell(), is_int=True)
        kv.lo, kv.hi = lo, hi - 1
        if lo == 0:
            kv.sign = "0+"
        mem0 = dict(st.mem)
        k = evar(kv)
        c, st = holds(st, k)
        if st is None:
            return k, None, None

        def side():
            r = True
            for b in bases(State_2(mem0)):
                for i, _ in list(it.mapbase.get(("arr", b.f[0]), [])) + list(b.f[2]):
                    pi, _s = holds(State_2(mem0), i)
                    inside = True
                    if not (i.is_const() and lo <= i.cval() < hi):
                        inside = b_and(apply(lambda s: s != "-", sign_expr(esub(i, econst(lo)))), apply(lambda s: s == "-", sign_expr(esub(i, econst(hi)))))
                    # a decided element decides the quantifier
                    r = b_and(r, b_or(c, b_not(b_and(pi, inside))))
                    if first:
                        before = apply(lambda s: s == "-", sign_expr(esub(i, k)))
                        r = b_and(r, b_not(b_and(b_and(c, before), b_and(pi, inside))))
            return r

        it.foralls.append(side)
        return k, c, st

    M.witness = witness

    def choose(it, st, x, cl, closure, kind, by_value=False):
        """quantifier over a large array: decided at a witness index"""
        arr, lo, hi = x.f
        cell = ("heap", it.newcell())
        st.mem[cell] = closure

        def holds(stt, i):
            el = Ref(arr.cell, arr.path + (("x", i),))
            if by_value:
                el = it.load(stt, el)
            if kind in ("find", "filter"):
                c2 = ("heap", it.newcell())
                stt.mem[c2] = el
                el = Ref(c2)
            r, stt = it.call_inst(cl[0], [Ref(cell), Agg("()", 0, (el,))], stt)
            return (b_not(r) if kind == "all" else r), stt

        def bases(stt):
            return [z for z in leaves(it.load(stt, arr)) if isinstance(z, Obj) and z.kind == "sarr"]

        k, c, st = witness(it, st, lo, hi, holds, bases, kind == "position")
        if st is None:
            return None, None
        if kind == "all":
            return b_not(c), st
        if kind in ("any", "filter"):
            return c, st
        if kind == "position":
            return ite(c, some(esub(k, econst(lo))), none()), st
        el = Ref(arr.cell, arr.path + (("x", k),))
        return ite(c, some(it.load(st, el) if by_value else el), none()), st

    def State_2(mem):
        from interp import State

        return State(dict(mem), True)

    def iter_quant(kind):
        def g(it, st, a, inst):
            v = it.load(st, a[0])
            cl = closure_calls(it, inst, a[1])
            if isinstance(v, Obj) and v.kind == "siter" and v.f[2] - v.f[1] > 16:
                z = [y for y in leaves(it.load(st, v.f[0])) if isinstance(y, Obj) and y.kind == "sarr"]
                if z and cl:
                    return choose(it, st, v, cl, a[1], kind)
            srcs = leaves(v)
            if not cl or any(not isinstance(x, Obj) or x.kind not in ("siter", "viter") for x in srcs):
                return Top(kind), st
            cell = ("heap", it.newcell())
            st.mem[cell] = a[1]
            known = {}
            res = rest = None
            for x in srcs:
                items = drain_items(it, st, x)
                if items is None:
                    return Top(kind), st
                s, lo, hi = x.f
                hits = []
                for k, y in enumerate(items):
                    key = (repr(s) if x.kind == "siter" else id(s), lo + k)
                    if key not in known:
                        arg = y
                        if kind == "find":
                            c2 = ("heap", it.newcell())
                            st.mem[c2] = y
                            arg = Ref(c2)
                        known[key], st = it.call_inst(cl[0], [Ref(cell), Agg("()", 0, (arg,))], st)
                        if st is None:
                            return None, None
                    hits.append(known[key])
                end = Obj(x.kind, s, hi, hi)
                if kind in ("all", "any"):
                    r, n = (True if kind == "all" else False), end
                    for k in range(len(items) - 1, -1, -1):
                        stop = b_not(hits[k]) if kind == "all" else hits[k]
                        r = ite(stop, kind == "any", r)
                        n = ite(stop, Obj(x.kind, s, lo + k + 1, hi), n)
                else:
                    r, n = none(), end
                    for k in range(len(items) - 1, -1, -1):
                        r = ite(hits[k], some(econst(k) if kind == "position" else items[k]), r)
                        n = ite(hits[k], Obj(x.kind, s, lo + k + 1, hi), n)
                if res is None:
                    res, rest = r, n
                else:
                    here = apply(lambda y: y is x or same(y, x), v)
                    res, rest = ite(here, r, res), ite(here, n, rest)
            it.assumptions.add("closures passed to all/any/find/position have no side effects")
            it.store(st, a[0], rest)
            return res, st

        return g

    for k in ("all", "any", "position", "find"):
        M.rx.append((re.compile(FIT + k + "$"), iter_quant(k)))

    def big_source(it, st, x):
        """a walk of a large array, through copied or not: (walk, by value)"""
        by_value = False
        while isinstance(x, Agg) and x.tag.startswith("core::iter::adapters::") and x.tag.rsplit("::", 1)[-1] in ("Copied", "Cloned"):
            x, by_value = x.f[0], True
        if isinstance(x, Obj) and x.kind == "siter" and x.f[2] - x.f[1] > 16:
            if any(isinstance(y, Obj) and y.kind == "sarr" for y in leaves(it.load(st, x.f[0]))):
                return x, by_value
        return None, False

    def filter_count(it, st, a, inst):
        if not isinstance(a[0], Agg):
            return None
        x, by_value = big_source(it, st, a[0].f[0])
        cl = x is not None and closure_calls(it, inst, a[0].f[1])
        if not cl:
            return None
        c, st = choose(it, st, x, cl, a[0].f[1], "filter", by_value)
        if st is None:
            return None, None
        n = newvar("count%d" % it.newcell(), is_int=True)
        n.lo, n.hi, n.sign = 1, x.f[2] - x.f[1], "+"
        return ite(c, evar(n), E0), st

    M.rx.append((re.compile(r"^<core::iter::adapters::filter::Filter<I, P> as core::iter::traits::iterator::Iterator>::count$"), filter_count))

    def big_quant(kind):
        def g(it, st, a, inst):
            v = it.load(st, a[0])
            x, by_value = big_source(it, st, v) if isinstance(v, Agg) else (None, False)
            cl = x is not None and closure_calls(it, inst, a[1])
            if not cl:
                return None
            return choose(it, st, x, cl, a[1], kind, by_value)

        return g

    for k in ("all", "any", "position", "find"):
        M.rx.append((re.compile(r"^core::iter::traits::iterator::Iterator::%s$" % k), big_quant(k)))

    def big_sum(it, st, a, inst):
        """a sum of things that are not negative: zero exactly when all of them are"""
        src, f = a[0], None
        if isinstance(src, Agg) and src.tag == "core::iter::adapters::map::Map":
            src, f = src.f
        x, by_value = big_source(it, st, src)
        if x is None or (f is None and not by_value):
            return None
        cl = closure_calls(it, inst, f) if f is not None else None
        if f is not None and not cl:
            return None
        arr, lo, hi = x.f
        cell = ("heap", it.newcell())
        st.mem[cell] = f

        def value(stt, i):
            el = Ref(arr.cell, arr.path + (("x", i),))
            if by_value:
                el = it.load(stt, el)
            return it.call_inst(cl[0], [Ref(cell), Agg("()", 0, (el,))], stt) if cl else (el, stt)

        def holds(stt, i):
            v, stt = value(stt, i)
            return (None, None) if stt is None else (apply(lambda z: apply(lambda s: s == "+", sign_expr(z)) if isinstance(z, Expr) else Top("sum"), v), stt)

        k, c, st = witness(it, st, lo, hi, holds, lambda stt: [z for z in leaves(it.load(stt, arr)) if isinstance(z, Obj) and z.kind == "sarr"])
        if st is None:
            return None, None
        v, st = value(st, k)
        if st is None:
            return None, None
        if any(not isinstance(z, Expr) for z in leaves(v)) or not g_false(g_prune(g_and(st.g, apply(lambda z: apply(lambda s: s == "-", sign_expr(z)), v)))):
            return None
        n = newvar("rest%d" % it.newcell(), is_int=True)
        n.lo, n.sign = 0, "0+"
        return ite(c, vadd(v, evar(n)), E0), st

    M.rx.append((re.compile(r"^core::iter::traits::iterator::Iterator::sum$"), big_sum))

    def extremum(want):
        def g(it, st, a, inst):
            x, by_value = big_source(it, st, a[0])
            if x is None:
                return None
            arr, lo, hi = x.f
            el = lambda i: Ref(arr.cell, arr.path + (("x", i),))
            # the witness is the place: no element is beyond the one there
            kv = newvar("k%d" % it.newcell(), is_int=True)
            kv.lo, kv.hi = lo, hi - 1
            if lo == 0:
                kv.sign = "0+"
            k = evar(kv)
            top = it.load(st, el(k))
            mem0 = dict(st.mem)
            if any(not isinstance(z, Expr) for z in leaves(top)):
                return None

            def side():
                r = True
                for z in leaves(it.load(State_2(mem0), arr)):
                    for i, _ in list(it.mapbase.get(("arr", z.f[0]), [])) + [(w, None) for w, _ in z.f[2]]:
                        v = it.load(State_2(mem0), el(i))
                        inside = True
                        if not (i.is_const() and lo <= i.cval() < hi):
                            inside = b_and(apply(lambda s: s != "-", sign_expr(esub(i, econst(lo)))), apply(lambda s: s == "-", sign_expr(esub(i, econst(hi)))))
                        beyond = apply(lambda s: s == want, sign_vsub(v, top))
                        r = b_and(r, b_not(b_and(inside, beyond)))
                return r

            it.foralls.append(side)
            return some(top if by_value else el(k)), st

        return g

    def sign_vsub(v, w):
        return apply(lambda d: sign_expr(d) if isinstance(d, Expr) else d, vsub(v, w))

    M.rx.append((re.compile(r"^core::iter::traits::iterator::Iterator::max$"), extremum("+")))
    M.rx.append((re.compile(r"^core::iter::traits::iterator::Iterator::min$"), extremum("-")))
    M.rx.append((re.compile(r"^<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::max$"), extremum("+")))
    M.rx.append((re.compile(r"^<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::min$"), extremum("-")))

    def for_each(it, st, a, inst):
        cl = closure_calls(it, inst, a[1])
        if not cl:
            return Top("for_each"), st
        cell = ("heap", it.newcell())
        st.mem[cell] = a[1]
        st = drive(it, st, a[0], lambda s, x: it.call_inst(cl[0], [Ref(cell), Agg("()", 0, (x,))], s)[1])
        return (None, None) if st is None else (UNIT, st)

    M.rx.append((re.compile(FIT + "for_each$"), for_each))

    def exact_len(it, st, a, inst):
        v = it.load(st, a[0])
        return apply(lambda x: econst(x.f[2] - x.f[1]) if isinstance(x, Obj) and x.kind in ("siter", "viter") else Top("len"), v), st

    M.rx.append((re.compile(r".* as core::iter::traits::exact_size::ExactSizeIterator>::len$"), exact_len))
    M.rx.append((re.compile(r"^core::slice::<impl \[T\]>::windows$"), lambda it, st, a, inst: (windows(it, st, a), st)))

    def windows(it, st, a):
        def f(r, n):
            ln = it.seq_len(st, r)
            if ln is None or not (isinstance(n, Expr) and n.is_const()):
                return Top("windows")
            k = int(n.cval())
            base = r.rng[0] if r.rng else 0
            return Obj("viter", Seq(Ref(r.cell, r.path, (base + i, k)) for i in range(max(0, ln - k + 1))), 0, max(0, ln - k + 1))

        return apply(f, a[0], a[1])

    M.rx.append((re.compile(r"^<core::slice::iter::Windows<'a, T> as core::iter::traits::iterator::Iterator>::next$"), nxt(False)))

    # collect into Vec / extend: drive next() of the source iterator
    def pull_seq(it, st, src, inst):
        """all the items of an iterator, as a Seq (or several possible ones)"""
        if all(isinstance(x, Obj) and x.kind in ("siter", "viter") for x in leaves(src)):

            def items(x):
                d = drain_items(it, st, x)
                return Top("collect") if d is None else Seq(d)

            return apply(items, src), st
        out = ("heap", it.newcell())
        st.mem[out] = Seq(())
        # how the library does it: either for_each into reserved space, or next
        tags = {x.tag for x in leaves(src) if isinstance(x, Agg)}
        tag = tags.pop() if len(tags) == 1 else None
        trusted = reach(it, inst, lambda c, y: y["path"].endswith("::extend_trusted") or y["path"].endswith("::collect_in_place"))
        if trusted is not None:
            y = it.p.insts[trusted]
            each = [blk["t"][1]["i"] for blk in y["body"]["blocks"] if blk["t"][0] == "call" and blk["t"][1] and blk["t"][1].get("d", "").rsplit("::", 1)[-1] in ("for_each", "try_fold", "fold")]
            if each:
                it.sinks.append(out)
                try:
                    if y["path"].endswith("collect_in_place"):
                        c = ("heap", it.newcell())
                        st.mem[c] = src
                        r, st = it.call_inst(each[0], [Ref(c), UNIT, Agg("sink", 0, ())], st)
                    else:
                        r, st = it.call_inst(each[0], [src, Agg("sink", 0, ())], st)
                finally:
                    it.sinks.pop()
                if st is None:
                    return None, None
                return st.mem.pop(out), st
            at = [blk["t"][1] for blk in y["body"]["blocks"] if blk["t"][0] == "call" and blk["t"][1] and "i" in blk["t"][1]]
            size = [c["i"] for c in at if c["d"].endswith("::size")]
            get = [c["i"] for c in at if c["d"].endswith("::__iterator_get_unchecked")]
            if not (size and get):
                return Top("collect"), st
            c = ("heap", it.newcell())
            st.mem[c] = src
            n, st = it.call_inst(size[0], [Ref(c)], st)
            if st is None or not (isinstance(n, Expr) and n.is_const() and n.cval() <= it.max_loop):
                return (None, None) if st is None else (Top("collect"), st)
            got = []
            for k in range(int(n.cval())):
                x, st = it.call_inst(get[0], [Ref(c), econst(k)], st)
                if st is None:
                    return None, None
                got.append(x)
            return Seq(got), st
        nx = reach(it, inst, lambda c, y: c["d"] == "core::iter::traits::iterator::Iterator::next" and (tag is None or not y["path"].startswith("<") or y["path"][1:].startswith(tag)))
        if nx is None:
            return Top("collect"), st
        cell = ("heap", it.newcell())
        st.mem[cell] = src
        for _ in range(it.max_loop):
            r, st = it.call_inst(nx, [Ref(cell)], st)
            if st is None:
                return None, None
            ls = leaves(r)
            if any(not isinstance(x, Agg) for x in ls):
                return Top("collect"), st
            if all(x.var == 0 for x in ls):
                return st.mem.pop(out), st
            cur = st.mem[out]
            x = apply(lambda x: x.f[0] if x.var == 1 else BOT, r)
            st.mem[out] = ite(apply(lambda x: x.var == 1, r), apply(lambda s: Seq(s.e + (x,)), cur), cur)
        return Top("collect"), st

    def sink(it, st, a, inst):
        out = it.sinks[-1]
        x = a[1].f[0]
        st.mem[out] = apply(lambda s: Seq(s.e + (x,)), st.mem[out])
        return UNIT, st

    def sink_in_place(it, st, a, inst):
        out = it.sinks[-1]
        acc, x = a[1].f
        st.mem[out] = apply(lambda s: Seq(s.e + (x,)), st.mem[out])
        return Agg("core::result::Result", 0, (acc,)), st

    M.rx.append((re.compile(r".*::extend_trusted::\{closure#0\}$"), sink))
    M.rx.append((re.compile(r".*::write_in_place_with_drop::\{closure#0\}$"), sink_in_place))

    def collect_vec(it, st, a, inst):
        x = a[0]
        if isinstance(x, Agg) and x.tag.endswith("::Take") and isinstance(x.f[0], Agg) and x.f[0].tag.endswith("::Repeat"):
            n = x.f[1]
            if isinstance(n, Expr) and n.is_const() and n.cval() > 16:
                return M.sarr_const(it, x.f[0].f[0], n), st
        return pull_seq(it, st, a[0], inst)

    M.rx.append((re.compile(r"^<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter$"), collect_vec))

    # how much to reserve: without effect on the result
    M.rx.append((re.compile(r"^serde::de::size_hint::cautious$"), lambda it, st, a, inst: (Top("capacity"), st)))

    def vec_to_array(it, st, a, inst):
        n = [int(x.split()[1]) for x in inst["args"] if isinstance(x, str) and x.startswith("const ") and x.split()[1].isdigit()]

        def f(x):
            if isinstance(x, Seq) and n:
                return Agg("core::result::Result", 0 if len(x.e) == n[0] else 1, (x,))
            return Top("array from %s" % type(x).__name__)

        return apply(f, a[0]), st

    M.rx.append((re.compile(r"^<alloc::vec::Vec<T> as core::convert::From<\[T; N\]>>::from$"), lambda it, st, a, inst: (a[0], st)))
    M.rx.append((re.compile(r"^alloc::vec::<impl core::convert::TryFrom<alloc::vec::Vec<T, A>> for \[T; N\]>::try_from$"), vec_to_array))

    def extend_vec(it, st, a, inst):
        items, st = pull_seq(it, st, a[1], inst)
        if st is None:
            return None, None
        v = it.load(st, a[0])
        it.store(st, a[0], apply(lambda s, t: Seq(s.e + t.e) if isinstance(s, Seq) and isinstance(t, Seq) else Top("extend"), v, items))
        return UNIT, st

    M.rx.append((re.compile(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend$"), extend_vec))

    def extend_refs(it, st, a, inst):
        """extend with the copies behind the references of a slice iterator"""

        def items(x):
            if isinstance(x, Ref):
                x = slice_iter(it, st, x)
            d = drain_items(it, st, x) if isinstance(x, Obj) and x.kind in ("siter", "viter") else None
            return Top("extend") if d is None else Seq(tuple(it.load(st, r) for r in d))

        v = it.load(st, a[0])
        t = apply(items, a[1])
        it.store(st, a[0], apply(lambda s, t: Seq(s.e + t.e) if isinstance(s, Seq) and isinstance(t, Seq) else Top("extend"), v, t))
        return UNIT, st

    M.rx.append((re.compile(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend$"), extend_refs))

    # ranges
    def range_next(back):
        def g(it, st, a, inst):
            v = it.load(st, a[0])

            def f(x):
                if not isinstance(x, Agg) or len(x.f) < 2:
                    return (Top("range next"), x)
                s, e = x.f[0], x.f[1]
                import interp

                lt = apply(lambda p, q: interp.compare("Lt", p, q), s, e)
                if back:
                    ne = vsub(e, E1)
                    return (ite(lt, some(ne), none()), Agg(x.tag, x.var, (s, ite(lt, ne, e))))
                return (ite(lt, some(s), none()), Agg(x.tag, x.var, (ite(lt, vadd(s, E1), s), e)))

            r = apply(lambda x: f(x)[0], v)
            n = apply(lambda x: f(x)[1], v)
            it.store(st, a[0], n)
            return r, st

        return g

    def rangeinc_next(back):
        def g(it, st, a, inst):
            v = it.load(st, a[0])
            import interp

            def f(x):
                if not isinstance(x, Agg) or len(x.f) != 3:
                    return (Top("range next"), x)
                s, e, ex = x.f
                le = apply(lambda p, q: interp.compare("Le", p, q), s, e)
                eq = apply(lambda p, q: interp.compare("Eq", p, q), s, e)
                live = b_and(le, b_not(ex))
                if back:
                    return (
                        ite(live, some(e), none()),
                        Agg(x.tag, x.var, (s, ite(b_and(live, b_not(eq)), vsub(e, E1), e), ite(live, eq, ex))),
                    )
                return (
                    ite(live, some(s), none()),
                    Agg(x.tag, x.var, (ite(b_and(live, b_not(eq)), vadd(s, E1), s), e, ite(live, eq, ex))),
                )

            r = apply(lambda x: f(x)[0], v)
            n = apply(lambda x: f(x)[1], v)
            it.store(st, a[0], n)
            return r, st

        return g

    RI = r"^core::iter::range::<impl core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator) for core::ops::range::"
    M.rx.append((re.compile(RI + r"Range<A>>::next$"), range_next(False)))
    M.rx.append((re.compile(RI + r"Range<A>>::next_back$"), range_next(True)))
    M.rx.append((re.compile(RI + r"RangeInclusive<A>>::next$"), rangeinc_next(False)))
    M.rx.append((re.compile(RI + r"RangeInclusive<A>>::next_back$"), rangeinc_next(True)))

    # ---------------------------------------------------------------- HashMap
    HM = r"^std::collections::hash::map::HashMap::<K, V(, S)?(, A)?>::"

    def hm(name, f):
        M.rx.append((re.compile(HM + name + "$"), f))

    def map_new(it, st, a, inst):
        vt = [x for x in inst["args"] if isinstance(x, int)]
        return Obj("map", None, (), vt[1] if len(vt) > 1 else None), st

    hm("new", map_new)
    hm("with_capacity", map_new)
    hm("with_hasher", map_new)
    hm("with_capacity_and_hasher", map_new)
    M.rx.append((re.compile(r"^<std::collections::hash::map::HashMap<K, V, S.*> as core::default::Default>::default$"), map_new))

    def map_get(it, st, a, inst):
        key = it.load(st, a[1])

        def f(r):
            if not isinstance(r, Ref):
                return Top("map get through %r" % (r,))
            m = it.load(st, r)

            def g(mm):
                if not (isinstance(mm, Obj) and mm.kind == "map"):
                    return Top("map get on %s" % type(mm).__name__)
                p, v = M.map_lookup(it, mm, key)
                return ite(p, some(Ref(r.cell, r.path + (("map", key),))), none())

            return apply(g, m)

        return apply(f, a[0]), st

    hm("get", map_get)

    def map_index(it, st, a, inst):
        r, st = map_get(it, st, a, inst)
        absent = apply(lambda x: x.var == 0 if isinstance(x, Agg) else Top("index of a map"), r)
        if any(isinstance(x, Top) for x in leaves(absent)):
            return Top("index of a map"), st
        gb = g_prune(g_and(st.g, absent))
        if not g_false(gb):
            it.event("panic", "no such key in the map", gb)
            ng = g_prune(g_and(st.g, b_not(absent)))
            if g_false(ng):
                return None, None
            it.refine(st, ng)
        return apply(lambda x: x.f[0] if x.var == 1 else BOT, r), st

    M.rx.append((re.compile(r"^<std::collections::hash::map::HashMap<.*> as core::ops::index::Index<&Q>>::index$"), map_index))
    hm("get_mut", map_get)

    def map_contains(it, st, a, inst):
        key = it.load(st, a[1])
        m = it.load(st, a[0])
        return apply(lambda mm: M.map_lookup(it, mm, key)[0] if isinstance(mm, Obj) and mm.kind == "map" else Top("contains"), m), st

    hm("contains_key", map_contains)

    def map_insert(it, st, a, inst):
        m = it.load(st, a[0])

        def g(mm):
            if not (isinstance(mm, Obj) and mm.kind == "map"):
                return Top("insert")
            p, v = M.map_lookup(it, mm, a[1])
            return ite(p, some(v) if v is not BOT else none(), none())

        r = apply(g, m)
        n = apply(lambda mm: M.map_write(it, mm, a[1], a[2]), m)
        it.store(st, a[0], n)
        return r, st

    hm("insert", map_insert)

    def map_extend(it, st, a, inst):
        """walks the source with the library's own for_each, inserting into the modelled map"""
        todo, seen = [inst], set()
        while todo:
            x = todo.pop(0)
            for blk in (x["body"] or {"blocks": []})["blocks"]:
                t = blk["t"]
                if t[0] != "call" or not t[1] or "i" not in t[1]:
                    continue
                y = it.p.insts[t[1]["i"]]
                if t[1]["d"] == "core::iter::traits::iterator::Iterator::for_each" and x["crate"] == "hashbrown":
                    cl = x["body"]["blocks"]
                    tag = [s[2] for q in cl for s in q["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and s[1][0] == t[2][1][1][0]]
                    ref = apply(lambda r: Ref(r.cell, r.path[:-1]) if isinstance(r, Ref) and r.path and r.path[-1] == ("f", 0) else r, a[0])
                    r, st = it.call_inst(t[1]["i"], [a[1], Agg(it.p.tys[tag[0][1][1]]["n"], 0, (ref,))], st)
                    return (None, None) if st is None else (UNIT, st)
                if t[1]["d"] == "core::iter::traits::collect::Extend::extend" and id(y) not in seen:
                    seen.add(id(y))
                    todo.append(y)
        return Top("extension of a map"), st

    def map_collect(it, st, a, inst):
        m, st = map_new(it, st, [], inst)
        cell = ("heap", it.newcell())
        st.mem[cell] = m
        r, st = map_extend(it, st, [Ref(cell), a[0]], inst)
        if st is None:
            return None, None
        return st.mem[cell], st

    M.rx.append((re.compile(r"^<std::collections::hash::map::HashMap<.*> as core::iter::traits::collect::FromIterator<\(K, V\)>>::from_iter$"), map_collect))
    M.rx.append((re.compile(r"^<(std::collections::hash|hashbrown)::map::HashMap<.*> as core::iter::traits::collect::Extend<\(K, V\)>>::extend$"), map_extend))
    M.rx.append((re.compile(r"^hashbrown::map::HashMap::<K, V, S, A>::insert$"), map_insert))

    def map_remove(it, st, a, inst):
        key = it.load(st, a[1])
        m = it.load(st, a[0])

        def g(mm):
            if not (isinstance(mm, Obj) and mm.kind == "map"):
                return Top("remove")
            p, v = M.map_lookup(it, mm, key)
            return ite(p, some(v) if v is not BOT else none(), none())

        r = apply(g, m)
        n = apply(lambda mm: M.map_write(it, mm, key, BOT, False), m)
        it.store(st, a[0], n)
        return r, st

    hm("remove", map_remove)

    def joined(m):
        """one map for a choice between maps with the same keys"""
        if not isinstance(m, Node):
            return m
        ls = leaves(m)
        if not all(isinstance(x, Obj) and x.kind == "map" for x in ls):
            return m
        keys = [w[0] for w in ls[0].f[1]]
        if any(x.f[0] is not ls[0].f[0] or [w[0] for w in x.f[1]] != keys for x in ls):
            return m
        return Obj("map", ls[0].f[0], tuple((k, apply(lambda x: x.f[1][i][1], m), apply(lambda x: x.f[1][i][2], m)) for i, k in enumerate(keys)), ls[0].f[2])

    def entry_or(kind):
        def f(it, st, a, inst):
            r, st = g(it, st, a, inst)
            if kind == "or_try" and st is not None:
                r = Agg("core::result::Result", 0, (r,))
            return r, st

        def g(it, st, a, inst):
            e = models2.entry_value(a[0])
            if not (isinstance(e, Obj) and e.kind == "entry"):
                return Top("entry"), st
            r, key = e.f
            m = joined(it.load(st, r))
            it.store(st, r, m)
            if not (isinstance(m, Obj) and m.kind == "map"):
                return Top("entry on %s" % type(m).__name__), st
            p, v = M.map_lookup(it, m, key)
            absent = b_not(p)
            g_abs = g_prune(g_and(st.g, absent))
            if g_false(g_abs):
                return Ref(r.cell, r.path + (("map", key),)), st
            # evaluate the default only where absent
            s2 = State_(st, g_abs)
            it.refine(s2, g_abs)
            if kind == "or_insert":
                dv = a[1]
            else:
                cl = closure_calls(it, inst)
                if kind == "or_default":
                    # Default::default instance in the body
                    di = None
                    for blk in inst["body"]["blocks"] if inst["body"] else []:
                        t = blk["t"]
                        if t[0] == "call" and t[1] and t[1].get("d", "").endswith("Default::default"):
                            di = t[1]["i"]
                    if di is None:
                        return Top("or_default"), st
                    dv, s2 = it.call_inst(di, [], s2)
                else:
                    if not cl:
                        return Top("or_insert_with"), st
                    dv, s2 = it.call_inst(cl[0], [a[1], Agg("()", 0, ())], s2)
                    if s2 is not None and kind == "or_try":
                        dv = apply(lambda z: z.f[0] if isinstance(z, Agg) and z.var == 0 else Top("or_try_insert_with"), dv)
                if s2 is None:
                    g_pr = g_prune(g_and(st.g, p))
                    if g_false(g_pr):
                        return None, None
                    it.refine(st, g_pr)
                    return Ref(r.cell, r.path + (("map", key),)), st
            m2 = it.load(s2, r)
            it.store(s2, r, M.map_write(it, m2, key, dv))
            g_pr = g_prune(g_and(st.g, p))
            if g_false(g_pr):
                return Ref(r.cell, r.path + (("map", key),)), s2
            s1 = State_(st, g_pr)
            it.refine(s1, g_pr)
            # make the map values structurally comparable: write back the present value
            m1 = it.load(s1, r)
            it.store(s1, r, M.map_write(it, m1, key, M.map_lookup(it, m1, key)[1]))
            from interp import merge_states

            return Ref(r.cell, r.path + (("map", key),)), merge_maps(it, merge_states(s1, s2), r)

        return f

    def State_(st, g):
        from interp import State

        return State(dict(st.mem), g)

    def merge_maps(it, st, r):
        return st

    EN = r"^std::collections::hash::map::Entry::<'a, K, V(, A)?>::"
    M.rx.append((re.compile(EN + "or_try_insert_with$"), entry_or("or_try")))
    M.rx.append((re.compile(EN + "or_insert$"), entry_or("or_insert")))
    M.rx.append((re.compile(EN + "or_default$"), entry_or("or_default")))

    M.rx.append((re.compile(r"^(<)?std::hash::random::RandomState( as core::default::Default>)?::(new|default)$"), lambda it, st, a, inst: (Obj("hasher"), st)))

    def map_walk(what):
        """a walk over a map without arbitrary part, in any order"""

        def g(it, st, a, inst):
            def f(r):
                if not isinstance(r, Ref):
                    return Top("walk over a map")
                v = it.load(st, r)

                def one(mm):
                    if not (isinstance(mm, Obj) and mm.kind == "map") or mm.f[0] is not None:
                        return Top("walk over an arbitrary map")
                    writes = mm.f[1]
                    items = Seq(())
                    for k, (key, pr, _) in enumerate(writes):
                        c = pr
                        for later, _, _ in writes[k + 1 :]:
                            c = b_and(c, b_not(M.veq(key, later)))
                        c = g_prune(g_and(st.g, c))
                        if g_false(c):
                            continue
                        if g_false(g_prune(g_and(st.g, b_not(c)))):
                            c = True
                        cell = ("heap", it.newcell())
                        st.mem[cell] = key
                        kr, vr = Ref(cell), Ref(r.cell, r.path + (("map", key),))
                        x = {"iter": Agg("()", 0, (kr, vr)), "keys": kr, "values": vr}[what]
                        first = fresh_case((False, True)) if k else False
                        more = apply(lambda b, s, x=x: Seq((x,) + tuple(s.e)) if b else Seq(tuple(s.e) + (x,)), first, items)
                        items = ite(c, more, items)
                    return apply(lambda s: Obj("viter", s, 0, len(s.e)), items)

                return apply(one, v)

            return apply(f, a[0]), st

        return g

    for nm in ("iter", "keys", "values"):
        hm(nm, map_walk(nm))
    hm("iter_mut", map_walk("iter"))
    hm("values_mut", map_walk("values"))
    M.rx.append((re.compile(r"^<&'a (mut )?std::collections::hash::map::HashMap<.*> as core::iter::traits::collect::IntoIterator>::into_iter$"), map_walk("iter")))

    # ---------------------------------------------------------------- HashSet
    HS = r"^std::collections::hash::set::HashSet::<T(, S)?(, A)?>::"

    def hs(name, f):
        M.rx.append((re.compile(HS + name + "$"), f))

    def set_new(it, st, a, inst):
        return Obj("map", None, (), None), st

    hs("new", set_new)
    hs("with_capacity", set_new)
    M.rx.append((re.compile(r"^<std::collections::hash::set::HashSet<T, S.*> as core::default::Default>::default$"), set_new))

    def set_insert(it, st, a, inst):
        m = it.load(st, a[0])
        p = apply(lambda mm: M.map_lookup(it, mm, a[1])[0] if isinstance(mm, Obj) and mm.kind == "map" else Top("insert into %s" % type(mm).__name__), m)
        it.store(st, a[0], apply(lambda mm: M.map_write(it, mm, a[1], UNIT), m))
        return b_not(p), st

    hs("insert", set_insert)
    hs("replace", set_insert)

    def set_remove(it, st, a, inst):
        key = it.load(st, a[1])
        m = it.load(st, a[0])
        p = apply(lambda mm: M.map_lookup(it, mm, key)[0] if isinstance(mm, Obj) and mm.kind == "map" else Top("remove from %s" % type(mm).__name__), m)
        it.store(st, a[0], apply(lambda mm: M.map_write(it, mm, key, BOT, False), m))
        return p, st

    hs("remove", set_remove)

    def set_contains(it, st, a, inst):
        key = it.load(st, a[1])
        m = it.load(st, a[0])
        return apply(lambda mm: M.map_lookup(it, mm, key)[0] if isinstance(mm, Obj) and mm.kind == "map" else Top("contains"), m), st

    hs("contains", set_contains)

    def map_count(it, mm):
        """number of keys of a map without arbitrary part"""
        if not (isinstance(mm, Obj) and mm.kind == "map") or mm.f[0] is not None:
            return Top("size of an arbitrary map")
        writes = mm.f[1]
        n = E0
        for k, (key, pr, _) in enumerate(writes):
            c = pr
            for later, _, _ in writes[k + 1 :]:
                c = b_and(c, b_not(M.veq(key, later)))
            n = vadd(n, ite(c, econst(1), E0))
        return n

    def map_len(it, st, a, inst):
        return apply(lambda mm: map_count(it, mm), it.load(st, a[0])), st

    def map_empty(it, st, a, inst):
        from interp import compare

        n = map_len(it, st, a, inst)[0]
        return apply(lambda x: x if isinstance(x, Top) else compare("Eq", x, E0), n), st

    for add_ in (hs, hm):
        add_("len", map_len)
        add_("is_empty", map_empty)
        add_("clear", lambda it, st, a, inst: (it.store(st, a[0], apply(lambda mm: Obj("map", None, (), mm.f[2]), it.load(st, a[0]))), (UNIT, st))[1])

    # ---------------------------------------------------------------- fmt / log / io
    def opaque(it, st, a, inst):
        return Obj("fmt"), st

    @add("log::max_level")
    def _(it, st, a, inst):
        # whoever owns the logger may change the level at any time
        k = it.fresh_count.get("log", 0)
        it.fresh_count["log"] = k + 1
        return it.fresh(inst["body"]["locals"][0], "log_level%d" % k), st

    for p in (r"^core::fmt::", r"^alloc::fmt::", r"^log::__private_api::", r"^<core::fmt::"):
        M.rx.append((re.compile(p), opaque))

    def effect(it, st, a, inst):
        it.effects.append(("io", inst["path"], it.loc()))
        return Top("io"), st

    M.rx.append((re.compile(r"^std::io::stdio::_e?print$"), lambda it, st, a, inst: (it.effects.append(("io", inst["path"], it.loc())), (UNIT, st))[1]))

    # ---------------------------------------------------------------- glam Quat (SIMD) and friends
    QT = "glam::f32::sse2::quat::Quat"
    Q = QT + "::"

    def quat(x, y, z, w):
        return Agg(QT, 0, (x, y, z, w))

    def qparts(v):
        return v.f if isinstance(v, Agg) else None

    @add(Q + "from_xyzw", Q + "from_array")
    def _(it, st, a, inst):
        if len(a) == 1:
            return quat(*a[0].e), st
        return quat(*a), st

    @add("<glam::f32::sse2::quat::Quat as core::ops::deref::Deref>::deref", "<glam::f32::sse2::quat::Quat as core::ops::deref::DerefMut>::deref_mut")
    def _(it, st, a, inst):
        return a[0], st

    def qmul(p, q):
        ax, ay, az, aw = p.f
        bx, by, bz, bw = q.f
        m = vmul
        return quat(
            vadd(vsub(vadd(m(aw, bx), m(ax, bw)), m(az, by)), m(ay, bz)),
            vadd(vadd(vsub(m(aw, by), m(ax, bz)), m(ay, bw)), m(az, bx)),
            vadd(vadd(vadd(m(aw, bz), m(ax, by)), vneg(m(ay, bx))), m(az, bw)),
            vsub(vsub(vsub(m(aw, bw), m(ax, bx)), m(ay, by)), m(az, bz)),
        )

    def qlift2(f):
        return lambda it, st, a, inst: (apply(lambda x, y: f(x, y), deref(it, st, a[0]), deref(it, st, a[1])), st)

    def deref(it, st, v):
        if isinstance(v, Ref):
            return it.load(st, v)
        return v

    for p in (Q + "mul_quat", "<%s as core::ops::arith::Mul>::mul" % QT, "<%s as core::ops::arith::Mul<%s>>::mul" % (QT, QT)):
        M.t[p] = qlift2(qmul)

    V3 = "glam::f32::vec3::Vec3"

    def qrot(q, v):
        # w^2 v - |b|^2 v + 2 b (b.v) + 2 w (b x v)   (glam's mul_vec3)
        x, y, z, w = q.f
        a, b, c = v.f[:3]
        m = vmul
        b2 = vadd(vadd(m(x, x), m(y, y)), m(z, z))
        k = vsub(m(w, w), b2)
        d = vadd(vadd(m(x, a), m(y, b)), m(z, c))
        two = econst(2)
        cx = vsub(m(y, c), m(z, b))
        cy = vsub(m(z, a), m(x, c))
        cz = vsub(m(x, b), m(y, a))
        r = []
        for v_, q_, c_ in ((a, x, cx), (b, y, cy), (c, z, cz)):
            r.append(vadd(vadd(m(v_, k), m(m(two, d), q_)), m(m(two, w), c_)))
        return Agg(v.tag, 0, tuple(r))

    for p in (Q + "mul_vec3", "<%s as core::ops::arith::Mul<%s>>::mul" % (QT, V3)):
        M.t[p] = qlift2(qrot)

    def qconj(q):
        x, y, z, w = q.f
        return quat(vneg(x), vneg(y), vneg(z), w)

    def q1(f):
        return lambda it, st, a, inst: (apply(f, deref(it, st, a[0])), st)

    for n in ("inverse", "conjugate"):
        M.t[Q + n] = q1(qconj)

    def qlen2(q):
        r = E0
        for c in q.f:
            r = vadd(r, vmul(c, c))
        return r

    M.t[Q + "length_squared"] = q1(qlen2)
    M.t[Q + "length"] = q1(lambda q: apply(f_sqrt, qlen2(q)))
    M.t[Q + "normalize"] = q1(lambda q: quat(*[vdiv(c, apply(f_sqrt, qlen2(q))) for c in q.f]))
    M.t["<%s as core::ops::arith::Neg>::neg" % QT] = q1(lambda q: quat(*[vneg(c) for c in q.f]))
    M.t[Q + "length_recip"] = q1(lambda q: vdiv(E1, apply(f_sqrt, qlen2(q))))
    M.t[Q + "to_array"] = q1(lambda q: Seq(q.f))
    M.t["<[f32; 4] as core::convert::From<%s>>::from" % QT] = M.t[Q + "to_array"]
    M.t[Q + "is_finite"] = q1(lambda q: apply(lambda *c: all(isinstance(x, Expr) for x in c), *q.f))
    M.t[Q + "is_nan"] = q1(lambda q: apply(lambda *c: any(x is NAN for x in c), *q.f))
    for n, f in (("Mul", vmul), ("Div", vdiv)):
        M.t["<%s as core::ops::arith::%s<f32>>::%s" % (QT, n, n.lower())] = qlift2(lambda q, k, f=f: quat(*[f(c, k) for c in q.f]))
    for n, f in (("Add", vadd), ("Sub", vsub)):
        for q in ("", "<%s>" % QT):
            M.t["<%s as core::ops::arith::%s%s>::%s" % (QT, n, q, n.lower())] = qlift2(lambda x, y, f=f: quat(*[f(c, d) for c, d in zip(x.f, y.f)]))
    M.t[Q + "xyz"] = q1(lambda q: Agg(V3, 0, q.f[:3]))
    M.t[Q + "dot"] = qlift2(lambda p, q: vadd(vadd(vmul(p.f[0], q.f[0]), vmul(p.f[1], q.f[1])), vadd(vmul(p.f[2], q.f[2]), vmul(p.f[3], q.f[3]))))

    def half_angle(it, st, ang, axis):
        t = trig(it, st, vmul(ang, econst(Fraction(1, 2))))
        s = apply(lambda z: z.f[0], t) if not isinstance(t, Agg) else t.f[0]
        c = apply(lambda z: z.f[1], t) if not isinstance(t, Agg) else t.f[1]
        v = [E0, E0, E0, c]
        v[axis] = s
        return quat(*v)

    for n, ax in (("from_rotation_x", 0), ("from_rotation_y", 1), ("from_rotation_z", 2)):
        M.t[Q + n] = lambda it, st, a, inst, ax=ax: (half_angle(it, st, a[0], ax), st)

    # ---------------------------------------------------------------- specification functions
    models2.install(M, dict(UNIT=UNIT, none=none, some=some, reach=reach, closure_calls=closure_calls, drive=drive, FIT=FIT, step=step, nxt=nxt, box_new=box_new, RI=RI))
    register_spec(M)


def register_spec(M):
    from interp import GaveUp

    add = M.add

    def text(it, v):
        return it.describe(v)

    @add("spec::assume")
    def _(it, st, a, inst):
        c = a[0]
        assume(it, st, c)
        if g_false(st.g):
            return None, None
        return UNIT, st

    def assume(it, st, c):
        # unconditional assumptions on a single atom become facts
        if isinstance(c, Node) and c.atom.kind == "sign" and all(not isinstance(x, Node) for x in c.ch) and (st.g is True or st.g is it.assumed):
            ok = tuple(o for o, x in enumerate(c.ch) if x is True)
            p = c.atom.poly
            if len(p.t) == 1 and len(list(p.t)[0]) == 1 and list(p.t)[0][0][1] == 1:
                v = C.vars[list(p.t)[0][0][0]]
                s = {(2,): "+", (1, 2): "0+", (0,): "-", (0, 1): "0-", (0, 2): "!0"}.get(ok)
                if s and v.sign in (None, s):
                    v.sign = s
                    theory.T.cache.clear()
                    C.__dict__.get("sp", {}).clear()
                elif s and v.sign == "0+" and s == "!0":
                    v.sign = "+"
                    theory.T.cache.clear()
                    C.__dict__.get("sp", {}).clear()
            else:
                if ok == (2,):
                    ASSUME.append((p, ">"))
                elif ok == (1, 2):
                    ASSUME.append((p, ">="))
                elif ok == (0,):
                    ASSUME.append((-p, ">"))
                elif ok == (0, 1):
                    ASSUME.append((-p, ">="))
                elif ok == (1,):
                    ASSUME.append((p, "="))
                theory.T.cache.clear()
                C.__dict__.get("sp", {}).clear()
        pure = st.g is True or st.g is it.assumed
        g = g_and(st.g, c)
        if isinstance(g, Node):
            g = g_prune(g)
        if pure:
            it.assumed = g
        it.refine(st, g)

    @add("spec::check")
    def _(it, st, a, inst):
        it.checks.append(("bool", a[0], None, st.g, text(it, a[1]), it.callpath()))
        return UNIT, st

    @add("spec::check_eq")
    def _(it, st, a, inst):
        it.checks.append(("eq", a[0], a[1], st.g, text(it, a[2]), it.callpath()))
        return UNIT, st

    @add("spec::unit_pair")
    def _(it, st, a, inst):
        k = it.fresh_count.get("u", 0)
        it.fresh_count["u"] = k + 1
        s = newvar("sin%d" % k)
        c = newvar("cos%d" % k)
        c.sq = P1 - pvar(s) * pvar(s)
        for v in (s, c):
            v.lo, v.hi = -1, 1
        return Agg("()", 0, (evar(c), evar(s))), st

    @add("spec::unit_quat")
    def _(it, st, a, inst):
        k = int(a[0].cval())
        q = [newvar("q%d.%s" % (k, c)) for c in "xyzw"]
        q[3].sq = P1 - pvar(q[0]) * pvar(q[0]) - pvar(q[1]) * pvar(q[1]) - pvar(q[2]) * pvar(q[2])
        for v in q:
            v.lo, v.hi = -1, 1
        return Agg("glam::f32::sse2::quat::Quat", 0, tuple(evar(v) for v in q)), st

    @add("spec::any")
    def _(it, st, a, inst):
        ty = [x for x in inst["args"] if isinstance(x, int)][0]
        k = it.fresh_count.get("a", 0)
        it.fresh_count["a"] = k + 1
        return it.fresh(ty, "any%d" % k), st

    @add("spec::wild")
    def _(it, st, a, inst):
        ty = [x for x in inst["args"] if isinstance(x, int)][0]
        k = it.fresh_count.get("a", 0)
        it.fresh_count["a"] = k + 1
        it.wild = True
        try:
            return it.fresh(ty, "wild%d" % k), st
        finally:
            it.wild = False

    @add("spec::opaque_penetration")
    def _(it, st, a, inst):
        it.opaque.add("auburn::col2d::detection::penetrates::PenetratesRel2d::penetrates_rel")
        return UNIT, st

    @add("spec::loops")
    def _(it, st, a, inst):
        it.max_loop = int(a[0].cval())
        it.max_blocks = max(it.max_blocks, 2000 * it.max_loop)
        return UNIT, st

    @add("core::str::traits::<impl core::cmp::PartialEq for str>::eq")
    def _(it, st, a, inst):
        def d(v):
            while isinstance(v, Ref):
                v = it.load(st, v)
            return v

        def f(x, y):
            if isinstance(x, Obj) and isinstance(y, Obj) and x.kind == "str" and y.kind == "str":
                return x.f[0] == y.f[0]
            return Top("comparison of strings")

        return apply(f, d(a[0]), d(a[1])), st

    @add("spec::emit")
    def _(it, st, a, inst):
        log = st.mem.get(("emitted",), Seq(()))
        st.mem[("emitted",)] = apply(lambda l: Seq(tuple(l.e) + (Agg("()", 0, (a[0], a[1])),)), log)
        return UNIT, st

    @add("spec::emitted")
    def _(it, st, a, inst):
        return apply(lambda l: econst(len(l.e)), st.mem.get(("emitted",), Seq(()))), st

    @add("spec::emitted_at")
    def _(it, st, a, inst):
        i = int(a[0].cval())
        return apply(lambda l: l.e[i] if i < len(l.e) else Top("nothing happened"), st.mem.get(("emitted",), Seq(()))), st

    @add("spec::nan")
    def _(it, st, a, inst):
        return NAN, st

    @add("spec::is_defined")
    def _(it, st, a, inst):
        return apply(lambda x: fresh_case((False, True)) if x is ANY else isinstance(x, Expr), a[0]), st

    @add("spec::uf2")
    def _(it, st, a, inst):
        """uninterpreted function of (id, x, y) -> (f32, f32)"""

        def f(i, x, y):
            vx, _ = fun_var("ux", (i, x, y))
            vy, _ = fun_var("uy", (i, x, y))
            return Agg("()", 0, (evar(vx), evar(vy)))

        return apply(f, *a), st

    import io_models

    io_models.install(M, UNIT)
