"""Exact polynomial / rational-function normal forms over named atoms.

This is the value part of the abstract domain: two MIR expressions are equal
when their normal forms are.  No sampling, no floating point, no solver.
"""
from fractions import Fraction
from math import gcd, isqrt


class Ctx:
    """Atom registry; one per analysed law, so that numbering is stable."""

    def __init__(self):
        self.vars = []
        self.byname = {}
        self.sqrt_tab = {}
        self.fun_tab = {}
        self.sp = {}

    def reset(self):
        self.__init__()


C = Ctx()


class Var:
    __slots__ = ("id", "name", "kind", "arg", "sq", "sign", "is_int", "lo", "hi", "facts", "eqs", "where")

    def __init__(self, name, kind="free", arg=None, is_int=False):
        self.id = len(C.vars)
        C.vars.append(self)
        self.name = name
        self.kind = kind
        self.arg = arg
        self.sq = None  # Poly: v*v == sq
        self.sign = None  # None | '+' (>0) | '0+' (>=0) | '-' | '0-' | '!0'
        self.is_int = is_int
        self.lo = None
        self.hi = None
        self.facts = []  # list of (Poly, op) with op in '>','>=','='
        self.eqs = []

    def __repr__(self):
        return self.name


def num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_key")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n == 0:
                del r[m]
            else:
                r[m] = num(n)
        return Poly(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return P0
        if k == 1:
            return self
        return Poly({m: num(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return P0
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        r = {}
        red = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, f = mono_mul(m1, m2)
                red = red or f
                n = r.get(m, 0) + c1 * c2
                r[m] = n
        r = {m: num(c) for m, c in r.items() if c != 0}
        p = Poly(r)
        if red:
            p = reduce_sq(p)
        return p

    def pow(self, n):
        r = P1
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def __repr__(self):
        return pstr(self)


P0 = Poly({})
P1 = Poly({(): 1})


def pconst(c):
    return Poly({(): num(c)}) if c != 0 else P0


def pvar(v):
    return Poly({((v.id, 1),): 1})


def mono_mul(a, b):
    """product of monomials; flag: some variable with a square rule has exponent >= 2"""
    if not a:
        return b, False
    if not b:
        return a, False
    r = []
    i = j = 0
    flag = False
    vs = C.vars
    while i < len(a) and j < len(b):
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            r.append((va, ea + eb))
            if vs[va].sq is not None:
                flag = True
            i += 1
            j += 1
        elif va < vb:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r), flag


def reduce_sq(p):
    while True:
        hit = None
        for m in p.t:
            for v, e in m:
                if e >= 2 and C.vars[v].sq is not None:
                    if hit is None or v > hit:
                        hit = v
        if hit is None:
            return p
        sq = C.vars[hit].sq
        rest = {}
        acc = P0
        for m, c in p.t.items():
            e = next((e for v, e in m if v == hit), 0)
            if e < 2:
                rest[m] = c
            else:
                m2 = tuple((v, x) for v, x in m if v != hit)
                if e & 1:
                    m2 = tuple(sorted(m2 + ((hit, 1),)))
                acc = acc + Poly({m2: c}) * sq.pow(e // 2)
        p = Poly(rest) + acc


def mono_str(m):
    return "*".join(C.vars[v].name + ("^%d" % e if e > 1 else "") for v, e in m)


def cstr(c):
    if isinstance(c, Fraction):
        if c.denominator > 10000:
            return "%.9g" % float(c)
        return "%d/%d" % (c.numerator, c.denominator)
    return str(c)


def pstr(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
        if m == ():
            out.append(cstr(c))
        elif c == 1:
            out.append(mono_str(m))
        elif c == -1:
            out.append("-" + mono_str(m))
        else:
            out.append(cstr(c) + "*" + mono_str(m))
    return " + ".join(out).replace("+ -", "- ")


def lead(p):
    """leading monomial in graded lex order"""
    return max(p.t, key=mono_order)


def mono_order(m):
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def mono_div(a, b):
    """a/b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v, None)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def lexkey(m, order):
    d = dict(m)
    return tuple(d.get(v, 0) for v in order)


def pdivmod_exact(p, d):
    """exact division p/d ignoring square rules; None if not divisible"""
    if not p.t:
        return P0
    if d.is_const():
        return p.scale(Fraction(1) / d.const())
    vs = sorted(p.vars() | d.vars())
    if not d.vars() <= p.vars():
        return None
    # total-degree check
    kd = max(d.t, key=lambda m: lexkey(m, vs))
    cd = d.t[kd]
    r = dict(p.t)
    qd = {}
    guard = 0
    while r:
        guard += 1
        if guard > 400:
            return None
        m = max(r, key=lambda m: lexkey(m, vs))
        qm = mono_div(m, kd)
        if qm is None:
            return None
        qc = Fraction(r[m]) / cd
        qd[qm] = num(qc)
        for dm, dc in d.t.items():
            mm = mono_mul(dm, qm)[0]
            n = r.get(mm, 0) - qc * dc
            if n == 0:
                r.pop(mm, None)
            else:
                r[mm] = num(n)
    q = Poly(qd)
    # square rules could make q*d differ after reduction; check
    if (q * d) != p:
        return None
    return q


def mono_gcd(ms):
    it = iter(ms)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for v in list(g):
            e = min(g[v], d.get(v, 0))
            if e == 0:
                del g[v]
            else:
                g[v] = e
        if not g:
            break
    return tuple(sorted(g.items()))


def content(p):
    """positive rational content"""
    ns = 0
    dl = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            ns = gcd(ns, abs(c.numerator))
            dl = dl * c.denominator // gcd(dl, c.denominator)
        else:
            ns = gcd(ns, abs(c))
    return Fraction(ns, dl)


def pdiv_mono(p, m):
    if not m:
        return p
    return Poly({mono_div(k, m): c for k, c in p.t.items()})


def perfect_square(p):
    """poly q with q*q == p, or None"""
    if not p.t:
        return P0
    if p.is_const():
        c = Fraction(p.const())
        if c < 0:
            return None
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return pconst(Fraction(a, b))
        return None
    vs = sorted(p.vars())
    for v in vs:
        if C.vars[v].sq is not None:
            return None
    lm = max(p.t, key=lambda m: lexkey(m, vs))
    lc = Fraction(p.t[lm])
    if lc < 0 or any(e & 1 for _, e in lm):
        return None
    a, b = isqrt(lc.numerator), isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator:
        return None
    hm = tuple((v, e // 2) for v, e in lm)
    hc = Fraction(a, b)
    qd = Poly({hm: num(hc)})
    for _ in range(40):
        r = p - qd * qd
        if not r.t:
            return qd
        m = max(r.t, key=lambda m: lexkey(m, vs))
        t = mono_div(m, hm)
        if t is None or lexkey(t, vs) >= lexkey(hm, vs):
            return None
        qd = qd + Poly({t: num(Fraction(r.t[m]) / (2 * hc))})
    return None


def coeffs_in(p, v):
    """dict exponent -> Poly coefficient of variable id v"""
    out = {}
    for m, c in p.t.items():
        e = 0
        r = []
        for x, y in m:
            if x == v:
                e = y
            else:
                r.append((x, y))
        out.setdefault(e, {})[tuple(r)] = c
    return {e: Poly(t) for e, t in out.items()}


def plain(p):
    return all(C.vars[v].sq is None for v in p.vars())


def pgcd(p, q, fuel=None):
    """greatest common divisor up to a rational constant (1 when the computation grows too large)"""
    if fuel is None:
        fuel = [60]
    if not p.t:
        return q
    if not q.t:
        return p
    vs = p.vars() & q.vars()
    if not vs or p.is_const() or q.is_const():
        return P1
    if p == q:
        return p
    fuel[0] -= 1
    if fuel[0] < 0 or len(p.t) > 80 or len(q.t) > 80:
        return P1
    # a variable of only one of them does not occur in the divisor
    for a, b in ((p, q), (q, p)):
        for v in a.vars() - vs:
            g = b
            for c in sorted(coeffs_in(a, v).values(), key=lambda c: len(c.t)):
                g = pgcd(g, c, fuel)
                if g.is_const():
                    return P1
            return g
    v = min(vs, key=lambda v: (max(max(coeffs_in(p, v)), max(coeffs_in(q, v))), v))
    cp, pp = pcontent(p, v, fuel)
    cq, qq = pcontent(q, v, fuel)
    g = pgcd(cp, cq, fuel)
    a, b = pp, qq
    if max(coeffs_in(a, v)) < max(coeffs_in(b, v)):
        a, b = b, a
    while True:
        cb = coeffs_in(b, v)
        db = max(cb)
        if db == 0:
            return g if b.t else (g * a)
        r = a
        while r.t:
            cr = coeffs_in(r, v)
            dr = max(cr)
            if dr < db:
                break
            fuel[0] -= 1
            if fuel[0] < 0 or len(r.t) > 200:
                return g
            r = r * cb[db] - b * cr[dr] * Poly({((v, dr - db),): 1} if dr > db else {(): 1})
        if not r.t:
            return g * b
        a, b = b, pcontent(r, v, fuel)[1]
        if fuel[0] < 0:
            return g


def pcontent(p, v, fuel=None):
    """(content, primitive part) of p as a polynomial in v"""
    g = P0
    for c in sorted(coeffs_in(p, v).values(), key=lambda c: len(c.t)):
        g = c if not g.t else pgcd(g, c, fuel)
        if g.is_const():
            break
    if g.is_const():
        return P1, p.scale(1 / content(p))
    g = g.scale(1 / content(g))
    q = pdivmod_exact(p, g)
    if q is None:
        return P1, p
    return g, q.scale(1 / content(q))


# ---------------------------------------------------------------- rational functions


class Expr:
    """num/den in normal form"""

    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=P1):
        self.n = n
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Expr) and self.n == o.n and self.d == o.d)

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return self.d.is_const() and self.n.is_const()

    def cval(self):
        return Fraction(self.n.const())

    def __repr__(self):
        if self.d == P1:
            return pstr(self.n)
        return "(%s)/(%s)" % (pstr(self.n), pstr(self.d))


def mkexpr(n, d=P1):
    if not n.t:
        return E0
    if d.is_const():
        return Expr(n.scale(Fraction(1) / d.const())) if d.const() != 1 else Expr(n)
    # move square-rooted monomial factors out of the denominator
    g = mono_gcd(d.t)
    mult = P1
    for v, e in g:
        V = C.vars[v]
        if V.kind == "sqrt" and e & 1:
            mult = mult * pvar(V)
    if mult is not P1:
        n = n * mult
        d = d * mult
        if d.is_const():
            return mkexpr(n, d)
    # monomial content
    g = mono_gcd(list(n.t) + list(d.t))
    if g:
        n = pdiv_mono(n, g)
        d = pdiv_mono(d, g)
    if d.is_const():
        return mkexpr(n, d)
    q = pdivmod_exact(n, d)
    if q is not None:
        return Expr(q)
    if not n.is_const():
        q = pdivmod_exact(d, n)
        if q is not None:
            n, d = P1, q
    if d.is_const():
        return mkexpr(n, d)
    # common factor via small gcd attempt
    if not n.is_const():
        n, d = cancel(n, d)
        if d.is_const():
            return mkexpr(n, d)
    c = content(d)
    if d.t[lead(d)] < 0:
        c = -c
    if c != 1:
        n = n.scale(1 / c)
        d = d.scale(1 / c)
    return Expr(n, d)


def cancel(n, d):
    """cancel factors of d's monomial part / polynomial factors appearing squared"""
    g = mono_gcd(d.t)
    if g:
        rest = pdiv_mono(d, g)
        if not rest.is_const() and len(rest.t) > 1:
            q = pdivmod_exact(n, rest)
            if q is not None:
                return q, Poly({g: 1})
    s = perfect_square(d)
    if s is not None and not s.is_const():
        q = pdivmod_exact(n, s)
        if q is not None:
            return q, s
    gn = mono_gcd(n.t)
    if gn:
        rest = pdiv_mono(n, gn)
        if not rest.is_const() and len(rest.t) > 1:
            q = pdivmod_exact(d, rest)
            if q is not None:
                return Poly({gn: 1}), q
    return n, d


E0 = Expr(P0)
E1 = Expr(P1)


def econst(c):
    return Expr(pconst(c))


def evar(v):
    return Expr(pvar(v))


def eadd(a, b):
    if a.d == b.d:
        if a.d.is_const():
            return Expr(a.n + b.n)
        return mkexpr(a.n + b.n, a.d)
    return mkexpr(a.n * b.d + b.n * a.d, a.d * b.d)


def eneg(a):
    return Expr(-a.n, a.d)


def esub(a, b):
    return eadd(a, eneg(b))


def emul(a, b):
    if a.d.is_const() and b.d.is_const():
        return Expr(a.n * b.n)
    # cross-cancel first
    x = mkexpr(a.n, b.d)
    y = mkexpr(b.n, a.d)
    return mkexpr(x.n * y.n, x.d * y.d)


def ediv(a, b):
    return emul(a, mkexpr(b.d, b.n))


def eeq(a, b):
    if a == b:
        return True
    return (a.n * b.d) == (b.n * a.d)


def newvar(name, **kw):
    base = name
    k = 2
    while name in C.byname:
        name = "%s.%d" % (base, k)
        k += 1
    v = Var(name, **kw)
    C.byname[name] = v
    return v


def linear_ok(p):
    return all(sum(e for _, e in m) <= 1 for m in p.t)
