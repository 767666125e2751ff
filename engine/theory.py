"""Sign reasoning: canonical sign conditions of polynomials (square roots,
content and obvious factors eliminated) and emptiness of the polyhedron that a
set of sign literals describes over the monomials (exact Fourier-Motzkin)."""
from fractions import Fraction
from poly import *
from add import *

ASSUME = []  # global facts: (Poly, op)


class T:
    cache = {}
    squares = {}
    queries = 0
    gave_up = 0


def reset():
    T.cache = {}
    T.squares = {}
    T.queries = 0
    T.gave_up = 0
    del ASSUME[:]


FLIP = {"-": "+", "+": "-", "0": "0"}


def s_mul(a, b):
    if a == "0" or b == "0":
        return "0"
    return "+" if a == b else "-"


def var_sign_dd(v):
    """sign diagram of an atom"""
    V = C.vars[v]
    if V.sign == "+":
        return "+"
    if V.sign == "-":
        return "-"
    if V.kind == "sqrt":
        s = sign_poly(V.sq)
        return apply(lambda x: "0" if x == "0" else "+", s)
    a = sign_atom(pvar(V))
    if V.sign == "0+":
        return mk(a, (BOT, "0", "+"))
    if V.sign == "0-":
        return mk(a, ("-", "0", BOT))
    if V.sign == "!0":
        return mk(a, ("-", BOT, "+"))
    return mk(a, ("-", "0", "+"))


def sign_expr(e):
    if e.d.is_const():
        return sign_poly(e.n)
    return apply(s_mul, sign_poly(e.n), sign_poly(e.d))


_sp = {}


def known_sign(m):
    """definite sign info of a monomial: '+', '0+', '-', '0-', None"""
    neg = False
    zero = False
    for v, e in m:
        V = C.vars[v]
        s = V.sign
        if V.kind == "sqrt" and s is None:
            s = "0+"
        if e % 2 == 0:
            if s not in ("+", "-", "!0"):
                zero = True
            continue
        if s == "+":
            continue
        if s == "-":
            neg = not neg
        elif s == "0+":
            zero = True
        elif s == "0-":
            neg = not neg
            zero = True
        else:
            return None
    return ("-" if neg else "+") if not zero else ("0-" if neg else "0+")


def sign_poly(p):
    if p.is_const():
        c = p.const()
        return "0" if c == 0 else ("+" if c > 0 else "-")
    r = C.__dict__.setdefault("sp", {}).get(p)
    if r is None:
        r = sign_poly_(p)
        C.sp[p] = r
    return r


def sign_poly_(p):
    # monomial content
    g = mono_gcd(p.t)
    if g:
        q = pdiv_mono(p, g)
        r = sign_poly(q)
        for v, e in g:
            s = var_sign_dd(v)
            if e % 2 == 0:
                s = apply(lambda x: "0" if x == "0" else "+", s)
            r = apply(s_mul, r, s)
        return r
    # definite sum
    ks = [(known_sign(m) if m else "+", c) for m, c in p.t.items()]
    pos = all(k is not None and ((k[-1] == "+") == (c > 0)) for k, c in ks)
    neg = all(k is not None and ((k[-1] == "+") != (c > 0)) for k, c in ks)
    if pos or neg:
        s = "+" if pos else "-"
        if any(k in ("+", "-") for k, c in ks):
            return s
        # zero iff every monomial is zero
        z = True
        for m in p.t:
            mz = False
            for v, e in m:
                mz = b_or(mz, apply(lambda x: x == "0", var_sign_dd(v)))
            z = b_and(z, mz)
        return apply(lambda x: "0" if x else s, z)
    # eliminate square roots, newest first
    sq = [v for v in p.vars() if C.vars[v].kind == "sqrt"]
    if sq:
        v = max(sq)
        co = coeffs_in(p, v)
        A = co.get(1, P0)
        B = co.get(0, P0)
        assert set(co) <= {0, 1}
        s = C.vars[v].sq
        sA = sign_poly(A)
        sB = sign_poly(B)
        sr = var_sign_dd(v)
        sAr = apply(s_mul, sA, sr)
        box = []

        def diff():
            if not box:
                box.append(sign_poly(A * A * s - B * B))
            return box[0]

        def comb(x, y):
            # sign of A*r + B
            if x == "0":
                return y
            if y == "0" or x == y:
                return x
            d = diff()
            return d if x == "+" else apply(lambda z: FLIP[z], d)

        return apply(comb, sAr, sB)
    sq2 = squares(p)
    if sq2 is not None:
        s, ls = sq2
        z = True
        for l in ls:
            z = b_and(z, apply(lambda x: x == "0", sign_poly(l)))
        return apply(lambda x: "0" if x else s, z)
    # quadratic in a variable with square discriminant and constant leading coefficient
    f = factor(p)
    if f is not None:
        r = "+"
        for q in f:
            r = apply(s_mul, r, sign_poly(q))
        return r
    c = content(p)
    if p.t[lead(p)] < 0:
        c = -c
    q = p.scale(1 / c)
    n = integral(q)
    a = sign_atom(q)
    ch = ("-", "0", "+") if c > 0 else ("+", "0", "-")
    return mk(a, ch)


def integral(p):
    return p


def squares(p):
    """(sign, linear forms) if the quadratic p is, up to a sign, a positive
    combination of squares of linear forms; None otherwise"""
    deg = max(sum(e for _, e in m) for m in p.t)
    if deg != 2 or len(p.t) < 3:
        return None
    vs = sorted(p.vars())
    if len(vs) > 12 or any(C.vars[v].sq is not None for v in vs):
        return None
    idx = {v: i for i, v in enumerate(vs)}
    n = len(vs) + 1
    A = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.t.items():
        xs = [idx[v] for v, e in m for _ in range(e)]
        while len(xs) < 2:
            xs.append(n - 1)
        i, j = xs
        if i == j:
            A[i][i] += Fraction(c)
        else:
            A[i][j] += Fraction(c) / 2
            A[j][i] += Fraction(c) / 2
    sg = None
    out = []
    for k in range(n):
        d = A[k][k]
        if d == 0:
            if any(A[k][j] for j in range(k + 1, n)):
                return None
            continue
        s = "+" if d > 0 else "-"
        if sg is None:
            sg = s
        elif sg != s:
            return None
        row = [A[k][j] / d for j in range(n)]
        t = {}
        for j in range(k, n):
            if row[j]:
                t[((vs[j], 1),) if j < n - 1 else ()] = num(row[j])
        out.append(Poly(t))
        for i in range(k + 1, n):
            if A[i][k]:
                f = A[i][k] / d
                for j in range(k, n):
                    A[i][j] -= f * A[k][j]
    if not out or len(out) < 2:
        return None
    return sg, out


def square_terms(p):
    """squares of linear forms that p is made of: p = sum of c_i*l_i^2 + const, for a quadratic p
    with such a diagonal form (the squares are non-negative facts)"""
    r = T.squares.get(p)
    if r is None:
        r = T.squares[p] = square_terms_(p)
    return r


def square_terms_(p):
    deg = max((sum(e for _, e in m) for m in p.t), default=0)
    vs = sorted(p.vars())
    if deg != 2 or len(vs) > 3 or not plain(p):
        return []
    out = []
    r = p
    for v in vs:
        co = coeffs_in(r, v)
        if max(co, default=0) < 2:
            continue
        a = co[2]
        if not a.is_const():
            return []
        a = Fraction(a.const())
        l = Poly({((v, 1),): 1}) + co.get(1, P0).scale(1 / (2 * a))
        out.append((l, a))
        r = r - (l * l).scale(a)
    facts = [(l * l, ">=") for l, a in out if l * l != p] if len(out) > 1 or len(p.t) > 1 else []
    if r.is_const() and out and (all(a < 0 for _, a in out) or all(a > 0 for _, a in out)):
        # an ellipse: its interior bounds every form (used for p > 0 with negative squares)
        k = Fraction(r.const())
        for l, a in out:
            if -k / a > 0:
                s = upper_sqrt(-k / a)
                facts.append((l, s, a < 0))
    return facts


def upper_sqrt(q):
    """a rational s with s*s >= q, tight to about 1e-12"""
    from math import isqrt

    m = 10 ** 24
    while q * m < 10 ** 20:
        m *= 10 ** 10
    r = isqrt(int(q * m)) + 1
    return Fraction(r, isqrt(m))


def factor(p):
    if len(p.t) >= 4 and len(p.t) <= 40 and plain(p) and max(sum(e for _, e in m) for m in p.t) <= 6:
        for v in sorted(p.vars()):
            if max(coeffs_in(p, v)) == 1:
                g, q = pcontent(p, v)
                if not g.is_const():
                    m = lead(g * q)
                    return [g, q, pconst(Fraction(p.t[m]) / (g * q).t[m])]
    for v in sorted(p.vars()):
        if C.vars[v].sq is not None:
            continue
        co = coeffs_in(p, v)
        if max(co) == 2:
            A = co[2]
            if not A.is_const():
                sA = perfect_square(A) or perfect_square(-A)
                if sA is None:
                    continue
            B = co.get(1, P0)
            Cc = co.get(0, P0)
            disc = B * B - (A * Cc).scale(4)
            q = perfect_square(disc)
            if q is None:
                continue
            x = Poly({((v, 1),): 1})
            if A.is_const():
                a = Fraction(A.const())
                f1 = x.scale(2 * a) + B - q
                f2 = x.scale(2 * a) + B + q
                # p = f1*f2/(4a)
                return [f1, f2, pconst(Fraction(1) / a)]
            # 4A p = (2A x + B - q)(2A x + B + q)
            f1 = (A * x).scale(2) + B - q
            f2 = (A * x).scale(2) + B + q
            for h in (f1, f2):
                k = pdivmod_exact(p, pprim(h))
                if k is not None and not k.is_const():
                    return [pprim(h), k]
    return None


def pprim(p):
    g = mono_gcd(p.t)
    q = pdiv_mono(p, g) if g else p
    c = content(q)
    return q.scale(1 / c)


# ------------------------------------------------------------- feasibility


def lit_constraint(a, o):
    s = a.outs[o]
    p = a.poly
    if s == "+":
        return (p, ">")
    if s == "-":
        return (-p, ">")
    return (p, "=")


def feasible(cube):
    """False only if the literals contradict each other (exact reasoning)"""
    lits = frozenset((a.id, o) for a, o in cube if a.kind == "sign")
    r = T.cache.get(lits)
    if r is None:
        r = True
        for part in components([(a, o) for a, o in cube if a.kind == "sign"]):
            k = frozenset((a.id, o) for a, o in part)
            q = T.cache.get(k)
            if q is None:
                q = T.cache[k] = feasible_(part)
            if not q:
                r = False
                break
        T.cache[lits] = r
    return r


def components(lits):
    """literals grouped by the variables they share (directly or through facts)"""
    if len(lits) < 2:
        return [lits] if lits else []
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    def link(vs):
        it = iter(vs)
        a = next(it, None)
        if a is None:
            return
        a = find(a)
        for b in it:
            b = find(b)
            if a != b:
                par[b] = a

    vs = [a.poly.vars() for a, o in lits]
    for x in vs:
        link(x)
    for p, op in ASSUME:
        link(p.vars())
    done = set()
    while True:
        todo = [v for v in par if v not in done]
        if not todo:
            break
        for v in todo:
            done.add(v)
            for p, op in C.vars[v].facts:
                link(list(p.vars()) + [v])
    out = {}
    for (a, o), x in zip(lits, vs):
        out.setdefault(find(min(x)) if x else None, []).append((a, o))
    return list(out.values())


def split_int(cons):
    return cons


def is_int_poly(p):
    return all(
        (not isinstance(c, Fraction)) and all(C.vars[v].is_int for v, _ in m) for m, c in p.t.items()
    )


def feasible_(lits):
    T.queries += 1
    if not lits:
        return True
    cons = [lit_constraint(a, o) for a, o in lits]
    # single-literal sign info for variables inside this cube
    vs = {}
    for p, op in cons:
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if op == "=":
                    vs[v] = "0"
                else:
                    vs[v] = "+" if c > 0 else "-"
    # substitute zero variables
    if any(s == "0" for s in vs.values()):
        zs = {v for v, s in vs.items() if s == "0"}
        nc = []
        for p, op in cons:
            q = Poly({m: c for m, c in p.t.items() if not any(v in zs for v, _ in m)})
            if q.is_const():
                if len(p.t) == 1 and op == "=":
                    continue
                k = q.const()
                if (op == ">" and k <= 0) or (op == "=" and k != 0):
                    return False
                continue
            nc.append((q, op))
        cons = nc
    rel = set()
    for p, _ in cons:
        rel |= p.vars()
    # facts
    extra = []
    grew = True
    done = set()
    while grew:
        grew = False
        for v in sorted(rel - done):
            done.add(v)
            V = C.vars[v]
            if V.lo is not None:
                extra.append((pvar(V) - pconst(V.lo), ">="))
            if V.hi is not None:
                extra.append((pconst(V.hi) - pvar(V), ">="))
            for p, op in V.facts:
                extra.append((p, op))
            if V.kind == "sqrt":
                pass
    mv = set(rel)
    for p, op in ASSUME:
        if p.vars() & rel:
            extra.append((p, op))
    # transitive closure of assumptions sharing variables
    chg = True
    used = set(id(p) for p, _ in extra)
    allv = set(rel)
    while chg:
        chg = False
        for p, _ in extra:
            if not p.vars() <= allv:
                allv |= p.vars()
                chg = True
        for p, op in ASSUME:
            if id(p) not in used and p.vars() & allv:
                used.add(id(p))
                extra.append((p, op))
                chg = True
        for v in sorted(allv - done):
            done.add(v)
            V = C.vars[v]
            chg = True
            if V.lo is not None:
                extra.append((pvar(V) - pconst(V.lo), ">="))
            if V.hi is not None:
                extra.append((pconst(V.hi) - pvar(V), ">="))
            for p, op in V.facts:
                extra.append((p, op))
    zs = {v for v, s in vs.items() if s == "0"}
    if zs:
        nx = []
        for p, op in extra:
            q = Poly({m: c for m, c in p.t.items() if not any(v in zs for v, _ in m)})
            if q.is_const():
                k = q.const()
                if (op == ">" and k <= 0) or (op == "=" and k != 0) or (op == ">=" and k < 0):
                    return False
                continue
            nx.append((q, op))
        extra = nx
    cons = cons + extra
    monos = set()
    for p, _ in cons:
        monos |= set(p.t)
    monos.discard(())
    nonlin = any(sum(e for _, e in m) > 1 for m in monos)

    def vsign(v):
        s = vs.get(v)
        if s in ("+", "-"):
            return s
        s = C.vars[v].sign
        if s is None and C.vars[v].kind == "sqrt":
            return "0+"
        return s

    def msign(m):
        neg = False
        zero = False
        for v, e in m:
            s = vsign(v)
            if e % 2 == 0:
                if s not in ("+", "-", "!0"):
                    zero = True
                continue
            if s == "+":
                continue
            if s == "-":
                neg = not neg
            elif s == "0+":
                zero = True
            elif s == "0-":
                neg = not neg
                zero = True
            else:
                return None
        return ("-" if neg else "+") if not zero else ("0-" if neg else "0+")

    if nonlin:
        # eliminate the leading nonlinear monomial of each equality from the others
        red = []
        for p, op in cons:
            if op != "=":
                continue
            l = max(p.t, key=mono_order)
            if sum(e for _, e in l) < 2:
                continue
            for q, oq in cons:
                c = q.t.get(l)
                if c is not None and q is not p:
                    r = q - p.scale(Fraction(c) / p.t[l])
                    if r.is_const():
                        k = r.const()
                        if (oq == ">" and k <= 0) or (oq == "=" and k != 0) or (oq == ">=" and k < 0):
                            return False
                        continue
                    red.append((r, oq))
        cons = cons + red
    base = list(cons)
    if nonlin:
        for p, op in list(base):
            for f in square_terms(p):
                if len(f) == 2:
                    cons.append(f)
                elif op == "=" or f[2]:
                    for b in (pconst(f[1]) - f[0], pconst(f[1]) + f[0]):
                        cons.append((b, ">="))
                        if f[1] < Fraction(1, 100):
                            base.append((b, ">="))
        # products of literals with sign-known variables and with each other
        fac = [(p, op) for p, op in base if op in (">", ">=")]
        for p, op in red:
            if op == "=" and linear_ok(p):
                fac += [(p, ">="), (-p, ">=")]
        for v in sorted(allv):
            s = vsign(v)
            if s in ("+", "0+"):
                fac.append((pvar(C.vars[v]), ">" if s == "+" else ">="))
            elif s in ("-", "0-"):
                fac.append((-pvar(C.vars[v]), ">" if s == "-" else ">="))
        added = 0
        lim = 400
        # terms in variables of no nonlinear monomial make new monomials in a product
        nv = {v for m in monos if sum(e for _, e in m) > 1 for v, _ in m}
        shape = []
        for p, op in fac:
            new = sum(1 for m in p.t if any(v not in nv for v, _ in m))
            shape.append((new, len(p.t) - (() in p.t)))
        for i in range(len(fac)):
            ni, ci = shape[i]
            for j in range(i, len(fac)):
                p, op = fac[i]
                q, oq = fac[j]
                nj, cj = shape[j]
                if ni * cj > 1 or nj * ci > 1 or len(p.t) * len(q.t) > 36:
                    continue
                r = p * q
                ms = set(r.t)
                ms.discard(())
                if ms <= monos or (added < lim and len(ms - monos) <= 1 and len(ms) > 1):
                    cons.append((r, ">" if op == ">" and oq == ">" and i != j else ("=" if False else (">" if op == ">" and oq == ">" else ">="))))
                    added += 1
        for p, op in base:
            if op == "=":
                fast = plain(p) and all(C.vars[v].sq is None for v in allv)
                if fast:
                    l = max(p.t, key=mono_order)
                    mult = {d for d in (mono_div(k, l) for k in monos) if d}
                else:
                    mult = {((v, 1),) for v in allv}
                    for m in p.t:
                        for k in monos:
                            d = mono_div(k, m)
                            if d:
                                mult.add(d)
                for m in sorted(mult):
                    if fast and not all(mono_mul(k, m)[0] in monos for k in p.t if k or m):
                        continue
                    r = p * Poly({m: 1})
                    ms = set(r.t)
                    ms.discard(())
                    if ms <= monos:
                        cons.append((r, "="))
        monos = set()
        for p, _ in cons:
            monos |= set(p.t)
        monos.discard(())
    for m in monos:
        s = msign(m)
        if s:
            q = Poly({m: 1 if s[-1] == "+" else -1})
            cons.append((q, ">" if len(s) == 1 else ">="))
    return lp_feasible(cons, monos)


_kernel = []


def kernel():
    if not _kernel:
        import ctypes
        import build

        so = build.kernel()
        f = None
        if so:
            f = ctypes.CDLL(so).lp
            f.argtypes = [ctypes.c_char_p]
            f.restype = ctypes.c_int
        _kernel.append(f)
    return _kernel[0]


OPS = {"=": "0", ">=": "1", ">": "2"}


def lp_feasible(cons, monos):
    order = sorted(monos, key=mono_order)
    idx = {m: i for i, m in enumerate(order)}
    k = kernel()
    if k is not None:
        w = [str(len(order))]
        w += ["1" if all(C.vars[v].is_int for v, _ in m) else "0" for m in order]
        w.append(str(len(cons)))
        for p, op in cons:
            w.append(OPS[op])
            w.append(str(p.t.get((), 0)))
            w.append(str(len(p.t) - (() in p.t)))
            for m, c in p.t.items():
                if m:
                    w.append(str(idx[m]))
                    w.append(str(c))
        r = k(" ".join(w).encode())
        if r == 2:
            T.gave_up += 1
        return r != 0
    ints = [all(C.vars[v].is_int for v, _ in m) for m in order]
    eqs = []
    ineqs = []
    for p, op in cons:
        row = {}
        c0 = 0
        allint = True
        for m, c in p.t.items():
            if m == ():
                c0 = c
            else:
                row[idx[m]] = c
                if not ints[idx[m]]:
                    allint = False
            if isinstance(c, Fraction):
                allint = False
        strict = op == ">"
        if strict and allint and row:
            # p > 0 over integers: p >= 1, with gcd tightening
            c0 = c0 - 1
            strict = False
        if op != "=" and allint and row and not strict:
            g = 0
            for c in row.values():
                g = gcd(g, abs(c))
            if g > 1:
                row = {k: c // g for k, c in row.items()}
                c0 = c0 // g
        if op == "=":
            if allint and row:
                g = 0
                for c in row.values():
                    g = gcd(g, abs(c))
                if g > 1 and c0 % g != 0:
                    return False
            eqs.append((row, c0))
        else:
            ineqs.append((row, c0, strict))
    anyint = any(ints)
    # gaussian elimination of equalities
    while eqs:
        row, c0 = eqs.pop()
        row = {k: c for k, c in row.items() if c != 0}
        if not row:
            if c0 != 0:
                return False
            continue
        k = min(row)
        if anyint and all(ints[j] and not (isinstance(c, Fraction) and c.denominator != 1) for j, c in row.items()):
            # a unit coefficient keeps the integer rows integral
            k = min((j for j, c in row.items() if abs(c) == 1), default=k)
        ck = Fraction(row[k])
        sub = {j: -c / ck for j, c in row.items() if j != k}
        s0 = -c0 / ck

        def doit(r, c):
            a = r.get(k)
            if not a:
                return r, c
            r = dict(r)
            del r[k]
            for j, x in sub.items():
                n = r.get(j, 0) + a * x
                if n == 0:
                    r.pop(j, None)
                else:
                    r[j] = n
            return r, c + a * s0

        eqs = [doit(r, c) for r, c in eqs]
        ineqs = [doit(r, c) + (s,) for r, c, s in ineqs]
    return fm(ineqs, ints if anyint else None)


def simplex(ineqs, fuel=400):
    """False only if the inequalities row.x + c0 >= 0 (or > 0) have no real solution: exact
    simplex with lower bounds only (strictness is an infinitesimal), Bland's rule"""
    tab = {}
    val = {}
    low = {}
    for i, (row, c0, strict) in enumerate(ineqs):
        r = {j: Fraction(c) for j, c in row.items() if c != 0}
        if not r:
            if c0 < 0 or (strict and c0 <= 0):
                return False
            continue
        s = (1, i)
        tab[s] = {(0, j): c for j, c in r.items()}
        val[s] = (Fraction(0), 0)
        low[s] = (Fraction(-c0), 1 if strict else 0)
        for x in tab[s]:
            val[x] = (Fraction(0), 0)
    while fuel:
        fuel -= 1
        b = min((v for v in tab if v in low and val[v] < low[v]), default=None)
        if b is None:
            return True
        row = tab[b]
        n = min((x for x, c in row.items() if c > 0 or x not in low or val[x] > low[x]), default=None)
        if n is None:
            return False
        a = row[n]
        th = ((low[b][0] - val[b][0]) / a, (low[b][1] - val[b][1]) / a)
        val[b] = low[b]
        val[n] = (val[n][0] + th[0], val[n][1] + th[1])
        del tab[b]
        new = {x: -c / a for x, c in row.items() if x != n}
        new[b] = 1 / a
        for v, r in tab.items():
            c = r.pop(n, None)
            if c is None:
                continue
            val[v] = (val[v][0] + c * th[0], val[v][1] + c * th[1])
            for x, y in new.items():
                z = r.get(x, 0) + c * y
                if z:
                    r[x] = z
                else:
                    r.pop(x, None)
        tab[n] = new
    T.gave_up += 1
    return True


def primitive(row, c0, strict, ints):
    """row.x + c0 >= 0 (or > 0) as a primitive integer row; integer rows are tightened"""
    den = 1
    conv = False
    for c in row.values():
        if c.__class__ is not int:
            conv = True
            d = Fraction(c).denominator
            den = den * d // gcd(den, d)
    if conv:
        row = {j: int(c * den) for j, c in row.items()}
    g = 0
    for c in row.values():
        g = gcd(g, c)
    if g != 1:
        row = {j: x // g for j, x in row.items()}
    c = Fraction(c0) * den / g if (g != 1 or den != 1) else c0
    if c.__class__ is not int and c.denominator == 1:
        c = int(c)
    if ints is not None and all(ints[j] for j in row):
        if c.__class__ is not int:
            return row, c.numerator // c.denominator, False
        if strict:
            return row, c - 1, False
    return row, c, strict


def fm(ineqs, ints=None):
    cur = {}

    def add(tab, row, c0, strict):
        if not row:
            return not (c0 < 0 or (strict and c0 <= 0))
        row, c, s = primitive(row, c0, strict, ints)
        r = frozenset(row.items())
        o = tab.get(r)
        # r.x + c >= 0 : smaller c is stronger
        if o is None or c < o[0] or (c == o[0] and s and not o[1]):
            tab[r] = (c, s, row)
        return True

    for row, c0, s in ineqs:
        if not add(cur, {j: c for j, c in row.items() if c != 0}, c0, s):
            return False
    while cur:
        cnt = {}
        for r in cur:
            for j, c in r:
                a = cnt.get(j)
                if a is None:
                    a = cnt[j] = [0, 0]
                a[0 if c > 0 else 1] += 1
        j = min(cnt, key=lambda j: (cnt[j][0] * cnt[j][1] - cnt[j][0] - cnt[j][1], j))
        pos = []
        neg = []
        nxt = {}
        for r, v in cur.items():
            a = v[2].get(j)
            if a:
                (pos if a > 0 else neg).append(v)
            else:
                nxt[r] = v
        if len(pos) * len(neg) > 1500:
            return simplex(ineqs)
        for c1, s1, d1 in pos:
            a = d1[j]
            for c2, s2, d2 in neg:
                b = -d2[j]
                g = gcd(a, b)
                x, y = b // g, a // g
                row = {k: c * x for k, c in d1.items()}
                for k, c in d2.items():
                    n = row.get(k, 0) + c * y
                    if n:
                        row[k] = n
                    else:
                        row.pop(k, None)
                row.pop(j, None)
                if not add(nxt, row, c1 * x + c2 * y, s1 or s2):
                    return False
        cur = nxt
        if len(cur) > 1200:
            return simplex(ineqs)
    return True


# ------------------------------------------------------------- guards


def numeric(v):
    """some decision of the diagram is about numbers (else every path is consistent)"""
    if v._n is None:
        v._n = v.atom.kind == "sign" or any(isinstance(c, Node) and numeric(c) for c in v.ch)
    return v._n


def prune(v, cube=()):
    """remove paths whose literals are contradictory (become don't care)"""
    if not isinstance(v, Node) or not numeric(v):
        return v
    ch = []
    n_ok = 0
    for o, c in enumerate(v.ch):
        if c is BOT:
            ch.append(BOT)
            continue
        nc = cube + ((v.atom, o),)
        if feasible(nc):
            ch.append(prune(c, nc))
        else:
            ch.append(BOT)
    return mk(v.atom, tuple(ch))


def g_prune(g, cube=()):
    """guard restricted to satisfiable cubes (don't care elsewhere)"""
    if not isinstance(g, Node) or not numeric(g):
        return g
    ch = []
    for o, c in enumerate(g.ch):
        if c is BOT or c is False:
            ch.append(c)
            continue
        nc = cube + ((g.atom, o),)
        ch.append(g_prune(c, nc) if feasible(nc) else BOT)
    return mk(g.atom, tuple(ch))


def g_false(g):
    return g is False or g is BOT


def refute(cube):
    """last resort on a candidate violation: substitute the equalities of the
    cube and look for a contradiction; True if the cube is empty"""
    cons = [(a, o) for a, o in cube if a.kind == "sign"]
    zs = [a.poly for a, o in cons if a.outs[o] == "0"]
    if not zs:
        return False
    lits = [[a.poly, a.outs[o]] for a, o in cons]
    for _ in range(8):
        hit = None
        for k, (p, s) in enumerate(lits):
            if s != "0":
                continue
            for v in sorted(p.vars(), reverse=True):
                if C.vars[v].sq is not None:
                    continue
                co = coeffs_in(p, v)
                if max(co) == 1 and co[1].is_const():
                    hit = (k, v, co.get(0, P0).scale(Fraction(-1) / co[1].const()))
                    break
            if hit:
                break
        if not hit:
            break
        k, v, e = hit
        nl = []
        for j, (p, s) in enumerate(lits):
            if j == k:
                continue
            q = psubst(p, v, e)
            if q.is_const():
                c = q.const()
                t = "0" if c == 0 else ("+" if c > 0 else "-")
                if t != s:
                    return True
                continue
            nl.append([q, s])
        lits = nl
    # re-evaluate the signs of what is left
    g = True
    for p, s in lits:
        d = apply(lambda x: x == s, sign_poly(p))
        g = g_and(g, d)
    if g_false(g):
        return True
    for c, leaf in paths(g, feasible):
        if leaf is True:
            return False
    return True


def psubst(p, v, e):
    r = P0
    for k, q in coeffs_in(p, v).items():
        r = r + q * e.pow(k)
    return r
