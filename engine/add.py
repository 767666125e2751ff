"""Guarded values: hash-consed decision diagrams whose inner nodes are
finite-outcome atoms (sign of a polynomial, an opaque boolean, an enum case)
and whose leaves are abstract values.  Control-flow joins build these."""
from poly import Expr, C

SIGNS = ("-", "0", "+")


class _Bot:
    def __repr__(self):
        return "BOT"


BOT = _Bot()


class Special:
    """non-finite float leaves"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN = Special("NaN")
PINF = Special("+inf")
NINF = Special("-inf")
ANY = Special("any float")  # whatever a float can be, NaN and infinities included; nothing is known about it


class Top:
    """unknown value"""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why


class Atom:
    __slots__ = ("id", "kind", "poly", "name", "outs", "where")

    def __init__(self, id, kind, outs, poly=None, name=None, where=None):
        self.id = id
        self.kind = kind
        self.outs = outs
        self.poly = poly
        self.name = name
        self.where = where

    def lit(self, o):
        if self.kind == "sign":
            op = {"-": "< 0", "0": "== 0", "+": "> 0"}[self.outs[o]]
            return "%r %s" % (self.poly, op)
        if self.kind == "bool":
            return ("" if self.outs[o] else "!") + self.name
        return "%s is %s" % (self.name, self.outs[o])


class Node:
    __slots__ = ("atom", "ch", "h", "_n")

    def __init__(self, atom, ch):
        self.atom = atom
        self.ch = ch
        self.h = hash((atom.id, ch))
        self._n = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "N(%s ? %s)" % (
            repr(self.atom.poly) if self.atom.poly is not None else self.atom.name,
            ", ".join(repr(c) for c in self.ch),
        )


class Agg:
    """struct / tuple / enum variant / closure value"""

    __slots__ = ("tag", "var", "f", "_h")

    def __init__(self, tag, var, f):
        self.tag = tag
        self.var = var
        self.f = f
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.tag, self.var, self.f))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Agg)
            and self.tag == o.tag
            and self.var == o.var
            and hash(self) == hash(o)
            and self.f == o.f
        )

    def shape(self):
        return (self.tag, self.var, len(self.f))

    def __repr__(self):
        return "%s#%s%r" % (self.tag, self.var, list(self.f))


class Seq:
    """array / Vec / slice contents of known length"""

    __slots__ = ("e", "_h")

    def __init__(self, e):
        self.e = tuple(e)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(("seq", self.e))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and hash(self) == hash(o) and self.e == o.e)

    def __repr__(self):
        return "Seq%r" % (list(self.e),)


class Obj:
    """model object: immutable record (iterators, maps, symbolic arrays ...)"""

    __slots__ = ("kind", "f", "_h")

    def __init__(self, kind, *f):
        self.kind = kind
        self.f = f
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.f))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.kind == o.kind and hash(self) == hash(o) and self.f == o.f)

    def __repr__(self):
        return "<%s %s>" % (self.kind, ",".join(repr(x) for x in self.f))


class Ref:
    __slots__ = ("cell", "path", "rng", "_h")

    def __init__(self, cell, path=(), rng=None):
        self.cell = cell
        self.path = path
        self.rng = rng  # (start, len) python ints for sub-slices
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.cell, self.path, self.rng))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path and self.rng == o.rng

    def __repr__(self):
        return "&%s%s%s" % (self.cell, "".join("." + str(p) for p in self.path), self.rng or "")


class D:
    """diagram context"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.nodes = {}
        self.atoms = []
        self.sign_tab = {}
        self.named = {}
        self.ordcache = {}
        self.where = None
        self.slot = None
        self.steps = 0


DD = D()


def sign_atom(poly):
    a = DD.sign_tab.get(poly)
    if a is None:
        a = Atom(len(DD.atoms), "sign", SIGNS, poly=poly, where=DD.where)
        DD.atoms.append(a)
        DD.sign_tab[poly] = a
    return a


def named_atom(name, outs, kind="case"):
    a = DD.named.get(name)
    if a is None:
        a = Atom(len(DD.atoms), kind, outs, name=name, where=DD.where)
        DD.atoms.append(a)
        DD.named[name] = a
    return a


def bool_atom(name):
    return named_atom(name, (False, True), "bool")


def fresh_case(outs):
    """an outcome nothing is known about: a new atom per use (one for all the guarded
    alternatives of a single comparison)"""
    if DD.slot is not None:
        a = DD.slot.get(outs)
        if a is None:
            slot, DD.slot = DD.slot, None
            a = fresh_case(outs)
            DD.slot = slot
            slot[outs] = a
        return a
    a = Atom(len(DD.atoms), "case", tuple(str(x) for x in outs), name="outcome %d" % len(DD.atoms), where=DD.where)
    DD.atoms.append(a)
    return mk(a, tuple(outs))


def bool_node(name):
    a = bool_atom(name)
    return mk(a, (False, True))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


def mk(atom, ch):
    first = None
    alleq = True
    for c in ch:
        if c is BOT:
            continue
        if first is None:
            first = c
        elif alleq and not same(c, first):
            alleq = False
    if first is None:
        return BOT
    if alleq:
        return first
    # push through aggregates of equal shape
    if isinstance(first, Agg):
        sh = first.shape()
        if all(c is BOT or (isinstance(c, Agg) and c.shape() == sh) for c in ch):
            return Agg(
                first.tag,
                first.var,
                tuple(ordered(atom, tuple(BOT if c is BOT else c.f[i] for c in ch)) for i in range(len(first.f))),
            )
    elif isinstance(first, Seq):
        n = len(first.e)
        if all(c is BOT or (isinstance(c, Seq) and len(c.e) == n) for c in ch):
            return Seq(ordered(atom, tuple(BOT if c is BOT else c.e[i] for c in ch)) for i in range(n))
    key = (atom.id, tuple((id(c) if isinstance(c, (Node, _Bot, Special, Top)) else (type(c).__name__, c)) for c in ch))
    n = DD.nodes.get(key)
    if n is None:
        n = Node(atom, ch)
        DD.nodes[key] = n
    return n


def top_id(v):
    return v.atom.id if isinstance(v, Node) else 1 << 60


def cof(v, atom, o):
    """cofactor of v at its top atom only (ordering invariant)"""
    if isinstance(v, Node) and v.atom is atom:
        return v.ch[o]
    return v


def ordered(atom, ch):
    """node with arbitrary (individually ordered) children, re-establishing order"""
    t = min(top_id(c) for c in ch)
    if t > atom.id:
        return mk(atom, ch)
    key = (atom.id, tuple((id(c) if isinstance(c, (Node, _Bot, Special, Top)) else (type(c).__name__, c)) for c in ch))
    r = DD.ordcache.get(key)
    if r is not None:
        return r
    if t == atom.id:
        r = mk_or(atom, tuple(cof(c, atom, i) for i, c in enumerate(ch)))
    else:
        ta = DD.atoms[t]
        r = mk(ta, tuple(ordered(atom, tuple(cof(c, ta, o) for c in ch)) for o in range(len(ta.outs))))
    DD.ordcache[key] = r
    return r


def mk_or(atom, ch):
    return ordered(atom, ch)


def apply(f, *args):
    """lift f over guarded values"""
    memo = {}

    def rec(args):
        t = 1 << 60
        for a in args:
            if a is BOT:
                return BOT
            if isinstance(a, Node) and a.atom.id < t:
                t = a.atom.id
        if t == 1 << 60:
            return f(*args)
        key = tuple(id(a) if isinstance(a, Node) else (type(a).__name__, a) for a in args)
        r = memo.get(key)
        if r is not None:
            return r
        at = DD.atoms[t]
        r = ordered(at, tuple(rec(tuple(cof(a, at, o) for a in args)) for o in range(len(at.outs))))
        memo[key] = r
        DD.steps += 1
        return r

    return rec(args)


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return apply(lambda x, y: x and y, a, b)


def g_and(g, c):
    """guard conjunction (don't care where either is don't care and the other not False)"""
    memo = {}

    def rec(a, b):
        if a is False or b is False:
            return False
        if a is BOT or b is BOT:
            return BOT
        if a is True and b is True:
            return True
        key = (id(a), id(b))
        r = memo.get(key)
        if r is None:
            t = min(top_id(a), top_id(b))
            at = DD.atoms[t]
            r = ordered(at, tuple(rec(cof(a, at, o), cof(b, at, o)) for o in range(len(at.outs))))
            memo[key] = r
        return r

    return rec(g, c)


def g_or(g, c):
    memo = {}

    def rec(a, b):
        if a is True or b is True:
            return True
        if a is BOT:
            return b
        if b is BOT:
            return a
        if a is False and b is False:
            return False
        key = (id(a), id(b))
        r = memo.get(key)
        if r is None:
            t = min(top_id(a), top_id(b))
            at = DD.atoms[t]
            r = ordered(at, tuple(rec(cof(a, at, o), cof(b, at, o)) for o in range(len(at.outs))))
            memo[key] = r
        return r

    return rec(g, c)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return apply(lambda x, y: x or y, a, b)


def b_not(a):
    return apply(lambda x: not x, a)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    return apply_lazy_ite(c, a, b)


def apply_lazy_ite(c, a, b):
    memo = {}

    def rec(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if c is BOT:
            return BOT
        if same(a, b):
            return a
        key = (id(c), id(a) if isinstance(a, Node) else (type(a).__name__, a), id(b) if isinstance(b, Node) else (type(b).__name__, b))
        r = memo.get(key)
        if r is None:
            t = min(top_id(c), top_id(a), top_id(b))
            at = DD.atoms[t]
            r = ordered(at, tuple(rec(cof(c, at, o), cof(a, at, o), cof(b, at, o)) for o in range(len(at.outs))))
            memo[key] = r
        return r

    return rec(c, a, b)


def restrict(v, g):
    """v where g holds, don't care elsewhere"""
    if g is True:
        return v
    if isinstance(v, Agg):
        return Agg(v.tag, v.var, tuple(restrict(x, g) for x in v.f))
    if isinstance(v, Seq):
        return Seq(restrict(x, g) for x in v.e)
    if not isinstance(v, Node):
        return v
    memo = {}

    def rec(v, g):
        if g is True:
            return v
        if g is False or g is BOT:
            return BOT
        if not isinstance(v, Node):
            return v
        key = (id(v), id(g))
        r = memo.get(key)
        if r is None:
            t = min(top_id(v), top_id(g))
            at = DD.atoms[t]
            r = mk(at, tuple(rec(cof(v, at, o), cof(g, at, o)) for o in range(len(at.outs))))
            memo[key] = r
        return r

    return rec(v, g)


def merge(ga, a, gb, b):
    """value that is a where ga, b where gb (disjoint guards), don't care elsewhere"""
    if same(a, b):
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and a.shape() == b.shape():
        return Agg(a.tag, a.var, tuple(merge(ga, x, gb, y) for x, y in zip(a.f, b.f)))
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.e) == len(b.e):
        return Seq(merge(ga, x, gb, y) for x, y in zip(a.e, b.e))
    memo = {}

    def rec(ga, a, gb, b):
        if ga is True:
            return a
        if gb is True:
            return b
        fa = ga is False or ga is BOT
        fb = gb is False or gb is BOT
        if fa and fb:
            return BOT
        key = (
            id(ga),
            id(gb),
            id(a) if isinstance(a, Node) else (type(a).__name__, a),
            id(b) if isinstance(b, Node) else (type(b).__name__, b),
        )
        r = memo.get(key)
        if r is None:
            t = min(top_id(ga), top_id(gb))
            if not fa:
                t = min(t, top_id(a))
            if not fb:
                t = min(t, top_id(b))
            at = DD.atoms[t]
            r = ordered(
                at,
                tuple(rec(cof(ga, at, o), cof(a, at, o), cof(gb, at, o), cof(b, at, o)) for o in range(len(at.outs))),
            )
            memo[key] = r
        return r

    return rec(ga, a, gb, b)


def leaves(v, out=None):
    """set of leaves (list, deduplicated by identity/equality)"""
    if out is None:
        out = []
    seen = set()

    def rec(v):
        if isinstance(v, Node):
            if id(v) in seen:
                return
            seen.add(id(v))
            for c in v.ch:
                rec(c)
        elif v is not BOT:
            if not any(same(v, x) for x in out):
                out.append(v)

    rec(v)
    return out


def count_nodes(v):
    seen = set()

    def rec(v):
        if isinstance(v, Node) and id(v) not in seen:
            seen.add(id(v))
            for c in v.ch:
                rec(c)

    rec(v)
    return len(seen)


def paths(v, theory=None, cube=()):
    """enumerate (cube, leaf) with theory pruning; cube = tuple of (atom, outcome)"""
    if v is BOT:
        return
    if not isinstance(v, Node):
        yield cube, v
        return
    for o, c in enumerate(v.ch):
        if c is BOT:
            continue
        nc = cube + ((v.atom, o),)
        if theory is not None and not theory(nc):
            continue
        yield from paths(c, theory, nc)


def cube_str(cube):
    return " && ".join(a.lit(o) for a, o in cube) or "always"
