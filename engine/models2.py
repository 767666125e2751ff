"""Models of more of the standard library: what a rewritten body of auburn may call."""
import re
from add import *
from poly import *
from theory import sign_expr, g_prune, g_false


def install(M, h):
    UNIT, none, some = h["UNIT"], h["none"], h["some"]
    reach, closure_calls, drive, FIT, step = h["reach"], h["closure_calls"], h["drive"], h["FIT"], h["step"]
    OPT, RES, ORD = "core::option::Option", "core::result::Result", "core::cmp::Ordering"
    VP = "alloc::vec::Vec::<T, A>::"
    SL = "core::slice::<impl [T]>::"
    AS = "alloc::slice::<impl [T]>::"

    def rx(p, f):
        M.rx.append((re.compile(p), f))

    def ok_err(c, good, bad):
        return ite(c, Agg(RES, 0, (good,)), Agg(RES, 1, (bad,)))

    def caller(it, st, inst, f):
        """a function (st, args) -> (value, st) calling the closure value f"""
        i = (closure_calls(it, inst, f) or [None])[0]
        if i is None:
            return None
        y = it.p.insts[i]
        cell = ("heap", it.newcell())
        st.mem[cell] = f
        once = y["path"].endswith("FnOnce::call_once")

        def call(s, args):
            return it.call_inst(i, [s.mem[cell] if once else Ref(cell), Agg("()", 0, tuple(args))], s)

        return call

    def under(it, st, c, f):
        """run f on the part of the state where c holds; (value there, state)"""
        from interp import State, merge_states

        g = g_prune(g_and(st.g, c))
        h_ = g_prune(g_and(st.g, b_not(c)))
        if g_false(g):
            return BOT, st
        if g_false(h_):
            return f(st)
        s1 = State(dict(st.mem), st.g)
        it.refine(s1, g)
        v, s1 = f(s1)
        it.refine(st, h_)
        return v, (st if s1 is None else merge_states(st, s1))

    # ------------------------------------------------------------ iterators
    def get_unchecked(it, st, a, inst):
        def f(x, k):
            if not (isinstance(x, Obj) and x.kind in ("siter", "viter") and isinstance(k, Expr) and k.is_const()):
                return Top("element of an iterator")
            s, i, j = x.f
            k = i + int(k.cval())
            if k >= j:
                return BOT
            return Ref(s.cell, s.path + (("i", k),)) if x.kind == "siter" else s.e[k]

        return apply(f, it.load(st, a[0]), a[1]), st

    rx(FIT + "__iterator_get_unchecked$", get_unchecked)
    rx(r"^<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked$", get_unchecked)

    def advance(back):
        def g(it, st, a, inst):
            v = it.load(st, a[0])

            def f(x, k):
                if not (isinstance(x, Obj) and x.kind in ("siter", "viter") and isinstance(k, Expr) and k.is_const()):
                    return Top("advance"), x
                s, i, j = x.f
                n = min(int(k.cval()), j - i)
                left = int(k.cval()) - n
                r = Agg(RES, 0, (UNIT,)) if left == 0 else Agg(RES, 1, (econst(left),))
                return r, (Obj(x.kind, s, i, j - n) if back else Obj(x.kind, s, i + n, j))

            r = apply(lambda x, k: f(x, k)[0], v, a[1])
            it.store(st, a[0], apply(lambda x, k: f(x, k)[1], v, a[1]))
            return r, st

        return g

    def nth(back):
        def g(it, st, a, inst):
            v = it.load(st, a[0])

            def f(x, k):
                if not (isinstance(x, Obj) and x.kind in ("siter", "viter") and isinstance(k, Expr) and k.is_const()):
                    return Top("nth"), x
                s, i, j = x.f
                n = min(int(k.cval()), j - i)
                return step(Obj(x.kind, s, i, j - n) if back else Obj(x.kind, s, i + n, j), back)

            r = apply(lambda x, k: f(x, k)[0], v, a[1])
            it.store(st, a[0], apply(lambda x, k: f(x, k)[1], v, a[1]))
            return r, st

        return g

    def last(it, st, a, inst):
        return apply(lambda x: step(x, True)[0], a[0]), st

    DE = FIT.replace("iterator::Iterator", "double_ended::DoubleEndedIterator")
    rx(FIT + "advance_by$", advance(False))
    rx(DE + "advance_back_by$", advance(True))
    rx(FIT + "nth$", nth(False))
    rx(DE + "nth_back$", nth(True))
    rx(FIT + "last$", last)

    def rfold(it, st, a, inst):
        def back(x):
            if not (isinstance(x, Obj) and x.kind in ("siter", "viter")):
                return Top("rfold")
            s, i, j = x.f
            items = []
            while True:
                r, x = step(x, True)
                if r.var == 0:
                    return Obj("viter", Seq(items), 0, len(items))
                items.append(r.f[0])

        call = caller(it, st, inst, a[2])
        if call is None:
            return Top("rfold"), st
        acc = ("heap", it.newcell())
        st.mem[acc] = a[1]

        def f(s, x):
            v, s = call(s, (s.mem[acc], x))
            if s is not None:
                s.mem[acc] = v
            return s

        st = drive(it, st, apply(back, a[0]), f)
        return (None, None) if st is None else (st.mem.pop(acc), st)

    rx(DE + "rfold$", rfold)

    def find_map(it, st, a, inst):
        """the first Some, item by item, the closure run only while nothing was found"""
        call = caller(it, st, inst, a[1])
        if call is None:
            return Top("find_map"), st
        v = it.load(st, a[0])
        res = none()
        for _ in range(it.max_loop):
            live = apply(lambda x: isinstance(x, Agg) and x.var == 0, res)
            r = apply(lambda x: step(x, False)[0], v)
            if any(not isinstance(x, Agg) for x in leaves(r)):
                return Top("find_map"), st
            more = b_and(live, apply(lambda x: x.var == 1, r))
            g = g_prune(g_and(st.g, more))
            if g_false(g):
                it.store(st, a[0], v)
                return res, st
            n = apply(lambda x: step(x, False)[1], v)
            item = apply(lambda x: x.f[0] if x.var == 1 else BOT, r)
            y, st = under(it, st, more, lambda s: call(s, (restrict(item, g) if isinstance(item, Node) else item,)))
            if st is None:
                return None, None
            res = ite(more, y, res)
            v = ite(more, n, v)
        from interp import GaveUp

        raise GaveUp("find_map over more than 70 items")

    rx(FIT + "find_map$", find_map)

    def range_fold(it, st, a, inst):
        call = caller(it, st, inst, a[2])
        rng = a[0]
        if call is None or not (isinstance(rng, Agg) and isinstance(rng.f[0], Expr) and isinstance(rng.f[1], Expr)):
            return Top("range fold"), st
        n = esub(rng.f[1], rng.f[0])
        if not n.is_const():
            return Top("range fold with symbolic length"), st
        k = int(n.cval()) + (1 if rng.tag.endswith("RangeInclusive") else 0)
        if rng.tag.endswith("RangeInclusive") and rng.f[2] is not False:
            return Top("fold over a used range"), st
        back = inst["path"].endswith("rfold")
        acc = a[1]
        for i in range(max(0, k)):
            j = (k - 1 - i) if back else i
            acc, st = call(st, (acc, eadd(rng.f[0], econst(j))))
            if st is None:
                return None, None
        return acc, st

    rx(h["RI"] + r"RangeInclusive<A>>::r?fold$", range_fold)

    # ------------------------------------------------------------ arrays
    def const_arg(inst):
        n = [int(x.split()[1]) for x in inst["args"] if isinstance(x, str) and x.startswith("const ") and x.split()[1].isdigit()]
        return n[0] if n else None

    def array_map(it, st, a, inst):
        call = caller(it, st, inst, a[1])
        if call is None or not isinstance(a[0], Seq):
            return Top("array map"), st
        out = []
        for x in a[0].e:
            y, st = call(st, (x,))
            if st is None:
                return None, None
            out.append(y)
        return Seq(out), st

    M.t["core::array::<impl [T; N]>::map"] = array_map

    def array_from_fn(it, st, a, inst):
        n = const_arg(inst)
        call = caller(it, st, inst, a[0])
        if call is None or n is None or n > 64:
            return Top("array from_fn"), st
        out = []
        for k in range(n):
            y, st = call(st, (econst(k),))
            if st is None:
                return None, None
            out.append(y)
        return Seq(out), st

    M.t["core::array::from_fn"] = array_from_fn

    # ------------------------------------------------------------ slices
    def sub(r, lo, n):
        base = r.rng[0] if r.rng else 0
        return Ref(r.cell, r.path, (base + lo, n))

    def split_at(it, st, a, inst):
        nm = inst["path"].rsplit("::", 1)[-1]
        n = M.length(it, st, a[0])
        bad = apply(lambda x, k: apply(lambda s: s == "-", sign_expr(esub(x, k))) if isinstance(x, Expr) and isinstance(k, Expr) else Top("split_at"), n, a[1])
        if any(isinstance(x, Top) for x in leaves(bad)):
            return Top("split_at"), st

        def f(r, k):
            m = it.seq_len(st, r) if isinstance(r, Ref) else None
            if m is None or not (isinstance(k, Expr) and k.is_const()):
                return Top("split_at")
            k = int(k.cval())
            if k > m:
                return BOT
            return Agg("()", 0, (sub(r, 0, k), sub(r, k, m - k)))

        if "checked" in nm and "unchecked" not in nm:
            return ite(bad, none(), apply(lambda x: some(x) if x is not BOT else BOT, apply(f, a[0], a[1]))), st
        gb = g_prune(g_and(st.g, bad))
        if not g_false(gb):
            it.event("panic", "split_at out of range", gb)
            ng = g_prune(g_and(st.g, b_not(bad)))
            if g_false(ng):
                return None, None
            it.refine(st, ng)
        return apply(f, a[0], a[1]), st

    for nm in ("split_at", "split_at_mut", "split_at_checked", "split_at_mut_checked", "split_at_unchecked", "split_at_mut_unchecked"):
        M.t[SL + nm] = split_at

    def pieces(exact):
        def g(it, st, a, inst):
            def f(r, k):
                m = it.seq_len(st, r) if isinstance(r, Ref) else None
                if m is None or not (isinstance(k, Expr) and k.is_const() and k.cval() > 0):
                    return Top("chunks")
                k = int(k.cval())
                out = [sub(r, i, min(k, m - i)) for i in range(0, m, k)]
                if exact:
                    out = [x for x in out if x.rng[1] == k]
                return Obj("viter", Seq(out), 0, len(out))

            return apply(f, a[0], a[1]), st

        return g

    for nm in ("chunks", "chunks_mut"):
        M.t[SL + nm] = pieces(False)
    for nm in ("chunks_exact", "chunks_exact_mut"):
        M.t[SL + nm] = pieces(True)
    for nm in ("Chunks", "ChunksMut", "ChunksExact", "ChunksExactMut", "Windows"):
        B = r"^<core::slice::iter::%s<'a, T> as core::iter::traits::" % nm
        rx(B + r"iterator::Iterator>::next$", h["nxt"](False))
        rx(B + r"iterator::Iterator>::count$", lambda it, st, a, inst: (apply(lambda x: econst(x.f[2] - x.f[1]) if isinstance(x, Obj) and x.kind == "viter" else Top("count"), a[0]), st))
        rx(B + r"iterator::Iterator>::nth$", nth(False))
        rx(B + r"iterator::Iterator>::last$", last)
        rx(B + r"double_ended::DoubleEndedIterator>::next_back$", h["nxt"](True))
        rx(B + r"iterator::Iterator>::__iterator_get_unchecked$", get_unchecked)

    def seq_update(f):
        """a[0] := f(items, further arguments) for a whole Vec or slice"""

        def g(it, st, a, inst):
            def k(*x):
                return f(x[0].e, *x[1:]) if isinstance(x[0], Seq) else Top(inst["path"])

            r = a[0]
            if isinstance(r, Ref) and r.rng:
                whole = it.load(st, Ref(r.cell, r.path))
                lo, n = r.rng

                def part(s, *x):
                    if not isinstance(s, Seq):
                        return Top(inst["path"])
                    m = f(s.e[lo : lo + n], *x)
                    return Seq(s.e[:lo] + m.e + s.e[lo + n :]) if isinstance(m, Seq) else m

                it.store(st, Ref(r.cell, r.path), apply(part, whole, *a[1:]))
            else:
                it.store(st, r, apply(k, it.load(st, r), *a[1:]))
            return UNIT, st

        return g

    def rot(sign):
        def f(e, k):
            if not (isinstance(k, Expr) and k.is_const()):
                return Top("rotate")
            n = int(k.cval()) * sign
            if not e:
                return Seq(e)
            n %= len(e)
            return Seq(e[n:] + e[:n])

        return f

    M.t[SL + "rotate_left"] = seq_update(rot(1))
    M.t[SL + "rotate_right"] = seq_update(rot(-1))

    def fill(it, st, a, inst):
        return seq_update(lambda e: Seq((a[1],) * len(e)))(it, st, a[:1], inst)

    M.t[SL + "fill"] = fill

    def load_seq(it, st, r):
        """the items behind a slice reference"""

        def f(x):
            if isinstance(x, Seq):
                return x
            if isinstance(x, Ref):
                return load_seq(it, st, x)
            return Top("items of %s" % type(x).__name__)

        def g(x):
            if not isinstance(x, Ref):
                return Top("items of %s" % type(x).__name__)
            v = it.load(st, Ref(x.cell, x.path))
            if x.rng:
                return apply(lambda s: Seq(s.e[x.rng[0] : x.rng[0] + x.rng[1]]) if isinstance(s, Seq) else Top("items"), v)
            return apply(f, v)

        return apply(g, r)

    def extend_from_slice(it, st, a, inst):
        t = load_seq(it, st, a[1])
        v = it.load(st, a[0])
        it.store(st, a[0], apply(lambda s, x: Seq(s.e + x.e) if isinstance(s, Seq) and isinstance(x, Seq) else Top("extend_from_slice"), v, t))
        return UNIT, st

    M.t[VP + "extend_from_slice"] = extend_from_slice

    def contains(it, st, a, inst):
        t = load_seq(it, st, a[0])
        x = it.load(st, a[1])
        if not isinstance(t, Seq):
            return Top("contains"), st
        r = False
        if not all(isinstance(y, Expr) for z in t.e + (x,) for y in leaves(z)):
            eq = reach(it, inst, lambda c, y: c["d"].endswith("PartialEq::eq"))
            if eq is None:
                return Top("contains"), st
            for y in t.e:
                c = ("heap", it.newcell())
                st.mem[c] = y
                v, st = it.call_inst(eq, [Ref(c), a[1]], st)
                if st is None:
                    return None, None
                r = b_or(r, v)
            return r, st
        for y in t.e:
            r = b_or(r, M.veq(y, x))
        return r, st

    M.t[SL + "contains"] = contains

    def concat(it, st, a, inst):
        t = load_seq(it, st, a[0])
        if not isinstance(t, Seq):
            return Top("concat"), st
        r = Seq(())
        for y in t.e:
            y = apply(lambda z: load_seq(it, st, z) if isinstance(z, Ref) else z, y)
            r = apply(lambda p, q: Seq(p.e + q.e) if isinstance(p, Seq) and isinstance(q, Seq) else Top("concat"), r, y)
        return r, st

    M.t[AS + "concat"] = concat

    def append(it, st, a, inst):
        t = it.load(st, a[1])
        v = it.load(st, a[0])
        it.store(st, a[0], apply(lambda s, x: Seq(s.e + x.e) if isinstance(s, Seq) and isinstance(x, Seq) else Top("append"), v, t))
        it.store(st, a[1], Seq(()))
        return UNIT, st

    M.t[VP + "append"] = append

    def resize(it, st, a, inst):
        def f(s, k):
            if not (isinstance(s, Seq) and isinstance(k, Expr) and k.is_const() and k.cval() <= 64):
                return Top("resize")
            k = int(k.cval())
            return Seq(s.e[:k] + (a[2],) * (k - len(s.e)))

        it.store(st, a[0], apply(f, it.load(st, a[0]), a[1]))
        return UNIT, st

    M.t[VP + "resize"] = resize

    def retain(it, st, a, inst):
        call = caller(it, st, inst, a[1])
        v = it.load(st, a[0])
        if call is None or not isinstance(v, Seq):
            it.store(st, a[0], Top("retain"))
            return UNIT, st
        out = Seq(())
        for x in v.e:
            c = ("heap", it.newcell())
            st.mem[c] = x
            keep, st = call(st, (Ref(c),))
            if st is None:
                return None, None
            x = st.mem[c]
            out = ite(keep, apply(lambda s: Seq(s.e + (x,)), out), out)
        it.store(st, a[0], out)
        return UNIT, st

    M.t[VP + "retain"] = retain
    M.t[VP + "retain_mut"] = retain

    def drain(it, st, a, inst):
        v = it.load(st, a[0])

        def f(s, r):
            if not (isinstance(s, Seq) and isinstance(r, Agg)):
                return None
            b = range_bounds(r, len(s.e))
            return b if b and 0 <= b[0] <= b[1] <= len(s.e) else None

        def taken(s, r):
            b = f(s, r)
            return Top("drain") if b is None else Obj("viter", Seq(s.e[b[0] : b[1]]), 0, b[1] - b[0])

        def left(s, r):
            b = f(s, r)
            return Top("drain") if b is None else Seq(s.e[: b[0]] + s.e[b[1] :])

        it.store(st, a[0], apply(left, v, a[1]))
        return apply(taken, v, a[1]), st

    M.t[VP + "drain"] = drain

    def split_off(it, st, a, inst):
        v = it.load(st, a[0])

        def cut(s, k, tail):
            if not (isinstance(s, Seq) and isinstance(k, Expr) and k.is_const() and k.cval() <= len(s.e)):
                return Top("split_off")
            k = int(k.cval())
            return Seq(s.e[k:] if tail else s.e[:k])

        it.store(st, a[0], apply(lambda s, k: cut(s, k, False), v, a[1]))
        return apply(lambda s, k: cut(s, k, True), v, a[1]), st

    M.t[VP + "split_off"] = split_off
    M.t[VP + "into_boxed_slice"] = lambda it, st, a, inst: (h["box_new"](it, st, a[0]), st)

    # ------------------------------------------------------------ sorting: a network of exchanges
    def sorter(kind):
        def g(it, st, a, inst):
            v = load_seq(it, st, a[0])
            if not isinstance(v, Seq) or len(v.e) > 8:
                it.store(st, a[0], Top("sort"))
                return UNIT, st
            call = caller(it, st, inst, a[1]) if kind != "ord" else None
            if kind != "ord" and call is None:
                it.store(st, a[0], Top("sort"))
                return UNIT, st
            import interp

            e = list(v.e)

            def swap_if(st, x, y):
                if kind == "ord":
                    return apply(lambda p, q: interp.compare("Gt", p, q), x, y), st
                cx, cy = ("heap", it.newcell()), ("heap", it.newcell())
                st.mem[cx], st.mem[cy] = x, y
                if kind == "by":
                    r, st = call(st, (Ref(cx), Ref(cy)))
                    return (None if st is None else apply(lambda o: o.var == 2 if isinstance(o, Agg) else Top("sort"), r)), st
                p, st = call(st, (Ref(cx),))
                if st is None:
                    return None, None
                q, st = call(st, (Ref(cy),))
                if st is None:
                    return None, None
                return apply(lambda p, q: interp.compare("Gt", p, q) if isinstance(p, Expr) else Top("sort"), p, q), st

            for i in range(len(e)):
                for j in range(len(e) - 1 - i):
                    c, st = swap_if(st, e[j], e[j + 1])
                    if st is None:
                        return None, None
                    e[j], e[j + 1] = ite(c, e[j + 1], e[j]), ite(c, e[j], e[j + 1])
            return seq_update(lambda _: Seq(e))(it, st, a[:1], inst)

        return g

    for pre, names in ((AS, ("sort", "sort_by", "sort_by_key")), (SL, ("sort_unstable", "sort_unstable_by", "sort_unstable_by_key"))):
        for nm in names:
            M.t[pre + nm] = sorter("by" if nm.endswith("_by") else "key" if nm.endswith("_by_key") else "ord")

    # ------------------------------------------------------------ HashMap entries
    ENT = "std::collections::hash::map::Entry"

    def map_entry(it, st, a, inst):
        def f(r):
            if not isinstance(r, Ref):
                return Top("entry of %s" % type(r).__name__)
            m = it.load(st, r)
            p = apply(lambda mm: M.map_lookup(it, mm, a[1])[0] if isinstance(mm, Obj) and mm.kind == "map" else Top("entry"), m)
            if any(isinstance(x, Top) for x in leaves(p)):
                return Top("entry of an unknown map")
            e = Obj("entry", r, a[1])
            return ite(p, Agg(ENT, 0, (e,)), Agg(ENT, 1, (e,)))

        return apply(f, a[0]), st

    rx(r"^std::collections::hash::map::HashMap::<K, V(, S)?(, A)?>::entry$", map_entry)
    OE = r"^std::collections::hash::map::OccupiedEntry::<'a, K, V(, A)?>::"
    VE = r"^std::collections::hash::map::VacantEntry::<'a, K, V(, A)?>::"

    def entry_of(it, st, v):
        while isinstance(v, Ref):
            v = it.load(st, v)
        return v

    def place(it, st, a, inst):
        """the value of an occupied entry; written back so that the maps of both branches can be compared"""

        def f(e):
            if not (isinstance(e, Obj) and e.kind == "entry"):
                return Top("entry")
            r, key = e.f
            return Ref(r.cell, r.path + (("map", key),))

        e = entry_of(it, st, a[0])
        if isinstance(e, Obj) and e.kind == "entry":
            r, key = e.f
            m = it.load(st, r)
            it.store(st, r, apply(lambda mm: M.map_write(it, mm, key, M.map_lookup(it, mm, key)[1]), m))
        return apply(f, e), st

    for nm in ("get", "get_mut", "into_mut"):
        rx(OE + nm + "$", place)

    def occ_insert(it, st, a, inst):
        p, st = place(it, st, a, inst)
        old = it.load(st, p)
        it.store(st, p, a[1])
        return old, st

    rx(OE + "insert$", occ_insert)

    def occ_remove(it, st, a, inst):
        e = entry_of(it, st, a[0])
        if not (isinstance(e, Obj) and e.kind == "entry"):
            return Top("entry"), st
        r, key = e.f
        m = it.load(st, r)
        old = apply(lambda mm: M.map_lookup(it, mm, key)[1], m)
        it.store(st, r, apply(lambda mm: M.map_write(it, mm, key, BOT, False), m))
        return (Agg("()", 0, (key, old)) if inst["path"].endswith("_entry") else old), st

    rx(OE + "remove$", occ_remove)
    rx(OE + "remove_entry$", occ_remove)

    def vac_insert(it, st, a, inst):
        e = entry_of(it, st, a[0])
        if not (isinstance(e, Obj) and e.kind == "entry"):
            return Top("entry"), st
        r, key = e.f
        m = it.load(st, r)
        it.store(st, r, apply(lambda mm: M.map_write(it, mm, key, a[1]), m))
        return Ref(r.cell, r.path + (("map", key),)), st

    rx(VE + "insert$", vac_insert)

    def entry_key(it, st, a, inst):
        def f(x):
            if isinstance(x, Agg) and x.tag == ENT:
                x = x.f[0]
            return x.f[1] if isinstance(x, Obj) and x.kind == "entry" else Top("entry key")

        k = apply(f, entry_of(it, st, a[0]))
        if inst["path"].endswith("into_key"):
            return k, st
        c = ("heap", it.newcell())
        st.mem[c] = k
        return Ref(c), st

    EN = r"^std::collections::hash::map::Entry::<'a, K, V(, A)?>::"
    rx(OE + "key$", entry_key)
    rx(VE + "(key|into_key)$", entry_key)
    rx(EN + "key$", entry_key)

    def and_modify(it, st, a, inst):
        def f(x):
            return x.f[0] if isinstance(x, Agg) and x.tag == ENT else Top("entry")

        e = apply(f, a[0])
        call = caller(it, st, inst, a[1])
        if call is None or not (isinstance(e, Obj) and e.kind == "entry"):
            return Top("and_modify"), st
        r, key = e.f
        occ = apply(lambda x: x.var == 0, a[0])

        def run(s):
            p, s = place(it, s, [e], inst)
            return call(s, (p,))

        _, st = under(it, st, occ, run)
        if st is None:
            return None, None
        return a[0], st

    rx(EN + "and_modify$", and_modify)


def range_bounds(rng, n):
    nm = rng.tag.split("::")[-1]
    c = [int(x.cval()) if isinstance(x, Expr) and x.is_const() else None for x in rng.f]
    r = {"Range": lambda: (c[0], c[1]), "RangeFrom": lambda: (c[0], n), "RangeTo": lambda: (0, c[0]), "RangeFull": lambda: (0, n), "RangeInclusive": lambda: (c[0], None if c[1] is None else c[1] + 1), "RangeToInclusive": lambda: (0, None if c[0] is None else c[0] + 1)}.get(nm, lambda: (None, None))()
    return r if None not in r else None


def entry_value(e):
    """the entry token behind either variant of Entry"""
    ls = leaves(e)
    toks = []
    for x in ls:
        if isinstance(x, Agg) and x.tag.endswith("hash::map::Entry"):
            x = x.f[0]
        if not any(x is t for t in toks) and not any(isinstance(t, Obj) and isinstance(x, Obj) and t.f == x.f for t in toks):
            toks.append(x)
    return toks[0] if len(toks) == 1 else e
