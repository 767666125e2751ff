"""A file system with one declared file, whose every operation may fail, for C19.

Memory cells: ("disk",) what the declared file holds, ("failed",) whether any step failed.
Contents: old (whatever it held), empty, partial, json(value), bytes(value) not yet parsed text.
"""
import re

from add import *
from poly import *


def install(M, UNIT):
    def rx(p, f):
        M.rx.insert(0, (re.compile(p), f))

    R = "core::result::Result"
    ERR = Agg(R, 1, (Obj("ioerr"),))

    def ok(v):
        return Agg(R, 0, (v,))

    def world(it):
        w = getattr(it, "io_world", None)
        if w is None:
            raise_unsupported("input or output outside the laws about files")
        return w

    def raise_unsupported(s):
        from interp import Unsupported

        raise Unsupported(s)

    def declare(it, st, a, inst):
        name, may = a
        it.io_world = [name.f[0], may, 0]
        st.mem[("disk",)] = Obj("old")
        st.mem[("failed",)] = False
        st.mem[("touched",)] = False
        return UNIT, st

    def step(it, st):
        """a diagram: this step fails; remembers it"""
        w = world(it)
        if w[1] is not True:
            return False
        f = bool_node("I/O step %d fails" % w[2])
        w[2] += 1
        st.mem[("failed",)] = b_or(st.mem[("failed",)], f)
        return f

    def put(it, st, name, val, fail, bad=Obj("partial")):
        """the named file now holds val (bad where the step failed)"""
        w = world(it)
        if not (isinstance(name, Obj) and name.kind == "str"):
            st.mem[("disk",)] = Top("write to an unknown file")
            st.mem[("touched",)] = True
            return
        if name.f[0] != w[0]:
            return
        st.mem[("disk",)] = ite(fail, bad if bad is not None else st.mem[("disk",)], val)
        st.mem[("touched",)] = True

    def get(it, st, name):
        if isinstance(name, Obj) and name.kind == "str" and name.f[0] == world(it)[0]:
            return st.mem[("disk",)]
        return Top("read of an undeclared file")

    def deref(it, st, v):
        while isinstance(v, Ref):
            v = it.load(st, v)
        return v

    def place(it, st, v):
        """the innermost reference to a writer"""
        r = None
        while isinstance(v, Ref):
            r = v
            v = it.load(st, v)
        return r, v

    def pathname(it, st, v):
        return deref(it, st, v)

    def create(it, st, a, inst):
        name = pathname(it, st, a[-1])
        f = step(it, st)
        put(it, st, name, Obj("empty"), f, None)
        return ite(f, ERR, ok(Obj("file", name, "w"))), st

    def open_(it, st, a, inst):
        name = pathname(it, st, a[-1])
        f = step(it, st)
        return ite(f, ERR, ok(Obj("file", name, "r"))), st

    def options(it, st, a, inst):
        o = deref(it, st, a[0])
        while isinstance(o, Agg) and len(o.f) == 1:
            o = o.f[0]
        name = pathname(it, st, a[1])
        if not isinstance(o, Agg) or len(o.f) < 6 or not all(isinstance(x, bool) for x in o.f[:6]):
            return Top("open with unknown options"), st
        read, write, append, trunc, create_, new = o.f[:6]
        f = step(it, st)
        if write and (trunc or new):
            put(it, st, name, Obj("empty"), f, None)
            return ite(f, ERR, ok(Obj("file", name, "w"))), st
        if write or append:
            return ite(f, ERR, ok(Obj("file", name, "a"))), st
        return ite(f, ERR, ok(Obj("file", name, "r"))), st

    F = r"^std::fs::File::"
    rx(F + "create$", create)
    rx(F + "create_new$", create)
    rx(F + "open$", open_)
    rx(r"^std::fs::OpenOptions::_?open$", options)

    def bufw(it, st, a, inst):
        return Obj("bufw", a[-1], ()), st

    def bufr(it, st, a, inst):
        return Obj("bufr", a[-1]), st

    B = r"^(alloc|std)::io::buffered::"
    rx(B + r"bufwriter::BufWriter::<[^:]*>::(new|with_capacity)$", bufw)
    rx(B + r"linewriter::LineWriter::<[^:]*>::(new|with_capacity)$", bufw)
    rx(B + r"bufreader::BufReader::<[^:]*>::(new|with_capacity)$", bufr)

    def emit(it, st, w, data, fail):
        """data goes to the writer w; the outcome of the whole operation is `fail`"""
        r, v = place(it, st, w)

        def one(v):
            if isinstance(v, Obj) and v.kind == "bufw":
                if v.f[1]:
                    return Obj("bufw", v.f[0], (Obj("mixed"),))
                return Obj("bufw", v.f[0], (data,))
            if isinstance(v, Seq) and not v.e:
                return data
            return v

        def direct(v):
            return isinstance(v, Obj) and v.kind == "file"

        if direct(v):
            put_file(it, st, v, data, fail)
            return True
        if isinstance(v, Obj) and v.kind == "bufw" and r is not None:
            it.store(st, r, one(v))
            # part of it may already be in the file
            f = v.f[0]
            rr, ff = place(it, st, f)
            if isinstance(ff, Obj) and ff.kind == "file":
                put(it, st, ff.f[0], Obj("partial"), False)
            return True
        if r is not None and isinstance(v, Seq) and not v.e:
            it.store(st, r, Obj("text", data))
            return True
        return False

    def put_file(it, st, f, data, fail):
        if f.f[1] == "w":
            cur = get(it, st, f.f[0])
            if not isinstance(cur, Top):

                def after(c):
                    if isinstance(c, Obj) and c.kind in ("empty", "partial"):
                        return data
                    return Obj("mixed")

                data = apply(after, cur)
            put(it, st, f.f[0], data, fail)
        else:
            put(it, st, f.f[0], Obj("mixed"), fail)

    def to_writer(it, st, a, inst):
        v = deref(it, st, a[1])
        f = step(it, st)
        if not emit(it, st, a[0], Obj("json", v), f):
            return Top("writing to an unknown writer"), st
        return ite(f, ERR, ok(UNIT)), st

    def to_text(it, st, a, inst):
        v = deref(it, st, a[0])
        f = step(it, st)
        return ite(f, ERR, ok(Obj("text", Obj("json", v)))), st

    rx(r"^serde_json::ser::to_writer(_pretty)?$", to_writer)
    rx(r"^serde_json::ser::to_(string|vec)(_pretty)?$", to_text)

    def text_of(v):
        if isinstance(v, Obj) and v.kind == "text":
            return v.f[0]
        return None

    def write_all(it, st, a, inst):
        t = text_of(deref(it, st, a[1]))
        f = step(it, st)
        if t is None or not emit(it, st, a[0], t, f):
            return Top("writing of unknown data"), st
        return ite(f, ERR, ok(UNIT)), st

    def flush(it, st, a, inst):
        r, v = place(it, st, a[0])
        if isinstance(v, Obj) and v.kind == "file":
            return ok(UNIT), st
        if not (isinstance(v, Obj) and v.kind == "bufw"):
            return Top("flush of an unknown writer"), st
        f = step(it, st)
        pour(it, st, v, f)
        it.store(st, r, Obj("bufw", v.f[0], ()))
        return ite(f, ERR, ok(UNIT)), st

    def pour(it, st, v, f):
        if v.f[1]:
            rr, ff = place(it, st, v.f[0])
            if isinstance(ff, Obj) and ff.kind == "file":
                put_file(it, st, ff, v.f[1][0], f)
            else:
                st.mem[("disk",)] = Top("flush into an unknown writer")

    def into_inner(it, st, a, inst):
        v = a[0]
        if not (isinstance(v, Obj) and v.kind == "bufw"):
            return Top("into_inner of an unknown writer"), st
        f = step(it, st)
        pour(it, st, v, f)
        return ite(f, ERR, ok(v.f[0])), st

    rx(r"^(<.* as )?(alloc|std|core)::io::(write::)?Write>?::flush$", flush)
    rx(r"^(<.* as )?(alloc|std|core)::io::(write::)?Write>?::write_all$", write_all)
    rx(B + r"bufwriter::BufWriter::<[^:]*>::into_inner$", into_inner)

    def sync(it, st, a, inst):
        f = step(it, st)
        return ite(f, ERR, ok(UNIT)), st

    rx(F + "sync_(all|data)$", sync)

    def fs_write(it, st, a, inst):
        name = pathname(it, st, a[0])
        t = text_of(deref(it, st, a[1]))
        f = step(it, st)
        put(it, st, name, t if t is not None else Top("write of unknown data"), f)
        return ite(f, ERR, ok(UNIT)), st

    def fs_read(it, st, a, inst):
        name = pathname(it, st, a[0])
        f = step(it, st)
        return ite(f, ERR, ok(Obj("text", get(it, st, name)))), st

    rx(r"^std::fs::write$", fs_write)
    rx(r"^std::fs::read(_to_string)?$", fs_read)

    def old_value(it, ty):
        tab = it.__dict__.setdefault("io_old", {})
        if ty not in tab:
            tab[ty] = it.fresh(ty, "file")
        return tab[ty]

    def parse(it, st, content, ty):
        f = step(it, st)

        def one(c):
            if isinstance(c, Top):
                return c
            if c.kind == "old":
                return ok(old_value(it, ty))
            if c.kind == "json":
                return ok(c.f[0])
            return ERR

        # what is not JSON of the right shape never parses; that counts as a failed step
        bad = apply(lambda c: not isinstance(c, Top) and c.kind not in ("old", "json"), content)
        st.mem[("failed",)] = b_or(st.mem[("failed",)], bad)
        return ite(f, ERR, apply(one, content)), st

    def result_ty(inst):
        return [x for x in inst["args"] if isinstance(x, int)][-1]

    def from_reader(it, st, a, inst):
        v = deref(it, st, a[0])
        while isinstance(v, Obj) and v.kind == "bufr":
            v = deref(it, st, v.f[0])
        if not (isinstance(v, Obj) and v.kind == "file" and v.f[1] == "r"):
            return Top("reading from an unknown reader"), st
        return parse(it, st, get(it, st, v.f[0]), result_ty(inst))

    def from_text(it, st, a, inst):
        t = text_of(deref(it, st, a[0]))
        if t is None:
            return Top("parsing of unknown data"), st
        return parse(it, st, t, result_ty(inst))

    rx(r"^serde_json::de::from_reader$", from_reader)
    rx(r"^serde_json::de::from_(str|slice)$", from_text)

    def read_to(it, st, a, inst):
        v = deref(it, st, a[0])
        while isinstance(v, Obj) and v.kind == "bufr":
            v = deref(it, st, v.f[0])
        r, s = place(it, st, a[1])
        if not (isinstance(v, Obj) and v.kind == "file" and v.f[1] == "r" and r is not None):
            return Top("reading from an unknown reader"), st
        f = step(it, st)
        it.store(st, r, ite(f, Obj("text", Obj("partial")), Obj("text", get(it, st, v.f[0]))))
        n = it.fresh_count.get("n", 0)
        it.fresh_count["n"] = n + 1
        return ite(f, ERR, ok(evar(newvar("bytes%d" % n, is_int=True)))), st

    rx(r"^(<.* as )?(alloc|std|core)::io::(read::)?Read>?::read_to_(string|end)$", read_to)

    def conv(it, st, a, inst):
        return Obj("ioerr"), st

    rx(r".*From<serde_json::error::Error>.*::from$", conv)
    rx(r".*From<(alloc|std|core)::io::.*(Error|IntoInnerError).*>.*::from$", conv)
    rx(r"^std::io::error::Error::|^(alloc|core)::io::error::.*Error::(new|other)", conv)

    def same_text(it, st, a, inst):
        if text_of(deref(it, st, a[0])) is not None:
            return a[0], st
        return Top("bytes of unknown text"), st

    rx(r"^alloc::string::String::(as_bytes|as_str|into_bytes)$", same_text)
    rx(r"^<alloc::string::String as core::ops::deref::Deref>::deref$", same_text)

    def q_failed(it, st, a, inst):
        return st.mem[("failed",)], st

    def q_untouched(it, st, a, inst):
        return b_not(st.mem[("touched",)]), st

    def q_on_disk(it, st, a, inst):
        v = deref(it, st, a[0])

        def one(c):
            if isinstance(c, Top):
                return c
            return c.kind == "json" and c.f[0] == v

        return apply(one, st.mem[("disk",)]), st

    def q_value(it, st, a, inst):
        return old_value(it, result_ty(inst)), st

    M.t.update({"spec::file": declare, "spec::io_failed": q_failed, "spec::untouched": q_untouched, "spec::on_disk": q_on_disk, "spec::file_value": q_value})
