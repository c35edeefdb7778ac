"""Text as far as the analysed code needs it: literals, formatting, growing strings, writers.

A piece of text is a Python string; private characters stand for text that is not spelled out:
ACC, what a string has taken up of the letters that are due, PART, the next piece of that, and ANY,
text given by the caller. A vector of characters or strings is the text of its elements."""
import re

from facts import new_sym
from poly import Poly
from interp import VInt, VAgg, VRef, VStr, VOpaque, Unsupported, fresh_id

ACC = "\ue000"
ANY = "\ue001"
PART = "\ue002"
LIMIT = 4096


def string(text):
    return VOpaque("string", text)


def unit(dty, inner=True):
    return VAgg(dty, 0, ())


def deref(m, st, v):
    while isinstance(v, VRef):
        if v.n is not None:
            arr = m.read(st, v.cell, v.path)
            return VAgg(arr.ty, 0, arr.f[v.n[0]:v.n[0] + v.n[1]])
        v = m.read(st, v.cell, v.path)
    return v


def text_of(m, st, v):
    """text a value displays as, or None"""
    v = deref(m, st, v)
    if isinstance(v, VStr):
        return v.s
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, VOpaque):
        if v.k == "string":
            return v.d
        if v.k == "label":
            return ANY
        if v.k == "fmt":
            return v.d
        if v.k == "argcell":
            return text_of(m, st, m.read(st, v.d, ()))
        return None
    if isinstance(v, VInt):
        ty = m.prog.ty(v.ty) if v.ty is not None else {"k": "?"}
        c = v.p.const_value()
        if ty["k"] == "char":
            return None if c is None else chr(int(c))
        return ANY if c is None else str(int(c))
    return None


def bytes_of(m, st, v):
    v = deref(m, st, v)
    if isinstance(v, VAgg):
        out = ""
        for x in v.f:
            if not isinstance(x, VInt) or x.p.const_value() is None:
                return None
            out += chr(int(x.p.const_value()))
        return out
    return text_of(m, st, v)


def decode(template, args):
    """text of a compiled format template; None when some argument or flag is not understood"""
    out = ""
    i = n = 0

    def u16(i):
        return template[i] | template[i + 1] << 8
    while i < len(template):
        b = template[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out += bytes(template[i:i + b]).decode("utf-8")
            i += b
        elif b == 0x80:
            k = u16(i)
            out += bytes(template[i + 2:i + 2 + k]).decode("utf-8")
            i += 2 + k
        elif b & 0xC0 == 0xC0:
            if b & 7:
                return None
            if b & 8:
                n = u16(i)
                i += 2
            if n >= len(args) or args[n] is None:
                return None
            out += args[n]
            n += 1
        else:
            return None
    return None


def fmt_text(m, st, args):
    """text of a format_args!, or None"""
    if not args:
        return None
    tpl = deref(m, st, args[0])
    if isinstance(tpl, VStr):
        return tpl.s
    if not isinstance(tpl, VAgg) or len(args) < 2:
        return None
    arr = deref(m, st, args[1])
    if not isinstance(arr, VAgg):
        return None
    vals = [a.d if isinstance(a, VOpaque) and a.k == "arg" else None for a in arr.f]
    raw = []
    for x in tpl.f:
        c = x.p.const_value() if isinstance(x, VInt) else None
        if c is None:
            return None
        raw.append(int(c))
    return decode(raw, vals)


def adt(m, ty):
    t = m.prog.ty(ty)
    while t["k"] == "ref":
        t = m.prog.ty(t["to"])
    return t["name"] if t["k"] == "adt" else None


def letters(m, ty):
    t = m.prog.ty(ty)
    if t["k"] == "ref":
        return m.prog.ty(t["to"])["k"] == "str"
    return t["k"] == "char" or t["k"] == "adt" and t["name"] == "std::string::String"


def display_fn(m, ty, trait):
    """the crate's own implementation of Display or Debug for the type, if any"""
    t = m.prog.ty(ty)
    while t["k"] == "ref":
        ty = t["to"]
        t = m.prog.ty(ty)
    if t["k"] != "adt" or not t.get("local", True):
        pass
    want = "<%s as std::fmt::%s>::fmt" % (t["str"], trait)
    for f in m.prog.fns.values():
        if f.name == want and f.blocks is not None:
            return f
    return None


def letter_vectors(m, st, t, defn, args, dst, done):
    """vectors of letters, and going through the letters of a text"""
    dty = t["dty"]
    base = defn.split("::")[-1]
    if m.job.name == "print" and m.prog.ty(dty)["k"] == "adt" and adt(m, dty) == "std::vec::Vec" and \
            base in ("new", "with_capacity", "default") and letters(m, m.prog.ty(dty)["args"][0]):
        return done(string(""))
    if args:
        v = args[0]
        ref = None
        while isinstance(v, VRef) and v.n is None:
            ref, v = v, m.read(st, v.cell, v.path)
        if isinstance(v, VOpaque) and v.k in ("string", "textiter"):
            if base in ("iter", "into_iter", "copied", "cloned", "by_ref", "chars", "iter_mut") and \
                    len(args) == 1 and "Iter" in m.prog.ty(dty).get("name", "Iter"):
                return done(VOpaque("textiter", v.d))
            if base in ("deref", "as_slice", "deref_mut") and ref is not None and \
                    m.prog.ty(m.prog.ty(dty).get("to", dty))["k"] == "slice":
                return done(ref)
            if base in ("collect", "from_iter", "concat") and len(args) == 1 and \
                    adt(m, dty) == "std::string::String":
                return done(string(v.d))
            if base == "join" and len(args) == 2 and text_of(m, st, args[1]) == "" and \
                    adt(m, dty) == "std::string::String":
                return done(string(v.d))
            if v.k == "string" and base == "extend" and len(args) == 2 and ref is not None and \
                    isinstance(args[1], VAgg) and isinstance(args[1].ty, int) and \
                    adt(m, args[1].ty) == "std::option::Option":
                for x in args[1].f:
                    m.job.append(m, st, ref.cell, ref.path, text_of(m, st, x))
                return done(VAgg(dty, 0, ()))
        if isinstance(v, VOpaque) and v.k == "textiter" and ref is not None and base == "next" and \
                m.job.name == "print":
            return m.job.next_piece(m, st, t, ref, v.d, dst)
    return None


def call(m, st, fr, t, fn, defn, base, args, dst, done):
    dty = t["dty"]
    name = fn.name if fn is not None else defn

    def ok():
        return done(VAgg(dty, 0, (VAgg(None, 0, ()),)))

    # -- formatting
    if defn.endswith("::Arguments::<'a>::from_str"):
        return done(VOpaque("fmt", text_of(m, st, args[0])))
    if "fmt::rt::Argument" in defn or defn.startswith("core::fmt::rt::"):
        if base in ("new_display", "new_debug") and args:
            g = display_fn(m, t["gargs"][0], "Display" if base == "new_display" else "Debug") \
                if t.get("gargs") and isinstance(t["gargs"][-1], int) else None
            v = args[0]
            if g is not None and base == "new_display":
                sink = ("H", fresh_id())
                st.mem[sink] = string("")
                c = ("H", fresh_id())
                st.mem[c] = VOpaque("formatter", (sink, ()))
                while isinstance(m.read(st, v.cell, v.path), VRef):
                    v = m.read(st, v.cell, v.path)
                m.write(st, dst[0], dst[1], VOpaque("arg", VRef(sink)))
                return m.enter(st, fr, t, g, [v, VRef(c)], (("H", fresh_id()), ()))
            return done(VOpaque("arg", text_of(m, st, v) if base == "new_display" else ANY))
        return done(VOpaque("arg", None))
    if "fmt::Arguments" in defn and base in ("new", "new_v1", "new_const"):
        if len(args) > 1:
            arr = deref(m, st, args[1])
            if isinstance(arr, VAgg) and args[1].__class__ is VRef:
                f = tuple(VOpaque("arg", text_of(m, st, a.d))
                          if isinstance(a, VOpaque) and a.k == "arg" and isinstance(a.d, VRef)
                          else a for a in arr.f)
                return done(VOpaque("fmt", fmt_text(m, st, [args[0], VAgg(arr.ty, 0, f)])))
        return done(VOpaque("fmt", fmt_text(m, st, args)))
    if defn in ("std::io::_print", "std::io::_eprint"):
        m.job.emit(m, st, args[0].d if isinstance(args[0], VOpaque) else None,
                   defn == "std::io::_eprint")
        return done(VAgg(dty, 0, ()))

    # -- writers
    if defn in ("std::io::stdout", "std::io::stderr"):
        return done(VOpaque("out", base))
    if args:
        w = deref(m, st, args[0])
        if isinstance(w, VOpaque) and w.k == "out":
            if base in ("lock", "by_ref", "new", "with_capacity", "get_mut", "get_ref", "clone"):
                return done(w if base != "by_ref" else args[0])
            if base == "flush":
                return ok()
            if base in ("write_all", "write", "write_fmt", "write_str"):
                x = bytes_of(m, st, args[1])
                m.job.emit(m, st, x, w.d == "stderr")
                if base == "write":
                    return done(VAgg(dty, 0, (VInt(Poly.const(len(x)), m.usize()),)))
                return ok()
    if base == "with_capacity" and len(args) == 2:
        w = deref(m, st, args[1])
        if isinstance(w, VOpaque) and w.k == "out":
            return done(w)

    # -- strings
    if defn.startswith("alloc::raw_vec::RawVecInner::") and base == "with_capacity_in":
        return done(VOpaque("rawbuf", None))
    # what extends a string by the items of an iterator: each item is pushed
    if defn.startswith("std::string::SpecExtend") and base == "spec_extend_into" and fn is not None:
        for b in fn.blocks:
            u = b["t"]
            if u["t"] == "call" and u.get("def") == "std::iter::Iterator::for_each" and \
                    u["atys"][0] == t["atys"][0]:
                g = m.prog.fns.get(u["inst"])
                if g is not None:
                    return m.enter(st, fr, t, g, [args[0], VAgg(u["atys"][1], 0, (args[1],))], dst)
    if re.search(r"::spec_extend_into::{closure#\d+}$", name) and len(args) == 2:
        ref = deref(m, st, args[0])
        while isinstance(ref, VAgg) and len(ref.f) == 1:
            ref = ref.f[0]
        if isinstance(ref, VRef):
            x = args[1]
            while isinstance(x, VAgg) and len(x.f) == 1:
                x = x.f[0]
            m.job.append(m, st, ref.cell, ref.path, text_of(m, st, x))
            return done(VAgg(dty, 0, ()))
    if adt(m, dty) == "std::string::String" and m.prog.ty(dty)["k"] == "adt":
        if defn in ("std::string::String::new", "std::string::String::with_capacity",
                    "std::default::Default::default"):
            return done(string(""))
        if base in ("from", "to_string", "to_owned", "into", "clone", "format", "to_uppercase") and \
                len(args) == 1:
            x = text_of(m, st, args[0])
            if x is not None:
                return done(string(x.upper() if base == "to_uppercase" else x))
        if defn == "std::ops::Add::add" and len(args) == 2:
            c = ("H", fresh_id())
            st.mem[c] = args[0]
            m.job.append(m, st, c, (), text_of(m, st, args[1]))
            return done(m.read(st, c, ()))
    if args and isinstance(args[0], VRef):
        ref = args[0]
        v = m.read(st, ref.cell, ref.path)
        while isinstance(v, VRef):
            ref, v = v, m.read(st, v.cell, v.path)
        if isinstance(v, VOpaque) and v.k == "formatter":
            if base in ("write_str", "write_char", "write_fmt", "pad") and len(args) == 2:
                m.job.append(m, st, v.d[0], v.d[1], text_of(m, st, args[1]))
                return ok()
        if isinstance(v, VOpaque) and v.k == "string":
            if base in ("push", "push_str", "add_assign") and len(args) == 2:
                m.job.append(m, st, ref.cell, ref.path, text_of(m, st, args[1]))
                return done(VAgg(dty, 0, ()))
            if base in ("write_str", "write_char", "write_fmt") and len(args) == 2:
                m.job.append(m, st, ref.cell, ref.path, text_of(m, st, args[1]))
                return ok()
            if base in ("as_str", "deref", "as_ref", "borrow", "as_bytes", "as_mut_str"):
                return done(v)
            if base == "clear" and (ACC not in v.d or m.job.name == "print"):
                if ACC in v.d:
                    m.job.dropped(m, st)
                m.write(st, ref.cell, ref.path, string(""))
                return done(VAgg(dty, 0, ()))
            if base in ("len", "capacity") and len(args) == 1:
                if base == "len" and not set(v.d) & {ACC, ANY, PART}:
                    return done(VInt(Poly.const(len(v.d.encode())), dty))
                # a string that has taken up letters is not empty
                low = sum(c != ANY for c in v.d)
                return done(VInt(Poly.sym(new_sym(base, low, (1 << 63) - 1)), dty))
            if base == "is_empty":
                return done(v.d == "")
    if defn == "std::fmt::Formatter::<'a>::new" and args and isinstance(args[0], VRef):
        return done(VOpaque("formatter", (args[0].cell, args[0].path)))
    # displaying a text through its own implementation
    if base == "fmt" and len(args) == 2 and "Display" in name:
        f = deref(m, st, args[1])
        x = text_of(m, st, args[0])
        if isinstance(f, VOpaque) and f.k == "formatter" and x is not None and \
                (fn is None or not fn.local):
            m.job.append(m, st, f.d[0], f.d[1], x)
            return ok()
    return None
