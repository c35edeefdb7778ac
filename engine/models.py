"""Abstract semantics of the standard library items the analysed code may use.  Everything not
listed here is followed through its own MIR body, or rejected as unsupported."""
import re
from poly import Poly, ZERO, ONE
from facts import new_sym
import text
import interp as I
from interp import (VInt, VAgg, VRef, VBox, VRc, VStream, VFn, VStr, VOpaque, VTok, VUninit,
                    UNINIT, Split, Panic, Unsupported, rng, fresh_id, same_value)

NUM = re.compile(r"^(?:core|std)::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$")

# functions without an effect on the abstract state that return unit
NOOPS = ("::precondition_check", "intrinsics::cold_path", "intrinsics::assert_inhabited",
         "intrinsics::assume", "hint::assert_unchecked", "::std::mem::forget")
IDENT = ("intrinsics::likely", "intrinsics::unlikely", "hint::black_box", "intrinsics::black_box",
         "std::convert::identity", "std::hint::must_use")


def opt(m, dty, v=None, tag=None):
    """build an Option of type dty"""
    return VAgg(dty, 0 if v is None else 1, () if v is None else (v,), tag)


def ordering(m, dty, s):
    return VAgg(dty, s + 1, ())


def find_ordering(m):
    for i, t in m.prog.types.items():
        if t["k"] == "adt" and t["name"] == "std::cmp::Ordering":
            return i
    return None


def deref(m, st, v):
    if isinstance(v, VRef):
        return m.read(st, v.cell, v.path)
    return v


def items_of(v):
    """the array inside layers of MaybeUninit and the like"""
    while isinstance(v, VAgg) and len(v.f) in (1, 2) and isinstance(v.f[-1], VAgg) and \
            (v.ty is None or v.f[0] is UNINIT or len(v.f) == 1) and not v.tag == "items":
        v = v.f[-1]
    return v


def vectors(m, st, t, name, defn, args, dty):
    """growable arrays of known length: VAgg(type, 0, (items,))"""
    def make(items):
        return VAgg(dty, 0, (VAgg(None, 0, tuple(items), "items"),))

    def number(k):
        return VInt(Poly.const(k), m.usize())

    base = defn.split("::")[-1]
    if defn == "std::boxed::Box::<T>::new_uninit":
        c = ("H", fresh_id())
        st.mem[c] = UNINIT
        return VBox(c)
    if defn == "std::boxed::box_assume_init_into_vec_unsafe":
        return make(items_of(st.mem.pop(args[0].cell)).f)
    if name.startswith("<std::boxed::Box<") and name.endswith(" as std::ops::Drop>::drop"):
        return VAgg(dty, 0, ())     # the content has been moved out, the storage goes away
    if defn in ("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity"):
        return make(())
    if base == "into_iter" and name.startswith("<std::vec::Vec<"):
        return make(args[0].f[0].f)
    if not args or not isinstance(args[0], VRef) or "std::vec::" not in name:
        return None
    ref = args[0]
    v = m.read(st, ref.cell, ref.path)
    if not isinstance(v, VAgg) or len(v.f) != 1 or not isinstance(v.f[0], VAgg) or \
            v.f[0].tag != "items":
        return None
    items = v.f[0].f

    def put(new):
        m.write(st, ref.cell, ref.path, VAgg(v.ty, 0, (VAgg(None, 0, tuple(new), "items"),)))

    if base == "next":
        if not items:
            return opt(m, dty)
        put(items[1:])
        return opt(m, dty, items[0])
    if base == "next_back" or base == "pop":
        if not items:
            return opt(m, dty)
        put(items[:-1])
        return opt(m, dty, items[-1])
    if base == "push":
        if len(items) > 64:
            raise Unsupported("array grows without a bound")
        put(items + (args[1],))
        return VAgg(dty, 0, ())
    if base == "extend" and len(args) == 2 and isinstance(args[1], VAgg):
        x = args[1]
        xt = m.prog.ty(x.ty) if isinstance(x.ty, int) else {}
        if xt.get("name") == "std::option::Option" or xt.get("k") == "array":
            put(items + tuple(x.f))
            return VAgg(dty, 0, ())
        if len(x.f) == 1 and isinstance(x.f[0], VAgg) and x.f[0].tag == "items":
            put(items + tuple(x.f[0].f))
            return VAgg(dty, 0, ())
    if base == "len":
        return number(len(items))
    if base == "is_empty":
        return not items
    if base in ("deref", "deref_mut", "as_slice", "as_mut_slice"):
        return VRef(ref.cell, ref.path + (0,), (0, len(items)))
    if base in ("index", "index_mut") and isinstance(args[1], VInt):
        k = args[1].p.const_value()
        if k is None:
            raise Unsupported("symbolic index")
        if k >= len(items):
            raise Panic("bounds", "index out of bounds")
        return VRef(ref.cell, ref.path + (0, int(k)))
    return None


def call(m, st, fr, t, fn, defn, args, dst):
    """None: not modelled"""
    name = fn.name if fn is not None else defn
    dty = t["dty"]
    dt = m.prog.ty(dty)

    def done(v):
        return m.finish(st, fr, t, dst, v)

    # -- the job may intercept (stream reads, prints, ...)
    r = m.job.intercept(m, st, fr, t, fn, defn, args, dst)
    if r is not None:
        return r

    if m.job.name == "print":
        r = text.letter_vectors(m, st, t, defn, args, dst, done)
        if r is not None:
            return r

    # -- diverging library calls are panics
    if dt["k"] == "never" and (fn is None or not fn.local):
        msg = None
        for a in args:
            if isinstance(a, VStr):
                msg = a.s
                break
            if isinstance(a, VOpaque) and a.k == "fmt":
                msg = a.d
                break
        base = defn.split("::")[-1]
        if "process::exit" in defn or "process::abort" in defn:
            raise Panic("exit", defn)
        raise Panic("panic", msg if msg is not None else base)

    g = NUM.match(defn)
    if g:
        r = num(m, st, g.group(1), g.group(2), args, dty, t)
        if r is not None:
            return done(r)

    base = defn.split("::")[-1]

    if defn in ("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect"):
        v = args[0]
        if isinstance(v, VTok):
            raise Unsupported("unwraps a recursive call's result")
        if v.variant == 0:
            msg = args[1].s if len(args) > 1 and isinstance(args[1], VStr) else "unwrap on None"
            raise Panic("unwrap", msg, v.tag == "overflow")
        return done(v.f[0])

    if defn in ("std::convert::From::from", "std::convert::Into::into",
                "<T as std::convert::From<T>>::from", "<T as std::convert::Into<T>>::into") and \
            t.get("atys") == [dty]:
        return done(args[0])

    if "std::vec::" in name or "std::boxed::" in name:
        r = vectors(m, st, t, name, defn, args, dty)
        if r is not None:
            return done(r)

    if defn == "std::mem::swap":
        a, b = args
        va, vb = m.read(st, a.cell, a.path), m.read(st, b.cell, b.path)
        m.write(st, a.cell, a.path, vb)
        m.write(st, b.cell, b.path, va)
        return done(VAgg(dty, 0, ()))
    if base == "typed_swap_nonoverlapping":
        a, b = args
        va, vb = m.read(st, a.cell, a.path), m.read(st, b.cell, b.path)
        m.write(st, a.cell, a.path, vb)
        m.write(st, b.cell, b.path, va)
        return done(VAgg(dty, 0, ()))
    if defn == "std::mem::replace":
        a, v = args
        old = m.read(st, a.cell, a.path)
        m.write(st, a.cell, a.path, v)
        return done(old)
    if defn == "std::mem::drop":
        m.drop(st, args[0])
        return done(VAgg(dty, 0, ()))
    if defn in ("std::mem::forget",):
        return done(VAgg(dty, 0, ()))
    if base in ("read_via_copy",) or defn in ("std::ptr::read",):
        return done(m.read(st, args[0].cell, args[0].path))
    if base in ("write_via_move",) or defn in ("std::ptr::write",):
        m.write(st, args[0].cell, args[0].path, args[1])
        return done(VAgg(dty, 0, ()))
    if defn == "std::option::Option::<T>::take":
        a = args[0]
        old = m.read(st, a.cell, a.path)
        m.write(st, a.cell, a.path, VAgg(dty, 0, ()))
        return done(old)
    if defn == "std::option::Option::<T>::replace":
        a = args[0]
        old = m.read(st, a.cell, a.path)
        m.write(st, a.cell, a.path, VAgg(dty, 1, (args[1],)))
        return done(old)

    if any(defn.endswith(x) for x in NOOPS):
        return done(VAgg(dty, 0, ()))
    if any(defn.endswith(x) for x in IDENT):
        return done(args[0])

    if base in ("integer_min", "integer_max") and defn.startswith("std::intrinsics::"):
        s = m.cmp3(st, args[0], args[1])
        return done(args[0] if (s <= 0) == (base == "integer_min") else args[1])

    if base == "ptr_offset_from_unsigned" or base == "ptr_offset_from":
        a, b = args
        if isinstance(a, VRef) and isinstance(b, VRef) and a.cell == b.cell and a.path and \
                a.path[:-1] == b.path[:-1]:
            return done(VInt(Poly.const(a.path[-1] - b.path[-1]), dty))
        raise Unsupported("distance of pointers")

    # -- boxes and reference counts
    if defn in ("std::boxed::Box::<T>::new", "std::boxed::Box::<T>::pin"):
        c = ("H", fresh_id())
        st.mem[c] = args[0]
        return done(VBox(c))
    if defn == "std::boxed::Box::<T>::into_inner":
        return done(st.mem.pop(args[0].cell, UNINIT))
    if defn in ("std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new"):
        c = ("H", fresh_id())
        st.mem[c] = args[0]
        st.rc[c] = 1
        return done(VRc(c))
    if defn.startswith("std::rc::Rc::") or defn.startswith("std::sync::Arc::"):
        if base == "get_mut":
            rc = deref(m, st, args[0])
            if st.rc.get(rc.cell) == 1:
                return done(opt(m, dty, VRef(rc.cell)))
            return done(opt(m, dty))
        if base == "try_unwrap":
            rc = args[0]
            if st.rc.get(rc.cell) == 1:
                v = st.mem.pop(rc.cell)
                st.rc.pop(rc.cell)
                return done(VAgg(dty, 0, (v,)))
            return done(VAgg(dty, 1, (rc,)))
        if base == "into_inner":
            rc = args[0]
            if st.rc.get(rc.cell) == 1:
                v = st.mem.pop(rc.cell)
                st.rc.pop(rc.cell)
                return done(opt(m, dty, v))
            m.drop(st, rc)
            return done(opt(m, dty))
        if base == "strong_count":
            rc = deref(m, st, args[0])
            return done(VInt(Poly.const(st.rc.get(rc.cell)), dty))
        if base == "weak_count":
            return done(VInt(ZERO, dty))
        if base == "ptr_eq":
            return done(deref(m, st, args[0]).cell == deref(m, st, args[1]).cell)
    if args and isinstance(args[0], VRef) and defn in ("std::clone::Clone::clone",):
        v = deref(m, st, args[0])
        if isinstance(v, VRc):
            st.rc[v.cell] += 1
            return done(v)
        if isinstance(v, (VInt, bool, VRef, VStr)):
            return done(v)
        if isinstance(v, VAgg) and (fn is None or fn.blocks is None) and plain(v):
            return done(v)
    if defn in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
                "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
                "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut"):
        v = deref(m, st, args[0])
        if isinstance(v, (VBox, VRc)):
            return done(VRef(v.cell))

    # -- text
    r = text.call(m, st, fr, t, fn, defn, base, args, dst, done)
    if r is not None:
        return r

    # -- comparison of integers and plain enums
    if defn in ("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min"):
        a, b = args
        if isinstance(a, VInt):
            s = m.cmp3(st, a, b)
            if base == "max":
                return done(a if s > 0 else b)
            return done(b if s > 0 else a)
    if defn in ("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp"):
        a, b = deref(m, st, args[0]), deref(m, st, args[1])
        if isinstance(a, VInt) and isinstance(b, VInt):
            s = m.cmp3(st, a, b)
            if base == "cmp":
                return done(ordering(m, dty, s))
            return done(opt(m, dty, ordering(m, find_ordering(m), s)))
    if defn in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
        a, b = deref(m, st, args[0]), deref(m, st, args[1])
        while isinstance(a, VRef) and isinstance(b, VRef):
            a, b = deref(m, st, a), deref(m, st, b)
        if isinstance(a, VInt) and isinstance(b, VInt):
            return done(m.compare(st, "Eq" if base == "eq" else "Ne", a, b))
        if isinstance(a, VAgg) and isinstance(b, VAgg) and (derived_eq(m, a) or fn.blocks is None):
            e = struct_eq(m, st, a, b)
            return done(e if base == "eq" else not e)
    if defn == "std::intrinsics::discriminant_value" or base == "discriminant_value":
        v = deref(m, st, args[0])
        return done(m.discr(st, v, None, dty))
    if defn in ("std::cmp::Ordering::then",):
        a, b = args
        return done(b if a.variant == 1 else a)
    if defn in ("std::cmp::Ordering::reverse",):
        return done(VAgg(args[0].ty, 2 - args[0].variant, ()))

    # -- calling closures and function values
    if defn in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
        f = args[0]
        if isinstance(f, VRef):
            f0 = deref(m, st, f)
            if isinstance(f0, VFn):
                f = f0
        if isinstance(f, VFn):
            g2 = m.prog.fns.get(f.inst)
            if g2 is not None:
                a2 = list(args[1].f) if isinstance(args[1], VAgg) else args[1:]
                r = call(m, st, fr, dict(t, args=t["args"]), g2, g2.def_, a2, dst)
                if r is not None:
                    return r
                if g2.blocks is not None:
                    return m.enter(st, fr, t, g2, a2, dst)
        if fn is not None and fn.blocks is not None:
            a2 = args
            if fn.kind == "Item":
                # closure instance: by-ref self for Fn/FnMut bodies invoked by value
                want_ref = m.prog.ty(fn.locals[1])["k"] == "ref"
                if want_ref and not isinstance(args[0], VRef):
                    c = ("H", fresh_id())
                    st.mem[c] = args[0]
                    a2 = [VRef(c)] + args[1:]
                return m.enter(st, fr, t, fn, untuple(m, fn, a2), dst)
        if isinstance(f, VRef):
            f = deref(m, st, f)
        if isinstance(f, VAgg) and isinstance(f.ty, int) and m.prog.ty(f.ty)["k"] == "closure":
            g2 = m.prog.fns.get(m.prog.ty(f.ty)["inst"])
            if g2 is not None and g2.blocks is not None:
                want_ref = m.prog.ty(g2.locals[1])["k"] == "ref"
                a0 = args[0]
                if want_ref and not isinstance(a0, VRef):
                    c = ("H", fresh_id())
                    st.mem[c] = a0
                    a0 = VRef(c)
                elif not want_ref and isinstance(a0, VRef):
                    a0 = f
                return m.enter(st, fr, t, g2, untuple(m, g2, [a0] + args[1:]), dst)

    if fn is not None and fn.kind == "Virtual":
        v = deref(m, st, args[0])
        if isinstance(v, VAgg) and isinstance(v.ty, int):
            g2 = m.prog.dispatch(v.ty, fn)
            if g2 is not None and g2.blocks is not None:
                return m.enter(st, fr, t, g2, args, dst)
        raise Unsupported("dynamic call %s" % defn)
    if "::fmt::" in defn or defn.startswith("std::fmt::"):
        raise Unsupported("formatting call %s" % defn)
    return None


def untuple(m, fn, args):
    """closure bodies take the elements of the argument tuple one by one"""
    ty = m.prog.ty(fn.locals[1])
    if ty["k"] == "ref":
        ty = m.prog.ty(ty["to"])
    if ty["k"] == "closure" and len(args) == 2 and isinstance(args[1], VAgg):
        return [args[0]] + list(args[1].f)
    return args


def plain(v):
    if isinstance(v, VAgg):
        return all(plain(x) for x in v.f)
    return isinstance(v, (VInt, bool, VStr))


def derived_eq(m, v):
    """plain data whose equality is structural: library types, or local enums without fields
    (their derived impl is still interpreted when it has a body, see callers)"""
    if not isinstance(v.ty, int):
        return False
    ty = m.prog.ty(v.ty)
    return ty["k"] in ("tuple", "array")


def struct_eq(m, st, a, b):
    if isinstance(a, bool):
        return a == b
    if isinstance(a, VInt):
        return m.compare(st, "Eq", a, b)
    if isinstance(a, VAgg) and isinstance(b, VAgg):
        if a.variant != b.variant:
            return False
        return all(struct_eq(m, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VRef) and isinstance(b, VRef):
        return struct_eq(m, st, deref(m, st, a), deref(m, st, b))
    raise Unsupported("equality of %s" % type(a).__name__)


def num(m, st, tyname, op, args, dty, t):
    a = deref(m, st, args[0]) if args else None
    ty = None
    for i, x in m.prog.types.items():
        if x["k"] == "int" and x["str"] == tyname:
            ty, tid = x, i
            break
    if ty is None:
        return None
    lo, hi = rng(ty)
    dt = m.prog.ty(dty)
    b = deref(m, st, args[1]) if len(args) > 1 else None

    def P(op2):
        if op2 in ("add", "sub", "mul"):
            return m.arith(op2.capitalize(), a, b)
        if op2 == "neg":
            return -a.p, None
        if op2 == "abs":
            return (a.p if m.sign_of(st, a.p) >= 0 else -a.p), None
        return None

    if op == "max_value":
        return VInt(Poly.const(hi), tid)
    if op == "min_value":
        return VInt(Poly.const(lo), tid)
    if op == "signum":
        return VInt(Poly.const(m.sign_of(st, a.p)), tid)
    if op == "is_negative":
        return m.compare(st, "Lt", a, VInt(ZERO, tid))
    if op == "is_positive":
        return m.compare(st, "Gt", a, VInt(ZERO, tid))
    if op == "unsigned_abs":
        return VInt(a.p if m.sign_of(st, a.p) >= 0 else -a.p, dty)
    if op == "abs_diff":
        s = m.sign_of(st, a.p - b.p)
        return VInt(a.p - b.p if s >= 0 else b.p - a.p, dty)
    if op == "abs":
        p = a.p if m.sign_of(st, a.p) >= 0 else -a.p
        if m.range_split(st, p, ty, "abs", hard=True):
            return VInt(p, tid)
        raise Panic("arith-overflow", "abs", True)
    if op.startswith("checked_"):
        k = op[8:]
        if k in ("div", "rem") and b.p.const_value() not in (None, 0, -1):
            return opt(m, dty, VInt(m.divmod_const(st, a.p, int(b.p.const_value()), ty,
                                                   "q" if k == "div" else "r"), tid))
        if k == "pow" and b.p.const_value() is not None and int(b.p.const_value()) <= 3:
            p = ONE
            for _ in range(int(b.p.const_value())):
                p = p * a.p
            r = (p, None)
        else:
            r = P(k)
        if r is None:
            return None
        if m.range_split(st, r[0], ty, op):
            return opt(m, dty, VInt(r[0], tid, r[1]))
        return opt(m, dty, None, "overflow")
    if op.startswith("overflowing_"):
        r = P(op[12:])
        if r is None:
            return None
        if m.range_split(st, r[0], ty, op):
            return VAgg(dty, 0, (VInt(r[0], tid, r[1]), False))
        st.ovf = True
        return VAgg(dty, 0, (VInt(Poly.sym(new_sym("wrapped", lo, hi)), tid), True))
    if op.startswith("wrapping_") or op.startswith("unchecked_"):
        k = op.split("_", 1)[1]
        r = P(k)
        if r is None:
            if k in ("div", "rem") and b.p.const_value() not in (None, 0, -1):
                return VInt(m.divmod_const(st, a.p, int(b.p.const_value()), ty,
                                           "q" if k == "div" else "r"), tid)
            return None
        q, w = m.wrap_split(st, r[0], ty)
        if w:
            st.lossy = st.lossy + (m.site(st),)
        return VInt(q, tid, r[1] if q is r[0] else None)
    if op.startswith("saturating_"):
        r = P(op[11:])
        if r is None:
            return None
        if m.in_range(st, r[0], ty) is True:
            return VInt(r[0], tid, r[1])
        s = m.sign_of(st, r[0])
        if m.range_split(st, r[0], ty, op):
            return VInt(r[0], tid, r[1])
        st.lossy = st.lossy + (m.site(st),)
        return VInt(Poly.const(hi if s > 0 else lo), tid)
    if op in ("rem_euclid", "div_euclid") and b.p.const_value() and b.p.const_value() > 0:
        k = int(b.p.const_value())
        q = m.floor_div(st, a.p, k)
        return VInt(q if op == "div_euclid" else a.p - q * k, tid)
    if op == "pow" and b.p.const_value() is not None and int(b.p.const_value()) <= 3:
        p = ONE
        for _ in range(int(b.p.const_value())):
            p = p * a.p
        if m.range_split(st, p, ty, "pow"):
            return VInt(p, tid)
        raise Panic("arith-overflow", "pow", True)
    if op == "is_multiple_of" and b.p.const_value() not in (None, 0):
        r = m.divmod_const(st, a.p, int(b.p.const_value()), ty, "r")
        return m.compare(st, "Eq", VInt(r, tid), VInt(ZERO, tid))
    if op == "trailing_zeros":
        # zero exactly for odd numbers
        k = ty["bits"]
        if a.p.const_value() is not None:
            c = int(a.p.const_value())
            return VInt(Poly.const((c & -c).bit_length() - 1 if c else k), dty)
        if m.sign_of(st, a.p - m.floor_div(st, a.p, 2) * 2):
            return VInt(ZERO, dty)
        if m.sign_of(st, a.p) == 0:
            return VInt(Poly.const(k), dty)
        return VInt(Poly.sym(new_sym("zeros", 1, k - 1)), dty)
    return None
