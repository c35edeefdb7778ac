"""Forward abstract interpretation of MIR with a trace-partitioned relational domain.

States are never concrete: integers are exact polynomials over symbols constrained by the Facts
domain, streams are opaque, and every loop or recursion that reads a stream is closed by a cut
(widening) instead of being unrolled."""
from fractions import Fraction
from poly import Poly, ZERO, ONE
import facts as F
from facts import Facts, new_sym
from mir import short


class Unsupported(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


class Split(Exception):
    """the current step needs a case distinction; alts are (label, assume(state)->bool)"""

    def __init__(self, alts):
        Exception.__init__(self)
        self.alts = alts


class Defer(Exception):
    """the state is better looked at after the others"""


class Panic(Exception):
    def __init__(self, kind, msg=None, overflow=False):
        Exception.__init__(self)
        self.kind = kind
        self.msg = msg
        self.overflow = overflow


# ---- values ---------------------------------------------------------------------------------
class VInt:
    __slots__ = ("p", "ty", "fac")

    def __init__(self, p, ty, fac=None):
        self.p = p
        self.ty = ty
        self.fac = fac


class VAgg:
    __slots__ = ("ty", "variant", "f", "tag")

    def __init__(self, ty, variant, f, tag=None):
        self.ty = ty
        self.variant = variant
        self.f = f
        self.tag = tag


class VRef:
    __slots__ = ("cell", "path", "n")

    def __init__(self, cell, path=(), n=None):
        self.cell = cell
        self.path = path
        self.n = n  # slice bounds (start,len) or None


class VBox:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class VRc:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class VStream:
    """opaque strategy object of an arbitrary operand stream"""
    __slots__ = ("sid",)

    def __init__(self, sid):
        self.sid = sid


class VFn:
    __slots__ = ("inst", "ty")

    def __init__(self, inst, ty):
        self.inst = inst
        self.ty = ty


class VStr:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class VOpaque:
    __slots__ = ("k", "d")

    def __init__(self, k, d=None):
        self.k = k
        self.d = d


class VTok:
    """result of a recursive call that is analysed separately"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class VUninit:
    __slots__ = ()


UNINIT = VUninit()
TRANSPARENT = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling",
               "std::cell::UnsafeCell", "std::cell::Cell")
UNIT_F = ()


class Frame:
    __slots__ = ("fn", "fid", "blk", "idx", "dst", "to", "tok")

    def __init__(self, fn, fid, dst, to):
        self.fn = fn
        self.fid = fid
        self.blk = 0
        self.idx = 0
        self.dst = dst
        self.to = to
        self.tok = None

    def copy(self):
        f = Frame(self.fn, self.fid, self.dst, self.to)
        f.blk = self.blk
        f.idx = self.idx
        f.tok = self.tok
        return f


_ctr = [0]


def fresh_id():
    _ctr[0] += 1
    return _ctr[0]


class State:
    __slots__ = ("frames", "mem", "rc", "facts", "led", "streams", "ovf", "lossy", "reads",
                 "marks", "trace", "visits", "divs", "tokmode", "depth0", "merged",
                 "pending")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.rc = {}
        self.facts = Facts()
        self.led = None
        self.streams = {}
        self.ovf = False
        self.lossy = ()
        self.reads = 0
        self.marks = {}
        self.trace = None
        self.visits = {}
        self.divs = {}
        self.tokmode = None
        self.depth0 = 0
        self.merged = False
        self.pending = None   # finding that stands unless the repetition ends right here

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.rc = dict(self.rc)
        s.facts = self.facts.copy()
        s.led = self.led.copy() if self.led is not None else None
        s.streams = dict(self.streams)
        s.ovf = self.ovf
        s.lossy = self.lossy
        s.reads = self.reads
        s.marks = dict(self.marks)
        s.trace = self.trace
        s.visits = dict(self.visits)
        s.divs = dict(self.divs)
        s.tokmode = self.tokmode
        s.depth0 = self.depth0
        s.merged = self.merged
        s.pending = self.pending
        return s

    def note(self, txt):
        self.trace = (self.trace, txt)

    def trace_list(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    # -- substitution of an integer symbol that is known to equal p
    def subst(self, s, p):
        def go(v):
            if isinstance(v, VInt):
                q = v.p.subst(s, p)
                if q is v.p and (v.fac is None):
                    return v
                fac = v.fac
                if fac is not None:
                    fac = (fac[0].subst(s, p), fac[1].subst(s, p))
                    if fac[0].is_const() or fac[1].is_const():
                        fac = None
                return VInt(q, v.ty, fac)
            if isinstance(v, VAgg):
                f = tuple(go(x) for x in v.f)
                if all(a is b for a, b in zip(f, v.f)):
                    return v
                return VAgg(v.ty, v.variant, f, v.tag)
            return v
        for c in list(self.mem):
            v = self.mem[c]
            w = go(v)
            if w is not v:
                self.mem[c] = w
        if self.led is not None:
            self.led.subst(s, p)
        self.divs = {tuple(x.subst(s, p) if isinstance(x, Poly) else x for x in k):
                     (q.subst(s, p) if isinstance(q, Poly) else q)
                     for k, q in self.divs.items()}
        return self.facts.subst(s, p)

    def settle(self):
        """substitute equalities that bound propagation has established on the way"""
        for _ in range(8):
            for H, (lo, hi) in self.facts.iv.items():
                if lo is not None and lo == hi and H.is_linear() and \
                        any(k in (1, -1) for k in H.t.values()):
                    if not self.assume_eq0(H - lo):
                        return False
                    break
            else:
                return True
        return True

    def assume_eq0(self, P):
        """P == 0; substitutes a symbol away when possible"""
        H, q, c = P.normal()
        if H is None:
            if c != 0:
                self.facts.empty = True
            return c == 0
        if Fraction(-c) / q != int(Fraction(-c) / q):
            return False
        if not self.facts.assume_ge0(P) or not self.facts.assume_ge0(-P):
            return False
        if H.is_linear():
            best = None
            for (m, k) in H.t.items():
                if k in (1, -1):
                    s = m[0]
                    if best is None or s > best[0]:
                        best = (s, k)
            if best:
                s, k = best
                # k*s + rest = v
                v = Poly.const(int(Fraction(-c) / q))
                rest = H - Poly({(s,): k})
                val = (v - rest).scale(k)
                return self.subst(s, val)
        return True

    def assume_ge0(self, P):
        if not self.facts.assume_ge0(P):
            return False
        H, q, c = P.normal()
        if H is not None and self.facts.equality(H):
            return self.assume_eq0(H - self.facts.iv[H][0])
        return True

    def assume_ne0(self, P):
        if not self.facts.assume_ne0(P):
            return False
        H, q, c = P.normal()
        if H is not None and self.facts.equality(H):
            return self.assume_eq0(H - self.facts.iv[H][0])
        return True

    def order(self, A, C, strict):
        """record A <= C for products given as factor pairs"""
        self.facts.orders = self.facts.orders + ((A[0], A[1], C[0], C[1], strict),)


BITS = ("BitOr", "BitAnd", "BitXor")


def fac_of(v):
    return v.fac if v.fac is not None else (v.p, ONE)


def rng(ty):
    if ty["k"] == "bool":
        return 0, 1
    if ty["k"] == "char":
        return 0, 0x10FFFF
    b = ty["bits"]
    if ty["signed"]:
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


class Finding:
    def __init__(self, cls, site, what, st=None, detail=None):
        self.cls = cls
        self.site = site
        self.what = what
        self.detail = detail
        self.trace = st.trace_list() if st is not None else []

    def key(self):
        return (self.cls, self.site, self.what)


class Machine:
    def __init__(self, prog, job=None, max_states=400000):
        self.deferred = []      # states at cuts whose representation is still ambiguous
        self.draining = False
        self.prog = prog
        self.job = job
        self.findings = []
        self._fkeys = set()
        self.work = []
        self.cuts = {}
        self.hull = {}
        self.exact = False      # bounds at cuts through chains of linear facts
        self.assumed = {}
        self.cutvariants = {}
        self.max_states = max_states
        self.nstates = 0
        self.nsteps = 0
        self.fns_seen = set()
        self.blocks_seen = set()
        self.reads_sites = set()
        self.obligations = 0
        self.discharged = 0
        self.returns = 0
        self.panics = {}
        self.stop = None
        rd = {f.id for f in prog.fns.values() if self.is_read_fn(f)}
        self.reach_read = prog.reach_set(rd)
        self._const_cells = {}

    # ---- naming ---------------------------------------------------------------------------
    def is_read_fn(self, f):
        return f.name.endswith("::Clog::egest") or f.kind == "Virtual" or \
            f.id in self.prog.reader_fns or f.def_ in self.prog.reader_defs

    def finding(self, cls, site, what, st=None, detail=None):
        if st is not None and st.facts.is_empty():
            return False
        fd = Finding(cls, site, what, st, detail)
        if fd.key() not in self._fkeys:
            self._fkeys.add(fd.key())
            self.findings.append(fd)
        if st is not None and st.lossy and cls in ("value", "inv", "end", "div0", "panic"):
            self.finding("overflow", st.lossy[0], "wrapped or truncated integer reaches a result",
                         st)
        return True

    def site(self, st, sp=None):
        """innermost frame in the analysed crate: 'file:line fn'"""
        for fr in reversed(st.frames):
            if fr.fn.local or fr.fn.krate == self.prog.krate:
                if sp is None or fr is not st.frames[-1]:
                    b = fr.fn.blocks[fr.blk]
                    if fr.idx < len(b["s"]) and b["s"][fr.idx][0] == "=":
                        sp2 = b["s"][fr.idx][3]
                    else:
                        sp2 = b["t"].get("sp")
                else:
                    sp2 = sp
                return "%s in %s" % (short(sp2), fr.fn.name)
        return "?"

    # ---- memory ---------------------------------------------------------------------------
    def read(self, st, cell, path):
        v = st.mem.get(cell, UNINIT)
        for i in path:
            if isinstance(v, (VBox, VRef, VRc)):
                continue
            if isinstance(v, VTok):
                raise Unsupported("use of a recursive call's partial result")
            if not isinstance(v, VAgg):
                raise Unsupported("field of %s" % type(v).__name__)
            if isinstance(i, tuple):
                v = VAgg(v.ty, v.variant, v.f[i[1]:i[1] + i[2]])
                continue
            if i >= len(v.f):
                raise Unsupported("field index")
            v = v.f[i]
        return v

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self._wr(st.mem.get(cell, UNINIT), path, val)

    def _wr(self, v, path, val):
        if not path:
            return val
        i = path[0]
        if isinstance(v, (VBox, VRef, VRc)):
            return self._wr(v, path[1:], val)
        if isinstance(v, VUninit):
            f = (UNINIT,) * (i + 1)
            v = VAgg(None, 0, f)
        if not isinstance(v, VAgg):
            raise Unsupported("write into %s" % type(v).__name__)
        f = list(v.f)
        if isinstance(i, tuple):
            _, a, n = i
            f[a:a + n] = val.f if isinstance(val, VAgg) else (val,) * n
            return VAgg(v.ty, v.variant, tuple(f), v.tag)
        while len(f) <= i:
            f.append(UNINIT)
        f[i] = self._wr(f[i], path[1:], val)
        return VAgg(v.ty, v.variant, tuple(f), v.tag)

    def place(self, st, p):
        fr = st.frames[-1]
        cell, path = (fr.fid, p[0]), ()
        for pr in p[1]:
            if pr == "*":
                v = self.read(st, cell, path)
                if isinstance(v, VRef):
                    cell, path = v.cell, v.path
                    if v.n is not None:
                        path = path + (("sl",) + v.n,)
                elif isinstance(v, (VBox, VRc)):
                    cell, path = v.cell, ()
                elif isinstance(v, VStr):
                    return ("str", v.s), ()
                elif isinstance(v, VTok):
                    self.expand_tok(st, cell, path, v)
                    raise Unsupported("dereference of a recursive call's result")
                else:
                    raise Unsupported("dereference of %s" % type(v).__name__)
            elif pr[0] == "f":
                path = path + (pr[1],)
            elif pr[0] == "v":
                v = self.read(st, cell, path)
                if isinstance(v, VTok):
                    raise Unsupported("use of a recursive call's partial result")
            elif pr[0] in ("i", "c"):
                if pr[0] == "i":
                    iv = self.read(st, (fr.fid, pr[1]), ())
                    k = iv.p.const_value()
                    if k is None:
                        raise Unsupported("symbolic index")
                    k = int(k)
                else:
                    if pr[3]:
                        k = len(self.read(st, cell, path).f) - pr[1]
                    else:
                        k = pr[1]
                if path and isinstance(path[-1], tuple):
                    k += path[-1][1]
                    path = path[:-1]
                path = path + (k,)
            elif pr[0] == "sub":
                _, a, b, back = pr
                n = len(self.read(st, cell, path).f)
                b = (n - b if back else b) - a
                if path and isinstance(path[-1], tuple):
                    a += path[-1][1]
                    path = path[:-1]
                path = path + (("sl", a, b),)
            elif pr[0] == "oc":
                pass
            else:
                raise Unsupported("projection %s" % pr[0])
        return cell, path

    def expand_tok(self, st, cell, path, v):
        pass

    # ---- operands -------------------------------------------------------------------------
    def const(self, st, c):
        if "int" in c:
            return VInt(Poly.const(c["int"]), c["ty"])
        if "bigint" in c:
            return VInt(Poly.const(int(c["bigint"])), c["ty"])
        if "bool" in c:
            return bool(c["bool"])
        if "char" in c:
            x = c["char"]
            return VInt(Poly.const(ord(x) if isinstance(x, str) else x), c.get("ty"))
        if "str" in c:
            return VStr(c["str"])
        if "ref" in c:
            inner = c["ref"]
            if "str" in inner:
                return VStr(inner["str"])
            k = id(c)
            cell = self._const_cells.get(k)
            if cell is None:
                cell = ("K", fresh_id())
                self._const_cells[k] = cell
            if cell not in st.mem:
                st.mem[cell] = self.const(st, inner)
            v = st.mem[cell]
            if isinstance(v, VAgg) and v.ty is not None and isinstance(v.ty, int) and \
                    self.prog.ty(v.ty)["k"] == "array":
                return VRef(cell, ())
            return VRef(cell, ())
        if "agg" in c:
            return VAgg(c["ty"], c.get("variant") or 0,
                        tuple(self.const(st, x) for x in c["agg"]))
        if "array" in c:
            return VAgg(c.get("ty"), 0, tuple(self.const(st, x) for x in c["array"]))
        if "fn" in c:
            return VFn(c["fn"], None)
        if "zst" in c:
            ty = self.prog.ty(c["ty"])
            if ty["k"] in ("fndef",):
                return VFn(ty.get("inst"), c["ty"])
            if ty["k"] == "closure":
                return VAgg(c["ty"], 0, ())
            return VAgg(c["ty"], 0, ())
        return VOpaque("const", str(c)[:80])

    def operand(self, st, o):
        if o[0] == "const":
            return self.const(st, o[1])
        if o[0] == "rtcheck":
            return False
        cell, path = self.place(st, o[1])
        if isinstance(cell, tuple) and cell and cell[0] == "str":
            return VStr(cell[1])
        v = self.read(st, cell, path)
        if o[0] == "move" and not isinstance(v, (VInt, bool)):
            pass  # cleared by the caller after the whole step has been evaluated
        return v

    def clear_moves(self, st, ops):
        for o in ops:
            if o[0] == "move":
                cell, path = self.place(st, o[1])
                v = self.read(st, cell, path)
                if not isinstance(v, (VInt, bool, VRef)):
                    self.write(st, cell, path, UNINIT)

    # ---- decisions ------------------------------------------------------------------------
    def sign_of(self, st, P, fa=None, fb=None):
        """sign of P, splitting when unknown"""
        s = st.facts.sign(P)
        if len(s) == 1:
            return next(iter(s))
        alts = []
        for k in sorted(s):
            alts.append(self._alt_sign(P, k, fa, fb))
        raise Split(alts)

    def _alt_sign(self, P, k, fa=None, fb=None):
        txt = "%s %s 0" % (P.show(F.sym_name), {1: ">", 0: "==", -1: "<"}[k])

        def f(st):
            if k == 0:
                ok = st.assume_eq0(P)
                if fa and ok:
                    st.order(fa, fb, False)
                    st.order(fb, fa, False)
                return ok
            ok = st.assume_ge0(P - 1 if k > 0 else -P - 1)
            if fa and ok:
                if k > 0:
                    st.order(fb, fa, True)
                else:
                    st.order(fa, fb, True)
            return ok
        return (txt, f)

    def _alt_rel(self, P, signs, fa=None, fb=None):
        """assume sign(P) in signs (a subset of {-1,0,1} of size 1 or 2)"""
        if len(signs) == 1:
            return self._alt_sign(P, next(iter(signs)), fa, fb)
        nm = {frozenset({-1, 0}): "<=", frozenset({0, 1}): ">=", frozenset({-1, 1}): "!="}
        txt = "%s %s 0" % (P.show(F.sym_name), nm[frozenset(signs)])

        def f(st):
            if signs == {-1, 0}:
                ok = st.assume_ge0(-P)
                if ok and fa:
                    st.order(fa, fb, False)
            elif signs == {0, 1}:
                ok = st.assume_ge0(P)
                if ok and fa:
                    st.order(fb, fa, False)
            else:
                ok = st.assume_ne0(P)
            return ok
        return (txt, f)

    REL = {"Lt": {-1}, "Le": {-1, 0}, "Gt": {1}, "Ge": {0, 1}, "Eq": {0}, "Ne": {-1, 1}}

    def compare(self, st, op, a, b):
        P = a.p - b.p
        pos = st.facts.sign(P)
        want = self.REL[op]
        if pos <= want:
            return True
        if not (pos & want):
            return False
        fa = fb = None
        if not P.is_linear():
            fa, fb = fac_of(a), fac_of(b)
        raise Split([self._alt_rel(P, pos & want, fa, fb), self._alt_rel(P, pos - want, fa, fb)])

    def in_range(self, st, P, ty, fac=None, hard=False):
        """True/False when decided, else None"""
        lo, hi = rng(ty)
        l, h = st.facts.iv1(P, 1, True) if P.is_linear() else st.facts.iv0(P)
        if fac is not None and not P.is_linear():
            fl, fh = F._mul_iv(*[st.facts.iv1(x, 1, True) if x.is_linear() else st.facts.iv0(x)
                                 for x in fac])
            l = fl if l is None else l if fl is None else max(l, fl)
            h = fh if h is None else h if fh is None else min(h, fh)
        if l is not None and h is not None and l >= lo and h <= hi:
            return True
        if (l is not None and l > hi) or (h is not None and h < lo):
            return False
        if hard and P.is_linear():
            l, h = st.facts.bounds(P)
            if l is not None and h is not None and l >= lo and h <= hi:
                return True
        return None

    def range_split(self, st, P, ty, what, fac=None, hard=False):
        """decide whether P fits ty; splits into fits / does not fit"""
        r = self.in_range(st, P, ty, fac, hard)
        if r is not None:
            return r
        lo, hi = rng(ty)
        key = ("rng", P, ty["bits"], ty["signed"])
        if key in st.divs:
            return st.divs[key]

        def fits(s):
            if P.is_linear():
                return s.assume_ge0(P - lo) and s.assume_ge0(hi - P)
            s.divs[key] = True
            return True

        def no(s):
            s.divs[key] = False
            return True
        raise Split([("", fits), ("%s out of range" % what, no)])

    def wrap_split(self, st, P, ty, fac=None):
        """exact modular reduction of P into ty; returns (poly, wrapped?)"""
        r = self.in_range(st, P, ty, fac)
        if r is True:
            return P, False
        lo, hi = rng(ty)
        M = hi - lo + 1
        l, h = st.facts.iv1(P) if P.is_linear() else st.facts.iv0(P)
        if l is None or h is None:
            kmin, kmax = -3, 3
        else:
            kmin = (int(l) - lo) // M
            kmax = (int(h) - lo) // M
        if kmax - kmin > 4 or not P.is_linear() or l is None:
            if r is None:
                if self.range_split(st, P, ty, "wrapping result", fac):
                    return P, False
            s = new_sym("wrapped", lo, hi)
            return Poly.sym(s), True
        if kmin == kmax:
            return P - kmin * M, kmin != 0
        alts = []
        for k in range(kmin, kmax + 1):
            def f(s, k=k):
                return s.assume_ge0(P - (lo + k * M)) and s.assume_ge0((hi + k * M) - P)
            alts.append(("wraps %d times" % k if k else "", f))
        raise Split(alts)

    def divmod_const(self, st, P, k, ty, want):
        """truncated quotient / remainder of P by the constant k"""
        c = P.const_value()
        if c is not None:
            c = int(c)
            q = abs(c) // abs(k)
            if (c < 0) != (k < 0):
                q = -q
            return Poly.const(q) if want == "q" else Poly.const(c - q * k)
        if k < 0:
            if want == "q":
                return -self.divmod_const(st, P, -k, ty, "q")
            return self.divmod_const(st, P, -k, ty, "r")
        if k == 1:
            return P if want == "q" else ZERO
        # Euclidean decomposition P = k*q + r, 0 <= r < k
        if P.is_linear() and all(isinstance(x, int) for x in P.t.values()) and \
                all(v % k == 0 for m, v in P.t.items() if m):
            r = P.cval() % k
            q = (P - r).scale(Fraction(1, k))
            rp = Poly.const(r)
        else:
            memo = st.divs.get((P, k))
            if memo is None:
                lo, hi = st.facts.iv1(P) if P.is_linear() else st.facts.iv0(P)
                qs = new_sym("q", None if lo is None else int(lo) // k,
                             None if hi is None else int(hi) // k)
                q = Poly.sym(qs)
                st.divs[(P, k)] = q
                st.facts.assume_ge0(P - q * k)
                st.facts.assume_ge0(q * k + (k - 1) - P)
            else:
                q = memo
            rp = P - q * k
        rc = rp.const_value()
        if rc is None and ty["signed"]:
            sg = st.facts.sign(P)
            if not (sg <= {0, 1}):
                # decide exactness first
                s0 = st.facts.sign(rp)
                if len(s0) > 1:
                    raise Split([self._alt_rel(rp, {0}), self._alt_rel(rp, {1})])
                if s0 == {0}:
                    return q if want == "q" else ZERO
                if want == "r" and k == 2:
                    key = ("odd", P)
                    if key in st.divs:
                        return st.divs[key]
                    s = Poly.sym(new_sym("rem", -1, 1))
                    st.facts.assume_ne0(s)
                    st.divs[key] = s
                    return s
                sgn = self.sign_of(st, P)
                if sgn < 0:
                    return q + 1 if want == "q" else rp - k
            return q if want == "q" else rp
        if rc is not None and rc != 0 and ty["signed"]:
            sg = st.facts.sign(P)
            if not (sg <= {0, 1}):
                if want == "r" and k == 2 and sg != {-1}:
                    s = Poly.sym(new_sym("rem", -1, 1))
                    st.facts.assume_ne0(s)
                    return s
                sgn = self.sign_of(st, P)
                if sgn < 0:
                    return q + 1 if want == "q" else rp - k
        return q if want == "q" else rp

    # ---- rvalues --------------------------------------------------------------------------
    def rvalue(self, st, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k in ("ref", "addr", "reborrow"):
            cell, path = self.place(st, r[1])
            if cell and cell[0] == "str":
                return VStr(cell[1])
            if path and isinstance(path[-1], tuple):
                return VRef(cell, path[:-1], path[-1][1:])
            v = self.read(st, cell, path) if path else None
            return VRef(cell, path)
        if k == "agg":
            ops = [self.operand(st, o) for o in r[4]]
            if r[1] == "rawptr":
                p, n = ops
                if isinstance(p, VRef) and isinstance(n, VInt) and p.path and p.n is None and \
                        n.p.const_value() is not None and \
                        (self.pointee(dty) or {}).get("k") == "slice":
                    return VRef(p.cell, p.path[:-1], (p.path[-1], int(n.p.const_value())))
                return p
            ty = dty if r[2] is None or r[1] == "array" else r[2]
            if self.prog.ty(ty).get("name") == "std::string::String" and fresh_buffer(ops[0]):
                return VOpaque("string", "")
            return VAgg(ty, r[3] or 0, tuple(ops))
        if k in ("bin", "cbin"):
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, k == "cbin", dty)
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(a, bool):
                    return not a
                if isinstance(a, VInt):
                    ty = self.prog.ty(a.ty)
                    lo, hi = rng(ty)
                    return VInt((-a.p - 1) if ty["signed"] else (hi - a.p), a.ty)
            if r[1] == "Neg" and isinstance(a, VInt):
                p, w = self.wrap_split(st, -a.p, self.prog.ty(a.ty))
                if w:
                    st.lossy = st.lossy + (self.site(st),)
                return VInt(p, a.ty)
            if r[1] == "PtrMetadata":
                return self.ptr_len(st, a)
            raise Unsupported("unary %s" % r[1])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k == "discr":
            cell, path = self.place(st, r[1])
            v = self.read(st, cell, path)
            return self.discr(st, v, r[2], dty)
        if k == "len":
            cell, path = self.place(st, r[1])
            v = self.read(st, cell, path)
            return VInt(Poly.const(len(v.f)), dty)
        if k == "repeat":
            v = self.operand(st, r[1])
            n = r[2]
            if n is None or int(n) > 256:
                raise Unsupported("large array")
            return VAgg(dty, 0, (v,) * int(n))
        raise Unsupported("rvalue %s" % k)

    def ptr_len(self, st, a):
        if isinstance(a, VRef):
            if a.n is not None:
                return VInt(Poly.const(a.n[1]), self.usize())
            v = self.read(st, a.cell, a.path)
            if isinstance(v, VAgg):
                return VInt(Poly.const(len(v.f)), self.usize())
        if isinstance(a, VStr):
            return VInt(Poly.const(len(a.s)), self.usize())
        raise Unsupported("metadata")

    def usize(self):
        for i, t in self.prog.types.items():
            if t["str"] == "usize":
                return i
        return None

    def discr(self, st, v, ety, dty):
        if isinstance(v, VTok):
            self.split_tok(st, v, ety)
        if isinstance(v, VAgg):
            ty = self.prog.ty(v.ty if v.ty is not None else ety)
            if ty["k"] != "adt":
                return VInt(ZERO, dty)
            if v.tag == "overflow":
                st.ovf = True
            d = ty["variants"][v.variant]["discr"]
            return VInt(Poly.const(self.norm_int(d, dty)), dty)
        if isinstance(v, bool):
            return VInt(Poly.const(int(v)), dty)
        if isinstance(v, VUninit) and ety is not None:
            # an enum with one possible variant takes no storage
            vs = [va for va in self.prog.ty(ety).get("variants", []) if self.possible(va)]
            if len(vs) == 1 and not vs[0]["fields"]:
                return VInt(Poly.const(self.norm_int(vs[0]["discr"], dty)), dty)
        raise Unsupported("discriminant of %s" % type(v).__name__)

    def possible(self, va):
        """whether a variant can have values"""
        for x in va["fields"]:
            ty = self.prog.ty(x["ty"])
            if ty["k"] == "never" or ty["k"] == "adt" and ty["adtkind"] == "enum" and \
                    not any(self.possible(w) for w in ty["variants"]):
                return False
        return True

    def norm_int(self, d, dty):
        ty = self.prog.ty(dty)
        if ty["k"] == "int" and ty["signed"]:
            m = 1 << ty["bits"]
            d %= m
            if d >= m >> 1:
                d -= m
        return d

    def binop(self, st, op, a, b, checked, dty):
        if isinstance(a, bool) and isinstance(b, bool):
            r = {"Eq": a == b, "Ne": a != b, "BitAnd": a and b, "BitOr": a or b,
                 "BitXor": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}.get(op)
            if r is None:
                raise Unsupported("bool %s" % op)
            return r
        if isinstance(a, VRef) and isinstance(b, VRef) and op in ("Eq", "Ne"):
            e = (a.cell, a.path) == (b.cell, b.path)
            return e if op == "Eq" else not e
        if op == "Offset" and isinstance(a, VRef) and isinstance(b, VInt):
            return self.offset(st, a, b.p.const_value())
        if not isinstance(a, VInt) or not isinstance(b, VInt):
            raise Unsupported("%s on %s" % (op, type(a).__name__))
        ty = self.prog.ty(a.ty)
        base = op.replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            p, fac = self.arith(base, a, b)
            if checked:
                if self.range_split(st, p, ty, base, fac, True):
                    return VAgg(dty, 0, (VInt(p, a.ty, fac), False))
                lo, hi = rng(ty)
                st.ovf = True
                return VAgg(dty, 0, (VInt(Poly.sym(new_sym("wrapped", lo, hi)), a.ty), True))
            q, w = self.wrap_split(st, p, ty, fac)
            if w:
                st.lossy = st.lossy + (self.site(st),)
            return VInt(q, a.ty, fac if q is p else None)
        if op in self.REL:
            return self.compare(st, op, a, b)
        if op == "Cmp":
            s = self.cmp3(st, a, b)
            return VAgg(dty, s + 1, ())
        if op in ("Div", "Rem"):
            k = b.p.const_value()
            if k is None or k == 0:
                raise Unsupported("division by a non-constant")
            return VInt(self.divmod_const(st, a.p, int(k), ty, "q" if op == "Div" else "r"), a.ty)
        if op in ("Shr", "ShrUnchecked") and b.p.const_value() is not None:
            k = 1 << int(b.p.const_value())
            q = self.floor_div(st, a.p, k)
            return VInt(q, a.ty)
        if op in ("Shl", "ShlUnchecked") and b.p.const_value() is not None:
            p = a.p * (1 << int(b.p.const_value()))
            q, w = self.wrap_split(st, p, ty)
            if w:
                st.lossy = st.lossy + (self.site(st),)
            return VInt(q, a.ty)
        ca, cb = a.p.const_value(), b.p.const_value()
        if op == "BitAnd" and (cb is not None or ca is not None):
            m = cb if cb is not None else ca
            p = a.p if cb is not None else b.p
            if m >= 0 and (m & (m + 1)) == 0:
                q = self.floor_div(st, p, int(m) + 1)
                return VInt(p - q * (int(m) + 1), a.ty)
        if ca is not None and cb is not None:
            x, y = int(ca), int(cb)
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(op)
            if r is not None:
                return VInt(Poly.const(r), a.ty)
        if op in ("BitOr", "BitAnd", "BitXor") and ty["k"] == "int":
            return VInt(self.bitwise(st, op, a.p, b.p, ty), a.ty)
        raise Unsupported("operator %s" % op)

    def offset(self, st, a, k):
        """pointer to another element of the same array"""
        if k == 0:
            return a
        if k is None or a.n is not None or not a.path:
            raise Unsupported("pointer arithmetic")
        arr = self.read(st, a.cell, a.path[:-1])
        if not isinstance(arr, VAgg) or not isinstance(arr.ty, int) or \
                self.prog.ty(arr.ty)["k"] != "array":
            raise Unsupported("pointer arithmetic outside of an array")
        return VRef(a.cell, a.path[:-1] + (a.path[-1] + int(k),))

    def pointee(self, ty):
        t = self.prog.ty(ty)
        return self.prog.ty(t["to"]) if t["k"] in ("ptr", "ref") else None

    def bitwise(self, st, op, A, B, ty):
        """combination of the bits of two unknown integers: zero, sign and lowest bit are tracked"""
        if A == B:
            return ZERO if op == "BitXor" else A
        sa, sb = self.sign_of(st, A), self.sign_of(st, B)
        if sa == 0 or sb == 0:
            return ZERO if op == "BitAnd" else (B if sa == 0 else A)
        if op == "BitXor" and self.sign_of(st, A - B) == 0:
            return ZERO
        key = ("bits", op, A, B)
        if key in st.divs:
            return st.divs[key]
        par = []
        for P in (A, B):
            q = self.floor_div(st, P, 2)
            par.append(self.sign_of(st, P - q * 2))
        low = {"BitAnd": par[0] & par[1], "BitOr": par[0] | par[1], "BitXor": par[0] ^ par[1]}[op]
        lo, hi = rng(ty)
        neg = {"BitAnd": sa < 0 and sb < 0, "BitOr": sa < 0 or sb < 0,
               "BitXor": (sa < 0) != (sb < 0)}[op]
        lo, hi = (lo, -1) if neg else (0, hi)
        # r = 2*h + low with r in lo..hi and, but for a conjunction, not zero
        h = Poly.sym(new_sym("bits", -((low - lo) // 2), (hi - low) // 2))
        r = h * 2 + low
        if not neg and op != "BitAnd" and not low:
            st.facts.assume_ge0(r - 1)
        if sa > 0 and sb > 0:
            if op == "BitAnd":
                st.facts.assume_ge0(A - r)
                st.facts.assume_ge0(B - r)
            else:
                st.facts.assume_ge0(A + B - r)
                if op == "BitOr":
                    st.facts.assume_ge0(r - A)
                    st.facts.assume_ge0(r - B)
        st.divs[key] = r
        return r

    def floor_div(self, st, P, k):
        c = P.const_value()
        if c is not None:
            return Poly.const(int(c) // k)
        if k == 1:
            return P
        fake = {"signed": False}
        return self.divmod_const(st, P, k, fake, "q")

    def arith(self, op, a, b):
        if op == "Add":
            return a.p + b.p, None
        if op == "Sub":
            return a.p - b.p, None
        p = a.p * b.p
        fac = None
        if not a.p.is_const() and not b.p.is_const():
            fac = (a.p, b.p)
        return p, fac

    def cmp3(self, st, a, b):
        P = a.p - b.p
        fa = fb = None
        if not P.is_linear():
            fa, fb = fac_of(a), fac_of(b)
        return self.sign_of(st, P, fa, fb)

    def cast(self, st, kind, v, fr, to):
        tt = self.prog.ty(to)
        if kind in ("IntToInt",):
            if isinstance(v, bool):
                return VInt(Poly.const(int(v)), to)
            if isinstance(v, VAgg):
                v = self.discr(st, v, fr, to)
            if tt["k"] == "bool":
                raise Unsupported("cast to bool")
            if tt["k"] == "char":
                return VInt(v.p, to)
            q, w = self.wrap_split(st, v.p, tt, v.fac)
            if w:
                st.lossy = st.lossy + (self.site(st),)
            return VInt(q, to, v.fac if q is v.p else None)
        if kind == "PointerCoercion(Unsize)" or kind.startswith("PointerCoercion(Unsize"):
            return v
        if kind in ("BoxDerefTransmute", "PtrToPtr", "Transmute", "Subtype") or \
                kind.startswith("PointerCoercion(Mut"):
            if isinstance(v, VBox):
                if tt["k"] in ("ptr", "ref"):
                    return VRef(v.cell, ())
                return v
            if isinstance(v, VRef) and kind == "PtrToPtr":
                a, b = self.pointee(fr), self.pointee(to)
                if a and b and a["k"] in ("slice", "array") and b["k"] not in ("slice", "array"):
                    v = VRef(v.cell, v.path + (v.n[0] if v.n is not None else 0,))
                    a = self.prog.ty(a["elem"])
                if a and b and a is not b and v.n is None:
                    k = self.layers(a, b)
                    if k is not None:
                        return VRef(v.cell, v.path + k)
                    k = self.layers(b, a)
                    if k is not None and v.path[len(v.path) - len(k):] == k:
                        return VRef(v.cell, v.path[:len(v.path) - len(k)])
            if isinstance(v, (VRef, VStr, VOpaque)):
                return v
            if kind == "Transmute" and fr is not None:
                w = self.wrapped(v, fr, to)
                if w is not None:
                    return w
            if isinstance(v, VAgg) and kind == "Transmute" and tt["k"] == "adt" and \
                    tt.get("adtkind") == "struct":
                return v
            if isinstance(v, VInt) and kind == "Transmute":
                if tt.get("name") == "std::option::Option" and len(tt["args"]) == 1:
                    inner = self.prog.ty(tt["args"][0])
                    if inner.get("name") == "std::num::NonZero":
                        if self.compare(st, "Eq", v, VInt(ZERO, v.ty)):
                            return VAgg(to, 0, ())
                        return VAgg(to, 1, (self.nested(v, tt["args"][0]),))
                if tt["k"] == "int":
                    q, w = self.wrap_split(st, v.p, tt)
                    return VInt(q, to)
                if tt["k"] == "adt" and tt["adtkind"] == "enum":
                    c = v.p.const_value()
                    if c is not None:
                        m = 1 << 64
                        for i, va in enumerate(tt["variants"]):
                            bits = self.prog.ty(tt["discr_ty"])["bits"]
                            if (va["discr"] - int(c)) % (1 << bits) == 0 and not va["fields"]:
                                return VAgg(to, i, ())
            if isinstance(v, VAgg) and kind == "Transmute":
                ft = self.prog.ty(fr)
                if ft["k"] == "adt" and ft["adtkind"] == "enum" and tt["k"] == "int":
                    return self.discr(st, v, fr, to)
                while isinstance(v, VAgg) and len(v.f) == 1:
                    v = v.f[0]
                if isinstance(v, VInt) and tt["k"] == "int" and tt == self.prog.ty(v.ty):
                    return v
        if kind.startswith("PointerCoercion(ReifyFnPointer") or \
                kind.startswith("PointerCoercion(ClosureFnPointer"):
            return v
        raise Unsupported("cast %s to %s" % (kind, tt["str"][:60]))

    def layers(self, a, b, depth=0):
        """fields leading from transparent type a to the type b inside, or None"""
        if a is b:
            return ()
        if a["k"] == "adt" and a["adtkind"] != "enum" and depth <= 4 and a["variants"] and \
                not a["local"] and a["name"] in TRANSPARENT:
            for i, x in enumerate(a["variants"][0]["fields"]):
                k = self.layers(self.prog.ty(x["ty"]), b, depth + 1)
                if k is not None:
                    return (i,) + k
        return None

    def wrapped(self, v, fr, to, depth=0):
        """v under layers of transparent types, or None"""
        if fr == to:
            return v
        ft, tt = self.prog.ty(fr), self.prog.ty(to)
        if ft["k"] == "array" and tt["k"] == "array" and isinstance(v, VAgg):
            f = tuple(self.wrapped(x, ft["elem"], tt["elem"]) for x in v.f)
            return None if any(x is None for x in f) else VAgg(to, 0, f)
        if tt["k"] != "adt" or tt["name"] not in TRANSPARENT or depth > 4:
            return None
        fs = tt["variants"][0]["fields"]
        for i, x in enumerate(fs):
            w = self.wrapped(v, fr, x["ty"], depth + 1)
            if w is not None:
                return VAgg(to, 0, tuple(w if j == i else UNINIT for j in range(len(fs))))
        return None

    def nested(self, v, to):
        """an integer inside the one field of a struct"""
        tt = self.prog.ty(to)
        if tt["k"] == "adt" and tt["adtkind"] == "struct" and \
                len(tt["variants"][0]["fields"]) == 1:
            return VAgg(to, 0, (self.nested(v, tt["variants"][0]["fields"][0]["ty"]),))
        if tt["k"] not in ("pat", "int"):
            raise Unsupported("layout of %s" % tt["str"])
        return v

    # ---- dropping -------------------------------------------------------------------------
    def drop(self, st, v):
        if isinstance(v, VAgg):
            if isinstance(v.ty, int):
                ty = self.prog.ty(v.ty)
                if ty["k"] == "adt" and self.prog.drops.get(v.ty) in self.reach_read:
                    raise Unsupported("drop implementation of %s reads a stream" % ty["name"])
            for x in v.f:
                self.drop(st, x)
        elif isinstance(v, VBox):
            inner = st.mem.pop(v.cell, UNINIT)
            self.drop(st, inner)
        elif isinstance(v, VRc):
            n = st.rc.get(v.cell, 0) - 1
            if n <= 0:
                st.rc.pop(v.cell, None)
                inner = st.mem.pop(v.cell, UNINIT)
                self.drop(st, inner)
            else:
                st.rc[v.cell] = n

    # ---- main loop ------------------------------------------------------------------------
    def push_call(self, st, fn, args, dst, to):
        fr = Frame(fn, fresh_id(), dst, to)
        st.frames.append(fr)
        n = fn.argc
        if fn.spread and len(args) == n - 1 + 0 and False:
            pass
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        self.fns_seen.add(fn.name)

    def start(self, st, fn, args):
        st.depth0 = 0
        self.push_call(st, fn, args, None, None)
        self.work.append(st)

    def run(self):
        while self.work or self.deferred:
            if not self.work:
                self.draining = True
                st, siteid, back = self.deferred.pop(0)
                if self.cut(st, siteid, back):
                    self.work.append(st)
                self.draining = False
                continue
            st = self.work.pop()
            self.nstates += 1
            if self.stop is not None and self.nstates % 16 == 0 and self.stop(self):
                return
            if self.nstates > self.max_states:
                self.finding("unsupported", "engine", "state budget exhausted")
                return
            try:
                self.exec_state(st)
            except RecursionError:
                self.finding("unsupported", self.site(st), "engine recursion limit", st)

    def exec_state(self, st):
        while True:
            if st.facts.empty:
                return
            try:
                if not self.step(st):
                    return
            except Split as sp:
                alts = sp.alts
                for i, (txt, f) in enumerate(alts):
                    s2 = st.copy() if i + 1 < len(alts) else st
                    if txt:
                        s2.note("%s: %s" % (self.site(s2), txt))
                    if f(s2) and s2.settle() and not s2.facts.empty:
                        self.work.append(s2)
                return
            except Panic as p:
                self.on_panic(st, p)
                return
            except Unsupported as u:
                self.finding("unsupported", self.site(st), u.msg, st)
                return

    def on_panic(self, st, p):
        site = self.site(st)
        self.panics[(site, p.kind, p.msg)] = self.panics.get((site, p.kind, p.msg), 0) + 1
        if st.tokmode is not None:
            self.finding("unsupported", site, "panic after a recursive call", st)
            return
        self.job.on_panic(self, st, p, site)

    def step(self, st):
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.blk]
        self.nsteps += 1
        if fr.idx == 0:
            self.blocks_seen.add((fr.fn.id, fr.blk))
        ss = b["s"]
        while fr.idx < len(ss):
            s = ss[fr.idx]
            k = s[0]
            if k == "=":
                if s[2][0] == "bin" and s[2][1] == "Eq" and self._masked(st, ss, fr.idx):
                    v = False
                elif s[2][0] == "bin" and s[2][1] in BITS and self._lowest_bit(ss, fr.idx):
                    v = self.low_bits(st, s[2])
                else:
                    v = self.rvalue(st, s[2], s[4])
                self._moves_rv(st, s[2])
                cell, path = self.place(st, s[1])
                if path:
                    self.write(st, cell, path, v)
                else:
                    st.mem[cell] = v
            elif k == "dead" or k == "live":
                st.mem.pop((fr.fid, s[1]), None)
            elif k == "setdiscr":
                cell, path = self.place(st, s[1])
                v = self.read(st, cell, path)
                self.write(st, cell, path,
                           VAgg(v.ty, s[2], v.f) if isinstance(v, VAgg) else UNINIT)
            elif k == "assume":
                pass
            else:
                raise Unsupported("statement %s" % k)
            fr.idx += 1
            if st.facts.empty:
                return False
        return self.terminator(st, fr, b["t"])

    def _masked(self, st, ss, i):
        """the comparison only feeds a conjunction whose other operand is already false
        (the compiler's guard of MIN / -1)"""
        if i + 1 >= len(ss) or ss[i + 1][0] != "=":
            return False
        r = ss[i + 1][2]
        if r[0] != "bin" or r[1] != "BitAnd":
            return False
        for a, b in ((r[2], r[3]), (r[3], r[2])):
            if a[0] == "move" and a[1] == ss[i][1] and b[0] in ("copy", "move"):
                cell, path = self.place(st, b[1])
                if self.read(st, cell, path) is False:
                    return True
        return False

    @staticmethod
    def _lowest_bit(ss, i):
        """only the lowest bit of the result is looked at"""
        dst = ss[i][1]
        for s in ss[i + 1:]:
            if s[0] != "=" or s[2][0] != "bin" or s[2][1] not in BITS:
                continue
            for a, b in ((s[2][2], s[2][3]), (s[2][3], s[2][2])):
                if a[0] == "move" and a[1] == dst:
                    if s[2][1] == "BitAnd" and b[0] == "const" and b[1].get("int") == 1:
                        return True
                    dst = s[1]
                    break
        return False

    def low_bits(self, st, r):
        a, b = self.operand(st, r[2]), self.operand(st, r[3])
        if not isinstance(a, VInt) or not isinstance(b, VInt):
            return self.binop(st, r[1], a, b, False, None)

        def low(P):
            return self.sign_of(st, P - self.floor_div(st, P, 2) * 2)
        x = low(a.p)
        if (r[1], x) == ("BitOr", 1) or (r[1], x) == ("BitAnd", 0):
            return VInt(Poly.const(x), a.ty)
        y = low(b.p)
        return VInt(Poly.const(x ^ y if r[1] == "BitXor" else y), a.ty)

    def _moves_rv(self, st, r):
        k = r[0]
        if k == "use":
            self.clear_moves(st, (r[1],))
        elif k == "agg":
            self.clear_moves(st, r[4])
        elif k == "cast":
            self.clear_moves(st, (r[2],))

    def goto(self, st, fr, to):
        src = fr.blk
        fr.blk = to
        fr.idx = 0
        loops = self.prog.loops(fr.fn)
        if to in loops:
            if self.loop_reads(fr.fn, to):
                return self.cut_loop(st, fr, to, src in loops[to])
            key = (fr.fid, to)
            st.visits[key] = st.visits.get(key, 0) + 1
            if st.visits[key] > 80:
                raise Unsupported("loop without a static bound")
        return True

    def loop_reads(self, fn, head):
        if fn.loopread is None:
            fn.loopread = {}
        r = fn.loopread.get(head)
        if r is None:
            r = False
            for bi in self.prog.loops(fn)[head]:
                t = fn.blocks[bi]["t"]
                if t["t"] == "call":
                    c = t.get("inst")
                    if c in self.reach_read or self.job.counts_as_read(self, t):
                        r = True
                    for at in t.get("atys", []):
                        ty = self.prog.ty(at)
                        if ty.get("inst") in self.reach_read and ty.get("inst") is not None:
                            r = True
            fn.loopread[head] = r
        return r

    def terminator(self, st, fr, t):
        k = t["t"]
        if k == "goto":
            return self.goto(st, fr, t["to"])
        if k == "switch":
            v = self.operand(st, t["op"])
            if isinstance(v, bool):
                c = int(v)
            elif isinstance(v, VInt):
                c = v.p.const_value()
                if c is None:
                    alts = []
                    vals = [int(x) for x, _ in t["br"]]
                    ty = self.prog.ty(v.ty)
                    if ty["k"] == "int" and ty["signed"]:
                        vals = [self.norm_int(x, v.ty) for x in vals]
                    for x in vals:
                        sg = st.facts.sign(v.p - x)
                        if sg == {0}:
                            c = x
                            break
                        if 0 in sg:
                            raise Split([self._alt_rel(v.p - x, {0}),
                                         self._alt_rel(v.p - x, sg - {0})])
                    if c is None:
                        return self.goto(st, fr, t["else"])
                c = int(c)
            else:
                raise Unsupported("switch on %s" % type(v).__name__)
            ty = self.prog.ty(t["ty"])
            M = 1 << ty.get("bits", 8) if ty["k"] == "int" else 1 << 64
            for x, to in t["br"]:
                if (int(x) - c) % M == 0:
                    return self.goto(st, fr, to)
            if t.get("else") is None:
                raise Unsupported("switch without target")
            return self.goto(st, fr, t["else"])
        if k == "return":
            return self.do_return(st, fr)
        if k == "drop":
            cell, path = self.place(st, t["place"])
            v = self.read(st, cell, path)
            self.drop(st, v)
            self.write(st, cell, path, UNINIT)
            return self.goto(st, fr, t["to"])
        if k == "assert":
            v = self.operand(st, t["c"])
            if v == t["exp"]:
                return self.goto(st, fr, t["to"])
            if t["msg"] in ("overflow", "overflowneg"):
                raise Panic("arith-overflow", "%s %s" % (t["msg"], t.get("bop")), True)
            raise Panic("assert", t["msg"])
        if k == "call":
            return self.call(st, fr, t)
        if k == "unreachable":
            if st.facts.is_empty():
                return False
            raise Unsupported("reaches 'unreachable'")
        raise Unsupported("terminator %s" % k)

    def do_return(self, st, fr):
        v = st.mem.get((fr.fid, 0), UNINIT)
        rt = self.prog.ty(fr.fn.locals[0])
        if isinstance(v, VUninit) and rt["k"] == "tuple" and not rt["elems"]:
            v = VAgg(fr.fn.locals[0], 0, ())
        if st.tokmode is not None and len(st.frames) == st.tokmode["depth"]:
            self.end_tok(st, v, fr)
            return False
        if len(st.frames) == 1:
            self.returns += 1
            self.job.on_return(self, st, v)
            return False
        for l in range(len(fr.fn.locals)):
            st.mem.pop((fr.fid, l), None)
        st.frames.pop()
        caller = st.frames[-1]
        self.write(st, fr.dst[0], fr.dst[1], v)
        if fr.to is None:
            raise Unsupported("return from diverging call")
        return self.goto(st, caller, fr.to)

    # ---- calls ----------------------------------------------------------------------------
    def call(self, st, fr, t):
        inst = t.get("inst")
        args = [self.operand(st, a) for a in t["args"]]
        fn = self.prog.fns.get(inst) if inst is not None else None
        defn = t.get("def") or ""
        if fn is None:
            fv = self.operand(st, t["f"])
            if isinstance(fv, VFn) and fv.inst is not None:
                fn = self.prog.fns.get(fv.inst)
                defn = fn.def_
            elif isinstance(fv, VAgg) and isinstance(fv.ty, int) and \
                    self.prog.ty(fv.ty)["k"] == "closure":
                fn = self.prog.fns.get(self.prog.ty(fv.ty)["inst"])
                defn = fn.def_
        dst = self.place(st, t["dst"])
        import models
        r = models.call(self, st, fr, t, fn, defn, args, dst)
        if r is not None:
            return r
        if fn is None or fn.blocks is None:
            raise Unsupported("call to %s" % (fn.name if fn else defn))
        return self.enter(st, fr, t, fn, args, dst)

    def finish(self, st, fr, t, dst, val):
        """complete a modelled call"""
        self.clear_moves(st, t["args"])
        self.write(st, dst[0], dst[1], val)
        if t.get("to") is None:
            raise Unsupported("modelled diverging call")
        return self.goto(st, fr, t["to"])

    def enter(self, st, fr, t, fn, args, dst):
        self.clear_moves(st, t["args"])
        # closure bodies take their arguments untupled, shims take them as one tuple
        if fn.spread and len(args) > fn.argc:
            i = fn.spread - 1
            args = args[:i] + [VAgg(fn.locals[fn.spread], 0, tuple(args[i:]))]
        if len(args) != fn.argc:
            if len(args) == 2 and isinstance(args[1], VAgg) and len(args[1].f) + 1 == fn.argc:
                args = [args[0]] + list(args[1].f)
            elif len(args) == 2 and isinstance(args[1], VAgg) and len(args[1].f) == fn.argc:
                args = list(args[1].f)
            else:
                raise Unsupported("argument count of %s" % fn.name)
        onstack = None
        for i, f in enumerate(st.frames):
            if f.fn is fn:
                onstack = i
                break
        if onstack is not None:
            if fn.id in self.reach_read:
                return self.cut_recursion(st, fr, t, fn, args, dst, onstack)
            if sum(1 for f in st.frames if f.fn is fn) > 70:
                raise Unsupported("recursion without a static bound")
        self.push_call(st, fn, args, dst, t.get("to"))
        if fn.id in self.reach_read and self.self_recursive(fn):
            return self.cut_entry(st, fn)
        return True

    def self_recursive(self, fn):
        r = self._selfrec.get(fn.id) if hasattr(self, "_selfrec") else None
        if not hasattr(self, "_selfrec"):
            self._selfrec = {}
        if r is None:
            # reachable from itself without going through a stream read
            seen = set()
            todo = [c for c in self.prog.callees.get(fn.id, ())]
            r = False
            while todo:
                c = todo.pop()
                if c == fn.id:
                    r = True
                    break
                if c in seen:
                    continue
                seen.add(c)
                g = self.prog.fns.get(c)
                if g is None or self.is_read_fn(g):
                    continue
                todo.extend(self.prog.callees.get(c, ()))
            self._selfrec[fn.id] = r
        return r

    # ---- recursion ------------------------------------------------------------------------
    def cut_entry(self, st, fn):
        return self.cut(st, ("entry", fn.id), False)

    def cut_recursion(self, st, fr, t, fn, args, dst, onstack):
        if st.tokmode is not None:
            self.finding("unsupported", self.site(st), "second recursive call after a recursive call", st)
            return False
        # (B) everything after the recursive call must hand its result through unchanged
        b = st.copy()
        self.start_tok(b, t, args, dst, onstack)
        # (A) the recursive call itself, as a new arrival at the function's entry
        outer = st.frames[onstack]
        odst, oto = outer.dst, outer.to
        st.frames = st.frames[:onstack]
        self.push_call(st, fn, args, odst, oto)
        st.note("%s: recursive call of %s" % (short(t.get("sp")), fn.name))
        return self.cut(st, ("entry", fn.id), True)

    def start_tok(self, b, t, args, dst, onstack):
        tid = fresh_id()
        reach = set()

        def walk(v):
            if isinstance(v, VAgg):
                for x in v.f:
                    walk(x)
            elif isinstance(v, (VRef, VBox, VRc)):
                if v.cell not in reach:
                    reach.add(v.cell)
                    walk(b.mem.get(v.cell, UNINIT))
        for a in args:
            walk(a)
        for c in reach:
            if not (c and c[0] == "K"):
                b.mem[c] = VTok((tid, c))
        self.write(b, dst[0], dst[1], VTok((tid, "ret")))
        if t.get("to") is None:
            return
        base_frames = {f.fid for f in b.frames[onstack:]}
        snap = {c: v for c, v in b.mem.items() if not (c[0] in base_frames)}
        b.tokmode = {"depth": onstack + 1, "tid": tid, "snap": snap, "reads": b.reads,
                     "site": self.site(b)}
        b.frames[-1].blk = t["to"]
        b.frames[-1].idx = 0
        b.note("after the recursive call")
        self.obligations += 1
        self.work.append(b)

    def split_tok(self, st, v, ety):
        """case distinction over the variants of a recursive call's result"""
        ty = self.prog.ty(ety)
        if ty["k"] != "adt" or v.k[1] != "ret":
            raise Unsupported("inspects a recursive call's result")
        alts = []
        for i, va in enumerate(ty["variants"]):
            def pick(s, i=i, va=va):
                new = VAgg(ety, i, tuple(VTok(v.k + ((i, j),)) for j in range(len(va["fields"]))))

                def sub(x):
                    if isinstance(x, VTok) and x.k == v.k:
                        return new
                    if isinstance(x, VAgg) and any(isinstance(y, (VTok, VAgg)) for y in x.f):
                        return VAgg(x.ty, x.variant, tuple(sub(y) for y in x.f), x.tag)
                    return x
                for c in list(s.mem):
                    s.mem[c] = sub(s.mem[c])
                s.tokmode = dict(s.tokmode, picked=dict(s.tokmode.get("picked", {})))
                s.tokmode["picked"][v.k] = i
                return True
            alts.append(("the recursive call answers %s" % va["name"], pick))
        raise Split(alts)

    def is_tok(self, st, v, k):
        """v is the (possibly taken apart and put together again) result with key k"""
        if isinstance(v, VTok):
            return v.k == k
        return isinstance(v, VAgg) and st.tokmode.get("picked", {}).get(k) == v.variant and \
            all(self.is_tok(st, x, k + ((v.variant, j),)) for j, x in enumerate(v.f))

    def end_tok(self, st, v, fr):
        tm = st.tokmode
        ok = self.is_tok(st, v, (tm["tid"], "ret"))
        if not ok and isinstance(v, VAgg) and isinstance(v.ty, int):
            ty = self.prog.ty(v.ty)
            ok = ty["k"] == "tuple" and not ty["elems"]
        if not ok:
            self.finding("value", tm["site"], "result of the recursive call is altered", st)
            return
        if st.reads != tm["reads"]:
            self.finding("value", tm["site"], "reads a stream after the recursive call", st)
            return
        for c, w in tm["snap"].items():
            cur = st.mem.get(c, UNINIT)
            if isinstance(w, VTok) and cur is not w:
                self.finding("value", tm["site"], "state is altered after the recursive call", st)
                return
            if cur is not w and not (isinstance(cur, VUninit)) and not same_value(cur, w):
                self.finding("value", tm["site"], "state is altered after the recursive call", st)
                return
        self.discharged += 1

    # ---- cuts -----------------------------------------------------------------------------
    def cut_loop(self, st, fr, head, back):
        if st.tokmode is not None:
            raise Unsupported("loop after a recursive call")
        if back:
            # a state of another shape than the one cut before is followed as it is, once
            key, _, streams, _ = self.canon(st)
            k = ("shape", fr.fid, head, key)
            m = st.marks.get((("loop", fr.fn.id, head), len(st.frames) - 1))
            if k not in st.visits and m and (
                    m[1] == st.reads or len(streams) < st.visits.get(("live", fr.fid, head), 0)):
                st.visits[k] = 1
                return True
        return self.cut(st, ("loop", fr.fn.id, head), back)

    def canon(self, st):
        """reachable live structure: (key, leaves[(pos, VInt)], streams[sid], live cells)"""
        cells = {}
        order = []
        leaves = []
        streams = []
        key = []

        def visit_cell(c):
            if c not in cells:
                cells[c] = len(cells)
                order.append(c)
            return cells[c]

        def walk(v, pos):
            if isinstance(v, bool):
                return v
            if isinstance(v, VInt):
                leaves.append((pos, v))
                return ("int", v.ty)
            if isinstance(v, VAgg):
                return ("agg", v.ty, v.variant,
                        tuple(walk(x, pos + (i,)) for i, x in enumerate(v.f)))
            if isinstance(v, VRef):
                return ("ref", visit_cell(v.cell), v.path, v.n)
            if isinstance(v, VBox):
                return ("box", visit_cell(v.cell))
            if isinstance(v, VRc):
                return ("rc", visit_cell(v.cell), st.rc.get(v.cell))
            if isinstance(v, VStream):
                if v.sid not in streams:
                    streams.append(v.sid)
                return ("stream", streams.index(v.sid), st.streams[v.sid] is None)
            if isinstance(v, VStr):
                return ("str", v.s)
            if isinstance(v, VFn):
                return ("fn", v.inst)
            if isinstance(v, VOpaque):
                return ("opq", v.k, repr(v.d))
            if isinstance(v, VUninit):
                return "_"
            if isinstance(v, VTok):
                return ("tok",)
            raise Unsupported("cut over %s" % type(v).__name__)

        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            if i + 1 < n:
                nx = st.frames[i + 1]
                lv = self.prog.live_in(fr.fn, nx.to) if nx.to is not None else set()
                if nx.dst[0][0] == fr.fid and not nx.dst[1]:
                    lv = lv - {nx.dst[0][1]}
                elif nx.dst[0][0] == fr.fid:
                    lv = lv | {nx.dst[0][1]}
                key.append(("fr", fr.fn.id, nx.to))
            else:
                if fr.idx:
                    lv = self.prog.live_term(fr.fn, fr.blk)
                else:
                    lv = self.prog.live_in(fr.fn, fr.blk)
                key.append(("top", fr.fn.id, fr.blk, fr.idx))
            for l in sorted(lv):
                c = (fr.fid, l)
                if c in st.mem:
                    key.append(("l", i, l, visit_cell(c)))
        j = 0
        while j < len(order):
            c = order[j]
            key.append((j, walk(st.mem.get(c, UNINIT), (j,))))
            j += 1
        return tuple(key), leaves, streams, order

    def hold(self, st, siteid, cls, what, detail=None):
        """a repetition whose state cannot be cut is only wrong when it goes on repeating"""
        f = (cls, self.site(st), what, detail)
        if st.pending is None and siteid[0] != "read":
            st.pending = f
            return True
        self.overdue(st, f)
        return False

    def overdue(self, st, f=None):
        cls, site, what, detail = st.pending or f
        self.finding(cls, site, what, st, detail)

    def cut(self, st, siteid, back):
        if st.pending is not None:
            self.overdue(st)
            return False
        key, leaves, streams, order = self.canon(st)
        # progress: every repetition must have consumed a symbol since the previous one
        idx = len(st.frames) - (1 if siteid[0] == "loop" else 2)
        fid = st.frames[idx].fid if idx >= 0 else 0
        mark = (siteid, idx)
        if back and mark in st.marks and st.marks[mark][0] == fid:
            self.obligations += 1
            if st.marks[mark][1] == st.reads:
                return self.hold(st, siteid, "progress",
                                 "repeats without reading a symbol in between")
            self.discharged += 1
        marks = {}
        for (sid_, i), (f, r) in st.marks.items():
            if i < len(st.frames) and (st.frames[i].fid if i >= 0 else 0) == f:
                marks[(sid_, i)] = (f, r)
        if siteid[0] != "read":
            marks[mark] = (fid, st.reads)
        mkey = tuple(sorted(((k, st.reads > v[1]) for k, v in marks.items()), key=repr))
        try:
            res = self.job.cut(self, st, siteid, key, leaves, streams)
        except Defer:
            self.deferred.append((st, siteid, back))
            return False
        if not isinstance(res, tuple):
            return bool(res)
        lkey, assign, addfacts, led = res
        # assign: {pos: Poly} new contents of integer leaves
        consts = tuple((pos, v.p.const_value()) for pos, v in leaves
                       if pos not in assign and v.p.is_const())
        inv = {}
        for pos, v in leaves:
            if pos in assign and not v.p.is_const():
                inv.setdefault(v.p, assign[pos])
        skey = (siteid, key, lkey, mkey)
        var = self.cutvariants.setdefault(skey, set())
        havoc_consts = False
        if consts not in var:
            if len(var) >= 6:
                havoc_consts = True
                consts = "*"
            else:
                var.add(consts)
        alias = []
        newvals = {}
        ivs = {}
        odd = []
        for pos, v in leaves:
            iv = st.facts.iv1(v.p, 1, True) if v.p.is_linear() else st.facts.iv0(v.p)
            if self.exact and v.p.is_linear():
                iv = st.facts.bounds(v.p)
            ivs[pos] = iv
            if pos in assign:
                newvals[pos] = assign[pos]
            elif v.p.is_const() and not havoc_consts:
                newvals[pos] = v.p
            elif v.p in inv:
                newvals[pos] = inv[v.p]
                alias.append((pos, "a"))
            elif (-v.p) in inv:
                newvals[pos] = -inv[-v.p]
                alias.append((pos, "n"))
            else:
                lo, hi = rng(self.prog.ty(v.ty))
                newvals[pos] = Poly.sym(new_sym("h", lo, hi))
                par = st.facts.parity(v.p)
                if par is not None:
                    odd.append((pos, par))
        alias += odd
        fkey = (skey, consts, tuple(alias))
        hk = self.hull.setdefault(fkey, {})
        for pos, iv in ivs.items():
            o = hk.get(pos)
            if o is None:
                hk[pos] = iv
            else:
                hk[pos] = (None if o[0] is None or iv[0] is None else min(o[0], iv[0]),
                           None if o[1] is None or iv[1] is None else max(o[1], iv[1]))
        if fkey in self.cuts:
            self.cuts[fkey] += 1
            return False
        self.cuts[fkey] = 1
        # rebased state
        ns = State()
        ns.frames = st.frames
        ns.rc = {c: n for c, n in st.rc.items() if c in order}
        ns.streams = dict(st.streams)
        ns.reads = st.reads
        ns.marks = marks
        ns.trace = st.trace
        ns.depth0 = st.depth0
        ns.merged = siteid[0] == "read"
        ns.led = led
        ns.visits = {k: n for k, n in st.visits.items() if k[0] in ("shape", "live")}
        if siteid[0] == "loop":
            ns.visits["shape", st.frames[-1].fid, siteid[2], key] = 1
            ns.visits["live", st.frames[-1].fid, siteid[2]] = len(streams)

        def rebuild(v, pos):
            if isinstance(v, VInt):
                return VInt(newvals[pos], v.ty)
            if isinstance(v, VAgg):
                return VAgg(v.ty, v.variant,
                            tuple(rebuild(x, pos + (i,)) for i, x in enumerate(v.f)))
            return v
        for j, c in enumerate(order):
            ns.mem[c] = rebuild(st.mem.get(c, UNINIT), (j,))
        for c, v in st.mem.items():
            if c[0] == "K":
                ns.mem[c] = v
        asm = self.assumed.get(fkey)
        if asm:
            for pos, (lo, hi) in asm.items():
                if pos in newvals and not newvals[pos].is_const():
                    if lo is not None:
                        ns.assume_ge0(newvals[pos] - lo)
                    if hi is not None:
                        ns.assume_ge0(hi - newvals[pos])
        for pos, par in odd:
            ns.facts.assume_parity(newvals[pos], par)
        for P, strict in addfacts:
            if strict == "nz":
                ns.facts.assume_nz(P)
            else:
                ns.assume_ge0(P - 1 if strict else P)
        ns.note("%s at %s" % ("joins" if ns.merged else "cut", self.site(ns)))
        self.work.append(ns)
        return False


def fresh_buffer(v):
    """the parts of a String that was just allocated, as the library's own code puts them together"""
    while isinstance(v, VAgg) and v.f:
        v = v.f[0]
    return isinstance(v, VOpaque) and v.k == "rawbuf"


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, VInt):
        return a.p == b.p
    if isinstance(a, VAgg):
        return a.variant == b.variant and len(a.f) == len(b.f) and \
            all(same_value(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VRef):
        return (a.cell, a.path, a.n) == (b.cell, b.path, b.n)
    if isinstance(a, (VBox, VRc)):
        return a.cell == b.cell
    if isinstance(a, VStream):
        return a.sid == b.sid
    if isinstance(a, VStr):
        return a.s == b.s
    if isinstance(a, VFn):
        return a.inst == b.inst
    if isinstance(a, VTok):
        return a.k == b.k
    return a == b
