"""Relational abstract domain: bounds on primitive integer forms, exclusions, parities and
product orderings (n_i*d_j <= n_j*d_i).  Sound, incomplete; no solver involved, only exact
rational bound propagation and a linear-combination (Farkas) search."""
from fractions import Fraction
from math import ceil, floor
from poly import Poly, ZERO

BIG = 1 << 40

SYM_NAME = []
SYM_LO = []
SYM_HI = []


def new_sym(name, lo=None, hi=None):
    SYM_NAME.append(name)
    SYM_LO.append(lo)
    SYM_HI.append(hi)
    return len(SYM_NAME) - 1


def sym_name(s):
    return SYM_NAME[s]


def reset_syms():
    del SYM_NAME[:]
    del SYM_LO[:]
    del SYM_HI[:]


def _mul_iv(a, b):
    (al, ah), (bl, bh) = a, b
    if None in (al, ah, bl, bh):
        return (None, None)
    v = (al * bl, al * bh, ah * bl, ah * bh)
    return (min(v), max(v))


class Facts:
    __slots__ = ("iv", "ne", "par", "orders", "nzs", "empty")

    def __init__(self):
        self.iv = {}
        self.ne = {}
        self.par = {}
        self.orders = ()
        self.nzs = ()       # tuples of forms that are not all zero
        self.empty = False

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.ne = dict(self.ne)
        f.par = dict(self.par)
        f.orders = self.orders
        f.nzs = self.nzs
        f.empty = self.empty
        return f

    # ---- bounds -------------------------------------------------------------------------
    def sym_iv(self, s):
        lo, hi = SYM_LO[s], SYM_HI[s]
        r = self.iv.get(Poly({(s,): 1}))
        if r:
            if r[0] is not None and (lo is None or r[0] > lo):
                lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi):
                hi = r[1]
        return (lo, hi)

    def mono_iv(self, m):
        r = self.iv.get(Poly({m: 1}))
        if len(m) == 1:
            return self.sym_iv(m[0])
        v = self.sym_iv(m[0])
        for s in m[1:]:
            v = _mul_iv(v, self.sym_iv(s))
        if len(m) == 2 and m[0] == m[1] and v[0] is not None and v[0] < 0:
            v = (0, v[1])
        if r:
            lo = v[0] if r[0] is None else (r[0] if v[0] is None else max(v[0], r[0]))
            hi = v[1] if r[1] is None else (r[1] if v[1] is None else min(v[1], r[1]))
            v = (lo, hi)
        return v

    def _iv_h0(self, H):
        """interval of a constant-free form: stored bound combined with term-wise bound"""
        lo = hi = 0
        for m, c in H.t.items():
            l, h = self.mono_iv(m)
            if c < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + c * l
            hi = None if (hi is None or h is None) else hi + c * h
            if lo is None and hi is None:
                break
        return lo, hi

    def iv0(self, P):
        H, q, c = P.normal()
        if H is None:
            return c, c
        lo, hi = self._iv_h0(H)
        r = self.iv.get(H)
        if r:
            if r[0] is not None and (lo is None or r[0] > lo):
                lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi):
                hi = r[1]
        if q < 0:
            lo, hi = hi, lo
        return (None if lo is None else q * lo + c, None if hi is None else q * hi + c)

    def iv1(self, P, depth=1, single=False):
        lo, hi = self.iv0(P)
        H, q, c = P.normal()
        if H is None or (len(H.t) < 2 and not single):
            return lo, hi
        hs = H.syms()
        for H1, (l1, h1) in self.iv.items():
            if len(H1.t) < 2 or not (H1.syms() & hs):
                continue
            for m, a in H.t.items():
                b = H1.t.get(m)
                if b is None:
                    continue
                al = a // b if a % b == 0 else Fraction(a) / b
                rest = H - H1.scale(al)
                if len(rest.t) >= len(H.t) + 1:
                    continue
                rl, rh = self.iv0(rest) if depth == 1 else self.iv1(rest, depth - 1)
                x, y = (l1, h1) if al > 0 else (h1, l1)
                nl = None if (x is None or rl is None) else al * x + rl
                nh = None if (y is None or rh is None) else al * y + rh
                if q < 0:
                    nl, nh = nh, nl
                if nl is not None:
                    v = q * nl + c
                    if lo is None or v > lo:
                        lo = v
                if nh is not None:
                    v = q * nh + c
                    if hi is None or v < hi:
                        hi = v
        return lo, hi

    # ---- assumptions ---------------------------------------------------------------------
    def assume_ge0(self, P, integral=True):
        """add P >= 0; False when contradictory with the quick bounds"""
        H, q, c = P.normal()
        if H is None:
            if c < 0:
                self.empty = True
            return not self.empty
        b = Fraction(-c) / q
        lo, hi = self.iv.get(H, (None, None))
        if q > 0:
            b = ceil(b)
            if lo is None or b > lo:
                lo = b
        else:
            b = floor(b)
            if hi is None or b < hi:
                hi = b
        return self._store(H, lo, hi)

    def _store(self, H, lo, hi):
        ex = self.ne.get(H)
        if ex:
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
        if lo is not None and hi is not None and lo > hi:
            self.empty = True
            return False
        self.iv[H] = (lo, hi)
        l0, h0 = self._iv_h0(H)
        if (l0 is not None and hi is not None and l0 > hi) or \
           (h0 is not None and lo is not None and h0 < lo):
            self.empty = True
            return False
        if (lo == 0 or hi == 0) and all(len(m) > 1 for m in H.t):
            # a common factor of known sign carries the bound over to the cofactor
            common = None
            for m in H.t:
                common = set(m) if common is None else common & set(m)
            for s in common:
                l, h = self.sym_iv(s)
                sg = 1 if (l is not None and l > 0) else -1 if (h is not None and h < 0) else 0
                if not sg:
                    continue
                t = {}
                for m, c in H.t.items():
                    m2 = list(m)
                    m2.remove(s)
                    t[tuple(m2)] = c * sg
                C = Poly(t)
                ok = True
                if lo == 0:
                    ok = self.assume_ge0(C)
                if hi == 0:
                    ok = self.assume_ge0(-C) and ok
                return ok
        return True

    def assume_ne0(self, P):
        H, q, c = P.normal()
        if H is None:
            if c == 0:
                self.empty = True
            return not self.empty
        v = Fraction(-c) / q
        if v.denominator != 1:
            return True
        v = int(v)
        self.ne[H] = self.ne.get(H, frozenset()) | {v}
        lo, hi = self.iv.get(H, (None, None))
        if len(H.t) == 1:
            (m,) = H.t
            if len(m) == 1:
                l, h = self.sym_iv(m[0])
                lo = l if lo is None else lo
                hi = h if hi is None else hi
        if lo is None and hi is None:
            return True
        return self._store(H, lo, hi)

    def equality(self, H):
        r = self.iv.get(H)
        return r is not None and r[0] is not None and r[0] == r[1]

    # ---- sign queries --------------------------------------------------------------------
    def sign(self, P, depth=1):
        """possible signs of P as a subset of {-1,0,1}"""
        H, q, c = P.normal()
        if H is None:
            return {(c > 0) - (c < 0)}
        lo, hi = self.iv0(P)
        if not ((lo is not None and lo > 0) or (hi is not None and hi < 0)) and depth:
            if len(self.iv) and H.is_linear():
                l, h = self.iv1(P, depth)
                lo, hi = l, h
        s = {-1, 0, 1}
        if lo is not None:
            if lo > 0:
                s -= {-1, 0}
            elif lo == 0:
                s -= {-1}
        if hi is not None:
            if hi < 0:
                s -= {0, 1}
            elif hi == 0:
                s -= {1}
        if 0 in s and c % q:
            s -= {0}
        if 0 in s:
            ex = self.ne.get(H)
            if ex and -c // q in ex:
                s -= {0}
        return s

    # ---- parity --------------------------------------------------------------------------
    @staticmethod
    def _parkey(P):
        """P mod 2 as (key, constant bit); key is None for constants, or exact poly when P has
        fractional coefficients"""
        c = P.cval()
        if isinstance(c, Fraction):
            return ("x", P), 0
        t = {}
        for m, k in P.t.items():
            if not m:
                continue
            if isinstance(k, Fraction) or len(m) > 1:
                return ("x", P - c), int(c) & 1
            if k & 1:
                t[m] = 1
        if not t:
            return None, int(c) & 1
        return frozenset(t), int(c) & 1

    def parity(self, P):
        k, b = self._parkey(P)
        if k is None:
            return b
        r = self.par.get(k)
        return None if r is None else r ^ b

    def assume_parity(self, P, v):
        k, b = self._parkey(P)
        if k is None:
            if b != v:
                self.empty = True
            return not self.empty
        r = self.par.get(k)
        if r is not None and r ^ b != v:
            self.empty = True
            return False
        self.par[k] = v ^ b
        return True

    # ---- substitution --------------------------------------------------------------------
    def subst(self, s, p):
        """replace symbol s by p everywhere (s is known to equal p)"""
        old = self.iv
        self.iv = {}
        lo, hi = SYM_LO[s], SYM_HI[s]
        one = Poly({(s,): 1})
        if one not in old and (lo is not None or hi is not None):
            old = dict(old)
            old[one] = (lo, hi)
        elif one in old:
            l, h = old[one]
            old = dict(old)
            old[one] = (lo if l is None else (l if lo is None else max(l, lo)),
                        hi if h is None else (h if hi is None else min(h, hi)))
        ok = True
        for H, (l, h) in old.items():
            P = H.subst(s, p)
            if P is H:
                cur = self.iv.get(H)
                if cur:
                    l = cur[0] if l is None else (l if cur[0] is None else max(l, cur[0]))
                    h = cur[1] if h is None else (h if cur[1] is None else min(h, cur[1]))
                    if l is not None and h is not None and l > h:
                        ok = False
                self.iv[H] = (l, h)
                continue
            if l is not None:
                ok = self.assume_ge0(P - l) and ok
            if h is not None:
                ok = self.assume_ge0(h - P) and ok
        one_ne = self.ne
        self.ne = {}
        for H, ex in one_ne.items():
            P = H.subst(s, p)
            if P is H:
                self.ne[H] = self.ne.get(H, frozenset()) | ex
            else:
                for v in ex:
                    ok = self.assume_ne0(P - v) and ok
        op = self.par
        self.par = {}
        for k, v in op.items():
            if isinstance(k, frozenset):
                P = Poly({m: 1 for m in k})
            else:
                P = k[1]
            Q = P.subst(s, p)
            if Q is P:
                self.par[k] = v
            else:
                ok = self.assume_parity(Q, v) and ok
        self.orders = tuple((a.subst(s, p), b.subst(s, p), c.subst(s, p), d.subst(s, p), st)
                            for a, b, c, d, st in self.orders)
        if self.nzs:
            old = self.nzs
            self.nzs = ()
            for t in old:
                ok = self.assume_nz(tuple(P.subst(s, p) for P in t)) and ok
        if not ok:
            self.empty = True
        return ok

    def assume_nz(self, forms):
        """not all of the forms are zero"""
        rest = []
        for P in forms:
            sg = self.sign(P)
            if 0 not in sg:
                return True
            if sg != {0} and P not in rest:
                rest.append(P)
        if not rest:
            self.empty = True
            return False
        if len(rest) == 1:
            return self.assume_ne0(rest[0])
        self.nzs = self.nzs + (tuple(rest),)
        return True

    # ---- strong entailment ---------------------------------------------------------------
    def lower(self, P, depth=3, _memo=None):
        """best provable lower bound of P (None if unbounded below)"""
        H, q, c = P.normal()
        if H is None:
            return c
        lo, _ = self.iv1(P, 1) if H.is_linear() else self.iv0(P)
        if lo is not None and lo > 0:
            return lo
        v = self._lp_lower(P)
        if v is not None and (lo is None or v > lo):
            lo = v
        return lo

    def entails_ge0(self, P, strict=False):
        H, q, c = P.normal()
        if H is None:
            return c > 0 if strict else c >= 0
        sg = self.sign(P)
        if (sg <= {1}) or (not strict and sg <= {0, 1}):
            return True
        if self._order_ge(P, strict, 3, set()):
            return True
        v = self._lp_lower(P)
        if v is not None and (v > 0 or (v == 0 and (not strict or 0 not in sg))):
            return True
        # facts transferred through product orderings, then combined linearly
        return False

    def _ge_basic(self, P, strict):
        sg = self.sign(P)
        if (sg <= {1}) or (not strict and sg <= {0, 1}):
            return True
        v = self._lp_lower(P)
        return v is not None and (v > 0 or (v == 0 and (not strict or 0 not in sg)))

    def _fracs(self):
        """fraction orderings (n1,d1,n2,d2,strict): n1/d1 <= n2/d2, d1,d2 > 0"""
        out = []
        for A, B, C, D, st in self.orders:
            # A*B <= C*D
            for (n1, d2, n2, d1) in ((A, B, C, D), (A, B, D, C), (B, A, C, D), (B, A, D, C)):
                s1 = self.sign(d1)
                s2 = self.sign(d2)
                if len(s1) != 1 or len(s2) != 1 or 0 in s1 or 0 in s2:
                    continue
                s1, s2 = min(s1), min(s2)
                f1 = (n1, d1) if s1 > 0 else (-n1, -d1)
                f2 = (n2, d2) if s2 > 0 else (-n2, -d2)
                if s1 * s2 > 0:
                    out.append(f1 + f2 + (st,))
                else:
                    out.append(f2 + f1 + (st,))
        return out

    def _order_ge(self, P, strict, depth, seen):
        """P >= 0 (or > 0) by transferring through fraction orderings"""
        if depth == 0 or not self.orders or not P.is_linear():
            return False
        key = (P, strict)
        if key in seen:
            return False
        seen.add(key)
        for n1, d1, n2, d2, st in self._fracs():
            # P = a*n2 - b*d2 with a >= 0  <=  a*n1 - b*d1 >= 0
            ab = _decomp(P, n2, d2)
            if ab is not None and ab[0] > 0:
                a, b = ab
                Q = n1.scale(a) + d1.scale(b)
                need = strict and not st
                if self._ge_basic(Q, need) or self._order_ge(Q, need, depth - 1, seen):
                    return True
            # P = b*d1 - a*n1 with a >= 0  <=  b*d2 - a*n2 >= 0
            ab = _decomp(P, n1, d1)
            if ab is not None and ab[0] < 0:
                a, b = ab
                Q = n2.scale(a) + d2.scale(b)
                need = strict and not st
                if self._ge_basic(Q, need) or self._order_ge(Q, need, depth - 1, seen):
                    return True
        return False

    def bounds(self, P):
        """bounds of a linear form: term-wise, then through chains of linear facts"""
        lo, hi = self.iv1(P, 1, True)
        v = self._lp_lower(P, None)
        if v is not None and (lo is None or v > lo):
            lo = ceil(v) if v.denominator != 1 else int(v)
        v = self._lp_lower(-P, None)
        if v is not None and (hi is None or -v < hi):
            hi = floor(-v) if v.denominator != 1 else -int(v)
        return lo, hi

    def _lp_system(self, P, big=BIG):
        """relevant (small-constant, unless big is None) constraints: list of (H, sign, bound):
        sign*H >= bound"""
        syms = set(P.syms())
        todo = [(H, r) for H, r in self.iv.items()]
        rel = []
        changed = True
        used = set()
        while changed:
            changed = False
            for i, (H, (lo, hi)) in enumerate(todo):
                if i in used:
                    continue
                if syms and not (H.syms() & syms):
                    continue
                ok = False
                if lo is not None and (big is None or abs(lo) < big):
                    rel.append((H, 1, lo))
                    ok = True
                if hi is not None and (big is None or abs(hi) < big):
                    rel.append((H, -1, -hi))
                    ok = True
                used.add(i)
                if ok and not (H.syms() <= syms):
                    syms |= H.syms()
                    changed = True
                elif ok:
                    changed = changed or False
        for s in syms:
            if SYM_LO[s] is not None and (big is None or abs(SYM_LO[s]) < big):
                rel.append((Poly({(s,): 1}), 1, SYM_LO[s]))
            if big is None and SYM_HI[s] is not None:
                rel.append((Poly({(s,): 1}), -1, -SYM_HI[s]))
        return rel

    def _lp_lower(self, P, big=BIG):
        rel = self._lp_system(P, big)
        if not rel:
            return None
        return farkas_lower(P, rel)

    def is_empty(self):
        """try to show the state infeasible"""
        if self.empty:
            return True
        rel = self._lp_system(ZERO)
        if rel:
            v = farkas_lower(ZERO, rel)
            if v is not None and v > 0:
                self.empty = True
                return True
        # contradictions through product orderings
        for n1, d1, n2, d2, st in self._fracs():
            # n1/d1 <= n2/d2 contradicted by a known linear separation
            for H, (lo, hi) in list(self.iv.items()):
                pass
        for H, (lo, hi) in list(self.iv.items()):
            if not self.orders or not H.is_linear():
                break
            if lo is not None and self._order_ge(lo - H - 1, False, 2, set()):
                self.empty = True
                return True
            if hi is not None and self._order_ge(H - hi - 1, False, 2, set()):
                self.empty = True
                return True
        return False


def _decomp(P, n, d):
    """(a,b) rational with P == a*n + b*d, or None"""
    ms = [m for m in set(n.t) | set(d.t) | set(P.t)]
    rows = [(n.t.get(m, 0), d.t.get(m, 0), P.t.get(m, 0)) for m in ms]
    for i in range(len(rows)):
        for j in range(i + 1, len(rows)):
            a1, b1, c1 = rows[i]
            a2, b2, c2 = rows[j]
            det = a1 * b2 - a2 * b1
            if det:
                x = Fraction(c1 * b2 - c2 * b1) / det
                y = Fraction(a1 * c2 - a2 * c1) / det
                for a, b, c in rows:
                    if a * x + b * y != c:
                        return None
                return (x, y)
    return None


def farkas_lower(P, cons):
    """max of sum(y_i*b_i) + const over y >= 0 with sum(y_i*s_i*H_i) == P - const.
    Exact two-phase simplex on the multipliers (rows: monomials).  None if infeasible.
    For P == 0 a positive value means the constraints contradict each other."""
    c0 = P.cval()
    monos = sorted({m for H, _, _ in cons for m in H.t} | {m for m in P.t if m})
    idx = {m: i for i, m in enumerate(monos)}
    n = len(cons)
    m = len(monos)
    # tableau rows: A y = p  (make rhs >= 0), artificial basis
    rows = [[Fraction(0)] * (n + 1) for _ in range(m)]
    for j, (H, s, b) in enumerate(cons):
        for mo, c in H.t.items():
            rows[idx[mo]][j] = Fraction(s * c)
    for mo, c in P.t.items():
        if mo:
            rows[idx[mo]][n] = Fraction(c)
    for r in rows:
        if r[n] < 0:
            for k in range(n + 1):
                r[k] = -r[k]
    basis = [-1] * m  # -1: artificial
    # phase 1: minimise sum of artificials
    obj = [sum(r[k] for r in rows) for k in range(n + 1)]

    def pivot(ri, ci, objs):
        r = rows[ri]
        pv = r[ci]
        if pv != 1:
            for k in range(n + 1):
                if r[k]:
                    r[k] = r[k] / pv
        for k2, r2 in enumerate(rows):
            if k2 != ri and r2[ci]:
                f = r2[ci]
                for k in range(n + 1):
                    if r[k]:
                        r2[k] -= f * r[k]
        for o in objs:
            if o[ci]:
                f = o[ci]
                for k in range(n + 1):
                    if r[k]:
                        o[k] -= f * r[k]
        basis[ri] = ci

    costs = [Fraction(b) for _, _, b in cons] + [Fraction(0)]
    obj2 = list(costs)
    it = 0
    while obj[n] > 0:
        it += 1
        if it > 400:
            return None
        ci = next((k for k in range(n) if obj[k] > 0), None)
        if ci is None:
            return None
        best = None
        for ri, r in enumerate(rows):
            if r[ci] > 0:
                t = r[n] / r[ci]
                if best is None or t < best[0] or (t == best[0] and basis[ri] < basis[best[1]]):
                    best = (t, ri)
        if best is None:
            return None
        pivot(best[1], ci, [obj, obj2])
    # drive remaining artificials (at zero) out when possible
    for ri in range(m):
        if basis[ri] == -1:
            ci = next((k for k in range(n) if rows[ri][k] != 0), None)
            if ci is not None:
                pivot(ri, ci, [obj, obj2])
    # phase 2: maximise costs.y ; obj2 holds reduced costs, value = -obj2[n]
    it = 0
    while True:
        it += 1
        if it > 400:
            break
        ci = next((k for k in range(n) if obj2[k] > 0), None)
        if ci is None:
            break
        best = None
        for ri, r in enumerate(rows):
            if r[ci] > 0:
                t = r[n] / r[ci]
                if best is None or t < best[0] or (t == best[0] and basis[ri] < basis[best[1]]):
                    best = (t, ri)
        if best is None:
            return Fraction(1 << 80)  # unbounded: constraints contradictory
        pivot(best[1], ci, [obj2])
    return -obj2[n] + c0
