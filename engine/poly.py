"""Exact polynomials over integer symbols and stream variables (rational coefficients)."""
from fractions import Fraction
from math import gcd


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    """Immutable polynomial: {monomial (sorted tuple of symbol ids): coefficient}."""
    __slots__ = ("t", "_h", "_nf", "_sy", "_li")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._nf = None
        self._sy = None
        self._li = None

    @staticmethod
    def const(c):
        return Poly({(): _norm(c)}) if c else ZERO

    @staticmethod
    def sym(s):
        return Poly({(s,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
                continue
            v = v + c
            if v:
                r[m] = v if type(v) is int else _norm(v)
            else:
                del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            return self + Poly.const(-o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
                continue
            v = v - c
            if v:
                r[m] = v if type(v) is int else _norm(v)
            else:
                del r[m]
        return Poly(r)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                r[m] = r.get(m, 0) + c1 * c2
        return Poly({m: _norm(c) for m, c in r.items() if c})

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        """Constant term."""
        return self.t.get((), 0)

    def const_value(self):
        return self.t.get((), 0) if self.is_const() else None

    def is_linear(self):
        if self._li is None:
            self._li = all(len(m) <= 1 for m in self.t)
        return self._li

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def syms(self):
        if self._sy is None:
            self._sy = frozenset(s for m in self.t for s in m)
        return self._sy

    def is_zero(self):
        return not self.t

    def normal(self):
        """(H, q, c): self == q*H + c, H primitive integer without constant, leading coeff > 0.
        H is None for constants."""
        if self._nf is not None:
            return self._nf
        c = self.t.get((), 0)
        items = [(m, k) for m, k in self.t.items() if m]
        if not items:
            self._nf = (None, 0, c)
            return self._nf
        if all(type(k) is int for _, k in items):
            q = 0
            for _, k in items:
                q = gcd(q, k)
            if min(items)[1] < 0:
                q = -q
            if q == 1 and not c:
                H = self
            else:
                H = Poly({m: k // q for m, k in items})
            self._nf = (H, q, c)
            return self._nf
        den = 1
        for _, k in items:
            if isinstance(k, Fraction):
                den = den * k.denominator // gcd(den, k.denominator)
        g = 0
        for _, k in items:
            g = gcd(g, abs(int(k * den)))
        lead = min(items)
        q = Fraction(g, den)
        if lead[1] < 0:
            q = -q
        q = _norm(q)
        if q == 1 and not c:
            H = self
        else:
            H = Poly({m: _norm(Fraction(k) / q) for m, k in items})
        self._nf = (H, q, c)
        return self._nf

    def subst(self, s, p):
        """Replace symbol s by polynomial p."""
        out = ZERO
        keep = {}
        hit = False
        for m, c in self.t.items():
            if s in m:
                hit = True
                k = m.count(s)
                rest = tuple(x for x in m if x != s)
                term = Poly({rest: c})
                for _ in range(k):
                    term = term * p
                out = out + term
            else:
                keep[m] = c
        if not hit:
            return self
        return out + Poly(keep)

    def coeffs_in(self, vars):
        """{monomial in vars: coefficient polynomial}."""
        r = {}
        for m, c in self.t.items():
            a = tuple(x for x in m if x in vars)
            b = tuple(x for x in m if x not in vars)
            r.setdefault(a, {})
            r[a][b] = _norm(r[a].get(b, 0) + c)
        return {a: Poly({b: c for b, c in t.items() if c}) for a, t in r.items()}

    def ratio_to(self, o):
        """Rational k with self == k*o, or None (o non-zero)."""
        if not o.t:
            return None
        if not self.t:
            return 0
        if len(self.t) != len(o.t):
            return None
        k = None
        for m, c in self.t.items():
            oc = o.t.get(m)
            if oc is None:
                return None
            r = Fraction(c) / Fraction(oc)
            if k is None:
                k = r
            elif k != r:
                return None
        return _norm(k)

    def show(self, names=None):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            nm = "*".join(names(s) if names else "s%d" % s for s in m)
            if not m:
                t = str(c)
            elif c == 1:
                t = nm
            elif c == -1:
                t = "-" + nm
            else:
                t = "%s*%s" % (c, nm)
            out.append(t)
        return "+".join(out).replace("+-", "-")

    def __repr__(self):
        return self.show()


ZERO = Poly({})
ONE = Poly({(): 1})
