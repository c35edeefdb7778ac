"""The analyses: entry states, oracles (ledgers) and obligations at returns."""
from fractions import Fraction
from itertools import product
from poly import Poly, ZERO, ONE
import facts as F
from facts import new_sym, sym_name
import text
from interp import (Machine, State, VInt, VAgg, VRef, VBox, VRc, VStream, VFn, VStr, VOpaque,
                    VTok, VUninit, UNINIT, Split, Panic, Defer, Unsupported, rng, fresh_id)

SPECIALS = {"NegOne": -1, "Zero": 0, "PosOne": 1}


class Names:
    """public protocol of the crate, resolved from the type table"""

    def __init__(self, prog):
        self.prog = prog
        self.t = {}
        for i, t in prog.types.items():
            if t["k"] == "adt" and t.get("krate") == "clarith":
                self.t.setdefault(t["name"].split("::")[-1], i)
        for n in ("Number", "Clog", "Special", "Primer", "Reduction"):
            if n not in self.t:
                raise Unsupported("type %s not found" % n)
        self.opt = {}
        for i, t in prog.types.items():
            if t["k"] == "adt" and t["name"] == "std::option::Option":
                self.opt[t["args"][0]] = i

    def variant(self, ty, name):
        for i, v in enumerate(self.prog.ty(ty)["variants"]):
            if v["name"] == name:
                return i
        raise Unsupported("variant %s not found" % name)

    def vname(self, v):
        return self.prog.ty(v.ty)["variants"][v.variant]["name"]

    def enum(self, tyname, var):
        ty = self.t[tyname]
        return VAgg(ty, self.variant(ty, var), ())

    def primer(self, name):
        pt = self.t["Primer"]
        ot = self.opt[pt]
        if name is None:
            return VAgg(ot, 0, ())
        return VAgg(ot, 1, (self.enum("Primer", name),))

    def reduction(self, dty, kind):
        if kind == "N":
            return VAgg(dty, 0, ())
        return VAgg(dty, 1, (self.enum("Reduction", {"A": "Amplify", "U": "Uncover"}[kind]),))

    def special_number(self, name):
        ty = self.t["Number"]
        return VAgg(ty, self.variant(ty, "Special"), (self.enum("Special", name),))

    def other_number(self, pname, clog):
        ty = self.t["Number"]
        return VAgg(ty, self.variant(ty, "Other"), (self.primer(pname), clog))


def new_stream(names, st, label):
    """an operand stream about which nothing is known; returns the Clog value and its variable"""
    sid = fresh_id()
    var = new_sym(label)
    st.streams[sid] = var
    if names.prog.whole:
        return VStream(sid), sid, var
    cell = ("H", fresh_id())
    st.mem[cell] = VStream(sid)
    return VAgg(names.t["Clog"], 0, (VBox(cell),)), sid, var


def clog_content(m, st, v):
    """what delivers the symbols of a Clog value: the object in its box, or all of it"""
    if m.prog.whole:
        return v, None
    for x in v.f:
        if isinstance(x, VBox):
            return st.mem.get(x.cell, UNINIT), x.cell
    raise Unsupported("unrecognised Clog content %r" % (v.f,))


# ---- value expressions ----------------------------------------------------------------------
def read_effect(P, var, kind, new):
    """P (degree <= 1 in var) after substituting the symbol just read, scaled to stay polynomial"""
    cs = P.coeffs_in({var})
    p1 = cs.get((var,), ZERO)
    p0 = cs.get((), ZERO)
    if any(len(k) > 1 for k in cs):
        raise Unsupported("value is not linear in an operand")
    if kind == "A":        # x = x'/2
        return p1 * Poly.sym(new) + p0 * 2
    if kind == "U":        # x = 1/(1+x')
        return p1 + p0 + p0 * Poly.sym(new)
    return p1 + p0 * 2     # x = 1/2


class ValueLedger:
    """exact value N/D that the computation still has to represent"""

    def __init__(self, N, D):
        self.N = N
        self.D = D

    def copy(self):
        return ValueLedger(self.N, self.D)

    def rebase(self, N, D):
        return ValueLedger(N, D)

    def subst(self, s, p):
        self.N = self.N.subst(s, p)
        self.D = self.D.subst(s, p)

    def on_read(self, var, kind, new):
        self.N = read_effect(self.N, var, kind, new)
        self.D = read_effect(self.D, var, kind, new)


def cancel(N, D, vars):
    """drop operand variables (positive) that divide both N and D"""
    for v in vars:
        while (N.t or D.t) and all(v in m for m in N.t) and all(v in m for m in D.t):
            N, D = (Poly({_without(m, v): c for m, c in P.t.items()}) for P in (N, D))
    return N, D


def _without(m, v):
    m = list(m)
    m.remove(v)
    return tuple(m)


def solve_equalities(fx):
    """rational substitutions for equalities that could not be eliminated in place"""
    subs = []
    for H, (lo, hi) in fx.iv.items():
        if lo is not None and lo == hi:
            P = H - lo
            for s, q in subs:
                P = P.subst(s, q)
            if P.is_zero() or not P.is_linear():
                continue
            ms = [x for x in P.t if x]
            if not ms:
                continue
            mm = max(ms)
            k = P.t[mm]
            q = (Poly({mm: k}) - P).scale(Fraction(1) / Fraction(k))
            subs = [(s, e.subst(mm[0], q)) for s, e in subs]
            subs.append((mm[0], q))
    return subs


def is_zero_mod(fx, P):
    if P.is_zero():
        return True
    for s, q in solve_equalities(fx):
        P = P.subst(s, q)
        if P.is_zero():
            return True
    # products known to be equal
    for H, (lo, hi) in fx.iv.items():
        if lo is not None and lo == hi and not H.is_linear():
            Q = H - lo
            m = max(Q.t)
            if m in P.t:
                P2 = P - Q.scale(Fraction(P.t[m]) / Fraction(Q.t[m]))
                if P2.is_zero():
                    return True
    return False


def subsets(vars):
    """multilinear monomials over vars, largest first"""
    out = []
    n = len(vars)
    for mask in range((1 << n) - 1, -1, -1):
        out.append(tuple(i for i in range(n) if mask >> (n - 1 - i) & 1))
    return out


def role_coeffs(N, D, vars):
    """{('N'|'D', index tuple): coefficient} over the given live variables; None if N or D
    depends on other variables or is not multilinear"""
    vs = set(vars)
    pos = {v: i for i, v in enumerate(vars)}
    out = {}
    for tag, P in (("N", N), ("D", D)):
        cs = P.coeffs_in(vs)
        for mset in subsets(vars):
            out[(tag, mset)] = ZERO
        for mono, c in cs.items():
            k = tuple(sorted(pos[v] for v in mono))
            if len(set(k)) != len(k):
                return None
            out[(tag, k)] = c
    return out


class Restart(Exception):
    """a representation chosen earlier turned out wrong; the narrowed choice is kept"""


def placements(roles, leaves, fx=None, dom=None):
    """where the coefficients may be stored: (lam, {role: positions}) with leaf == lam * coefficient
    for one rational lam, within dom when given; None when nothing fits"""
    if fx is not None:
        subs = solve_equalities(fx)
        if subs:
            def red(P):
                for s, q in subs:
                    P = P.subst(s, q)
                return P
            roles = {r: red(c) for r, c in roles.items()}
            leaves = [(p, red(v)) for p, v in leaves]
    names = list(roles)
    anchor = next((r for r in names if not roles[r].is_zero()), None)
    if anchor is None:
        return None
    lams = []
    for pos, lp in leaves:
        if dom is not None and pos not in dom[anchor]:
            continue
        k = lp.ratio_to(roles[anchor])
        if k is not None and k != 0 and k not in lams:
            lams.append(k)
    lams.sort(key=lambda k: (k < 0, abs(k) != 1, abs(k)))
    for lam in lams:
        out = {}
        for r in names:
            want = roles[r].scale(lam)
            out[r] = frozenset(pos for pos, lp in leaves
                               if lp == want and (dom is None or pos in dom[r]))
            if not out[r]:
                break
        else:
            if choose(out) is not None:
                return lam, out
    return None


def choose(dom):
    """one position per coefficient, all different, in textual order where possible"""
    names = list(dom)

    def rec(i, used, cur):
        if i == len(names):
            return dict(cur)
        for c in sorted(dom[names[i]], key=lambda c: (c < last(cur, i), c)):
            if c not in used:
                cur[names[i]] = c
                r = rec(i + 1, used | {c}, cur)
                if r is not None:
                    return r
                del cur[names[i]]
        return None

    def last(cur, i):
        return cur[names[i - 1]] if i else ()
    return rec(0, frozenset(), {})


def corner_forms(roles, nvars):
    """{corner bitmask tuple: (N, D)} values at the corners of the unit box"""
    out = {}
    for corner in product((0, 1), repeat=nvars):
        N = D = ZERO
        for (tag, mset), c in roles.items():
            if all(corner[i] for i in mset):
                if tag == "N":
                    N = N + c
                else:
                    D = D + c
        out[corner] = (N, D)
    return out


def atom_forms(roles, nvars):
    """candidate invariant atoms {name: (form, strict)} for orientation +1"""
    cf = corner_forms(roles, nvars)
    out = {}
    sn = sm = ZERO
    for k, (N, D) in cf.items():
        out[("N", k)] = (N, False)
        out[("M", k)] = (D - N, False)
        out[("D>", k)] = (D, True)
        out[("N>", k)] = (N, True)
        out[("M>", k)] = (D - N, True)
        sn = sn + N
        sm = sm + (D - N)
    out[("SN",)] = (sn, True)
    out[("SM",)] = (sm, True)
    return out


def required_atoms(nvars):
    req = {("SN",), ("SM",)}
    for k in product((0, 1), repeat=nvars):
        req.add(("N", k))
        req.add(("M", k))
    return req


def coefficient_order(c0, c1, s):
    """the coefficients c1*x + c0 have sign s and c1 exceeds c0 by one at most"""
    return c0.scale(s), c1.scale(s), (c0 - c1).scale(s) + 1


def eval_atoms(fx, roles, nvars, only=None):
    """(sign, set of atoms entailed); sign None when undetermined"""
    cf = corner_forms(roles, nvars)
    sgn = None
    for k, (N, D) in cf.items():
        s = fx.sign(D)
        if s == {1}:
            sgn = 1
        elif s == {-1}:
            sgn = -1
        if sgn:
            break
    if sgn is None:
        sd = ZERO
        for k, (N, D) in cf.items():
            sd = sd + D
        if fx.entails_ge0(sd, True):
            sgn = 1
        elif fx.entails_ge0(-sd, True):
            sgn = -1
        else:
            for k, (N, D) in cf.items():
                sgn = 1 if fx.entails_ge0(D, True) else -1 if fx.entails_ge0(-D, True) else None
                if sgn:
                    break
            else:
                return None, set()
    held = set()

    def want(a):
        return only is None or a in only
    for k, (N, D) in cf.items():
        N, M, D = N.scale(sgn), (D - N).scale(sgn), D.scale(sgn)
        got = {}
        for nm, P in (("N", N), ("M", M)):
            w = want((nm, k))
            if (want((nm + ">", k)) or w) and fx.entails_ge0(P, True):
                got[nm] = 2
            elif w and fx.entails_ge0(P):
                got[nm] = 1
            if got.get(nm):
                held.add((nm, k))
                if got[nm] == 2:
                    held.add((nm + ">", k))
        if got.get("N", 0) + got.get("M", 0) >= 3:
            held.add(("D>", k))
        elif want(("D>", k)) and fx.entails_ge0(D, True):
            held.add(("D>", k))
    # the sums may build on what was just shown about the corners
    af = None
    for a, nm in ((("SN",), "N"), (("SM",), "M")):
        if not want(a):
            continue
        if all((nm, k) in held for k in cf) and any((nm + ">", k) in held for k in cf):
            held.add(a)
            continue
        if af is None:
            af = atom_forms(roles, nvars)
            f2 = fx.copy()
            for b in held:
                Q, st = af[b]
                f2.assume_ge0(Q.scale(sgn) - 1 if st else Q.scale(sgn))
        if f2.entails_ge0(af[a][0].scale(sgn), True):
            held.add(a)
    if only is not None:
        held &= set(only)
    return sgn, held


# ---- strategies ------------------------------------------------------------------------------
class StratReg:
    """what is known about each kind of stream object: representation, shapes and invariant"""

    def __init__(self):
        self.dom = {}        # type name -> {role: possible positions}
        self.reps = {}       # type name -> {role: position}
        self.inv = {}        # type name -> set of atoms
        self.shapes = {}     # type name -> {shape: info}
        self.nvars = {}
        self.half = {}       # (type name, shape, orientation) -> always one half
        self.edges = set()   # handovers

    def narrow(self, name, dom):
        self.dom[name] = dom
        rep = self.reps.get(name)
        if rep is None or any(rep[r] not in dom[r] for r in dom):
            self.reps[name] = choose(dom)

    def rep(self, name):
        return self.reps[name]


def snapshot(m, st, v):
    """portable shape of a strategy object: (shape, int leaves, streams)"""
    cells = {}
    leaves = []
    streams = []

    def walk(v, pos):
        if isinstance(v, bool):
            return ("bool", v)
        if isinstance(v, VInt):
            leaves.append((pos, v))
            c = v.p.const_value()
            return ("int", v.ty, c)
        if isinstance(v, VAgg):
            return ("agg", v.ty, v.variant, tuple(walk(x, pos + (i,)) for i, x in enumerate(v.f)))
        if isinstance(v, (VBox, VRc)):
            k = "box" if isinstance(v, VBox) else "rc"
            n = st.rc.get(v.cell) if k == "rc" else None
            if v.cell in cells:
                return (k, cells[v.cell], n, None)
            cells[v.cell] = len(cells)
            i = cells[v.cell]
            return (k, i, n, walk(st.mem.get(v.cell, UNINIT), pos + ("*",)))
        if isinstance(v, VStream):
            if v.sid not in streams:
                streams.append(v.sid)
            return ("stream", streams.index(v.sid))
        if isinstance(v, VUninit):
            return ("uninit",)
        if isinstance(v, VFn):
            return ("fn", v.inst)
        if isinstance(v, VStr):
            return ("str", v.s)
        raise Unsupported("strategy content %s" % type(v).__name__)
    sh = walk(v, ())
    return sh, leaves, streams


def blank(shape, keep_const_pos, pos=()):
    """shape with the integers at the given positions blanked"""
    k = shape[0]
    if k == "int":
        if pos in keep_const_pos:
            return ("int", shape[1], "*")
        return shape
    if k == "agg":
        return ("agg", shape[1], shape[2],
                tuple(blank(s, keep_const_pos, pos + (i,)) for i, s in enumerate(shape[3])))
    if k in ("box", "rc") and shape[3] is not None:
        return (k, shape[1], shape[2], blank(shape[3], keep_const_pos, pos + ("*",)))
    return shape


def instantiate(m, names, st, shape, symf):
    """abstract object of the given shape; symf(pos, ty) gives the integer contents"""
    cells = {}
    svars = {}

    def go(s, pos):
        k = s[0]
        if k == "bool":
            return s[1]
        if k == "int":
            if s[2] == "*" or s[2] is None:
                return VInt(symf(pos, s[1]), s[1])
            return VInt(Poly.const(s[2]), s[1])
        if k == "agg":
            return VAgg(s[1], s[2], tuple(go(x, pos + (i,)) for i, x in enumerate(s[3])))
        if k in ("box", "rc"):
            if s[3] is None:
                c = cells[s[1]]
            else:
                c = ("H", fresh_id())
                cells[s[1]] = c
                st.mem[c] = go(s[3], pos + ("*",))
            if k == "rc":
                st.rc[c] = s[2]
                return VRc(c)
            return VBox(c)
        if k == "stream":
            if s[1] not in svars:
                sid = fresh_id()
                var = new_sym("xyzw"[s[1]] if s[1] < 4 else "x%d" % s[1])
                st.streams[sid] = var
                svars[s[1]] = sid
            return VStream(svars[s[1]])
        if k == "fn":
            return VFn(s[1], None)
        if k == "str":
            return VStr(s[1])
        return UNINIT
    v = go(shape, ())
    return v, [svars[i] for i in sorted(svars)]


def kind_of(m, st, v):
    """name of the kind of a stream object: its type, or the types and variants inside a Clog"""
    if not m.prog.whole:
        return m.prog.ty(v.ty)["name"]
    parts = []

    def go(x):
        if isinstance(x, VBox):
            go(st.mem.get(x.cell, UNINIT))
        if isinstance(x, VAgg) and isinstance(x.ty, int):
            t = m.prog.ty(x.ty)
            if t["k"] == "adt" and t["adtkind"] == "enum":
                parts.append(t["variants"][x.variant]["name"])
            elif t["k"] == "adt" and t["local"] and x is not v:
                parts.append(t["name"].split("::")[-1])
            for y in x.f:
                go(y)
    go(v)
    return "clarith::" + ".".join(parts or ["Clog"])


def strat_value(m, st, reg, v):
    """(N, D, roles, nvars, type name) of a strategy object under the chosen representation"""
    if not isinstance(v, VAgg) or not isinstance(v.ty, int):
        raise Unsupported("unrecognised strategy object")
    name = kind_of(m, st, v)
    sh, leaves, streams = snapshot(m, st, v)
    lv = {p: x.p for p, x in leaves}
    rep = reg.rep(name)
    vars = []
    roles = {}
    for r, pos in rep.items():
        if pos and pos[0] == "=":
            lv[pos] = Poly.const(pos[1])
        if pos not in lv:
            raise Unsupported("representation of %s changed shape" % name)
        roles[r] = lv[pos]
    nv = reg.nvars[name]
    if len(streams) != nv:
        raise Unsupported("%s holds %d streams" % (name, len(streams)))
    N = D = ZERO
    for (tag, mset), c in roles.items():
        term = c
        k = 1
        for i in mset:
            var = st.streams[streams[i]]
            if var is None:
                k = k * Fraction(1, 2)
            else:
                term = term * Poly.sym(var)
        term = term.scale(k)
        if tag == "N":
            N = N + term
        else:
            D = D + term
    return N, D, roles, nv, name, sh


PRIMERS = (None, "Turn", "Reflect", "Ground")


def apply_primer(p, N, D):
    """value denoted by primer p in front of N/D"""
    if p == "Turn":
        return D, N
    if p == "Reflect":
        return -N, D
    if p == "Ground":
        return -D, N
    return N, D


def unapply_primer(p, N, D):
    """stream value that primer p needs behind it to denote N/D"""
    if p == "Turn":
        return D, N
    if p == "Reflect":
        return -N, D
    if p == "Ground":
        return -D, N
    return N, D


def primer_name(names, v):
    if v.variant == 0:
        return None
    return names.vname(v.f[0])


def show(P):
    return P.show(sym_name)


# ---- jobs ------------------------------------------------------------------------------------
class Job:
    """common behaviour: stream reads, panic classification, value cuts"""
    name = "job"

    def __init__(self, prog, reg=None):
        self.prog = prog
        self.names = Names(prog)
        self.reg = reg if reg is not None else StratReg()
        self.templates = {}
        self.tdom = {}        # possible storage of coefficients at cuts, kept over restarts
        self.records = []
        self.invs = {}        # invariant atoms usable at cuts: None in constructors
        self.read_sites = set()
        self.merge_reads = True
        self.cut_atoms = False
        self.cut_orders = False
        self.cutheld = {}

    def reset(self):
        self.records = []
        self.templates = {}
        self.cutheld = {}

    # -- interception of stream reads
    def intercept(self, m, st, fr, t, fn, defn, args, dst):
        if fn is not None and fn.name.endswith("::Clog::egest") and args:
            ref = args[0]
            v = m.read(st, ref.cell, ref.path)
            if isinstance(v, (VAgg, VStream)):
                c, _ = clog_content(m, st, v)
                if isinstance(c, VStream):
                    return self.do_read(m, st, fr, t, c.sid, dst, None)
        if fn is not None and (fn.kind == "Virtual") and defn in self.prog.reader_defs:
            v = m.read(st, args[0].cell, args[0].path)
            if isinstance(v, VStream):
                return self.do_read(m, st, fr, t, v.sid, dst, t["dty"])
        return None

    # -- text
    def counts_as_read(self, m, t):
        """whether the call takes the next of finitely many items of unknown number"""
        return False

    def emit(self, m, st, txt, err):
        """something is written; of no consequence for the values"""

    def append(self, m, st, cell, path, txt):
        old = m.read(st, cell, path)
        if txt is None or len(old.d) + len(txt) > text.LIMIT:
            raise Unsupported("text of a string is not known")
        m.write(st, cell, path, text.string(old.d + txt))

    def do_read(self, m, st, fr, t, sid, dst, wrap):
        if st.tokmode is not None:
            raise Unsupported("reads a stream after a recursive call")
        if st.pending is not None:
            m.overdue(st)
            return False
        if self.merge_reads and not st.merged:
            # paths that reach the same read join here
            if not fr.idx:
                fr.idx = len(fr.fn.blocks[fr.blk]["s"])
            return m.cut(st, ("read", fr.fn.id, fr.blk), False)
        st.merged = False
        site = m.site(st)
        m.reads_sites.add(site)
        dty = t["dty"]
        var = st.streams[sid]
        if wrap is not None:
            rt = m.prog.ty(wrap)
            ok_ty = rt["variants"][0]["fields"][0]["ty"]
        else:
            ok_ty = dty
        kinds = ("N",) if var is None else ("N", "A", "U")
        for k in kinds:
            s2 = st.copy()
            f2 = s2.frames[-1]
            if var is not None:
                s2.reads += 1
                if k == "N":
                    s2.streams[sid] = None
                    new = None
                else:
                    new = new_sym(sym_name(var))
                    s2.streams[sid] = new
                if s2.led is not None:
                    s2.led.on_read(var, k, new)
            s2.note("%s: reads %s from %s" % (site, {"A": "Amplify", "U": "Uncover", "N": "end"}[k],
                                              sym_name(var) if var is not None else "ended stream"))
            val = self.names.reduction(ok_ty, k)
            if wrap is not None:
                val = VAgg(wrap, 0, (val,))
            if m.finish(s2, f2, t, dst, val):
                m.work.append(s2)
        if wrap is not None:
            s2 = st.copy()
            c = ("H", fresh_id())
            s2.mem[c] = VStream(sid)
            if m.finish(s2, s2.frames[-1], t, dst, VAgg(wrap, 1, (VBox(c),))):
                m.work.append(s2)
        return False

    # -- panics
    def on_panic(self, m, st, p, site):
        led = st.led
        if p.kind == "arith-overflow":
            m.obligations += 1
            if not m.finding("overflow", site, "unchecked arithmetic can overflow (%s)" % p.msg, st):
                m.discharged += 1
            return
        m.obligations += 1
        if p.overflow or st.ovf:
            m.discharged += 1
            return
        if p.kind == "panic" and p.msg and "division by zero" in p.msg:
            if led is not None and hasattr(led, "D") and is_zero_mod(st.facts, led.D):
                m.discharged += 1
                return
            if not m.finding("div0", site,
                             "reports a division by zero that is not shown to be one", st,
                             None if led is None else "denominator %s" % show(led.D)):
                m.discharged += 1
            return
        what = "panic '%s'" % p.msg if p.kind == "panic" else "%s (%s)" % (p.kind, p.msg)
        if self.allowed_panic(m, st, p):
            m.discharged += 1
            return
        if not m.finding("panic", site, what + " is reachable", st):
            m.discharged += 1

    def allowed_panic(self, m, st, p):
        return False

    # -- cuts
    def cut(self, m, st, siteid, key, leaves, streams):
        led = st.led
        live = [s for s in streams if st.streams[s] is not None]
        vars = [st.streams[s] for s in live]
        m.obligations += 1
        intsyms = {s for _, v in leaves for s in v.p.syms()}
        allv = {v for v in st.streams.values() if v is not None}
        missing = (led.N.syms() | led.D.syms()) & (allv - set(vars))
        if missing:
            return m.hold(st, siteid, "value", "an operand stream the value depends on is dropped")
        roles = role_coeffs(led.N, led.D, vars)
        lv = [(pos, v.p) for pos, v in leaves]
        tkey = (siteid, key, len(vars))
        got = roles and placements(roles, lv, st.facts, self.tdom.get(tkey))
        if not got:
            return m.hold(st, siteid, "value", "the program state no longer represents the value",
                          "value (%s)/(%s); state %s" % (show(led.N), show(led.D),
                                                         [show(p) for _, p in lv]))
        self.tdom[tkey] = got[1]
        asg = self.templates.get(tkey)
        if asg is None:
            if not m.draining and any(len(c) > 1 for c in got[1].values()):
                m.obligations -= 1
                raise Defer()
            asg = self.templates[tkey] = choose(got[1])
        elif any(pos not in got[1][r] for r, pos in asg.items()):
            raise Restart()
        d = dict(lv)
        m.discharged += 1
        new = {}
        assign = {}
        nm = {0: ("n", "d"), 1: ("nx", "dx"), 2: ("nxy", "dxy")}
        for r, pos in asg.items():
            ty = next(v.ty for p, v in leaves if p == pos)
            lo, hi = rng(m.prog.ty(ty))
            lab = ("n" if r[0] == "N" else "d") + "".join(sym_name(vars[i]) for i in r[1])
            s = new_sym(lab, lo, hi)
            new[r] = Poly.sym(s)
            assign[pos] = Poly.sym(s)
        N = D = ZERO
        for (tag, mset), c in new.items():
            term = c
            for i in mset:
                term = term * Poly.sym(vars[i])
            if tag == "N":
                N = N + term
            else:
                D = D + term
        addf = []
        dpos = [pos for r, pos in sorted(asg.items()) if r[0] == "D"]
        nz = self.not_all_zero(st, [d[pos] for pos in dpos])
        if nz:
            addf.append((tuple(assign[pos] for pos in dpos), "nz"))
        lkey = (len(vars), nz, None)
        if self.cut_atoms:
            nv = len(vars)
            cur = {r: d[pos] for r, pos in asg.items()}
            sg, held = eval_atoms(st.facts, cur, nv)
            if sg is not None:
                held = frozenset(held)
                seen = self.cutheld.setdefault((siteid, key, nv, nz, sg), [])
                for h in seen:
                    if h <= held:
                        held = h
                        break
                else:
                    seen.append(held)
                lkey = (nv, nz, sg, held)
                af = atom_forms(new, nv)
                for a in held:
                    P, strict = af[a]
                    addf.append((P.scale(sg), strict))
        if self.cut_orders:
            held = []
            for tag, s in product(("N", "D"), (1, -1)):
                c0, c1 = (tag, ()), (tag, (0,))
                if c0 not in asg or c1 not in asg or (tag, -s) in held:
                    continue
                forms = coefficient_order(d[asg[c0]], d[asg[c1]], s)
                if all(st.facts.entails_ge0(P) for P in forms):
                    held.append((tag, s))
                    addf += [(P, False) for P in coefficient_order(new[c0], new[c1], s)]
            lkey += (tuple(held),)
        return lkey, assign, addf, led.rebase(N, D)

    def not_all_zero(self, st, forms):
        """the forms cannot vanish together"""
        if any(0 not in st.facts.sign(P) for P in forms):
            return True
        s2 = st.copy()
        c = ("Z", 0)
        s2.mem[c] = VAgg(None, 0, tuple(VInt(P, None) for P in forms))
        for i in range(len(forms)):
            # memory contents follow the substitutions made on the way
            P = s2.mem[c].f[i].p
            for s, q in solve_equalities(s2.facts):
                P = P.subst(s, q)
            if P.is_zero():
                continue
            if not s2.assume_eq0(P) or not s2.settle() or s2.facts.empty:
                return True
        return s2.facts.is_empty()

    # -- obligations on results
    def check_number(self, m, st, v, site):
        """a returned Number must denote exactly N/D of the ledger, with D non-zero"""
        led = st.led
        N, D = cancel(led.N, led.D, [x for x in st.streams.values() if x is not None])
        names = self.names
        if not isinstance(v, VAgg):
            m.finding("unsupported", site, "unrecognised result", st)
            return
        m.obligations += 2
        live = [x for x in st.streams.values() if x is not None]
        if not self.nonzero(st, D, live):
            if not m.finding("div0", site, "returns a number although the denominator may be zero",
                             st, "denominator %s" % show(D)):
                return
        else:
            m.discharged += 1
        vn = names.vname(v)
        if vn == "Special":
            val = SPECIALS[names.vname(v.f[0])]
            if is_zero_mod(st.facts, N - D.scale(val)):
                m.discharged += 1
            else:
                m.finding("value", site, "returns the special value %d for a different number" % val,
                          st, "value (%s)/(%s)" % (show(N), show(D)))
            return
        p = primer_name(names, v.f[0])
        c, _ = clog_content(m, st, v.f[1])
        Nv, Dv = unapply_primer(p, N, D)
        self.check_strategy(m, st, c, Nv, Dv, site, "a %s stream" % (p or "plain"))

    def nonzero(self, st, D, live):
        """D != 0 for all operand values strictly inside (0,1)"""
        vars = [v for v in live if v in D.syms()]
        rc = role_coeffs(ZERO, D, vars)
        if rc is None:
            return False
        cf = corner_forms(rc, len(vars))
        fx = st.facts
        for sg in (1, -1):
            tot = ZERO
            ok = True
            for k, (_, d) in cf.items():
                if not fx.entails_ge0(d.scale(sg)):
                    ok = False
                    break
                tot = tot + d.scale(sg)
            if ok and (fx.entails_ge0(tot, True) or any(0 not in fx.sign(d) for _, d in cf.values())):
                return True
        if not vars and 0 not in fx.sign(D):
            return True
        return False

    def check_strategy(self, m, st, c, Nv, Dv, site, what, learn=True, cls="value"):
        """object c must represent Nv/Dv, strictly inside (0,1); recorded for the registry"""
        if isinstance(c, VStream):
            var = st.streams[c.sid]
            x = Poly.const(Fraction(1, 2)) if var is None else Poly.sym(var)
            if is_zero_mod(st.facts, Nv - Dv * x):
                m.discharged += 1
            else:
                m.finding(cls, site, "returns an operand stream with a different value", st)
            return None
        if not isinstance(c, VAgg) or not isinstance(c.ty, int):
            m.finding("unsupported", site, "unrecognised strategy object", st)
            return None
        name = kind_of(m, st, c)
        sh, leaves, streams = snapshot(m, st, c)
        lv = [(p, v.p) for p, v in leaves]
        if not leaves and not streams and is_zero_mod(st.facts, Nv.scale(2) - Dv):
            # an object without content can only stand for the end
            Nv, Dv = ONE, ONE.scale(2)
            lv = [(("=", 1), Nv), (("=", 2), Dv)]
        # an ended operand stands for one half
        vars = []
        subN, subD = Nv, Dv
        for s in streams:
            var = st.streams[s]
            if var is None:
                var = new_sym("ended")
            vars.append(var)
        live = {x for x in st.streams.values() if x is not None}
        missing = (Nv.syms() | Dv.syms()) & (live - set(vars))
        if missing:
            m.finding(cls, site, "an operand stream the value depends on is not in the result", st)
            return None
        known = name in self.reg.dom and not learn
        if known:
            N2, D2, roles, nv, _, _ = strat_value(m, st, self.reg, c)
            if not is_zero_mod(st.facts, N2 * Dv - Nv * D2):
                m.finding(cls, site, "%s does not have the required value" % what, st,
                          "required (%s)/(%s), represented (%s)/(%s)" % (show(Nv), show(Dv),
                                                                         show(N2), show(D2)))
                return None
            asg = self.reg.rep(name)
        else:
            ended = [i for i, s in enumerate(streams) if st.streams[s] is None]
            if ended:
                if name not in self.reg.dom:
                    m.finding("unsupported", site, "result holds an ended operand", st)
                    return None
                return self.check_strategy(m, st, c, Nv, Dv, site, what, learn=False)
            roles0 = role_coeffs(Nv, Dv, vars)
            got = roles0 and placements(roles0, lv, st.facts, self.reg.dom.get(name))
            if not got:
                m.finding(cls, site, "%s does not have the required value" % what, st,
                          "required (%s)/(%s), object holds %s" % (show(Nv), show(Dv),
                                                                   [show(p) for _, p in lv]))
                return None
            self.reg.narrow(name, got[1])
            self.reg.nvars.setdefault(name, len(vars))
            asg = self.reg.rep(name)
            d = dict(lv)
            roles = {r: d[pos] for r, pos in asg.items()}
            nv = len(vars)
        m.discharged += 1
        m.obligations += 1
        req = required_atoms(nv)
        inv = self.reg.inv.get(name)
        sg, held = eval_atoms(st.facts, roles, nv, None if inv is None else inv | req)
        if sg is None or not (req <= held):
            if m.finding("inv", site, "%s is not shown to lie strictly between 0 and 1" % what, st,
                         "object %s" % {str(k): show(v) for k, v in roles.items()}):
                return None
        m.discharged += 1
        half = all(is_zero_mod(st.facts, c.scale(2) - roles[("D", r[1])])
                   for r, c in roles.items() if r[0] == "N")
        return self.record(m, st, name, sh, asg, sg, held, half)

    def record(self, m, st, name, sh, asg, sg, held, half):
        r = (name, blank(sh, set(asg.values())), sg, frozenset(held), half)
        self.records.append(r)
        return r


def run_machine(prog, job, starts, passes=4, max_states=400000, stop=None):
    """explore from the start states; repeats with tightened loop bounds while that removes
    overflow findings.  starts: callable(machine) -> None pushing the start states."""
    assumed = {}
    best = None
    for it in range(passes):
        m = Machine(prog, job, max_states)
        m.assumed = assumed
        m.exact = it > 0
        m.stop = stop if it == passes - 1 else None
        for _ in range(60):
            job.reset()
            try:
                starts(m)
                m.run()
                break
            except Restart:
                m = Machine(prog, job, max_states)
                m.assumed = assumed
                m.exact = it > 0
                m.stop = stop if it == passes - 1 else None
        else:
            raise Unsupported("the representation of the value does not settle")
        m.passes = it + 1
        best = m
        if not any(f.cls == "overflow" for f in m.findings) or it == passes - 1:
            break
        assumed = m.hull
    return best


# -- constructors ------------------------------------------------------------------------------
class RatioJob(Job):
    name = "ratio"

    def starts(self, m):
        names = self.names
        p = self.prog
        f = p.fn_named("clarith::Number::ratio")
        g = p.fn_named("clarith::Number::ratio_u")
        if f is None or g is None:
            raise Unsupported("Number::ratio / ratio_u not found")
        ti = f.locals[1]
        st = State()
        lo, hi = rng(p.ty(ti))
        a, b = Poly.sym(new_sym("num", lo, hi)), Poly.sym(new_sym("den", lo, hi))
        st.led = ValueLedger(a, b)
        m.start(st, f, [VInt(a, ti), VInt(b, f.locals[2])])
        for pos in (True, False):
            st = State()
            tu = g.locals[2]
            lo, hi = rng(p.ty(tu))
            a, b = Poly.sym(new_sym("num", lo, hi)), Poly.sym(new_sym("den", lo, hi))
            st.led = ValueLedger(a if pos else -a, b)
            m.start(st, g, [pos, VInt(a, tu), VInt(b, g.locals[3])])

    def on_return(self, m, st, v):
        self.check_number(m, st, v, "result of %s" % st.frames[-1].fn.name)


OPERANDS = [("S", s) for s in SPECIALS] + [("P", p) for p in PRIMERS]


def make_operand(names, st, case, label):
    """operand Number and its value (N, D)"""
    if case[0] == "S":
        return names.special_number(case[1]), (Poly.const(SPECIALS[case[1]]), ONE)
    clog, sid, var = new_stream(names, st, label)
    N, D = apply_primer(case[1], Poly.sym(var), ONE)
    return names.other_number(case[1], clog), (N, D)


class HomographicJob(Job):
    name = "homographic"
    cases = OPERANDS

    def starts(self, m):
        f = self.prog.fn_named("clarith::Number::homographic")
        if f is None:
            raise Unsupported("Number::homographic not found")
        ti = f.locals[2]
        lo, hi = rng(self.prog.ty(ti))
        for case in self.cases:
            st = State()
            x, (xn, xd) = make_operand(self.names, st, case, "x")
            co = [Poly.sym(new_sym(n, lo, hi)) for n in ("nx", "n", "dx", "d")]
            nx, n, dx, d = co
            st.led = ValueLedger(nx * xn + n * xd, dx * xn + d * xd)
            st.note("operand x: %s %s" % case)
            m.start(st, f, [x] + [VInt(c, ti) for c in co])

    def on_return(self, m, st, v):
        self.check_number(m, st, v, "result of %s" % st.frames[-1].fn.name)


class CombineJob(Job):
    name = "combine"
    cases = [(a, b) for a in OPERANDS for b in OPERANDS]

    def starts(self, m):
        f = self.prog.fn_named("clarith::Number::combine")
        if f is None:
            raise Unsupported("Number::combine not found")
        ti = f.locals[3]
        lo, hi = rng(self.prog.ty(ti))
        for ca, cb in self.cases:
            st = State()
            x, (xn, xd) = make_operand(self.names, st, ca, "x")
            y, (yn, yd) = make_operand(self.names, st, cb, "y")
            co = [Poly.sym(new_sym(n, lo, hi)) for n in
                  ("nxy", "nx", "ny", "n", "dxy", "dx", "dy", "d")]

            def ev(a, b, c, d):
                return a * xn * yn + b * xn * yd + c * xd * yn + d * xd * yd
            st.led = ValueLedger(ev(*co[:4]), ev(*co[4:]))
            st.note("operands x: %s %s, y: %s %s" % (ca + cb))
            m.start(st, f, [x, y] + [VInt(c, ti) for c in co])

    def on_return(self, m, st, v):
        self.check_number(m, st, v, "result of %s" % st.frames[-1].fn.name)


# -- streams -----------------------------------------------------------------------------------
class EgestJob(Job):
    """one read from a stream object of a recorded kind whose invariant holds"""

    def __init__(self, prog, reg, tyname, shapes):
        Job.__init__(self, prog, reg)
        self.tyname = tyname
        self.name = "read:" + tyname.split("::")[-1]
        self.shapes = shapes
        self.cut_atoms = True
        self.edges = set()
        self.fn = None

    def starts(self, m):
        name = self.tyname
        for shape, sg in sorted(self.shapes, key=repr):
            ty = shape[1]
            f = self.prog.reader(ty)
            if f is None or f.blocks is None:
                raise Unsupported("read operation of %s not found" % name)
            self.fn = f
            st = State()
            rep = self.reg.rep(name)
            back = {pos: r for r, pos in rep.items()}

            def symf(pos, ity):
                lo, hi = rng(self.prog.ty(ity))
                r = back.get(pos)
                lab = "h" if r is None else (r[0].lower() + "".join("xyzw"[i] for i in r[1]))
                return Poly.sym(new_sym(lab, lo, hi))
            v, sids = instantiate(m, self.names, st, shape, symf)
            cell = ("H", fresh_id())
            st.mem[cell] = v
            N, D, roles, nv, _, _ = strat_value(m, st, self.reg, v)
            st.led = StreamLedger(N, D, cell)
            for a in self.reg.inv[name]:
                P, strict = atom_forms(roles, nv)[a]
                P = P.scale(sg)
                st.assume_ge0(P - 1 if strict else P)
            if self.reg.half.get((name, shape, sg)):
                for r, c in roles.items():
                    if r[0] == "N":
                        st.assume_eq0(c.scale(2) - roles[("D", r[1])])
            st.note("%s object, %s" % (name.split("::")[-1],
                                       "denominator positive" if sg > 0 else "denominator negative"))
            if st.facts.is_empty():
                continue
            m.start(st, f, [VRef(cell, ())])

    def on_return(self, m, st, v):
        site = "read of %s" % self.fn.name
        names = self.names
        N, D = st.led.N, st.led.D
        if not isinstance(v, VAgg) or len(v.f) != 1 and not self.prog.whole:
            m.finding("unsupported", site, "unrecognised result", st)
            return
        obj = st.mem.get(st.led.cell, UNINIT)
        if not self.prog.whole and v.variant == 1:
            b = v.f[0]
            c = st.mem.get(b.cell, UNINIT) if isinstance(b, VBox) else None
            m.obligations += 1
            r = self.check_strategy(m, st, c, N, D, site, "the replacement stream", learn=False)
            if r is not None:
                self.edges.add((self.tyname, r[0]))
            elif isinstance(c, VStream):
                self.edges.add((self.tyname, "operand"))
            return
        o = v if self.prog.whole else v.f[0]
        if o.variant == 0:
            m.obligations += 2
            if is_zero_mod(st.facts, N.scale(2) - D):
                m.discharged += 1
            else:
                if m.finding("value", site, "reports the end although the value is not one half", st,
                             "value (%s)/(%s)" % (show(N), show(D))):
                    return
            self.check_strategy(m, st, obj, N, D, site, "the stream after its end", learn=False,
                                cls="end")
            return
        k = names.vname(o.f[0])
        m.obligations += 1
        if k == "Amplify":
            self.check_strategy(m, st, obj, N.scale(2), D, site, "the stream after Amplify",
                                learn=False)
        else:
            self.check_strategy(m, st, obj, D - N, N, site, "the stream after Uncover", learn=False)
        if self.reg.nvars[self.tyname] == 0:
            self.ranking(m, st, obj, site)

    def ranking(self, m, st, obj, site):
        """a stream without operands gets simpler with every symbol"""
        N2, D2, roles, nv, _, _ = strat_value(m, st, self.reg, obj)
        N0, D0 = st.led.N, st.led.D
        m.obligations += 1
        fx = st.facts
        if fx.entails_ge0(D0 - D2, True) or \
                (is_zero_mod(fx, D0 - D2) and fx.entails_ge0(N2 - N0, True)):
            m.discharged += 1
            return
        m.finding("progress", site, "the remaining ratio is not shown to get simpler", st,
                  "from %s/%s to %s/%s" % (show(N0), show(D0), show(N2), show(D2)))


class StreamLedger(ValueLedger):
    def __init__(self, N, D, cell):
        ValueLedger.__init__(self, N, D)
        self.cell = cell

    def copy(self):
        return StreamLedger(self.N, self.D, self.cell)

    def rebase(self, N, D):
        return StreamLedger(N, D, self.cell)


def join(a, b):
    """the shape covering two shapes that differ in integers only, or None"""
    if a == b:
        return a
    if a[0] != b[0]:
        return None
    if a[0] == "int":
        return ("int", a[1], "*") if a[1] == b[1] else None
    if a[0] == "agg" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        f = tuple(join(x, y) for x, y in zip(a[3], b[3]))
        return None if None in f else a[:3] + (f,)
    if a[0] in ("box", "rc") and a[1:3] == b[1:3] and a[3] is not None and b[3] is not None:
        c = join(a[3], b[3])
        return None if c is None else a[:3] + (c,)
    return None


def covers(a, b):
    return join(a, b) == a


def widen(reg, name, shape, sg, most=4):
    """integers that play no part in the value and keep changing may be anything"""
    s = reg.shapes[name]
    like = [o for o, g in s if g == sg and join(o, shape) is not None]
    if len(like) <= most:
        return
    for o in like:
        shape = join(shape, o)
    half = all(reg.half.pop((name, o, sg)) for o in like)
    s.difference_update({(o, sg) for o in like})
    s.add((shape, sg))
    reg.half[(name, shape, sg)] = half


def learn_invariants(reg, records):
    """intersect what held at every creation; returns the set of kinds whose entry changed"""
    ch = set()
    for name, shape, sg, held, half in records:
        req = required_atoms(reg.nvars[name])
        cur = reg.inv.get(name)
        new = held if cur is None else cur & held
        if cur is None or new != cur:
            reg.inv[name] = frozenset(new | req)
            if reg.inv[name] != cur:
                ch.add(name)
        s = reg.shapes.setdefault(name, set())
        known = next((o for o, g in s if g == sg and covers(o, shape)), None)
        if known is None:
            s.add((shape, sg))
            ch.add(name)
            reg.half[(name, shape, sg)] = half
            widen(reg, name, shape, sg)
        elif reg.half[(name, known, sg)] and not half:
            reg.half[(name, known, sg)] = False
            ch.add(name)
    return ch
