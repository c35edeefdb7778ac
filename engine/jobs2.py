"""Analyses of the remaining operations: consume, compare, strategy handover, accessors and the
demo program."""
from fractions import Fraction
from itertools import product
from poly import Poly, ZERO, ONE
from facts import new_sym, sym_name
import text
from interp import (State, VInt, VAgg, VRef, VBox, VStream, VStr, VOpaque, VUninit, UNINIT,
                    Unsupported, fresh_id)
from jobs import (Job, ValueLedger, OPERANDS, SPECIALS, make_operand, new_stream, clog_content,
                  apply_primer, primer_name, is_zero_mod, read_effect, show, solve_equalities)


# -- consume -----------------------------------------------------------------------------------
class ConsumeLedger(ValueLedger):
    def __init__(self, N, D, sid):
        ValueLedger.__init__(self, N, D)
        self.sid = sid

    def copy(self):
        return ConsumeLedger(self.N, self.D, self.sid)

    def rebase(self, N, D):
        return ConsumeLedger(N, D, self.sid)


def reduced(st, P):
    for s, q in solve_equalities(st.facts):
        P = P.subst(s, q)
    return P


class ConsumeJob(Job):
    name = "consume"

    def __init__(self, prog, reg=None):
        Job.__init__(self, prog, reg)
        self.cut_orders = True

    def starts(self, m):
        f = self.prog.fn_named("clarith::Number::consume")
        if f is None:
            raise Unsupported("Number::consume not found")
        for case in OPERANDS:
            st = State()
            x, (N, D) = make_operand(self.names, st, case, "x")
            sid = next(iter(st.streams), None)
            st.led = ConsumeLedger(N, D, sid)
            st.note("operand x: %s %s" % case)
            m.start(st, f, [x])

    def on_panic(self, m, st, p, site):
        m.obligations += 1
        if p.overflow or st.ovf or p.kind == "arith-overflow":
            bad = m.finding("overflow", site, "an overflow is reachable (%s)" % p.msg, st)
        else:
            bad = m.finding("panic", site, "panic '%s' is reachable" % p.msg, st)
        if not bad:
            m.discharged += 1

    def on_return(self, m, st, v):
        site = "result of %s" % st.frames[-1].fn.name
        led = st.led
        if not isinstance(v, VAgg) or len(v.f) != 5 or not isinstance(v.f[0], VAgg) or \
                not all(isinstance(x, VInt) for x in v.f[1:]):
            m.finding("unsupported", site, "unrecognised result", st)
            return
        a, b, c, d = (x.p for x in v.f[1:])
        rem = v.f[0]
        ended = led.sid is None or st.streams[led.sid] is None
        m.obligations += 3
        if rem.variant == 0:
            if not ended:
                m.finding("value", site, "no remainder although the operand has symbols left", st)
                return
            yn, yd = ONE, Poly.const(2)
        else:
            num = rem.f[0]
            if self.names.vname(num) != "Other":
                m.finding("value", site, "the remainder is not a stream", st)
                return
            s, _ = clog_content(m, st, num.f[1])
            if not isinstance(s, VStream) or s.sid != led.sid:
                m.finding("value", site, "the remainder is not the operand's stream", st)
                return
            if ended:
                m.finding("value", site, "a remainder although all symbols were read", st)
                return
            yn, yd = apply_primer(primer_name(self.names, num.f[0]),
                                  Poly.sym(st.streams[s.sid]), ONE)
        m.discharged += 1
        N2 = a * yn + b * yd
        D2 = c * yn + d * yd
        # the ledger's denominator is never zero, so a non-zero multiple of it is not either
        k = reduced(st, D2).ratio_to(reduced(st, led.D))
        if k and is_zero_mod(st.facts, led.N.scale(k) - N2):
            m.discharged += 2
            return
        if is_zero_mod(st.facts, led.N * D2 - led.D * N2):
            m.discharged += 1
        else:
            m.finding("value", site, "coefficients and remainder do not make up the operand", st,
                      "operand (%s)/(%s), result (%s)/(%s)" % (show(led.N), show(led.D),
                                                               show(N2), show(D2)))
            return
        if self.not_all_zero(st, [c, d] if rem.variant else [D2]):
            m.discharged += 1
        else:
            m.finding("value", site, "the resulting denominator may be zero", st,
                      "denominator %s" % show(D2))


# -- compare -----------------------------------------------------------------------------------
class PairLedger:
    """the two values being compared, each a Moebius image (constant coefficients) of what is
    left of its operand"""

    def __init__(self, X, Y):
        self.X = X
        self.Y = Y

    def copy(self):
        return PairLedger(self.X, self.Y)

    def subst(self, s, p):
        pass

    def on_read(self, var, kind, new):
        def go(P):
            if var in P[0].syms() or var in P[1].syms():
                return (read_effect(P[0], var, kind, new), read_effect(P[1], var, kind, new))
            return P
        self.X = go(self.X)
        self.Y = go(self.Y)


def box_sign(P):
    """sign of a multilinear polynomial with constant coefficients on the open unit box of its
    variables, None when it takes several"""
    vs = sorted(P.syms())
    vals = []
    for corner in product((0, 1), repeat=len(vs)):
        Q = P
        for v, c in zip(vs, corner):
            Q = Q.subst(v, Poly.const(c))
        vals.append(Q.const_value())
    if all(x == 0 for x in vals):
        return 0
    if all(x >= 0 for x in vals):
        return 1
    if all(x <= 0 for x in vals):
        return -1
    return None


def pair_order(X, Y):
    """order of the two values for every continuation, None when it depends on it"""
    s1, s2 = box_sign(X[1]), box_sign(Y[1])
    if not s1 or not s2:
        return None
    s = box_sign(X[0] * Y[1] - Y[0] * X[1])
    return None if s is None else s * s1 * s2


def linear(P, var):
    """(p, q) with P = p*var + q, as fractions"""
    cs = P.coeffs_in({var}) if var is not None else {(): P}
    return (Fraction(cs.get((var,), ZERO).const_value() or 0),
            Fraction(cs.get((), ZERO).const_value() or 0))


class CompareJob(Job):
    name = "compare"

    def __init__(self, prog, reg=None):
        Job.__init__(self, prog, reg)
        self.merge_reads = False
        self.seen = {}

    def reset(self):
        Job.reset(self)
        self.seen = {}

    def starts(self, m):
        f = self.prog.fn_named("clarith::Number::compare")
        if f is None:
            raise Unsupported("Number::compare not found")
        for ca in OPERANDS:
            for cb in OPERANDS:
                st = State()
                x, X = make_operand(self.names, st, ca, "x")
                y, Y = make_operand(self.names, st, cb, "y")
                st.led = PairLedger(X, Y)
                st.note("operands: %s %s and %s %s" % (ca + cb))
                m.start(st, f, [x, y])

    def cut(self, m, st, siteid, key, leaves, streams):
        X, Y = st.led.X, st.led.Y
        o = pair_order(X, Y)
        m.obligations += 1
        if o is not None:
            m.discharged += 1
            led = PairLedger((Poly.const(o), ONE), (ZERO, ONE))
            return ("fixed", o), {}, [], led
        live = {st.streams[s] for s in streams if st.streams[s] is not None}
        vx = next(iter(X[0].syms() | X[1].syms()), None)
        vy = next(iter(Y[0].syms() | Y[1].syms()), None)
        if not {v for v in (vx, vy) if v is not None} <= live:
            m.finding("value", m.site(st), "an operand the order depends on is dropped", st)
            return None
        m.discharged += 1
        if vy is None:
            lk = tuple(show(P) for P in X + Y)
            ledger = PairLedger(X, Y)
        else:
            # undo the second operand's map on both sides: Y becomes the bare remainder
            p, q = linear(Y[0], vy)
            r, s = linear(Y[1], vy)
            det = p * s - q * r
            if det == 0:
                m.finding("unsupported", m.site(st), "degenerate operand", st)
                return None
            o = 1 if det > 0 else -1
            a, b = linear(X[0], vx)
            c, d = linear(X[1], vx)
            # inverse of ((p,q),(r,s)) is ((s,-q),(-r,p))
            a, b, c, d = s * a - q * c, s * b - q * d, -r * a + p * c, -r * b + p * d
            k = next(z for z in (d, c, b, a) if z)
            a, b, c, d = (z / abs(k) for z in (a, b, c, d))
            V = Poly.sym(vx) if vx is not None else ZERO
            num, den = V * a + Poly.const(b), V * c + Poly.const(d)
            # an increasing common map keeps the order, a decreasing one reverses it
            if not box_sign(den):
                m.finding("unsupported", m.site(st), "operands not aligned", st)
                return None
            if o > 0:
                ledger = PairLedger((num, den), (Poly.sym(vy), ONE))
            else:
                ledger = PairLedger((-num, den), (-Poly.sym(vy), ONE))
            lk = (o, a, b, c, d, vx is None)
        sn = self.seen.setdefault((siteid, key), set())
        sn.add(lk)
        if len(sn) > 40:
            m.finding("unsupported", m.site(st), "operands read out of step", st)
            return None
        return lk, {}, [], ledger

    def on_return(self, m, st, v):
        site = "result of %s" % st.frames[-1].fn.name
        m.obligations += 1
        if not isinstance(v, VAgg) or not isinstance(v.ty, int):
            m.finding("unsupported", site, "unrecognised result", st)
            return
        got = {"Less": -1, "Equal": 0, "Greater": 1}[self.names.vname(v)]
        X, Y = st.led.X, st.led.Y
        want = pair_order(X, Y)
        if want == got:
            m.discharged += 1
            return
        nm = {-1: "Less", 0: "Equal", 1: "Greater", None: "not yet decided"}
        m.finding("value", site, "answers %s where the order is %s" % (nm[got], nm[want]), st,
                  "first (%s)/(%s), second (%s)/(%s)" % (show(X[0]), show(X[1]), show(Y[0]),
                                                         show(Y[1])))


# -- handover ----------------------------------------------------------------------------------
class HandoverLedger:
    def __init__(self, cur, got, cell):
        self.cur = cur      # strategy that produces the symbols now
        self.got = got      # symbol obtained from it, or None
        self.cell = cell

    def copy(self):
        return HandoverLedger(self.cur, self.got, self.cell)

    def subst(self, s, p):
        pass

    def on_read(self, *a):
        pass


class HandoverJob(Job):
    """Clog::egest over arbitrary inner strategies"""
    name = "handover"

    def starts(self, m):
        f = self.prog.fn_named("clarith::Clog::egest")
        if f is None:
            raise Unsupported("Clog::egest not found")
        st = State()
        clog, sid, var = new_stream(self.names, st, "strategy")
        c = ("H", fresh_id())
        st.mem[c] = clog
        st.led = HandoverLedger(sid, None, c)
        m.start(st, f, [VRef(c, ())])

    def intercept(self, m, st, fr, t, fn, defn, args, dst):
        if fn is None or fn.kind != "Virtual" or defn not in self.prog.reader_defs:
            return None
        v = m.read(st, args[0].cell, args[0].path)
        if not isinstance(v, VStream):
            return None
        site = m.site(st)
        m.reads_sites.add(site)
        m.obligations += 1
        if st.tokmode is not None:
            raise Unsupported("reads a strategy after a recursive call")
        if st.led.got is not None:
            m.finding("value", site, "reads on although a symbol was already delivered", st)
            return False
        if v.sid != st.led.cur:
            m.finding("value", site, "reads a strategy that has been replaced", st)
            return False
        m.discharged += 1
        rt = m.prog.ty(t["dty"])
        ok_ty = rt["variants"][0]["fields"][0]["ty"]
        for k in ("N", "A", "U"):
            s2 = st.copy()
            s2.led.got = k
            s2.reads += 1
            s2.note("%s: the strategy delivers %s" % (site, {"A": "Amplify", "U": "Uncover",
                                                             "N": "the end"}[k]))
            val = VAgg(t["dty"], 0, (self.names.reduction(ok_ty, k),))
            if m.finish(s2, s2.frames[-1], t, dst, val):
                m.work.append(s2)
        s2 = st.copy()
        sid = fresh_id()
        s2.streams[sid] = new_sym("strategy")
        c = ("H", fresh_id())
        s2.mem[c] = VStream(sid)
        s2.led.cur = sid
        s2.reads += 1
        s2.note("%s: the strategy asks to be replaced" % site)
        if m.finish(s2, s2.frames[-1], t, dst, VAgg(t["dty"], 1, (VBox(c),))):
            m.work.append(s2)
        return False

    def cut(self, m, st, siteid, key, leaves, streams):
        cur = streams.index(st.led.cur) if st.led.cur in streams else None
        m.obligations += 1
        if cur is None and st.led.got is None:
            m.finding("value", m.site(st), "the replacement strategy is dropped", st)
            return None
        m.discharged += 1
        return (cur, st.led.got), {}, [], st.led

    def on_return(self, m, st, v):
        site = "result of %s" % st.frames[-1].fn.name
        m.obligations += 2
        led = st.led
        if not isinstance(v, VAgg):
            m.finding("unsupported", site, "unrecognised result", st)
            return
        got = "N" if v.variant == 0 else {"Amplify": "A", "Uncover": "U"}[self.names.vname(v.f[0])]
        if led.got is None:
            m.finding("value", site, "returns a symbol no strategy delivered", st)
            return
        if got != led.got:
            m.finding("value", site, "returns a symbol other than the one delivered", st,
                      "delivered %s, returned %s" % (led.got, got))
            return
        m.discharged += 1
        c, _ = clog_content(m, st, st.mem[led.cell])
        if isinstance(c, VStream) and c.sid == led.cur:
            m.discharged += 1
        else:
            m.finding("value", site, "the stream does not continue with the replacement", st)


# -- accessors ---------------------------------------------------------------------------------
class AccessLedger:
    def __init__(self, case, sid, other):
        self.case = case
        self.sid = sid
        self.other = other

    def copy(self):
        return self

    def subst(self, s, p):
        pass

    def on_read(self, *a):
        pass


class AccessJob(Job):
    name = "accessors"

    def starts(self, m):
        for fname, other in (("unwrap_special", False), ("unwrap_other", True)):
            f = self.prog.fn_named("clarith::Number::" + fname)
            if f is None:
                raise Unsupported("Number::%s not found" % fname)
            for case in OPERANDS:
                st = State()
                x, _ = make_operand(self.names, st, case, "x")
                sid = next(iter(st.streams), None)
                st.led = AccessLedger(case, sid, other)
                st.note("%s on %s %s" % ((fname,) + case))
                m.start(st, f, [x])

    def on_panic(self, m, st, p, site):
        m.obligations += 1
        wrong = (st.led.case[0] == "S") == st.led.other
        if wrong and p.kind in ("panic", "unwrap"):
            m.discharged += 1
        else:
            m.finding("value", site, "refuses a number of the right kind", st)

    def cut(self, m, st, siteid, key, leaves, streams):
        return 0, {}, [], st.led

    def on_return(self, m, st, v):
        site = "result of %s" % st.frames[-1].fn.name
        m.obligations += 1
        led = st.led
        if (led.case[0] == "S") == led.other:
            m.finding("value", site, "returns content of a number of the wrong kind", st)
            return
        if led.case[0] == "S":
            ok = isinstance(v, VAgg) and self.names.vname(v) == led.case[1]
        else:
            ok = isinstance(v, VAgg) and len(v.f) == 2 and \
                primer_name(self.names, v.f[0]) == led.case[1]
            if ok:
                c, _ = clog_content(m, st, v.f[1])
                ok = isinstance(c, VStream) and c.sid == led.sid and st.reads == 0
        if ok:
            m.discharged += 1
        else:
            m.finding("value", site, "content is not handed out unchanged", st)


# -- demo program ------------------------------------------------------------------------------
LETTER = {"Zero": "Z", "PosOne": "P", "NegOne": "N", "Turn": "T", "Reflect": "R", "Ground": "G",
          "A": "A", "U": "U"}


class PrintLedger:
    def __init__(self, todo, over, buf=False, sink=None):
        self.todo = todo     # letters due
        self.over = over     # nothing will be due after them
        self.buf = buf       # some string holds letters that come before those due; "out" while it
        #                      is gone through, "piece" while a piece of it is not written yet
        self.sink = sink     # string of the caller that is written to

    def copy(self):
        return PrintLedger(self.todo, self.over, self.buf, self.sink)

    def subst(self, s, p):
        pass

    def on_read(self, var, kind, new):
        if kind == "N":
            self.todo += "H"
            self.over = True
        else:
            self.todo += kind


class PrintJob(Job):
    """the function of the demo program that writes a number"""
    name = "print"

    def __init__(self, prog, reg=None):
        Job.__init__(self, prog, reg)
        self.merge_reads = False
        self.entries = []

    def find(self):
        num = self.names.t["Number"]
        main = self.prog.fn_named("clarith::main")
        reach, todo = set(), [main.id] if main else []
        while todo:
            c = todo.pop()
            if c not in reach:
                reach.add(c)
                todo.extend(self.prog.callees.get(c, ()))
        tops = []
        for f in self.prog.fns.values():
            if f.local and f.blocks is not None and f.kind == "Item" and f.id in reach:
                at = f.locals[1:1 + f.argc]
                if num in at:
                    tops.append(f)
        # functions that add a label of their own call the one that writes the number
        tops = [f for f in tops if f.argc == 1] or tops
        ids = {f.id for f in tops}
        sub = set()
        for f in tops:
            seen, todo = set(), list(self.prog.callees.get(f.id, ()))
            while todo:
                c = todo.pop()
                if c in seen:
                    continue
                seen.add(c)
                todo.extend(self.prog.callees.get(c, ()))
            sub |= (seen & ids) - {f.id}
        out = [f for f in tops if f.id not in sub]
        return out

    def starts(self, m):
        self.entries = self.find()
        if not self.entries:
            raise Unsupported("no function of the demo program takes a number")
        num = self.names.t["Number"]
        for f in self.entries:
            for case in OPERANDS:
                st = State()
                x, _ = make_operand(self.names, st, case, "x")
                st.led = PrintLedger(LETTER.get(case[1], ""), case[0] == "S")
                st.note("number: %s %s" % case)
                args = []
                for a in f.locals[1:1 + f.argc]:
                    args.append(x if a == num else self.other(m, st, f, a))
                m.start(st, f, args)

    def other(self, m, st, f, ty):
        """a further argument of the function that writes a number"""
        t = m.prog.ty(ty)
        if t["k"] == "ref":
            to = m.prog.ty(t["to"])
            if to["k"] == "str":
                return VOpaque("label")
            if to["k"] == "adt" and (to["name"].startswith("std::io::") or
                                     to["name"] == "std::string::String"):
                c = ("H", fresh_id())
                if to["name"].startswith("std::io::"):
                    st.mem[c] = VOpaque("out", "stdout")
                else:
                    st.mem[c] = text.string("")
                    st.led.sink = c
                return VRef(c)
        if t["k"] == "adt" and t["name"] == "std::string::String":
            return VOpaque("string", text.ANY)
        raise Unsupported("%s takes further arguments" % f.name)

    def counts_as_read(self, m, t):
        o = m.prog.ty(t["dty"])
        if t.get("def") != "std::iter::Iterator::next" or o.get("name") != "std::option::Option":
            return False
        e = o["args"][0]
        if m.prog.ty(e)["k"] == "ref" and m.prog.ty(m.prog.ty(e)["to"])["k"] != "str":
            e = m.prog.ty(e)["to"]
        return text.letters(m, e)

    def emit(self, m, st, txt, err):
        if err:
            return
        if txt is None:
            raise Unsupported("text of a print is not known")
        if txt and st.tokmode is not None:
            raise Unsupported("prints after a recursive call")
        if txt == text.PART and st.led.buf == "piece":
            st.led.buf = "out"
            return
        if text.PART in txt:
            if m.finding("value", m.site(st), "writes the letters with something in between", st):
                st.facts.empty = True
            return
        if text.ACC in txt and st.led.buf is not True:
            if m.finding("value", m.site(st), "writes the letters again", st):
                st.facts.empty = True
            return
        if text.ACC in txt:
            i = txt.index(text.ACC)
            pre, post = txt[:i], txt[i + 1:]
            if pre:
                self.write(m, st, pre, True)
            st.led.buf = False
            if post:
                self.write(m, st, post)
            return
        self.write(m, st, txt)

    def write(self, m, st, txt, before=False):
        led = st.led
        m.obligations += 1
        fresh = st.reads == 0 and text.ANY in txt
        rest = led.over and not led.todo
        if led.buf and txt and not before:
            if m.finding("value", m.site(st), "writes '%s' before the letters held back" % txt, st):
                st.facts.empty = True
            return
        if led.todo.startswith(txt):
            led.todo = led.todo[len(txt):]
            m.discharged += 1
            return
        # a label handed in by the caller; white space after the number
        if fresh or (rest and (not txt.strip() or text.ANY in txt)):
            m.discharged += 1
            return
        body = txt.rstrip()
        if led.over and body == led.todo:
            led.todo = ""
            m.discharged += 1
            return
        if m.finding("value", m.site(st), "writes '%s' where '%s' is due" %
                     (txt.replace(text.ANY, "..."), led.todo or "nothing"), st):
            st.facts.empty = True

    def next_piece(self, m, st, t, ref, rest, dst):
        """the next element of the letters held back: some piece of them while there are any"""
        led = st.led
        if led.buf == "piece":
            if m.finding("value", m.site(st), "a letter is left out", st):
                st.facts.empty = True
            return False

        def some(s, x):
            et = m.prog.ty(t["dty"])["args"][0]
            if m.prog.ty(et)["k"] == "ref" and m.prog.ty(m.prog.ty(et)["to"])["k"] != "str":
                c = ("H", fresh_id())
                s.mem[c] = text.string(x)
                return VAgg(t["dty"], 1, (VRef(c),))
            return VAgg(t["dty"], 1, (text.string(x),))

        if rest.startswith(text.ACC):
            s2 = st.copy()
            s2.reads += 1
            s2.led.buf = "piece"
            if m.finish(s2, s2.frames[-1], t, dst, some(s2, text.PART)):
                m.work.append(s2)
            led.buf = False
            rest = rest[1:]
        if rest[:1] == text.ANY:
            raise Unsupported("goes through text that is not known")
        m.write(st, ref.cell, ref.path, VOpaque("textiter", rest[1:]))
        val = some(st, rest[0]) if rest else VAgg(t["dty"], 0, ())
        if m.finish(st, st.frames[-1], t, dst, val):
            m.work.append(st)
        return False

    def append(self, m, st, cell, path, txt):
        old = m.read(st, cell, path).d
        led = st.led
        if txt is None:
            raise Unsupported("text of a string is not known")
        if old.endswith(text.ACC) and led.buf is True:
            if led.todo.startswith(txt):
                led.todo = led.todo[len(txt):]
                return
        elif not led.buf and text.ACC not in old and txt and led.todo.startswith(txt) and \
                (not old or text.ANY in old):
            led.todo = led.todo[len(txt):]
            led.buf = True
            m.write(st, cell, path, text.string(old + text.ACC))
            return
        elif not led.buf and text.ACC not in old and txt and text.ANY not in old + txt and \
                led.todo.startswith(old + txt):
            # began with the first letter
            led.todo = led.todo[len(old + txt):]
            led.buf = True
            m.write(st, cell, path, text.string(text.ACC))
            return
        Job.append(self, m, st, cell, path, txt)

    def dropped(self, m, st):
        """a string with letters is emptied"""
        if st.led.buf and m.finding("value", m.site(st), "letters are thrown away", st):
            st.facts.empty = True

    def cut(self, m, st, siteid, key, leaves, streams):
        if len(st.led.todo) > 4:
            m.finding("value", m.site(st), "letters are held back", st)
            return None
        m.obligations += 1
        live = [s for s, v in st.streams.items() if v is not None]
        if any(s not in streams for s in live):
            return m.hold(st, siteid, "value", "the rest of the number is dropped")
        m.discharged += 1
        return (st.led.todo, st.led.over, st.led.buf), {}, [], st.led

    def on_return(self, m, st, v):
        site = "end of %s" % st.frames[-1].fn.name
        for x in (v, st.mem.get(st.led.sink)):
            if isinstance(x, VOpaque) and x.k == "string":
                self.emit(m, st, x.d, False)
        m.obligations += 1
        if st.led.todo:
            m.finding("value", site, "'%s' is never written" % st.led.todo, st)
        elif st.led.buf:
            m.finding("value", site, "letters are never written", st)
        elif not st.led.over:
            m.finding("value", site, "stops before the end of the stream", st)
        else:
            m.discharged += 1
