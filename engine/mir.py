"""Loading of the compiler dump and static pre-computations (liveness, loops, call graph)."""
import json
import re


class Fn:
    __slots__ = ("id", "name", "def_", "krate", "local", "kind", "body", "sp", "raw", "blocks",
                 "locals", "argc", "loops", "_live", "reads", "uses", "virt", "spread", "loopread")

    def __init__(self, d):
        self.raw = d
        self.id = d["id"]
        self.name = d["name"]
        self.def_ = d.get("def") or d["name"]
        self.krate = d.get("krate")
        self.local = d.get("local")
        self.kind = d.get("kind")
        self.virt = d.get("virt")
        self.sp = d.get("sp", "")
        self.body = d.get("body")
        if self.body:
            self.blocks = self.body["blocks"]
            self.locals = self.body["locals"]
            self.argc = self.body["argc"]
            self.spread = self.body.get("spread")
        else:
            self.blocks = None
        self.loops = None
        self._live = None
        self.reads = False
        self.loopread = None


def succs(t):
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        return [b for _, b in t["br"]] + ([t["else"]] if t.get("else") is not None else [])
    if k in ("drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t.get("to") is not None else []
    return []


def _place_uses(p, out):
    out.add(p[0])
    for pr in p[1]:
        if isinstance(pr, list) and pr[0] == "i":
            out.add(pr[1])


def _op_uses(o, out):
    if o[0] in ("copy", "move"):
        _place_uses(o[1], out)


def _rv_uses(r, out):
    k = r[0]
    if k in ("use",):
        _op_uses(r[1], out)
    elif k in ("ref", "addr", "discr", "len", "reborrow"):
        _place_uses(r[1], out)
    elif k == "agg":
        for o in r[4]:
            _op_uses(o, out)
    elif k in ("bin", "cbin"):
        _op_uses(r[2], out)
        _op_uses(r[3], out)
    elif k == "un":
        _op_uses(r[2], out)
    elif k == "cast":
        _op_uses(r[2], out)
    elif k == "repeat":
        _op_uses(r[1], out)


def _term_uses(t, out):
    k = t["t"]
    if k == "switch":
        _op_uses(t["op"], out)
    elif k == "drop":
        _place_uses(t["place"], out)
    elif k == "call":
        _op_uses(t["f"], out)
        for a in t["args"]:
            _op_uses(a, out)
        if t["dst"][1]:
            _place_uses(t["dst"], out)
    elif k == "assert":
        _op_uses(t["c"], out)
    elif k == "return":
        out.add(0)


def _term_def(t):
    if t["t"] == "call" and not t["dst"][1]:
        return t["dst"][0]
    return None


def trait_of(f):
    return f.def_.rsplit("::", 1)[0]


class Program:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.d = d
        self.krate = d["krate"]
        self.types = {t["id"]: t for t in d["types"]}
        self.fns = {f["id"]: Fn(f) for f in d["fns"]}
        self.by_name = {}
        for f in self.fns.values():
            if f.kind == "Item" or f.name not in self.by_name:
                self.by_name[f.name] = f
        self.vtables = {}
        for ct, dt, ents in d["vtables"]:
            for idx, inst, defname in ents:
                self.vtables[(ct, self.types[dt].get("name"), idx)] = inst
        self.drops = {}
        for f in self.fns.values():
            if f.local and f.blocks and f.name.endswith("as std::ops::Drop>::drop"):
                self.drops[self.types[f.locals[1]]["to"]] = f.id
        for f in self.fns.values():
            if f.def_ in ("std::array::<impl [T; N]>::map", "std::array::from_fn") and f.blocks:
                self._unroll(f)
        self._readers()
        self._callgraph()
        self.whole = not self._layered()

    def _layered(self):
        """whether a Clog is one box around an object that delivers a symbol or its replacement"""
        t = next((t for t in self.types.values()
                  if t["k"] == "adt" and t["name"].endswith("::Clog")), None)
        if t is None or t["adtkind"] != "struct" or len(t["variants"][0]["fields"]) != 1:
            return t is None
        b = self.types[t["variants"][0]["fields"][0]["ty"]]
        if b.get("name") != "std::boxed::Box" or \
                self.types[next(a for a in b["args"] if isinstance(a, int))]["k"] != "dyn":
            return False
        for f in self.fns.values():
            for blk in f.blocks or ():
                u = blk["t"]
                if u["t"] == "call" and u.get("def") in self.reader_defs:
                    r = self.types[u["dty"]]
                    return r.get("name") == "std::result::Result"
        return False

    def _unroll(self, f):
        """body of an array function that calls a closure for every element, written out"""
        arr, clo = self.types[f.locals[0]], self.types[f.locals[f.argc]]
        n, g = arr.get("len"), self.fns.get(clo.get("inst"))
        if clo["k"] not in ("closure", "fndef") or n is None or n > 16 or g is None or not g.blocks:
            return
        sp, loc = f.sp, list(f.locals[:f.argc + 1])
        usize = next((i for i, t in self.types.items() if t["str"] == "usize"), None)
        ref = g.locals[1] if clo["k"] == "closure" else None
        byref = ref is not None and self.types[ref]["k"] == "ref"
        blocks, outs = [], []
        for i in range(n):
            ss, args = [], []
            if clo["k"] == "closure":
                loc.append(ref)
                ss.append(["=", [len(loc) - 1, []], ["ref", [f.argc, []], True] if byref else
                           ["use", ["copy", [f.argc, []]]], sp, ref])
                args.append(["move", [len(loc) - 1, []]])
            if f.argc == 2:
                ety = self.types[f.locals[1]]["elem"]
                args.append(["move", [1, [["c", i, n, False]]]])
            else:
                ety = usize
                args.append(["const", {"int": i, "ty": usize}])
            loc.append(arr["elem"])
            outs.append(["move", [len(loc) - 1, []]])
            blocks.append({"s": ss, "t": {
                "sp": sp, "t": "call", "f": ["const", {"zst": True, "ty": f.locals[f.argc]}],
                "def": g.def_, "dkrate": g.krate, "inst": g.id, "args": args,
                "atys": ([ref] if clo["k"] == "closure" else []) + [ety],
                "dst": [len(loc) - 1, []], "dty": arr["elem"], "to": i + 1}})
        blocks.append({"s": [["=", [0, []], ["agg", "array", None, 0, outs], sp, f.locals[0]]],
                       "t": {"sp": sp, "t": "return"}})
        f.locals, f.blocks = loc, blocks

    def _readers(self):
        """the stream-reading operation: methods of the trait whose objects a Clog owns"""
        todo = [i for i, t in self.types.items()
                if t["k"] == "adt" and t["name"].endswith("::Clog")]
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen or i not in self.types:
                continue
            seen.add(i)
            t = self.types[i]
            todo += t.get("elems", [])
            if t["k"] == "adt":
                todo += [a for a in t["args"] if isinstance(a, int)]
                todo += [f["ty"] for v in t["variants"] for f in v["fields"]]
            if t.get("elem") is not None:
                todo.append(t["elem"])
        traits = {self.types[i].get("name") for i in seen if self.types[i]["k"] == "dyn"} - {None}
        virt = [f for f in self.fns.values() if f.kind == "Virtual" and trait_of(f) in traits]
        if len(virt) > 1:
            own = self.fn_named(self.krate + "::Clog::egest")
            if own is not None and own.blocks:
                called = {b["t"].get("inst") for b in own.blocks if b["t"]["t"] == "call"}
                virt = [f for f in virt if f.id in called] or virt
        self.reader_defs = {f.def_ for f in virt}
        slots = {(trait_of(f), f.virt) for f in virt}
        self.reader_fns = {i for (ct, tr, idx), i in self.vtables.items() if (tr, idx) in slots}

    def dispatch(self, ct, f):
        """implementation of a dynamically dispatched function for a concrete type"""
        return self.fns.get(self.vtables.get((ct, trait_of(f), f.virt)))

    def targets(self, f):
        """every implementation of a dynamically dispatched function"""
        tr = trait_of(f)
        return {i for (ct, t, idx), i in self.vtables.items() if t == tr and idx == f.virt}

    def reader(self, ct):
        """the stream-reading operation of a concrete type"""
        if self.whole:
            return self.fn_named(self.krate + "::Clog::egest")
        for (c, tr, idx), i in self.vtables.items():
            if c == ct and i in self.reader_fns:
                return self.fns.get(i)
        return None

    def ty(self, i):
        return self.types[i]

    def fn_named(self, name):
        return self.by_name.get(name)

    # ---- call graph ---------------------------------------------------------------------
    def _callgraph(self):
        self.callees = {}
        for f in self.fns.values():
            s = set()
            if f.blocks:
                for b in f.blocks:
                    t = b["t"]
                    if t["t"] == "call":
                        if t.get("inst") is not None:
                            s.add(t["inst"])
                            g = self.fns.get(t["inst"])
                            if g is not None and g.kind == "Virtual":
                                s |= self.targets(g)
                        # functions and closures handed over by value
                        for a in t["args"] + [t["f"]]:
                            if a[0] == "const" and isinstance(a[1], dict) and a[1].get("ty") is not None:
                                ty = self.types.get(a[1]["ty"], {})
                                if ty.get("inst") is not None:
                                    s.add(ty["inst"])
                        for at in t.get("atys", []):
                            ty = self.types.get(at, {})
                            if ty.get("k") in ("closure", "fndef") and ty.get("inst") is not None:
                                s.add(ty["inst"])
            self.callees[f.id] = s

    def reach_set(self, targets):
        """ids of functions from which some function in targets is reachable"""
        r = set(targets)
        ch = True
        while ch:
            ch = False
            for f, cs in self.callees.items():
                if f not in r and cs & r:
                    r.add(f)
                    ch = True
        return r

    # ---- loops ---------------------------------------------------------------------------
    def loops(self, f):
        """{head: set(blocks)} natural loops of f"""
        if f.loops is not None:
            return f.loops
        n = len(f.blocks)
        sc = [succs(b["t"]) for b in f.blocks]
        color = [0] * n
        back = []
        stack = [(0, iter(sc[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(sc[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        preds = [[] for _ in range(n)]
        for u in range(n):
            for v in sc[u]:
                preds[v].append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            todo = [u]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo.extend(preds[x])
        f.loops = loops
        return loops

    # ---- liveness ------------------------------------------------------------------------
    def live_in(self, f, blk):
        if f._live is None:
            n = len(f.blocks)
            gen = []
            kill = []
            for b in f.blocks:
                g, k = set(), set()
                for s in b["s"]:
                    if s[0] == "=":
                        u = set()
                        _rv_uses(s[2], u)
                        if s[1][1]:
                            _place_uses(s[1], u)
                        g |= u - k
                        if not s[1][1]:
                            k.add(s[1][0])
                    elif s[0] in ("dead", "live"):
                        k.add(s[1])
                    elif s[0] == "setdiscr":
                        u = set()
                        _place_uses(s[1], u)
                        g |= u - k
                u = set()
                _term_uses(b["t"], u)
                g |= u - k
                d = _term_def(b["t"])
                if d is not None:
                    k.add(d)
                gen.append(g)
                kill.append(k)
            live = [set() for _ in range(n)]
            ch = True
            sc = [succs(b["t"]) for b in f.blocks]
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    o = set()
                    for s in sc[i]:
                        o |= live[s]
                    v = gen[i] | (o - kill[i])
                    if v != live[i]:
                        live[i] = v
                        ch = True
            f._live = live
        return f._live[blk]

    def live_term(self, f, blk):
        """locals live just before the terminator of a block"""
        self.live_in(f, blk)
        t = f.blocks[blk]["t"]
        o = set()
        for s in succs(t):
            o |= f._live[s]
        d = _term_def(t)
        if d is not None:
            o = o - {d}
        _term_uses(t, o)
        return o


def short(sp):
    """source position without column, relative"""
    m = re.match(r"(.*?):(\d+):(\d+)", sp or "")
    return "%s:%s" % (m.group(1), m.group(2)) if m else (sp or "?")
