"""Rules over the resolved program: effects reachable from the public operations, and what the
public interface lets a client do."""
import os
import re
import subprocess
import mir
from interp import Finding

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# resolved paths whose call is an effect; everything else outside the crate is either followed
# through its body or computes only on its arguments
DENY = [
    (r"^std::io::", "input or output"),
    (r"^std::fs::", "the file system"),
    (r"^std::env::", "the environment"),
    (r"^std::process::", "process state"),
    (r"^std::thread::", "thread state"),
    (r"^std::time::", "the clock"),
    (r"^std::net::", "the network"),
    (r"^std::os::", "the operating system"),
    (r"^std::sys::", "the operating system"),
    (r"^std::backtrace::", "process state"),
    (r"^std::panic::(set_hook|take_hook|update_hook)", "process state"),
    (r"^std::panicking::(set_hook|take_hook)", "process state"),
    (r"^(std|core)::sync::(?!Arc\b)", "state shared between calls"),
    (r"^std::hash::(random|RandomState)", "random state"),
    (r"^std::collections::hash_map::RandomState", "random state"),
    (r"^std::collections::(hash_map::|hash_set::)?Hash(Map|Set)(::)?<.*>::(iter|keys|values|drain|"
     r"into_keys|into_values|iter_mut|values_mut|retain|extract_if)\b", "random order"),
    (r"^std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<.* as std::iter::", "random order"),
    (r"^(std|core)::arch::", "the processor state"),
    (r"^libc::", "the operating system"),
    (r"^std::alloc::(set_alloc_error_hook|take_alloc_error_hook)", "process state"),
]
DENY = [(re.compile(p), w) for p, w in DENY]


def classify(path):
    p = re.sub(r"^<+&*(mut )?", "", path)
    for rx, w in DENY:
        if rx.search(p):
            return w
    # trait methods on a denied type: <std::io::Stdout as std::io::Write>::write
    m = re.match(r"^<(.+) as (.+)>::", path)
    if m:
        for q in m.groups():
            q = re.sub(r"^&*(mut )?", "", q)
            for rx, w in DENY:
                if rx.search(q):
                    return w
    return None


def statics_in(j, out):
    """names of statics whose address occurs in a constant"""
    if isinstance(j, dict):
        if isinstance(j.get("static"), str):
            out.add(j["static"])
        for v in j.values():
            statics_in(v, out)
    elif isinstance(j, list):
        for v in j:
            statics_in(v, out)


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.shared = {}
        for s in prog.d["statics"]:
            if s["mut"] or not s["freeze"] or s["tls"]:
                self.shared[s["name"]] = s["sp"]
        self.plain = {s["name"] for s in prog.d["statics"]} - set(self.shared)
        self.calls = 0
        self.seen = set()
        self.dropglue = {}
        for f in prog.fns.values():
            if f.def_ in ("std::ops::Drop::drop",) or f.name.endswith("as std::ops::Drop>::drop"):
                if f.blocks:
                    self.dropglue.setdefault(f.locals[1], f)

    def drops(self, ty, seen):
        """drop implementations run when a value of the type goes away"""
        if ty in seen:
            return
        seen.add(ty)
        t = self.prog.types.get(ty)
        if t is None:
            return
        for f in self.prog.fns.values():
            if f.blocks and f.name.endswith("as std::ops::Drop>::drop") and f.argc == 1:
                r = self.prog.types[f.locals[1]]
                if r["k"] == "ref" and r["to"] == ty:
                    yield f.id
        kids = []
        if t["k"] == "adt":
            kids += [f["ty"] for v in t["variants"] for f in v["fields"]]
            kids += [a for a in t["args"] if isinstance(a, int)]
        kids += t.get("elems", []) + t.get("upvars", [])
        if t.get("elem") is not None:
            kids.append(t["elem"])
        if t["k"] == "dyn":
            kids += [ct for (ct, _, _) in self.prog.vtables]
        for k in kids:
            yield from self.drops(k, seen)

    def walk(self, root):
        """findings reachable from one function"""
        out = []
        seen = {}
        todo = [(root.id, None)]
        while todo:
            fid, via = todo.pop()
            if fid in seen:
                continue
            seen[fid] = via
            f = self.prog.fns.get(fid)
            if f is None:
                continue
            w = classify(f.def_) or classify(f.name)
            if w and via is not None:
                out.append((w, f.name, via))
                continue
            if f.raw.get("foreign"):
                out.append(("foreign code", f.name, via))
                continue
            if not f.blocks:
                continue
            out += self.body(f, via)
            for c, sp in self.targets(f):
                own = f.local or f.krate == self.prog.krate
                todo.append((c, (f.name, mir.short(sp)) if own or via is None else via))
        self.seen |= set(seen)
        return out

    def targets(self, f):
        for b in f.blocks:
            t = b["t"]
            if t["t"] == "drop":
                for d in self.drops(t.get("ty"), set()):
                    yield d, t["sp"]
            if t["t"] != "call":
                continue
            self.calls += 1
            if self.prog.types.get(t.get("dty"), {}).get("k") == "never":
                continue    # reporting a failure is not an effect of the operation
            i = t.get("inst")
            if i is not None:
                g = self.prog.fns.get(i)
                if g is not None and g.kind == "Virtual":
                    for inst in self.prog.targets(g):
                        yield inst, t["sp"]
                else:
                    yield i, t["sp"]
            if t.get("def") == "std::mem::drop" or (t.get("def") or "").endswith("drop_in_place"):
                for a in t.get("atys", []):
                    for d in self.drops(a, set()):
                        yield d, t["sp"]
            for a in t["args"] + [t["f"]]:
                if a[0] == "const" and isinstance(a[1], dict):
                    ty = self.prog.types.get(a[1].get("ty"), {})
                    if ty.get("inst") is not None:
                        yield ty["inst"], t["sp"]
                    if a[1].get("fn") is not None:
                        yield a[1]["fn"], t["sp"]
            for at in t.get("atys", []):
                ty = self.prog.types.get(at, {})
                if ty.get("k") in ("closure", "fndef") and ty.get("inst") is not None:
                    yield ty["inst"], t["sp"]

    def body(self, f, via):
        out = []
        own = f.local or f.krate == self.prog.krate
        for b in f.blocks:
            t = b["t"]
            if t["t"] == "asm":
                out.append(("inline assembly", "asm", (f.name, mir.short(t["sp"]))))
            ss = [s for s in b["s"] if s[0] == "="]
            names = set()
            statics_in([s[2] for s in ss], names)
            statics_in(t.get("args", []), names)
            for n in names:
                if n not in self.plain:
                    out.append(("state shared between calls", n, (f.name, mir.short(t["sp"]))))
            for s in ss:
                if s[2][0] == "tls":
                    out.append(("thread state", s[2][1], (f.name, mir.short(s[3]))))
                if own and s[2][0] == "cast" and s[2][1] == "PointerExposeAddress":
                    out.append(("the address of a value", "cast", (f.name, mir.short(s[3]))))
        return out


def public_roots(prog):
    roots = []
    for it in prog.d["items"]:
        if it.get("exported") and it.get("inst") is not None:
            f = prog.fns.get(it["inst"])
            if f is not None and f.blocks:
                roots.append(f)
    for inst in prog.vtables.values():
        f = prog.fns.get(inst)
        if f is not None and f.blocks and f not in roots:
            roots.append(f)
    return roots


def run_effects(prog):
    e = Effects(prog)
    found = {}
    roots = public_roots(prog)
    for r in roots:
        for w, what, via in e.walk(r):
            fn, at = via or (r.name, "?")
            found.setdefault((w, what, fn, at), set()).add(r.name)
    return e, roots, found


def effects(s):
    from pipeline import Result, dump, CheckError
    r = Result("effects", None, 0, [])
    e, roots, found = run_effects(s.lib)
    for (w, what, fn, at), rs in sorted(found.items()):
        r.findings.append(Finding("effect", "%s in %s" % (at, fn), "touches %s (%s)" % (w, what),
                                  None, "reachable from %s" % ", ".join(sorted(rs))))
    r.obligations = len(e.seen)
    r.discharged = len(e.seen) - len({k[2] for k in found})
    r.fns = {s.lib.fns[i].name for i in e.seen if i in s.lib.fns}
    r.calls = e.calls
    r.roots = [f.name for f in roots]
    if len(roots) < 8:
        r.findings.append(Finding("unsupported", "public operations", "only %d found" % len(roots)))
    s.results.append(r)
    # the rule must fire on its positive examples, and only there
    out = os.path.join(s.scratch, "fixture")
    os.makedirs(out)
    dump(os.path.join(HERE, "fixtures", "effects"), out, os.path.join(s.scratch, "fx"), ("--lib",))
    fx = mir.Program(os.path.join(out, "effects.lib.json"))
    _, froots, ffound = run_effects(fx)
    hit = {x.split("::")[-1] for rs in ffound.values() for x in rs}
    names = {f.name.split("::")[-1] for f in froots if f.name.startswith("effects::")}
    missed = sorted(n for n in names if n not in hit and not n.startswith("quiet"))
    wrong = sorted(n for n in hit if n.startswith("quiet"))
    if missed or wrong or len(names) < 15:
        raise CheckError("effect rule self-test failed: missed %s, wrong %s" % (missed, wrong))
    r.selftest = "%d positive and %d negative examples" % (
        len([n for n in names if not n.startswith("quiet")]),
        len([n for n in names if n.startswith("quiet")]))


# ---- ownership ------------------------------------------------------------------------------
def contains(prog, ty, targets, seen=None):
    """the type owns (by value, box, option, ...) one of the target types"""
    seen = seen if seen is not None else set()
    if ty in seen:
        return False
    seen.add(ty)
    if ty in targets:
        return True
    t = prog.types.get(ty, {})
    kids = list(t.get("elems", []))
    if t.get("k") == "adt":
        kids += [a for a in t["args"] if isinstance(a, int)]
        kids += [f["ty"] for v in t["variants"] for f in v["fields"]]
    if t.get("elem") is not None:
        kids.append(t["elem"])
    return any(contains(prog, k, targets, seen) for k in kids)


def holds(prog, ty, targets, seen=()):
    """how many of the target types a value of the type can own: 0, 1 or 2 (several)"""
    if ty in targets:
        return 1
    t = prog.types.get(ty, {})
    if ty in seen or t.get("k") in ("ref", "ptr"):
        return 0
    seen = seen + (ty,)
    if t.get("k") == "adt":
        vs = [sum(holds(prog, f["ty"], targets, seen) for f in v["fields"]) for v in t["variants"]]
        n = max(vs, default=0)
        if not n and not t["name"].startswith("std::option::"):
            # containers own what they are instantiated with
            n = 2 * sum(holds(prog, a, targets, seen) for a in t["args"] if isinstance(a, int))
            if t["name"] in ("std::boxed::Box", "std::rc::Rc"):
                n //= 2
        return min(n, 2)
    if t.get("elem") is not None:
        return 2 if holds(prog, t["elem"], targets, seen) else 0
    return min(sum(holds(prog, e, targets, seen) for e in t.get("elems", [])), 2)


def made_of(prog, ty, targets, seen, sealed):
    """what a caller could use to make up a stream: symbols, or code of its own"""
    if ty in seen or ty in targets:
        return None
    seen.add(ty)
    t = prog.types.get(ty, {})
    if t.get("k") == "dyn" and t.get("name") in sealed:
        return None
    if t.get("k") in ("dyn", "fnptr", "closure"):
        return t["str"]
    if t.get("k") == "adt" and t["name"] == "clarith::protocol::Reduction":
        return t["name"]
    kids = list(t.get("elems", []))
    if t.get("k") == "adt":
        kids += [a for a in t["args"] if isinstance(a, int)]
        if t.get("krate") == "clarith":
            kids += [f["ty"] for v in t["variants"] for f in v["fields"]]
    kids += [t[k] for k in ("elem", "to") if t.get(k) is not None]
    for k in kids:
        r = made_of(prog, k, targets, seen, sealed)
        if r:
            return r
    return None


CALLER_CODE = re.compile(r"\b(Fn|FnMut|FnOnce|Iterator|IntoIterator|Reduction)\b")
OWNED = re.compile(r"\b(Clog|Number|Self)\b")


def ownership(s):
    from pipeline import Result
    r = Result("ownership", None, 0, [])
    prog = s.lib
    add = r.findings.append
    # -- 1: witnesses
    lib = s.rmeta
    wdir = os.path.join(HERE, "witnesses")
    names = sorted(f[:-3] for f in os.listdir(wdir) if f.endswith(".rs"))
    if lib is None:
        add(Finding("unsupported", "library", "no compiled library"))
        names = []
    for n in names:
        src = os.path.join(wdir, n + ".rs")
        with open(src) as fh:
            codes = set(fh.readline().split(":")[1].split())
            title = fh.readline()[2:].strip()
        base = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "bin", "--emit=metadata",
                "--extern", "clarith=" + lib, "--check-cfg", "cfg(twin)", "-o",
                os.path.join(s.scratch, n), src]
        r.obligations += 1
        good = subprocess.run(base + ["--cfg", "twin"], capture_output=True, text=True)
        if good.returncode != 0:
            add(Finding("unsupported", "witness %s" % n, "its compiling twin does not compile",
                        None, good.stderr[-600:]))
            continue
        bad = subprocess.run(base, capture_output=True, text=True)
        got = set(re.findall(r"error\[(E\d+)\]", bad.stderr))
        if "due to private field" in bad.stderr:
            got.add("PRIVATE")
        if bad.returncode == 0:
            add(Finding("value", "witness %s" % n, "compiles although it must not: %s" % title,
                        None, open(src).read()))
        elif not got or not got <= codes:
            add(Finding("unsupported", "witness %s" % n, "fails for another reason than expected",
                        None, "expected %s, got %s" % (sorted(codes), sorted(got))))
        else:
            r.discharged += 1
    # -- 2: the public interface itself
    t = {x["name"].split("::")[-1]: i for i, x in prog.types.items()
         if x["k"] == "adt" and x.get("krate") == "clarith" and x["name"].count("::") == 1}
    targets = {t[n] for n in ("Number", "Clog") if n in t}
    for a in prog.d["adts"]:
        if a["name"] == "clarith::Clog":
            for v, f, open_ in a["fields"]:
                r.obligations += 1
                if open_:
                    add(Finding("value", a["sp"], "field %s of Clog is public" % f))
                else:
                    r.discharged += 1
    forbidden = ("std::clone::Clone", "std::marker::Copy", "std::default::Default",
                 "std::borrow::ToOwned")
    for im in prog.d["impls"]:
        if im["self"] in targets:
            r.obligations += 1
            if im["trait"] in forbidden:
                add(Finding("value", im["sp"], "%s implements %s" % (
                    prog.types[im["self"]]["name"], im["trait"])))
            else:
                r.discharged += 1
    readers = prog.reach_set(prog.reader_fns)
    # a trait no other crate can name is implemented and used here only
    blanket = {im["trait"] for im in prog.d["impls"]
               if prog.types[im["self"]].get("krate") != "clarith"}
    sealed = {n for n, named in prog.d["traits"] if not named and n not in blanket}
    usable = [n.split("::")[-1] for n, _ in prog.d["traits"] if n not in sealed]
    nfn = 0
    for it in prog.d["items"]:
        if it.get("exported") and it.get("generic"):
            # not instantiated here: judged by its signature
            r.obligations += 1
            out, ins = it.get("out", ""), it.get("ins", [])
            if OWNED.search(out) and any(
                    CALLER_CODE.search(x) or any(n in x for n in usable)
                    for x in ins + it["bounds"]):
                add(Finding("value", mir.short(it["sp"]), "%s makes a number or stream out of what "
                            "the caller supplies" % it["name"]))
            elif OWNED.search(out) and any(x.startswith("&") and OWNED.search(x) for x in ins):
                add(Finding("value", mir.short(it["sp"]), "%s hands out a number or stream and "
                            "leaves its operand with the caller" % it["name"]))
            else:
                r.discharged += 1
        f = prog.fns.get(it.get("inst")) if it.get("exported") else None
        if f is None or not f.blocks:
            continue
        nfn += 1
        shared = unique = False
        for a in f.locals[1:1 + f.argc]:
            ty = prog.types[a]
            if ty["k"] == "ref" and contains(prog, ty["to"], targets):
                if ty["mut"]:
                    unique = True
                else:
                    shared = True
        r.obligations += 1
        gives = contains(prog, f.locals[0], targets)
        if (shared or unique) and gives:
            add(Finding("value", mir.short(f.sp), "%s hands out a number or stream and leaves its "
                        "operand with the caller" % f.name))
        elif gives and sum(holds(prog, a, targets) for a in f.locals[1:1 + f.argc]) < \
                holds(prog, f.locals[0], targets) > 1:
            add(Finding("value", mir.short(f.sp), "%s hands out more numbers or streams than it "
                        "takes" % f.name))
        elif gives and any(made_of(prog, a, targets, set(), sealed)
                           for a in f.locals[1:1 + f.argc]):
            add(Finding("value", mir.short(f.sp), "%s makes a number or stream out of what the "
                        "caller supplies" % f.name))
        elif shared and f.id in readers:
            add(Finding("value", mir.short(f.sp),
                        "%s reads a stream through a shared reference" % f.name))
        else:
            r.discharged += 1
        r.fns.add(f.name)
    if nfn < 9 or len(targets) != 2:
        add(Finding("unsupported", "public operations", "only %d found" % nfn))
    r.witnesses = len(names)
    s.results.append(r)
