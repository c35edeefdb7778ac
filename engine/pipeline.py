"""Which analyses decide which property."""
import json
import os
import shutil
import subprocess
import tempfile
import time
import mir
import jobs
import jobs2
import rules
from interp import Unsupported, Finding

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(HERE, "build", "driver", "release", "mirdump")


ENOUGH = 6          # findings after which a violated property needs no further ones
PATIENCE = 90       # seconds after which one finding is enough
DEADLINE = 780      # seconds after which a check gives up


class Enough(Exception):
    """the property is violated often enough"""


class CheckError(Exception):
    """the check itself could not run"""


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True,
                          text=True, check=True).stdout.strip()


def dump(repo, out, scratch, targets=("--lib", "--bins")):
    """compile the crate at repo with the dumping driver; returns the library's metadata file"""
    if not os.path.exists(DRIVER):
        raise CheckError("driver not built: run setup.sh")
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WORKSPACE_WRAPPER=DRIVER,
               MIRDUMP_OUT=out, CARGO_TARGET_DIR=os.path.join(scratch, "target"),
               RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=on -Zalways-encode-mir -Zub-checks=no",
               CARGO_NET_OFFLINE="true")
    lock = os.path.join(repo, "Cargo.lock")
    had = os.path.exists(lock)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline",
                        "--message-format=json-render-diagnostics"] + list(targets), cwd=repo,
                       env=env, capture_output=True, text=True)
    if not had and os.path.exists(lock):
        os.remove(lock)
    if r.returncode != 0:
        raise CheckError("the crate does not compile:\n" + r.stderr[-4000:])
    for line in r.stdout.splitlines():
        a = json.loads(line) if line.startswith("{") else {}
        if a.get("reason") == "compiler-artifact" and "lib" in a["target"]["kind"]:
            for f in a["filenames"]:
                if f.endswith(".rmeta"):
                    return f
    return None


class Result:
    def __init__(self, name, m=None, wall=0.0, findings=None):
        self.name = name
        self.findings = findings if findings is not None else m.findings
        self.wall = wall
        self.obligations = m.obligations if m else 0
        self.discharged = m.discharged if m else 0
        self.states = m.nstates if m else 0
        self.returns = m.returns if m else 0
        self.cuts = len(m.cuts) if m else 0
        self.fns = set(m.fns_seen) if m else set()
        self.blocks = set(m.blocks_seen) if m else set()
        self.reads = set(m.reads_sites) if m else set()


class Session:
    """one analysis of one source tree"""

    def __init__(self, repo, scratch):
        self.repo = repo
        self.scratch = scratch
        self.out = os.path.join(scratch, "dump")
        os.makedirs(self.out)
        self.rmeta = dump(repo, self.out, scratch)
        self._lib = self._bin = None
        self.reg = None
        self.results = []
        self.done = {}
        self.names = self.classes = None
        self.t0 = time.time()

    def relevant(self, name, findings):
        """findings of the analysis that violate the property at hand"""
        inscope = self.names is None or any(name.startswith(n) for n in self.names)
        return [f for f in findings if f.cls == "unsupported" or (inscope and (
            self.classes is None or f.cls in self.classes or name in self.classes))]

    @property
    def lib(self):
        if self._lib is None:
            self._lib = self._load("clarith.lib.json")
        return self._lib

    @property
    def bin(self):
        if self._bin is None:
            self._bin = self._load("clarith.bin.json")
        return self._bin

    def _load(self, f):
        p = os.path.join(self.out, f)
        if not os.path.exists(p):
            raise CheckError("the compiler produced no %s" % f)
        return mir.Program(p)

    def run(self, make, name, passes=1, max_states=250000):
        """run one job; a job that cannot even start is an unsupported finding"""
        t = time.time()

        def stop(m):
            if time.time() - self.t0 > DEADLINE:
                m.gave_up = True
                return True
            need = 1 if time.time() - self.t0 > PATIENCE else ENOUGH
            return len(m.findings) >= need and len(self.relevant(m.job.name, m.findings)) >= need

        m = None
        try:
            job = make()
            m = jobs.run_machine(job.prog, job, job.starts, passes=passes, max_states=max_states,
                                 stop=stop)
            r = Result(job.name, m, time.time() - t)
            r.job = job
            if not m.returns and not m.findings:
                r.findings = [Finding("unsupported", name, "no result was ever reached")]
        except (Unsupported, KeyError) as e:
            r = Result(name, None, time.time() - t,
                       [Finding("unsupported", name, str(getattr(e, "msg", e)))])
            r.job = None
        self.results.append(r)
        self.done.setdefault(name, r)
        bad = self.relevant(r.name, r.findings)
        if m is not None and getattr(m, "gave_up", False):
            if bad:
                raise Enough()
            raise CheckError("%s was not decided within %d s" % (name, DEADLINE))
        if len(bad) >= (1 if time.time() - self.t0 > PATIENCE else ENOUGH):
            raise Enough()
        return r

    # -- constructors and streams share a registry of stream kinds
    def constructors(self, which):
        if self.reg is None:
            self.reg = jobs.StratReg()
        kinds = {"ratio": jobs.RatioJob, "homographic": jobs.HomographicJob,
                 "combine": jobs.CombineJob}
        recs = []
        for n in which:
            r = self.run(lambda: kinds[n](self.lib, self.reg), n)
            if r.job is not None:
                recs += r.job.records
        return recs

    def streams(self, recs):
        """close the set of stream kinds under reading"""
        reg = self.reg
        todo = jobs.learn_invariants(reg, recs)
        edges = {}
        last = {}
        rounds = 0
        while todo:
            n = sorted(todo)[0]
            todo.discard(n)
            rounds += 1
            if rounds > 40:
                self.results.append(Result("streams", None, 0, [
                    Finding("unsupported", n, "stream invariants do not settle")]))
                break
            nm = "read:" + n.split("::")[-1]
            if last.get(n) is not None:
                self.results.remove(last[n])
            r = self.run(lambda: jobs.EgestJob(self.lib, reg, n, reg.shapes[n]), nm)
            last[n] = r
            if r.job is not None:
                edges[n] = r.job.edges
                todo |= jobs.learn_invariants(reg, r.job.records)
        # handover between kinds must not go round in circles
        es = {}
        for e in edges.values():
            for a, b in e:
                if b != "operand":
                    es.setdefault(a, set()).add(b)
        f = []
        for a in sorted(es):
            seen, st = set(), list(es[a])
            while st:
                x = st.pop()
                if x == a:
                    f.append(Finding("progress", "read of %s" % a,
                                     "the stream can hand over to its own kind again"))
                    break
                if x not in seen:
                    seen.add(x)
                    st.extend(es.get(x, ()))
        r = Result("order of handovers", None, 0, f)
        r.obligations = len({(a, b) for a in es for b in es[a]})
        r.discharged = r.obligations - len(f)
        self.results.append(r)
        self.edges = es
        return last

    def simple(self, which):
        k = {"consume": (jobs2.ConsumeJob, "lib", 4), "compare": (jobs2.CompareJob, "lib", 1),
             "handover": (jobs2.HandoverJob, "lib", 1), "accessors": (jobs2.AccessJob, "lib", 1),
             "print": (jobs2.PrintJob, "bin", 1)}
        for n in which:
            if n == "handover" and self.lib.whole:
                continue        # inside the reads
            J, p, passes = k[n]
            self.run(lambda: J(getattr(self, p), jobs.StratReg()), n, passes=passes)


def streams_of(s, which):
    recs = s.constructors(which)
    s.streams(recs)


ALL3 = ("ratio", "homographic", "combine")
EVERY = None

# property -> (what to run, job filter, finding classes)
PLANS = {
    "C01": (lambda s: s.simple(["compare"]), EVERY, EVERY),
    "C02": (lambda s: s.constructors(["ratio"]), EVERY, EVERY),
    "C03": (lambda s: streams_of(s, ["ratio"]), ("read:", "streams", "order"), EVERY),
    "C04": (lambda s: s.constructors(["homographic"]), EVERY, ("value", "inv")),
    "C05": (lambda s: streams_of(s, ["ratio", "homographic"]),
            ("read:", "streams"), ("value", "inv", "end")),
    "C06": (lambda s: s.constructors(["combine"]), EVERY, ("value", "inv")),
    "C07": (lambda s: streams_of(s, ALL3), ("read:", "streams"), ("value", "inv", "end")),
    "C08": (lambda s: s.simple(["consume"]), EVERY, ("value",)),
    "C09": (lambda s: s.simple(["consume"]), EVERY, ("overflow", "panic")),
    "C10": (lambda s: s.constructors(ALL3), EVERY, ("div0",)),
    "C11": (lambda s: (streams_of(s, ALL3), s.simple(["consume", "compare"])), EVERY,
            ("overflow",)),
    "C12": (lambda s: (streams_of(s, ALL3), s.simple(["consume", "compare", "handover",
                                                      "accessors"])), EVERY, ("panic",)),
    "C13": (lambda s: rules.effects(s), EVERY, EVERY),
    "C14": (lambda s: (streams_of(s, ALL3), s.simple(["consume", "compare", "handover"])), EVERY,
            ("progress",)),
    "C15": (lambda s: (streams_of(s, ALL3), s.simple(["handover"])),
            ("read:", "streams", "handover"), ("end", "handover")),
    "C16": (lambda s: s.simple(["handover"]), EVERY, EVERY),
    "C17": (lambda s: rules.ownership(s), EVERY, EVERY),
    "C18": (lambda s: s.simple(["print"]), EVERY, EVERY),
    "C19": (lambda s: s.simple(["accessors"]), EVERY, EVERY),
}


AI = ("Abstract interpretation of the crate's MIR (as the compiler resolves it now) from every kind "
      "of operand with unknown integers and unknown streams; ")
RULES = {
    "C01": AI + "each returned Ordering must equal the order of the two exact operand values for "
           "every continuation of both streams.",
    "C02": AI + "each returned number must denote exactly num/den, no panic but division by zero.",
    "C03": AI + "one read from any ratio stream inside (0,1): symbol, remaining value, range, "
           "decreasing measure, no panic.",
    "C04": AI + "each returned number must denote exactly (nx*x+n)/(dx*x+d), streams inside (0,1).",
    "C05": AI + "one read from any homographic or ratio stream with the inferred invariant: symbol "
           "and remaining exact value.",
    "C06": AI + "each returned number must denote exactly the bilinear quotient, streams inside "
           "(0,1).",
    "C07": AI + "one read from any stream kind with the inferred invariant: symbol and remaining "
           "exact value.",
    "C08": AI + "coefficients and remainder of each result must recompose the operand exactly.",
    "C09": AI + "no arithmetic of consume may leave the machine range, no panic is reachable.",
    "C10": AI + "division by zero is raised only where the exact denominator is zero, and no result "
           "is returned where it may be.",
    "C11": AI + "every unchecked arithmetic operation stays in range and no wrapped, saturated or "
           "truncated integer reaches a result.",
    "C12": AI + "every reachable panic is a division by zero, an overflow or an accessor refusal.",
    "C13": "Effect rule over the resolved call graph from every exported operation, including "
           "dynamic dispatch, closures and drop code.",
    "C14": AI + "every loop or recursion reads a symbol per round, stream handovers are acyclic, "
           "ratio streams shrink.",
    "C15": AI + "the object left behind after reporting the end still denotes one half.",
    "C16": AI + "Clog::egest over arbitrary inner strategies returns the symbol delivered by the "
           "latest replacement and keeps that replacement.",
    "C17": "Compile-fail witnesses with compiling twins against the compiled crate, and an ownership "
           "rule over the exported signatures, fields and trait implementations.",
    "C18": AI + "the letters written by the demo program's number writer equal the symbols read, in "
           "order, ending with H.",
    "C19": AI + "accessors return the held content unread or panic on the other kind.",
}
ASSUME = [
    "operand streams deliver Amplify, Uncover or the end, and denote the value of their symbols",
    "allocation does not fail and the stack does not overflow",
]


def decide(prop, repo):
    """(session, findings that violate the property)"""
    base = os.path.join(HERE, "build", "scratch")
    os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    try:
        s = Session(repo, scratch)
        plan, s.names, s.classes = PLANS[prop]
        if prop == "C16" and s.lib.whole:
            # replacements happen inside a read: the stream's value must survive them
            plan, s.names, s.classes = PLANS["C07"]
        try:
            plan(s)
        except Enough:
            pass
        out = []
        for r in s.results:
            for f in s.relevant(r.name, r.findings):
                f.job = r.name
                out.append(f)
        return s, out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
