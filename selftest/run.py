#!/usr/bin/env python3
"""Test the checks themselves: apply diffs to a scratch copy of the crate and decide every property there.

run.py DIFF...          prints, per diff, the properties reported as violated
run.py --quiet [DIFF..] fails when any property is reported (default: selftest/quiet/*.diff)
"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
sys.setrecursionlimit(20000)
import pipeline  # noqa: E402
import rules  # noqa: E402

REPO = os.environ.get("SELFTEST_REPO", "/repo")


def verdicts(repo, scratch):
    """{property: findings} from three shared analyses instead of one per property"""
    pipeline.ENOUGH = int(os.environ.get("SELFTEST_ENOUGH", 10 ** 9))
    pipeline.PATIENCE = 10 ** 9
    pipeline.DEADLINE = int(os.environ.get("SELFTEST_CAP", pipeline.DEADLINE))
    first = pipeline.Session(repo, scratch)

    def fresh():
        s = pipeline.Session.__new__(pipeline.Session)
        s.__dict__.update(first.__dict__)
        s.reg, s.results, s.done = None, [], {}
        return s

    def guard(s, f):
        try:
            f(s)
        except pipeline.Enough:
            pass
        except pipeline.CheckError as e:
            s.results.append(pipeline.Result("error", None, 0, [
                pipeline.Finding("unsupported", "check", str(e))]))
        return s

    ratio = guard(fresh(), lambda s: pipeline.streams_of(s, ["ratio"]))
    homo = guard(fresh(), lambda s: pipeline.streams_of(s, ["ratio", "homographic"]))
    full = guard(fresh(), lambda s: pipeline.streams_of(s, pipeline.ALL3))
    one = {n: guard(fresh(), lambda s: s.simple([n]))
           for n in ("consume", "compare", "handover", "accessors", "print")}
    one["effects"] = guard(fresh(), rules.effects)
    one["ownership"] = guard(fresh(), rules.ownership)

    def pick(s, *names):
        return [r for r in s.results if any(r.name.startswith(n) for n in names)]

    cons = ("ratio", "homographic", "combine", "error")
    src = {
        "C01": one["compare"].results, "C02": pick(ratio, "ratio", "error"),
        "C03": ratio.results, "C04": pick(homo, "homographic", "error"), "C05": homo.results,
        "C06": pick(full, "combine", "error"), "C07": full.results,
        "C08": one["consume"].results, "C09": one["consume"].results, "C10": pick(full, *cons),
        "C11": full.results + one["consume"].results + one["compare"].results,
        "C12": full.results + one["consume"].results + one["compare"].results +
        one["handover"].results + one["accessors"].results,
        "C13": one["effects"].results,
        "C14": full.results + one["consume"].results + one["compare"].results +
        one["handover"].results,
        "C15": full.results + one["handover"].results, "C16": one["handover"].results,
        "C17": one["ownership"].results, "C18": one["print"].results,
        "C19": one["accessors"].results,
    }
    if first.lib.whole:
        src["C16"] = full.results
    out = {}
    for p in sorted(pipeline.PLANS):
        first.names, first.classes = pipeline.PLANS[p][1:]
        out[p] = [(r.name, f) for r in src[p] for f in first.relevant(r.name, r.findings)]
    return out


def one_diff(diff):
    top = tempfile.mkdtemp(prefix="selftest-")
    try:
        repo = os.path.join(top, "repo")
        subprocess.run(["git", "clone", "-q", REPO, repo], check=True)
        if diff:
            r = subprocess.run(["git", "-C", repo, "apply", os.path.abspath(diff)],
                               capture_output=True, text=True)
            if r.returncode:
                return diff, "does not apply: " + r.stderr, {}
        scratch = os.path.join(top, "scratch")
        os.makedirs(scratch)
        import time
        t = time.time()
        try:
            v = verdicts(repo, scratch)
        except pipeline.CheckError as e:
            return diff, "error: %s" % e, {}
        v = {p: ["%s [%s] %s: %s %s" % (n, f.cls, f.site, f.what, f.detail or "") for n, f in fs]
             for p, fs in v.items() if fs}
        return diff, "%.0f s" % (time.time() - t), v
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    args = sys.argv[1:]
    quiet = "--quiet" in args
    args = [a for a in args if a != "--quiet"]
    diffs = args or sorted(glob.glob(os.path.join(HERE, "quiet", "*.diff")))
    bad = 0
    with cf.ProcessPoolExecutor(int(os.environ.get("SELFTEST_JOBS", "7"))) as ex:
        for diff, note, v in ex.map(one_diff, diffs):
            name = os.path.basename(diff)
            if name == "patch.diff":
                name = os.path.basename(os.path.dirname(diff))
            print("%-28s %-6s %s" % (name, note, " ".join(sorted(v)) or "quiet"), flush=True)
            bad += bool(v) or not note.endswith(" s")
            seen = set()
            for p in sorted(v):
                for x in v[p]:
                    if x not in seen and len(seen) < int(os.environ.get("SELFTEST_SHOW", "4")):
                        seen.add(x)
                        print("      %s %s" % (p, x[:300]))
    if quiet and bad:
        print("%d of %d variants are reported" % (bad, len(diffs)))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
