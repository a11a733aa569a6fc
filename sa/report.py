"""Common driver of the checks: tiers, known findings, evidence files, exit codes."""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.violations = []        # {key, where, what}
        self.notes = []             # what was left undecided
        self.cov = {}
        self.assumptions = []
        self.lost = []              # anchors the analysis could not find: reported as violations (fail closed)
        self.t0 = time.time()

    def violation(self, key, where, what, **more):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append(dict(key=key, where=where, what=what, **more))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def floor(self, what, got, least):
        """Fails closed when the analysis finds (almost) nothing of what it is about."""
        self.cov.setdefault("floors", {})[what] = [got, least]
        if got < least:
            self.violation("floor:" + what, "/repo", "found only %s of %s (at least %s expected): the analysed construct is gone" % (got, what, least))

    def merge(self, d):
        for v in d["violations"]:
            self.violation(**v)
        for n in d["notes"]:
            self.note(n)
        for k, x in d["cov"].items():
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                self.cov[k] = self.cov.get(k, 0) + x
            elif isinstance(x, dict):
                self.cov.setdefault(k, {}).update(x)
            elif isinstance(x, list):
                c = self.cov.setdefault(k, [])
                c.extend(y for y in x if y not in c)
            else:
                self.cov[k] = x
        for a in d["assumptions"]:
            if a not in self.assumptions:
                self.assumptions.append(a)

    def dump(self):
        return {"violations": self.violations, "notes": self.notes, "cov": self.cov, "assumptions": self.assumptions}


def _child(job):
    fn, pid, tier, args = job
    sys.setrecursionlimit(20000)
    c = Ctx(pid, tier)
    try:
        fn(c, *args)
        return ("ok", c.dump())
    except Exception:
        t = traceback.format_exc()
        return ("fatal" if "FactsError" in t else "err", t)


def parallel(ctx, jobs):
    """jobs: [(function(ctx, *args), args)], run in separate processes, results merged in order."""
    failed = []
    with multiprocessing.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
        for k, r in p.imap(_child, [(f, ctx.pid, ctx.tier, a) for f, a in jobs], chunksize=1):
            if k == "fatal":
                raise RuntimeError(r)
            if k == "err":
                # the analysis itself failed: nothing is decided for this part
                failed.append(r)
                ctx.note("analysis error, part not decided: " + r.strip().splitlines()[-1])
                sys.stderr.write(r)
                continue
            ctx.merge(r)
    if len(failed) == len(jobs):
        raise RuntimeError("every part of the analysis failed")


def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def finish(ctx, level, rule):
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    kf = {f["key"]: f for f in known() if f["property"] == ctx.pid and f.get("status", "known") == "known"}
    new = []
    for v in ctx.violations:
        if v["key"] in kf:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, kf[v["key"]]["what"]))
        else:
            new.append(v)
    cov = dict(ctx.cov)
    cov["explanation"] = rule
    cov["undecided"] = ctx.notes
    if level == "proof":
        cov.setdefault("obligations", cov.get("obligations", 0))
        cov.setdefault("discharged", cov.get("obligations", 0) - len(ctx.violations))
        cov.setdefault("checker_cmd", "python3 check.py %s %s" % (ctx.pid, ctx.tier))
        cov.setdefault("trusted_base", ["rustc front end (type-checked HIR)", "models of core/std/nom functions in /verif/sa"])
    out = {
        "property": ctx.pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov, "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev, ctx.pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    for v in new:
        d = os.path.join(ev, "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-%s.json" % (ctx.pid, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            json.dump(dict(property=ctx.pid, **v), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        print("  at %s: %s" % (v["where"], v["what"]))
        print("  key: %s" % v["key"])
    print("%s %s: %d violation(s), %d known, %.1f s" % (ctx.pid, ctx.tier, len(new), len(ctx.violations) - len(new), time.time() - ctx.t0))
    return 1 if new else 0
