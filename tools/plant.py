#!/usr/bin/env python3
"""Development aid (no check uses it): plant.py [-t] [-d] [-c PID,PID|all] SEED...
Applies /verif/seeded/SEED/patch.diff to a scratch copy of /repo; -t runs the test suite, -d the demonstration (with and
without the patch), -c the given checks (default: the property of meta.json)."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_DIR", "/tmp/plant")
REPO = W + "/repo"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=W + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh(patch=None):
    os.makedirs(W, exist_ok=True)
    sh("rm -rf %s && mkdir -p %s && git -C /repo archive HEAD | tar -x -m -C %s" % (REPO, REPO, REPO))
    if patch:
        r = sh("git apply --whitespace=nowarn --unsafe-paths --directory=%s %s" % (REPO.lstrip("/"), patch), cwd="/")
        if r.returncode:
            r = sh("patch -p1 < %s" % patch, cwd=REPO)
        if r.returncode:
            print("PATCH DOES NOT APPLY", r.stdout)
            return False
    return True


def tests():
    ws = W + "/ws"
    sh("rm -rf %s && mkdir -p %s && for d in %s/*/; do ln -sfn ${d%%/} %s/; done; cp %s/Cargo.lock %s/" % (ws, ws, REPO, ws, REPO, ws))
    s = open(REPO + "/Cargo.toml").read()
    s = s.replace('    "imap-codec/benchmark",\n', "").replace("[workspace]\n", '[workspace]\nexclude = ["imap-codec/benchmark"]\n', 1)
    open(ws + "/Cargo.toml", "w").write(s)
    for f in ("", "--all-features"):
        r = sh("cargo test --workspace --exclude imap-codec-fuzz --exclude imap-types-fuzz %s --no-fail-fast --offline" % f, cwd=ws, env=ENV)
        if r.returncode:
            bad = [l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
            print("  TESTS FAIL", f, "; ".join(bad[:6]))
            print(r.stdout[-1500:] if not bad or bad[0].startswith("error") else "")
            return False
    print("  tests pass")
    return True


def demo(sd):
    e = dict(os.environ)
    r = sh("bash %s/demo.sh" % sd, cwd=REPO, env=e)
    return r.returncode, r.stdout[-600:]


def main():
    a = sys.argv[1:]
    t = "-t" in a
    d = "-d" in a
    pids = None
    if "-c" in a:
        i = a.index("-c")
        pids = a[i + 1].split(",")
        del a[i:i + 2]
    nocheck = "-n" in a
    for s in [x for x in a if not x.startswith("-")]:
        sd = V + "/seeded/" + s
        print("==", s)
        if d:
            fresh()
            rc, o = demo(sd)
            print("  demo on the unchanged tree:", rc, "" if rc == 0 else "WRONG " + o)
        if not fresh(sd + "/patch.diff"):
            continue
        if t:
            tests()
        if d:
            rc, o = demo(sd)
            print("  demo with the patch:", rc, "WRONG" if rc == 0 else "(%s)" % o.strip().splitlines()[-1:] )
        if nocheck:
            continue
        ps = pids or [json.load(open(sd + "/meta.json"))["property"]]
        if ps == ["all"]:
            ps = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        e = dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=W + "/build", VERIF_EVIDENCE=W + "/evidence")
        for p in ps:
            r = sh("python3 %s/check.py %s quick" % (V, p), env=e)
            ls = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
            print("  ", p, "exit", r.returncode, "|".join(ls[:4])[:700])
        sys.stdout.flush()


main()
