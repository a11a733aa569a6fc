"""Builds the fact extractor and extracts type-checked facts from /repo's current working tree.

The facts are cached under /verif/.build, keyed by the content of every input (sources of both crates, manifests,
lock file, extractor source, toolchain): a changed tree always leads to a new extraction.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
CRATES = ("imap_types", "imap_codec")


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env or _env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError("%s failed (%d):\n%s" % (" ".join(cmd), p.returncode, p.stdout[-6000:]))
    return p.stdout


def features():
    """Feature sets, read from the current manifest."""
    s = open(os.path.join(REPO, "imap-codec/Cargo.toml")).read()
    m = re.search(r"^\[features\]\n(.*?)^\[", s, re.M | re.S)
    names = re.findall(r"^([a-z0-9_]+)\s*=", m.group(1), re.M)
    return [n for n in names if n not in ("default", "fuzz", "quirk") and not n.startswith(("quirk_", "arbitrary"))]


def configs():
    ext = ",".join(features())
    return {
        "D": [],
        "E": ["--features", ext],
        "N": ["--no-default-features", "--features", ext],
        "A": ["--all-features"],
        "R": ["--release", "--features", ext],
        "Q": ["--release"],
        "S": ["--release", "--all-features"],
    }


def _inputs():
    out = []
    for c in ("imap-codec", "imap-types"):
        for d, ds, fs in os.walk(os.path.join(REPO, c)):
            ds[:] = sorted(x for x in ds if x not in ("target", "benchmark", "fuzz", "corpus"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".md")):
                    out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(os.path.join(REPO, f))
    out.append(os.path.join(VERIF, "driver/main.rs"))
    out.append(os.path.abspath(__file__))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in _inputs():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, "driver/main.rs")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(BUILD, "driver")
    exe = os.path.join(d, "thirdump-" + tag)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        _run(["rustc", "-O", "--edition", "2021", src, "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
    return exe


def _workspace():
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    for d in ("imap-codec", "imap-types"):
        p = os.path.join(ws, d)
        t = os.path.join(REPO, d)
        if os.path.islink(p) and os.readlink(p) != t:
            os.unlink(p)
        if not os.path.islink(p):
            os.symlink(t, p)
    s = open(os.path.join(REPO, "Cargo.toml")).read()
    members = re.search(r"members\s*=\s*\[(.*?)\]", s, re.S).group(0)
    s = s.replace(members, 'members = ["imap-codec", "imap-types"]\nexclude = ["imap-codec/benchmark", "imap-codec/fuzz", "imap-types/fuzz"]')
    open(os.path.join(ws, "Cargo.toml"), "w").write(s)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    return ws


def extract(cfg, out):
    exe = build_driver()
    ws = _workspace()
    tgt = os.path.join(BUILD, "target", cfg)
    prof = "release" if cfg in "RQS" else "debug"
    # the two crates are always compiled anew (older and newer layout of cargo's build directory)
    for sub in (".fingerprint", "build"):
        fp = os.path.join(tgt, prof, sub)
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith("imap-"):
                    shutil.rmtree(os.path.join(fp, f))
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    env = _env()
    sysroot = _run(["rustc", "--print", "sysroot"]).strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["FACTS_DIR"] = tmp
    env["FACTS_CRATES"] = ",".join(CRATES)
    env["CARGO_TARGET_DIR"] = tgt
    cmd = ["cargo", "check", "--offline", "--lib", "-p", "imap-codec"] + configs()[cfg]
    _run(cmd, env=env, cwd=ws)
    if not all(os.path.exists(os.path.join(tmp, c + ".json")) for c in CRATES):
        shutil.rmtree(tgt)
        _run(cmd, env=env, cwd=ws)
    for c in CRATES:
        if not os.path.exists(os.path.join(tmp, c + ".json")):
            raise FactsError("no facts written for crate %s (%s)" % (c, cfg))
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)


def get(cfg):
    """Directory with the facts of the current tree in configuration cfg."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + cfg), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        base = os.path.join(BUILD, "facts")
        h = tree_hash()
        out = os.path.join(base, h, cfg)
        if not all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(os.path.join(BUILD, "lock-build"), "w") as lb:
                fcntl.flock(lb, fcntl.LOCK_EX)
                build_driver()
                _workspace()
            extract(cfg, out)
            # keep the cache small: the four most recent trees
            ds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
            for d in ds[:-4]:
                if os.path.basename(d) != h:
                    shutil.rmtree(d, ignore_errors=True)
        return out


if __name__ == "__main__":
    t = time.time()
    for c in sys.argv[1:] or ["D", "E"]:
        print(c, get(c), round(time.time() - t, 1))
