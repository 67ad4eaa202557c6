#!/usr/bin/env python3
"""Build MIR facts of /repo's current working tree: stripped workspace view -> driver -> facts.json."""
import os, re, shutil, subprocess, sys, hashlib, json, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WS = os.path.join(BUILD, "ws")
SKIP = {".git", "target", "Cargo.lock"}


def strip(text):
    text = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", text)
    return re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", text)


def make_view():
    """A copy of the workspace sources without the git dependency (not available offline)."""
    want = {}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if d not in SKIP and not (rel == "." and d.startswith(".")))
        for f in sorted(files):
            if f in SKIP:
                continue
            p = os.path.join(root, f)
            r = os.path.normpath(os.path.join(rel, f))
            if not (f.endswith(".rs") or f.endswith(".toml") or f.endswith(".md")):
                continue
            data = open(p, "rb").read()
            if f == "Cargo.toml":
                data = strip(data.decode()).encode()
            want[r] = data
    if os.path.isdir(WS):
        for root, dirs, files in os.walk(WS):
            for f in files:
                r = os.path.relpath(os.path.join(root, f), WS)
                if r not in want:
                    os.remove(os.path.join(root, f))
    for r, data in want.items():
        d = os.path.join(WS, r)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if not os.path.isfile(d) or open(d, "rb").read() != data:
            with open(d, "wb") as fh:
                fh.write(data)
    h = hashlib.sha256()
    for r in sorted(want):
        h.update(r.encode() + b"\0" + want[r] + b"\0")
    return h.hexdigest()


def run(cmd, env=None, cwd=None, log=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit("extract: command failed: %s" % " ".join(cmd))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["HOME"] = env.get("HOME") or "/root"
    env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def build_driver():
    env = base_env()
    out = os.path.join(BUILD, "driver", "release", "mirfacts")
    run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
        env=env, cwd=os.path.join(VERIF, "driver"))
    return out


def facts_path():
    """Returns the path of an up-to-date facts.json for the current /repo working tree."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        digest = make_view()
        for d in ("driver/src/main.rs", "roots/src/lib.rs", "roots/Cargo.toml"):
            digest = hashlib.sha256((digest + hashlib.sha256(open(os.path.join(VERIF, d), "rb").read()).hexdigest()).encode()).hexdigest()
        out = os.path.join(BUILD, "facts.json")
        stamp = os.path.join(BUILD, "facts.stamp")
        if os.path.isfile(out) and os.path.isfile(stamp) and open(stamp).read() == digest:
            return out
        drv = build_driver()
        env = base_env()
        sysroot = run(["rustc", "--print", "sysroot"], env=env).strip()
        env["LD_LIBRARY_PATH"] = sysroot + "/lib:" + env.get("LD_LIBRARY_PATH", "")
        env["RUSTC_WRAPPER"] = drv
        env["MIRFACTS_OUT"] = out + ".tmp"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the driver: force the root crate to be re-analysed, and
        # everything if the driver itself changed
        tgt = env["CARGO_TARGET_DIR"]
        dstamp = os.path.join(BUILD, "driver.stamp")
        dh = hashlib.sha256(open(drv, "rb").read()).hexdigest()
        if not (os.path.isfile(dstamp) and open(dstamp).read() == dh):
            shutil.rmtree(tgt, ignore_errors=True)
            with open(dstamp, "w") as f:
                f.write(dh)
        for root, dirs, files in os.walk(tgt):
            for d in [d for d in dirs if d == "roots" or d.startswith("roots-")]:
                shutil.rmtree(os.path.join(root, d))
                dirs.remove(d)
        if os.path.exists(out + ".tmp"):
            os.remove(out + ".tmp")
        run(["cargo", "check", "--offline", "--lib"], env=env, cwd=os.path.join(VERIF, "roots"))
        if not os.path.isfile(out + ".tmp"):
            shutil.rmtree(tgt, ignore_errors=True)
            run(["cargo", "check", "--offline", "--lib"], env=env, cwd=os.path.join(VERIF, "roots"))
        if not os.path.isfile(out + ".tmp"):
            raise SystemExit("extract: the driver produced no facts")
        os.replace(out + ".tmp", out)
        with open(stamp, "w") as f:
            f.write(digest)
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    t = time.time()
    p = facts_path()
    print(p, "%.1fs" % (time.time() - t), os.path.getsize(p))
