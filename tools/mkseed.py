#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, edits=[(file, old, new[, k])], demo (rust main), needs, breaks.
Writes /verif/seeded/<id>/, then confirms: patch applies, tests pass with it, demo passes without and fails with it."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# builds demo.rs against a private copy of /repo's sources; exit 0: behaviour as required
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
python3 - "$W" "$D" <<'PY' || exit 2
import os, re, shutil, sys
w, d = sys.argv[1:]
ws = os.path.join(w, "ws")
shutil.copytree("/repo", ws, ignore=shutil.ignore_patterns(".git", "target", "Cargo.lock"))
for r, _, fs in os.walk(ws):
    for f in fs:
        if f == "Cargo.toml":
            p = os.path.join(r, f)
            t = open(p).read()
            t = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", t)
            t = re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", t)
            if r == ws:
                t = re.sub(r"members\s*=\s*\[", 'members = ["demo", ', t, count=1)
            open(p, "w").write(t)
os.makedirs(os.path.join(ws, "demo", "src"))
shutil.copy(os.path.join(d, "demo.rs"), os.path.join(ws, "demo", "src", "main.rs"))
names = {}
for c in ("algebra", "lattice", "fhe_core", "bool"):
    t = open(os.path.join(ws, c, "Cargo.toml")).read()
    names[c] = re.search(r'(?m)^name\s*=\s*"([^"]+)"', t).group(1)
deps = "".join('%s = { path = "../%s", default-features = false }\n' % (names[c], c) for c in ("algebra", "lattice", "fhe_core", "bool"))
open(os.path.join(ws, "demo", "Cargo.toml"), "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n%srand = { workspace = true }\nrand_distr = { workspace = true }\nnum-traits = { workspace = true }\nonce_cell = { workspace = true }\nserde = { workspace = true }\n' % deps)
lock = "/opt/vp/ws/Cargo.lock"
if os.path.isfile(lock):
    shutil.copy(lock, os.path.join(ws, "Cargo.lock"))
PY
cd "$W/ws" || exit 2
export RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0
cargo build -q --offline -p demo --config profile.dev.debug=0 || exit 2
timeout -k 5 200 "$W/target/debug/demo"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(V, "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == "", "repo dirty"
    try:
        for e in ns["edits"]:
            f, old, new = e[:3]
            k = e[3] if len(e) > 3 else 0
            p = "/repo/" + f
            s = open(p).read()
            parts = s.split(old)
            if len(parts) == 1 or (len(e) == 3 and len(parts) != 2):
                raise SystemExit("edit in %s: %d matches" % (f, len(parts) - 1))
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        patch = sh("git", "-C", "/repo", "diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(ns["demo"])
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash", "/opt/vp/build.sh")
        if r.returncode:
            print("BUILD FAILS", r.stderr[-1500:]); return
        sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/seedtest.json"))
        bad = failing(base, got)
        print("tests failing with the patch:", bad)
        r = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
        print("demo with patch: exit", r.returncode, (r.stdout + r.stderr)[-400:].strip())
        for c in [ns["property"]] + ns.get("also", []):
            r = sh(sys.executable, "check.py", c, cwd=V)
            print("check", c, "exit", r.returncode, r.stdout[-900:], r.stderr[-500:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    r = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
    print("demo without patch: exit", r.returncode, (r.stdout + r.stderr)[-300:].strip())


def names(j):
    for k in ("stable", "passed", "pass", "tests"):
        v = j.get(k)
        if isinstance(v, list):
            return {x if isinstance(x, str) else x.get("name") for x in v}
        if isinstance(v, dict):
            return {n for n, x in v.items() if x in ("pass", "passed", True)}
    return set()


def failing(base, got):
    b, g = names(base), names(got)
    return sorted(b - g) if b else "baseline format?"


main()
