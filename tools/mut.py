#!/usr/bin/env python3
"""mut.py FILE 'old' 'new' CHECK...: development aid; apply a replacement in a copy of /repo and run checks on it."""
import os, subprocess, sys
R = "/tmp/mrepo"
subprocess.run("rm -rf /tmp/mrepo && mkdir -p /tmp/mrepo && git -C /repo archive HEAD | tar -C /tmp/mrepo -xf -", shell=True, check=True)
f, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
k = 0
if "#" in checks[0]:
    k = int(checks[0][1:]); checks = checks[1:]
p = R + "/" + f
s = open(p).read()
parts = s.split(old)
assert len(parts) > k + 1, "not found"
open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
for c in checks:
    r = subprocess.run([sys.executable, "check.py", c], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R))
    print(c, "exit", r.returncode, r.stdout[-1500:], r.stderr[-600:])
