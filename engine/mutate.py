#!/usr/bin/env python3
"""development aid: ./mutate.py ID file 'old' 'new' [n]: runs a check on a copy of /repo with one textual replacement"""
import os, subprocess, sys, shutil
pid, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = "/tmp/mut/repo"
os.makedirs("/tmp/mut", exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", d + "/"], check=True) if shutil.which("rsync") else (shutil.rmtree(d, ignore_errors=True), shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True))
p = os.path.join(d, f)
s = open(p).read()
parts = s.split(old)
if len(parts) < 2:
    sys.exit("pattern not found")
s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
open(p, "w").write(s)
env = dict(os.environ, VP_REPO=d, VP_BUILD="/tmp/mut/build")
for x in pid.split(","):
    subprocess.run(["/verif/check", x], env=env)
