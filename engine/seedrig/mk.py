#!/usr/bin/env python3
"""development aid: mk.py ID spec.json: makes /verif/seeded/ID from a spec {property, package, edits: [[file, old, new]], demo, needs, breaks},
confirming that the change builds, passes the stable tests, and that the demonstration tells the two apart."""
import json, os, shutil, subprocess, sys, tempfile
sid, spec = sys.argv[1], json.load(open(sys.argv[2]))
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join("/verif/seeded", sid)
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
try:
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in spec["edits"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{f}: pattern occurs {s.count(old)} times")
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True, text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy(here + "/rig.sh", out + "/rig.sh")
    open(out + "/demo.rs", "w").write(spec["demo"])
    for f, t in spec.get("files", {}).items():
        open(os.path.join(out, f), "w").write(t)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec bash "$(dirname "$0")/rig.sh" %s\n' % spec["package"])
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(out + "/meta.json", "w"), indent=1)
    good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run(["bash", out + "/demo.sh"], cwd=w + "/r", capture_output=True, text=True)
    print("unchanged:", good.returncode, (good.stdout + good.stderr)[-400:].strip())
    print("changed:", bad.returncode, (bad.stdout + bad.stderr)[-400:].strip())
    if good.returncode != 0 or bad.returncode in (0, 2):
        print("NOT A DEMONSTRATION")
    if spec["package"] in ("gen", "codegen"):
        env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtgt")
        t = subprocess.run(["cargo", "test", "--offline", "-q", "-p", "grib-build", "-p", "grib-codegen"], cwd=w + "/r", env=env, capture_output=True, text=True)
        print("stable tests:", t.returncode, "" if t.returncode == 0 else t.stdout[-800:] + t.stderr[-400:])
finally:
    shutil.rmtree(w, ignore_errors=True)
