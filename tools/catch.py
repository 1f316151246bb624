#!/usr/bin/env python3
"""catch.py DIR... [--props C01,C02]: run the check of each planted bug's property against a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, tempfile, time

V = os.environ.get("FIATMON_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
props = [a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")]
for d in args:
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="catch_")
    scr = os.path.join(tmp, "repo")
    try:
        shutil.copytree(os.environ.get("CATCH_BASE", "/repo"), scr, symlinks=True)
        subprocess.run(["git", "-C", scr, "apply", os.path.abspath(os.path.join(d, "patch.diff"))], check=True)
        for p in (props[0] if props else [meta["property"]]):
            t = time.time()
            r = subprocess.run([os.path.join(V, "check"), p], env=dict(os.environ, FIATMON_REPO=scr, FIATMON_EVIDENCE=tmp),
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-40s %s rc=%d %d violations %.0fs  %s" % (os.path.basename(d.rstrip("/")), p, r.returncode, len(v), time.time() - t,
                                                         (v or r.stdout.splitlines() + r.stderr.splitlines() + [""])[0][:150]), flush=True)
    finally:
        shutil.rmtree(tmp)
