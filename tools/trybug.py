#!/usr/bin/env python3
"""Development aid: applies planted bugs to a scratch copy of /repo and runs the property's check (or those named) against it.
usage: trybug.py [--ids a,b] [--props A01,..] [--seeds 1,2] [--full]"""
import argparse, json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("--ids"); ap.add_argument("--props"); ap.add_argument("--seeds", default="1"); ap.add_argument("--out"); a = ap.parse_args()
ids = a.ids.split(",") if a.ids else sorted(os.listdir(V + "/seeded"))
for b in ids:
    sd = V + "/seeded/" + b; m = json.load(open(sd + "/meta.json"))
    d = tempfile.mkdtemp(prefix="vt-try-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        r = subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", sd + "/patch.diff"])
        if r.returncode: print(b, "PATCH FAILS"); continue
        for p in (a.props.split(",") if a.props else [m["property"]]):
            for s in a.seeds.split(","):
                r = subprocess.run([sys.executable, V + "/harness/run.py", p, "--no-evidence", "--first", "--seed", s], env=dict(os.environ, VT_REPO=d, VT_BUILD="/tmp/sd/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                v = {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode)
                print(b, p, "seed", s, v, flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
