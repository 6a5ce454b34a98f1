#!/usr/bin/env python3
"""Development aid: undoes each "fix:" commit listed in known_findings.txt in a scratch clone of /repo and runs the property's check against it.
usage: tryrevert.py [commit prefixes...]"""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]): continue
    d = tempfile.mkdtemp(prefix="vt-try-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        if subprocess.run(["git", "-C", d, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", m[2]], stdout=subprocess.PIPE, stderr=subprocess.PIPE).returncode: print(m[1], m[2], "CONFLICT", m[3]); continue
        r = subprocess.run([sys.executable, V + "/harness/run.py", m[1], "--no-evidence", "--first", "--seed", "1"], env=dict(os.environ, VT_REPO=d, VT_BUILD="/tmp/sd/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(m[1], m[2], {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), m[3], flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
