#!/usr/bin/env python3
"""Reverts each repair in a scratch copy and runs the check that should notice (regression plans are collected in known/regress)."""
import os, re, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
S = "/tmp/revert-repo"
env = dict(os.environ, COCO_REPO=S, SIM_BUDGET=os.environ.get("SIM_BUDGET", "60"), VERIF_SEED="5", SIM_NOCORPUS="1")
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if not m or (only and m.group(2) not in only and m.group(1) not in only):
        continue
    prop, commit = m.group(1), m.group(2)
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
    r = subprocess.run(["git", "-C", S, "-c", "user.email=a@b", "-c", "user.name=n", "revert", "--no-commit", commit], capture_output=True, text=True)
    if r.returncode:
        print(prop, commit, "cannot revert", r.stderr[:200]); continue
    r = subprocess.run([sys.executable, V + "/sim/check.py", prop], env=env, capture_output=True, text=True, cwd=V)
    f = re.search(r"VIOLATION property=\w+ replay=(\S+)", r.stdout)
    w = re.search(r"violated: (.*)", r.stdout)
    print(prop, commit, "rc", r.returncode, (w.group(1)[:150] if w else (r.stdout + r.stderr)[-300:]), flush=True)
    if f and r.returncode == 1 and f.group(1).endswith(".plan"):
        shutil.copy(f.group(1), "%s/known/regress/%s-%s.plan" % (V, prop, commit))
        os.unlink(f.group(1))
shutil.rmtree(S, ignore_errors=True)
