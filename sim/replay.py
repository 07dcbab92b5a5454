#!/usr/bin/env python3
"""Replays a plan file in a fresh process: replay.py FILE. Exit 1 if it violates its property."""
import os, re, shutil, sys, tempfile
import check
text = open(sys.argv[1]).read()
prop = re.search(r"^prop\t(\w+)", text, re.M).group(1)
d = tempfile.mkdtemp(prefix="cocosim-")
try:
    cls, msg, trace = check.Runner(prop, d).replay(text)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("trace=%s %s" % (trace, "violation (%s): %s" % (cls, msg) if cls else "ok"))
sys.exit(1 if cls else 0)
