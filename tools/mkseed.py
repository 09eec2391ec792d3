#!/usr/bin/env python3
"""mkseed.py DIR...: confirm planted bugs in a scratch copy of /repo.

Each DIR (seeded/<id>) holds patch.diff, main.rs and meta.json; this adds demo.sh and
the files it needs, and checks: demo passes on the clean tree, patch applies,
build and stable tests pass with it, demo fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sys.argv[1:]:
    d = os.path.abspath(d)
    shutil.copy(os.path.join(V, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(V, "vf", "overlay_tool.py"), d)
    if "mock" in open(os.path.join(d, "main.rs")).read():
        shutil.copy(os.path.join(V, "harness", "src", "mock.rs"), d)
    json.load(open(os.path.join(d, "meta.json")))
