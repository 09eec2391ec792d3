#!/usr/bin/env python3
"""replay.py PROPERTY CONTRACT INPUT -- evaluate one contract on one input against /repo's current code."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import layout, native
from vf.props import PROPS
prop, contract, inp = sys.argv[1:4]
cfg = PROPS[prop]
exe = None
for sliced in [True, False] if "slice" in cfg else [False]:
    h = layout.lay(prop, cfg, sliced)
    exe, err = native.build(h, prop, cfg)
    if exe:
        break
if not exe:
    sys.exit("cannot build: " + err)
r, _ = native.replay(exe, contract, [x for x in inp.split(",")])
print(r)
sys.exit(1 if r["verdict"] in ("fail", "crash") else 0)
