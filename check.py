#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property of /repo's current tree.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Any other exit: no answer.  See DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.run import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
