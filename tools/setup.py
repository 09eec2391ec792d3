#!/usr/bin/env python3
"""Nothing to build ahead: every check builds from /repo's current tree.  Verify
that the tools are there."""
import os, shutil, sys
os.environ["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", "")
missing = [t for t in ("cargo", "cargo-kani") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)
