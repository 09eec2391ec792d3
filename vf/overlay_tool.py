#!/usr/bin/env python3
"""Lay out /opt/vp/overlay: the eucalypt package without its yaml-rust part.

The git dependency yaml-rust (github.com/curvelogic/yaml-rust) is not there, so
what needs it is left out: src/import/yaml.rs, src/import/jsonl.rs (it parses
through import/yaml.rs) and src/export/yaml.rs. Nothing is put in their place.

Everything else is a symlink into /repo. Four files are derived from /repo's own
at every run, only by blanking or dropping lines:

    Cargo.toml          less the yaml-rust line
    Cargo.lock          less the yaml-rust package (other pins unchanged, --locked)
    src/import/mod.rs   less "mod yaml", "mod jsonl" and their match arms
    src/export/mod.rs   less "mod yaml", its use, and its match arm

Line numbers of the .rs files stay as in /repo."""

import os
import re
import shutil
import sys

REPO = "/repo"
OVER = "/opt/vp/overlay"
SKIP = {".git", "target", "fuzz"}
OUT = ("src/import/yaml.rs", "src/import/jsonl.rs", "src/export/yaml.rs")


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def put(rel, text):
    """Write only if changed, so that cargo's mtimes hold."""
    path = os.path.join(OVER, rel)
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def links(rel, own):
    """Mirror the entries of one /repo directory as symlinks, except those in own."""
    src, dst = os.path.join(REPO, rel), os.path.join(OVER, rel)
    os.makedirs(dst, exist_ok=True)
    want = set(os.listdir(src)) - (SKIP if rel == "" else set())
    want -= {os.path.basename(o) for o in OUT if os.path.dirname(o) == rel}
    for name in os.listdir(dst):
        path = os.path.join(dst, name)
        if name in own and not os.path.islink(path):
            continue
        if name in want and name not in own and os.path.islink(path):
            if os.readlink(path) == os.path.join(src, name):
                continue
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)
    for name in want - set(own):
        path = os.path.join(dst, name)
        if not os.path.lexists(path):
            os.symlink(os.path.join(src, name), path)


def blank(text, mods):
    """Blank the declarations, uses and match arms of the given modules."""
    names = "|".join(mods)
    drop_line = re.compile(
        rf"^\s*(?:pub(?:\([^)]*\))?\s+)?(?:mod\s+(?:{names})\s*;|use\s+(?:self::|super::)?(?:{names})::.*;)\s*$"
    )
    formats = "|".join(f'"{m}"' for m in mods)
    arm = re.compile(rf'^\s*(?:"\w+"\s*\|\s*)*(?:{formats})(?:\s*\|\s*"\w+")*\s*=>')
    out, depth = [], 0
    for line in text.split("\n"):
        if depth:
            depth += line.count("{") + line.count("(") - line.count("}") - line.count(")")
            out.append("")
        elif drop_line.match(line):
            out.append("")
        elif m := arm.match(line):
            rest = line[m.end():]
            depth = rest.count("{") + rest.count("(") - rest.count("}") - rest.count(")")
            out.append("")
        else:
            out.append(line)
    return "\n".join(out)


def main():
    links("", {"src", "Cargo.toml", "Cargo.lock"})
    links("src", {"import", "export"})
    links("src/import", {"mod.rs"})
    links("src/export", {"mod.rs"})
    put("src/import/mod.rs", blank(read("src/import/mod.rs"), ["yaml", "jsonl"]))
    put("src/export/mod.rs", blank(read("src/export/mod.rs"), ["yaml"]))

    toml = read("Cargo.toml")
    put("Cargo.toml", re.sub(r"(?m)^yaml-rust\s*=.*\n", "", toml))

    head, *packages = read("Cargo.lock").split("[[package]]\n")
    keep = [p for p in packages if not p.startswith('name = "yaml-rust"\n')]
    gone = len(packages) - len(keep)
    keep = [p.replace(' "yaml-rust",\n', "") for p in keep]
    # linked-hash-map is there only for yaml-rust
    if not any('\n "linked-hash-map"' in p for p in keep):
        keep = [p for p in keep if not p.startswith('name = "linked-hash-map"\n')]
    put("Cargo.lock", "[[package]]\n".join([head] + keep))
    print(f"overlay: {OVER} ({gone} package left out of the lock file)", file=sys.stderr)


main()
