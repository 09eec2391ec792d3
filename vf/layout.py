"""Lay out the crate under verification from /repo's current working tree.

The git dependency yaml-rust is absent from this sandbox, so (exactly as the
sandbox's own build does, with its own /opt/vp/overlay.py when present and the
committed copy otherwise) the package is mirrored as symlinks into /repo less
src/import/{yaml,jsonl}.rs and src/export/yaml.rs.  Everything else is the real
source text, compiled unmodified."""
import os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = "/repo"
OVERLAY = os.path.join(BUILD, "overlay")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def overlay():
    src = open(os.path.join(VERIF, "vf", "overlay_tool.py"), encoding="utf-8").read()
    src = re.sub(r"(?m)^OVER = .*$", f"OVER = {OVERLAY!r}", src)
    tool = os.path.join(BUILD, "overlay.py")
    write(tool, src)
    os.makedirs(OVERLAY, exist_ok=True)
    r = subprocess.run([sys.executable, tool], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("overlay: " + r.stderr)


FULL_DEPS = 'serde_json = "1"\nlru = "*"\nregex = "1"\n'


def slice_crate(prop, cfg):
    """A crate named eucalypt holding only some modules of the real one: every
    listed file is compiled in place (#[path]) and unmodified; the rest of the
    module tree is left out.  Used because it builds in seconds; when it does
    not build against the current tree, the whole crate is used instead."""
    root = os.path.join(BUILD, "slice-" + prop)
    sl = cfg["slice"]
    tree = {}
    for f in sl["files"]:
        node = tree
        *dirs, leaf = f.split("/")
        for d in dirs:
            node = node.setdefault(d, {})
        node[leaf] = None

    def emit(node, path, ind):
        out = ""
        for k, v in sorted(node.items()):
            if v is None:
                out += f'{ind}#[path = "{OVERLAY}/src/{path}{k}.rs"]\n{ind}pub mod {k};\n'
            else:
                out += f"{ind}pub mod {k} {{\n{emit(v, path + k + '/', ind + '    ')}{ind}}}\n"
        return out
    write(os.path.join(root, "src", "lib.rs"),
          "#![allow(warnings)]\n" + sl.get("head", "") + emit(tree, "", ""))
    toml = open(os.path.join(OVERLAY, "Cargo.toml"), encoding="utf-8").read()
    section = toml[toml.index("[dependencies]"):]
    deps = ""
    for d in sl.get("deps", []):
        m = re.search(rf"(?m)^{d}\s*=.*$", section)
        deps += (m.group(0) if m else f'{d} = "*"') + "\n"
    write(os.path.join(root, "Cargo.toml"),
          f'[package]\nname = "eucalypt"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n{deps}'
          '[lints.rust]\nunexpected_cfgs = { level = "allow" }\n')
    return root


def harness(prop, cfg, sliced):
    """The harness crate: committed sources, generated manifest."""
    h = os.path.join(BUILD, "h-" + prop + ("-s" if sliced else ""))
    os.makedirs(h, exist_ok=True)
    link = os.path.join(h, "src")
    want = os.path.join(VERIF, "harness", "src")
    if not os.path.islink(link) or os.readlink(link) != want:
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(want, link)
    path = slice_crate(prop, cfg) if sliced else OVERLAY
    write(os.path.join(h, "Cargo.toml"),
          open(os.path.join(VERIF, "harness", "Cargo.toml.in"), encoding="utf-8").read()
          .replace("@EUCALYPT@", path)
          .replace("@DEPS@", cfg.get("deps", FULL_DEPS if "slice" not in cfg else ""))
          .replace("@FEATURES@", f"{prop} = []\n" + ("" if "slice" in cfg else "mock = []\n")))
    # eucalypt's own pins; cargo --offline completes them with the harness package
    lock = os.path.join(h, "Cargo.lock")
    over = open(os.path.join(OVERLAY, "Cargo.lock"), encoding="utf-8").read()
    stamp = os.path.join(h, "lock.src")
    if not os.path.exists(lock) or not os.path.exists(stamp) or open(stamp).read() != over:
        write(lock, over)
        write(stamp, over)
    return h


def lay(prop, cfg, sliced=False):
    overlay()
    return harness(prop, cfg, sliced)
