"""Discharge woven units with Verus."""
import os, re, time
from .kani import sh, ENV
from .layout import BUILD, VERIF
from . import weave

OBLIGATION = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
              "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
              "possible bit shift underflow/overflow", "assertion not satisfied", "unwrap", "index out of bounds",
              "could not show termination", "loop must have", "recursive function must have", "possible unwinding",
              "not satisfied", "constructed value may fail")


def run_unit(unit, tier, root=None, tag=""):
    name = unit if isinstance(unit, str) else unit["unit"]
    opts = {} if isinstance(unit, str) else unit
    t = time.time()
    res = {"unit": name, "status": "other", "functions": [], "verified": 0, "total": 0, "message": "", "dropped": [],
           "contracts": opts.get("contracts", []), "time": 0,
           "alarm_without_input": opts.get("alarm_without_input", False), "cmd": ""}
    src = os.path.join(VERIF, "verus", name + ".rs")
    try:
        text, funcs, notes = weave.weave(src, root)
    except weave.Shape as e:
        res["message"] = f"the source no longer has the shape the contracts are woven into: {e}"
        return res
    except Exception as e:                                   # the extractor itself
        res["message"] = f"extraction failed: {type(e).__name__}: {e}"
        return res
    res["dropped"] = notes
    res["functions"] = [f"{p}: {n}" for p, n in funcs]
    os.makedirs(os.path.join(BUILD, "verus"), exist_ok=True)
    path = os.path.join(BUILD, "verus", name + tag + ".rs")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    log = path[:-3] + ".log"
    cmd = ["verus", "--crate-type=lib", path, "--multiple-errors", "4", "--time"] + opts.get("args", [])
    res["cmd"] = " ".join(cmd)
    env = dict(ENV)
    rc = sh(cmd, os.path.dirname(path), opts.get("timeout", 300 if tier == "quick" else 3000), log, env)
    out = open(log, errors="replace").read()
    res["time"] = round(time.time() - t, 2)
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    errs = re.findall(r"(?ms)^error(?:\[[A-Z0-9]+\])?: (.*?)\n(.*?)(?=^(?:error|warning|note|verification results)|\Z)", out)
    if m:
        res["verified"], bad = int(m.group(1)), int(m.group(2))
        res["total"] = res["verified"] + bad
    if rc == 0 and m and int(m.group(2)) == 0 and not errs:
        res["status"] = "verified"
        return res
    if rc is None:
        res["message"] = "timeout"
        return res
    msgs = []
    obligation = False
    for head, tail in errs:
        if head.startswith("aborting"):
            continue
        if m and any(o in head for o in OBLIGATION):
            obligation = True
        loc = "\n".join(l for l in tail.split("\n")[:14])
        msgs.append(head + "\n" + loc)
    res["message"] = "\n".join(msgs)[:6000] or out[-2000:]
    res["failed"] = [h for h, _ in errs if not h.startswith("aborting")]
    if any("rlimit" in h or "Resource limit" in h for h, _ in errs) and not obligation:
        res["message"] = "resource limit: " + res["message"]
    elif obligation:
        res["status"] = "failed"
    return res
