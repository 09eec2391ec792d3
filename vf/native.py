"""Build and run the native side of the contracts."""
import concurrent.futures, json, os, subprocess
from .layout import BUILD
from .kani import sh, ENV, features

NENV = dict(ENV, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def build(h, prop, cfg, timeout=600):
    log = os.path.join(BUILD, f"native-{prop}.log")
    rc = sh(["cargo", "build", "--offline", "--bin", "vh", "--features", features(prop, cfg),
             "--target-dir", os.path.join(BUILD, "nt")], h, timeout, log, NENV)
    if rc != 0:
        errs = [l[:300] for l in open(log, errors="replace") if l.startswith("error")]
        return None, "".join(errs)[:2000] or f"exit {rc}"
    src = os.path.join(BUILD, "nt", "debug", "vh")
    dst = os.path.join(BUILD, f"vh-{prop}")
    if os.path.exists(dst):
        os.unlink(dst)
    os.link(src, dst)
    return dst, ""


def lines(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        out = r.stdout
        code = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        code = "timeout"
    res = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    return res, code


PROCS = 5
crash_seed = {}


def search(exe, seed, iters, seconds, contract="-", timeout=600):
    """Several searches side by side; per contract the first failure, or all of their counts together."""
    seeds = [seed + 7919 * k for k in range(PROCS)]
    with concurrent.futures.ThreadPoolExecutor(PROCS) as ex:
        rs = list(ex.map(lambda sd: lines([exe, "search", str(sd), str(iters), contract, str(seconds)], timeout), seeds))
    merged, code = {}, 0
    for sd, (res, c) in zip(seeds, rs):
        if c != 0 and code == 0:
            code = c
            crash_seed[exe] = sd
        for r in res:
            m = merged.get(r["contract"])
            if m is None:
                merged[r["contract"]] = dict(r)
                continue
            n = {k: m[k] + r[k] for k in ("evaluations", "in_contract", "distinct")}
            if m["verdict"] != "fail" and (r["verdict"] == "fail" or m["verdict"] == "ok"):
                m.update(r)
            m.update(n)
    return list(merged.values()), code


def replay(exe, contract, vals):
    hexes = ",".join(v.hex() if isinstance(v, bytes) else v for v in vals)
    res, code = lines([exe, "replay", contract, hexes], 60)
    return (res[0] if res else {"verdict": "crash", "message": f"exit {code}"}), hexes


def names(exe):
    return subprocess.run([exe, "list"], capture_output=True, text=True).stdout.split()


def crash_input(exe, contract, seed, iters, secs):
    """A contract whose search ended the process: rerun it with every input
    logged before it is evaluated; the last one is the failing input."""
    log = exe + ".trace"
    seed = crash_seed.get(exe, seed)
    try:
        r = subprocess.run([exe, "search", str(seed), str(iters), contract, str(secs)], capture_output=True, text=True,
                           timeout=secs * 4, env=dict(os.environ, VH_TRACE=log))
    except subprocess.TimeoutExpired:
        return None
    if r.returncode == 0 or not os.path.exists(log):
        return None
    return {"contract": contract, "verdict": "fail", "message": f"the process died (exit {r.returncode})",
            "input": open(log).read().strip(), "evaluations": 1, "in_contract": 1, "distinct": 1}
