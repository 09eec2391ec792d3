"""Run Kani proof harnesses over the harness crate and parse the results."""
import os, re, subprocess, time
from .layout import BUILD, VERIF

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("RUSTUP_TOOLCHAIN", None)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + ENV.get("PATH", "")


def sh(cmd, cwd, timeout, log, env=None):
    """Run a command in its own process group; kill the group on timeout."""
    import signal
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env or ENV,
                             start_new_session=True)
        try:
            p.wait(timeout=timeout)
            return p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None


def features(prop, cfg):
    return prop if "slice" in cfg else prop + ",mock"


def base_cmd(prop, cfg):
    cmd = ["cargo", "kani", "--lib", "--features", features(prop, cfg), "-Z", "stubbing", "--no-assertion-reach-checks",
           "--target-dir", os.path.join(BUILD, "kt")]
    return cmd + cfg.get("kani_args", [])


class Harness:
    def __init__(self, name):
        self.name = name
        self.status = "no result"      # success | failed | timeout | oom | error | no result
        self.checks = 0
        self.failed = []               # descriptions
        self.failed_n = 0
        self.cover = None              # (satisfied, total)
        self.time = 0.0
        self.stubs = []


def run(h, prop, cfg, jobs, harness_timeout, total_timeout, only=None):
    log = os.path.join(BUILD, f"kani-{prop}.log")
    cmd = base_cmd(prop, cfg) + ["-j", str(jobs), "--output-format=terse", "-Z", "unstable-options",
                                 "--harness-timeout", f"{harness_timeout}s"]
    for o in only or []:
        cmd += ["--harness", o]
    t = time.time()
    rc = sh(cmd, h, total_timeout, log)
    out = open(log, errors="replace").read()
    res = parse(out)
    version = re.search(r"Kani Rust Verifier ([\d.]+)", out)
    return {"rc": rc, "harnesses": res, "wall": time.time() - t, "log": log, "cmd": " ".join(cmd),
            "compiled": "Checking harness" in out,
            "version": version.group(1) if version else "",
            "compile_error": "" if "Checking harness" in out else "\n".join(
                l[:300] for l in out.splitlines() if l.startswith("error"))[:2000]}


def parse(out):
    cur, res = {}, {}
    thread = "0"
    for line in out.splitlines():
        line = line[:2000]
        m = re.match(r"(?:Thread (\d+): ?)?(.*)", line)
        if m.group(1) is not None:
            thread = m.group(1)
        text = m.group(2)
        m = re.match(r"Checking harness (\S+?)\.\.\.", text)
        if m:
            name = m.group(1).split("::")[-1]
            cur[thread] = res[name] = Harness(name)
            continue
        h = cur.get(thread)
        if h is None:
            continue
        text = text.strip()
        if m := re.match(r"- Stub: (.*)", text):
            h.stubs.append(m.group(1).replace(" ", ""))
        elif m := re.match(r"\*\* (\d+) of (\d+) failed", text):
            h.failed_n, h.checks = int(m.group(1)), int(m.group(2))
        elif m := re.match(r"\*\* (\d+) of (\d+) cover properties satisfied", text):
            h.cover = (int(m.group(1)), int(m.group(2)))
        elif m := re.match(r"Failed Checks: (.*)", text):
            h.failed.append(m.group(1))
        elif text.startswith("File:") and h.failed:
            h.failed[-1] += "  @ " + text
        elif text.startswith("VERIFICATION:- SUCCESSFUL"):
            h.status = "success"
        elif text.startswith("VERIFICATION:- FAILED"):
            h.status = "failed"
        elif "timed out" in text:
            h.status = "timeout"
        elif "run out of memory" in text:
            h.status = "oom"
        elif text.startswith("CBMC failed with") or "CBMC crashed" in text:
            h.status = "error"
        elif m := re.match(r"Verification Time: ([\d.]+)s", text):
            h.time = float(m.group(1))
    for h in res.values():
        if h.status == "failed" and not h.failed:
            h.status = "error"
        if h.status == "success" and h.cover is not None and h.cover[0] < h.cover[1]:
            h.status = "vacuous"
    return res


def playback(h, prop, cfg, name, timeout):
    """The verifier's counterexamples: lists of byte strings, one per draw."""
    log = os.path.join(BUILD, f"playback-{prop}-{name}.log")
    cmd = base_cmd(prop, cfg) + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness", name]
    sh(cmd, h, timeout, log)
    out = open(log, errors="replace").read()
    tests = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = re.findall(r"vec!\[([\d, ]*)\]", m.group(1))
        tests.append([bytes(int(x) for x in v.replace(" ", "").split(",") if x) for v in vals])
    return tests, log


def _nontrivial(self):
    return [s for s in self.stubs if "format_stub" not in s]


Harness.stubs_nontrivial = _nontrivial


def declared(prop):
    """Names of the contracts a property's harness file declares."""
    src = open(os.path.join(VERIF, "harness", "src", prop.lower() + ".rs"), encoding="utf-8").read()
    i = re.search(r"(?m)^(?:crate::)?contracts(?:_text|_plain)?!", src)
    return re.findall(r"(?m)^    fn (\w+)\(\w+\)", src[i.start():]) if i else []
