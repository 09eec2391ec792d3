"""The driver: prove, replay, report."""
import json, os, shutil, sys, threading, time
from . import kani, layout, native
from .layout import BUILD, VERIF
from .props import PROPS

HEX = "the contracts' native evaluation over corner cases and pseudo-random inputs (bounded, never counted as proved)"


def known(prop):
    """Entries of known_findings.jsonl for this property."""
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l:
                e = json.loads(l)
                if e.get("property") == prop and e.get("status") == "known":
                    res.append(e)
    return res


def note(*a):
    print(*a, flush=True)


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    deadline = 820 if tier == "quick" else 6 * 3600
    findings = []          # violations: dict(contract, obligation, input, how, output)
    undecided = []         # obligations the verifier gave no verdict on
    nat = {}
    box = {}
    sliced = "slice" in cfg
    h = layout.lay(prop, cfg, sliced)

    # --- native side: replay engine and bounded search, built when needed --
    def do_native():
        exe, err = native.build(h, prop, cfg)
        box["exe"], box["native_err"] = exe, err
        if exe:
            iters, secs = cfg.get("search", (200000, 20))
            if tier == "thorough":
                iters, secs = iters * 50, secs * 15
            res, code = native.search(exe, seed, iters, secs, timeout=secs * 60)
            box["native_code"] = code
            for r in res:
                nat[r["contract"]] = r
            if code != 0:
                # a crash of the process: find the contract and the input
                for c in native.names(exe):
                    if c not in nat:
                        r = native.crash_input(exe, c, seed, iters, secs)
                        if r:
                            nat[c] = r

    # --- Verus units ------------------------------------------------------
    verus_res = []

    def do_verus():
        if cfg.get("verus"):
            from . import verus
            for unit in cfg["verus"]:
                verus_res.append(verus.run_unit(unit, tier))
    vt = threading.Thread(target=do_verus)
    vt.start()
    kres = None
    if cfg.get("kani", True):
        for attempt in (0, 1):
            kres = kani.run(h, prop, cfg, cfg.get("jobs", 8),
                            cfg.get("harness_timeout", 500) * (1 if tier == "quick" else 8),
                            deadline - 120 - (time.time() - t0))
            if kres["compiled"] or not sliced:
                break
            note("the slice does not build against the current tree; using the whole crate")
            sliced = False
            h = layout.lay(prop, cfg, sliced)
    vt.join()
    if (tier == "thorough" or sliced or cfg.get("native") or known(prop) or any(v["status"] != "verified" for v in verus_res)
            or (kres is None and not verus_res)
            or (kres is not None and (not kres["compiled"] or len(kres["harnesses"]) < 1
                                      or any(r.status != "success" for r in kres["harnesses"].values())))):
        do_native()
        if sliced and not box.get("exe"):
            note("the slice does not build against the current tree; using the whole crate")
            sliced = False
            h = layout.lay(prop, cfg, sliced)
            do_native()
    exe = box.get("exe")

    # --- native verdicts --------------------------------------------------
    for name, r in nat.items():
        if r["verdict"] == "fail":
            findings.append({"contract": name, "obligation": r["message"], "input": r["input"],
                             "how": "native evaluation of the contract on the real code"})
        elif r["verdict"] == "undecided":
            undecided.append(f"{name}: native evaluation left the contract ({r['message']})")
    if exe and box.get("native_code") != 0 and not any(r["verdict"] == "fail" for r in nat.values()):
        undecided.append(f"native search ended with {box.get('native_code')}")

    # --- Kani verdicts ----------------------------------------------------
    obligations = discharged = 0
    solver_s = 0.0
    hs = {}
    proved = []
    if kres is not None:
        hs = kres["harnesses"]
        if not kres["compiled"]:
            undecided.append("the proof harnesses did not build against the current tree: " + kres["compile_error"])
        for name, r in sorted(hs.items()):
            obligations += max(r.checks, 1)
            solver_s += r.time
            if r.status == "success":
                discharged += r.checks
                proved.append(name)
                continue
            discharged += max(0, r.checks - max(r.failed_n, 1))
            if r.status != "failed":
                undecided.append(f"{name}: {r.status}")
                continue
            msgs = [f for f in r.failed if "outside contract" not in f and "unwinding assertion" not in f
                    and "not currently supported" not in f and "unsupported" not in f.lower()]
            if not msgs:
                undecided.append(f"{name}: outside the verifier's reach: " + "; ".join(r.failed)[:500])
                continue
            if any(f["contract"] == name for f in findings):
                for f in findings:
                    if f["contract"] == name:
                        f["verifier"] = r.failed[:10]
                continue
            # the verifier's counterexample, replayed on the real code
            left = deadline - (time.time() - t0)
            done = False
            if exe and left > 60:
                tests, log = kani.playback(h, prop, cfg, name, min(left - 30, 420))
                for vals in tests:
                    rr, hexes = native.replay(exe, name, vals)
                    if rr["verdict"] in ("fail", "crash"):
                        findings.append({"contract": name, "obligation": rr["message"] or msgs[0], "input": hexes,
                                         "how": "verifier counterexample replayed natively on the real code",
                                         "verifier": r.failed[:10]})
                        done = True
                        break
            if not done and exe and deadline - (time.time() - t0) > 20:
                secs = min(40, deadline - (time.time() - t0) - 10)
                res, _ = native.search(exe, seed + 1000, 10**9, secs, name)
                for x in res:
                    if x["verdict"] == "fail":
                        findings.append({"contract": name, "obligation": x["message"], "input": x["input"],
                                         "how": "obligation failed in the verifier; failing input found by native search",
                                         "verifier": r.failed[:10]})
                        done = True
            if not done:
                if cfg.get("trust_unreplayed") and not r.stubs_nontrivial():
                    findings.append({"contract": name, "obligation": msgs[0], "input": None,
                                     "how": "obligation failed in the verifier; no failing input found",
                                     "verifier": r.failed[:10]})
                else:
                    undecided.append(f"{name}: failed obligation not reproduced on the real code: {msgs[0]}")

    # every declared contract needs a proof result (vacuity guard)
    if kres is not None and kres["compiled"]:
        for name in kani.declared(prop):
            if name not in hs and name not in cfg.get("native_only", []):
                undecided.append(f"{name}: the verifier reported no result")

    # --- Verus verdicts ---------------------------------------------------
    vinfo = []
    for v in verus_res:
        obligations += max(v["total"], 1)
        discharged += v["verified"] if v["status"] == "verified" else v["verified"]
        solver_s += v.get("time", 0)
        vinfo.append({k: v[k] for k in ("unit", "status", "functions", "verified", "total", "dropped", "message", "time") if k in v})
        if v["status"] == "verified":
            proved += [f"{v['unit']}::{f}" for f in v["functions"]]
        elif v["status"] == "failed":
            fs = [f for f in findings if f["contract"] in v.get("contracts", [])]
            if fs:
                for f in fs:
                    f.setdefault("verifier", v["message"][:4000])
                continue
            done = False
            if exe:
                for c in v.get("contracts", []):
                    left = deadline - (time.time() - t0)
                    if left < 30 or done:
                        break
                    res, _ = native.search(exe, seed + 2000, 10**9, min(40, left - 15), c)
                    for x in res:
                        if x["verdict"] == "fail":
                            findings.append({"contract": c, "obligation": x["message"], "input": x["input"],
                                             "how": f"Verus obligation failed in {v['unit']}; failing input found by native search",
                                             "verifier": v["message"][:4000]})
                            done = True
            if not done:
                if v.get("alarm_without_input"):
                    findings.append({"contract": v["unit"], "obligation": v["message"][:400], "input": None,
                                     "how": "Verus obligation failed; no failing input found", "verifier": v["message"][:4000]})
                else:
                    undecided.append(f"verus {v['unit']}: obligation failed, no failing input: {v['message'][:300]}")
        else:
            undecided.append(f"verus {v['unit']}: {v['status']}: {v['message'][:300]}")

    # --- known findings ---------------------------------------------------
    kf = known(prop)
    real = []
    for f in findings:
        m = next((e for e in kf if e["contract"] == f["contract"] and e["obligation"] == f["obligation"]
                  and (e.get("input") in (None, f["input"]))), None)
        if m is None:
            real.append(f)
    for e in kf:
        still = True
        if exe and e.get("input"):
            rr, _ = native.replay(exe, e["contract"], e["input"].split(","))
            still = rr["verdict"] == "fail"
        if still:
            note(f"KNOWN-FINDING: property={prop} {e['what']}")

    # --- report -----------------------------------------------------------
    wall = time.time() - t0
    bounded = [n for n in nat if nat[n]["verdict"] == "ok" and n not in proved]
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(([kres["cmd"]] if kres else []) + [v.get("cmd", "") for v in verus_res]),
        "trusted_base": cfg["trusted"] + ([f"Kani {kres['version']} / CBMC (CaDiCaL), rustc MIR"] if kres else [])
        + (["Verus 0.2026.09.13 / Z3"] if verus_res else []),
        "functions_under_contract": cfg["functions"] + [f for v in verus_res for f in v["functions"]],
        "proved_contracts": sorted(proved),
        "undecided": undecided,
        "bounded_standins": bounded + cfg.get("bounded", []),
        "solver_seconds": round(solver_s, 1),
        "verus_units": vinfo,
        "kani_harnesses": {n: {"status": r.status, "checks": r.checks, "seconds": r.time, "stubs": r.stubs,
                               "cover": r.cover} for n, r in hs.items()},
        "explanation": "Kani: each contract is discharged for the whole stated input domain over the compiled crate; "
                       "native evaluations (run for the checks that compile a slice, when an obligation is not discharged, and in the thorough tier) are a labelled bounded supplement.",
        "evaluations": sum(r["evaluations"] for r in nat.values()),
        "distinct_nontrivial": sum(r["distinct"] for r in nat.values()),
        "rule": "corner-case/pseudo-random draws (VERIF_SEED); non-trivial: satisfies the contract's preconditions; "
                "distinct by the drawn bytes",
        "samples": [{"contract": n, "input": r["input"]} for n, r in list(nat.items())[:5]],
        "native_build": "ok" if exe else box.get("native_err", "not needed: every obligation was discharged"),
        "compiled": "the listed modules of the crate, in place (slice)" if sliced else "the whole crate",
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg["assumptions"], "wall_s": round(wall, 1), "violations": len(real)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in undecided:
        note("undecided:", u[:400])
    note(f"{prop} {tier}: {discharged}/{obligations} obligations discharged, {len(proved)} contracts proved, "
         f"{len(undecided)} undecided, {cov['evaluations']} native evaluations, {wall:.0f} s")
    if real:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        real.sort(key=lambda f: f["input"] is None)
        for f in real:
            path = os.path.join(rdir, f"{prop}-{f['contract'].replace('/', '_')}.json")
            f["property"] = prop
            f["replay_cmd"] = (f"python3 /verif/replay.py {prop} {f['contract']} {f['input']}" if f["input"] is not None
                               else "none: no failing input was found")
            with open(path, "w") as g:
                json.dump(f, g, indent=1)
            note(f"  failed: {f['contract']}: {f['obligation'][:300]} ({f['how']})")
            note(f"VIOLATION property={prop} replay={path}" + ("" if f["input"] is not None else " no-failing-input-found"))
        return 1
    if not exe and not proved:
        note("no answer: neither the proofs nor the bounded stand-in could be built")
        return 2
    return 0
