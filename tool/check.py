#!/usr/bin/env python3
"""check.py PROPERTY  -- decides one property on /repo's current source. Exit 0 held, 1 violated, 2 error."""
import json, os, re, subprocess, sys, time, fcntl, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
sys.path.insert(0, os.path.join(ROOT, "tool"))
from notes import NOTES, COMMON_ASSUMPTIONS

def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e.pop("RUSTFLAGS", None)
    return e

def sh(cmd, timeout, cwd=None, extra=None):
    e = env()
    if extra: e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else str(x.stdout)

def build(mode, binname):
    out = os.path.join(BUILD, mode)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, mode + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o = sh([sys.executable, os.path.join(ROOT, "tool", "extract.py"), mode, out, "--repo", REPO], 120)
        if rc: return None, "extraction failed: " + o[-2000:]
        lock = os.path.join(out, "Cargo.lock")
        if not os.path.exists(lock):
            with open(lock, "w") as f: f.write(open(os.path.join(ROOT, "tool", "Cargo.lock")).read())
        cmd = ["cargo", "build", "--offline", "-q", "-p", "harness", "--bin", binname]
        if binname == "p26": cmd += ["--features", "serde_support"]
        rc, o = sh(cmd, 600, cwd=out, extra={"RUSTFLAGS": "-Awarnings"})
        if rc: return None, "\n".join(l for l in o.splitlines() if "error" in l or "-->" in l)[:3000] or o[-3000:]
    return os.path.join(out, "target", "debug", binname), ""

def known_findings():
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=(.+?) :: (.*)$", l.strip())
            if m: r.append(m.groups())
    return r

def conc_run(mode, prop, entries, args, timeout, log):
    exe, err = build(mode, prop.lower())
    if not exe:
        log.append("%s build failed: %s" % (mode, err))
        return None
    base = os.path.join(BUILD, "out", prop + "." + mode)
    cmd = [exe, "--out", base + ".res"] + args
    if entries is not None:
        with open(base + ".list", "w") as f:
            for h, l, m, c in entries:
                f.write("%s\t%s\t%s\t%s\n" % (h, l, ",".join("%s=%s" % (a, b) for a, b in m), ",".join("%s=%d" % (a, b) for a, b in c)))
        cmd += ["--list", base + ".list"]
    if os.path.exists(base + ".res"): os.unlink(base + ".res")
    rc, o = sh(cmd, timeout)
    if rc or not os.path.exists(base + ".res"):
        log.append("%s run failed (%d): %s" % (mode, rc, o[-500:]))
        return None
    return [json.loads(l) for l in open(base + ".res") if l.strip()]

def search(prop, entries, seed, log, samples=400000, per=None):
    """Look for an input on which the contract fails: sampled in double precision (so that rounding is no candidate),
    then confirmed on the f32 code exactly as it is. Returns (confirmed or None, raw results)."""
    n = len(entries) if entries is not None else 20
    per = per or min(20.0, 110.0 / max(1, n))
    rs = conc_run("conc64", prop, entries, ["--seed", str(seed), "--samples", str(samples), "--time", str(per), "--max", "40"], 220, log)
    if rs is None: return None, None
    cand = [x for x in rs if x["found"]]
    if not cand: return None, rs
    conf = conc_run("conc", prop, [(x["harness"], x["failed_label"], list(x["values"].items()), list(x["choices"].items())) for x in cand],
                    ["--seed", str(seed), "--samples", "1", "--exact"], 60, log)
    if conf:
        for x in conf:
            if x["found"]: return x, rs
    log.append("%d double-precision failures, none confirmed in single precision" % len(cand))
    return None, rs

def num(v):
    """z3 value to float"""
    v = v.strip().rstrip("?")
    try: return float(v)
    except ValueError: pass
    m = re.match(r"^\(- (.*)\)$", v)
    if m:
        x = num(m.group(1)); return None if x is None else -x
    m = re.match(r"^\(/ (\S+) (\S+)\)$", v)
    if m:
        a, b = num(m.group(1)), num(m.group(2))
        return a / b if a is not None and b else None
    return None

def main():
    t0 = time.time()
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    note = NOTES[prop]
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    log = []
    ev = {"property": prop, "tier": tier, "seed": seed, "level": note.get("level", "proof"), "coverage": {}, "assumptions": COMMON_ASSUMPTIONS + note.get("assumptions", []), "wall_s": 0, "violations": 0}
    fails, total, discharged = [], 0, 0
    backends, solver_s = {}, 0.0
    cov = ev["coverage"]
    unverified = None
    # ---- engine R
    if note.get("sym", True):
        exe, err = build("sym", prop.lower())
        if not exe:
            unverified = "the extracted source does not build: " + err
        else:
            res = os.path.join(BUILD, "out", prop + ".json")
            if os.path.exists(res): os.unlink(res)
            scale = "3" if tier == "thorough" else "1"
            rc, o = sh([exe, "--out", res], 500 if tier == "quick" else 5000, extra={"SOLVE_SCALE": scale, "BUDGET_S": "330" if tier == "quick" else "4000", "EXPLORE_S": "220" if tier == "quick" else "3000"})
            if rc or not os.path.exists(res):
                unverified = "verifier run ended with %d: %s" % (rc, o[-500:])
            else:
                r = json.load(open(res))
                labels = {}
                for h in r["harnesses"]:
                    if h["error"]:
                        fails.append((h["name"], "exploration", [], [], h["error"]))
                    for l, s in h["labels"].items():
                        total += s["count"]
                        n = s["count"] - s["queued"] - s["dup"]
                        discharged += n + s["dup"]
                        for k, b in (("folded", "ring"), ("ring", "ring"), ("sign", "sign"), ("dup", "same-as-other")):
                            if s[k]: backends[b] = backends.get(b, 0) + s[k]
                        labels[(h["name"], l)] = s["count"]
                for v in r["vcs"]:
                    solver_s += v["secs"]
                    if v["status"] == "proved":
                        discharged += 1
                        backends[v["backend"]] = backends.get(v["backend"], 0) + 1
                    else:
                        model = [(a, num(b)) for a, b in v["model"]]
                        fails.append((v["harness"], v["label"], [(a, b) for a, b in model if b is not None], [(a, b) for a, b in v["choices"]],
                                      "%s (path %s)\n%s" % (v["status"], v["trail"], v["log"])))
                exp = json.load(open(os.path.join(ROOT, "tool", "expect.json"))).get(prop, [])
                reach = {(h, l): a for h, l, a in r["cover"]}
                unreach = []
                for h, l in exp:
                    total += 1
                    if reach.get((h, l)) in ("sat", "unknown"):
                        discharged += 1
                        backends["reachability"] = backends.get("reachability", 0) + 1
                    else: unreach.append((h, l))
                for h, l in unreach:
                    fails.append((h, "reachability of '%s'" % l, [], [], "no satisfiable path reaches this obligation"))
                cov.update({
                    "functions_under_contract": len(r["functions"]),
                    "functions": r["functions"][:400],
                    "contracts": len(r["harnesses"]),
                    "paths": sum(h["paths"] for h in r["harnesses"]),
                    "branches_decided": sum(h["forks"] for h in r["harnesses"]),
                    "domain_assumed": sum(h["div_assumed"] for h in r["harnesses"]),
                    "reachable": sum(1 for a in reach.values() if a == "sat"),
                    "reachability_unknown": sum(1 for a in reach.values() if a == "unknown"),
                })
    # ---- engine K
    for k in note.get("kani", []):
        import kani
        kr = kani.run(k, REPO, BUILD, ROOT, tier)
        if kr.get("error"):
            unverified = (unverified or "") + " kani: " + kr["error"]
            continue
        total += kr["checks"]; discharged += kr["checks"] - len(kr["failed"])
        solver_s += kr["secs"]
        backends["kani/cbmc"] = backends.get("kani/cbmc", 0) + kr["checks"] - len(kr["failed"])
        cov.setdefault("kani_harnesses", []).extend(kr["harnesses"])
        for f in kr["failed"]:
            fails.append(("kani:" + f["harness"], f["what"], [], [], f["log"], f.get("witness")))
    cov.update({"obligations": total, "discharged": discharged, "backends": backends, "solver_s": round(solver_s, 2),
                "checker_cmd": "python3 tool/check.py " + prop,
                "trusted_base": ["tool/extract.py (token rewriting)", "symrt (path exploration, ring normal form)", "z3 4.8.12, z3-new, cvc5", "rustc"] + (["kani 0.68 / cbmc"] if note.get("kani") else [])})
    # ---- verdict
    known = [k for k in known_findings() if k[0] == prop]
    unlisted, listed = [], []
    for f in fails:
        m = next((k for k in known if k[1] == f[0] and re.fullmatch(k[2], f[1])), None)
        (listed if m else unlisted).append((f, m))
    for m in sorted({m[3] for _, m in listed}):
        print("KNOWN-FINDING: property=%s %s" % (prop, m))
    cov["known_findings_hit"] = len(listed)
    rc = 0
    if unverified and not unlisted:
        # the verifier gave no answer: fall back to evaluating the contracts on sampled inputs (labelled as such)
        if note.get("sym", True):
            hit, rs = search(prop, None, seed, log, samples=150000, per=6)
            if rs is not None:
                ev["level"] = "exploration"
                cov.update({"evaluations": sum(x["ran"] for x in rs), "distinct_nontrivial": sum(x["accepted"] for x in rs),
                            "rule": "contracts evaluated on sampled inputs because the verifier could not read this source: " + unverified[:600],
                            "samples": [{"contract": x["harness"], "accepted": x["accepted"]} for x in rs[:5]]})
                if hit: unlisted.append(((hit["harness"], hit["failed_label"], [], [], "sampled"), None))
                else:
                    unverified = None
                    print("note: not proved on this source, contracts held on sampled inputs: %s" % cov["rule"])
        if unverified and not unlisted:
            print("ERROR: " + unverified)
            ev["wall_s"] = round(time.time() - t0, 2)
            json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
            sys.exit(2)
    if unlisted:
        rc = 1
        fl = [f for f, _ in unlisted]
        uniq = {}
        for f in fl: uniq.setdefault((f[0], f[1]), f)
        wit = next((f for f in fl if len(f) > 5 and f[5]), None)
        found = None
        if wit is None:
            todo = [f[:4] for f in uniq.values() if not f[0].startswith("kani:") and not f[1].startswith("reachability") and f[1] != "exploration"][:8]
            hs = sorted({f[0] for f in uniq.values() if not f[0].startswith("kani:")})
            todo += [(h, "*", [], []) for h in hs][:6]
            if todo:
                found, _ = search(prop, todo, seed, log)
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % prop)
        rep = {"property": prop, "failed_obligations": [{"contract": f[0], "obligation": f[1], "verifier": f[4], "counter_model": dict(f[2]), "choices": dict(f[3])} for f in list(uniq.values())[:20]], "log": log}
        if found:
            rep["replay"] = {"contract": found["harness"], "violated": found["failed_label"], "inputs": found["values"], "choices": found["choices"],
                             "how": "cargo run in build/conc, bin %s: the contract run on the f32 code with these inputs fails" % prop.lower()}
        if wit is not None: rep["replay"] = wit[5]
        json.dump(rep, open(path, "w"), indent=1)
        for f in list(uniq.values())[:10]:
            print("failed obligation: %s / %s: %s" % (f[0], f[1], f[4].splitlines()[0] if f[4] else ""))
        if found: print("failing input found on the real code: %s / %s" % (found["harness"], found["failed_label"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if (found or wit) else " no-failing-input-found"))
        ev["violations"] = len(uniq)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s: %d/%d obligations discharged, %s, %.1f s" % (prop, discharged, total, backends, ev["wall_s"]))
    sys.exit(rc)

if __name__ == "__main__":
    main()
