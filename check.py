#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

1. extracts the property's units from /repo with vx and has Verus discharge them;
2. runs the concrete stage (harness on the real crate): failing-input search and bounded stand-in;
3. combines both into the verdict and writes evidence/<property>.json.
Exit 0 held, 1 violation (VIOLATION line), 2 error of the check.
"""
import json, os, re, subprocess, sys, time, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/docx-core/src"
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(ROOT, "target")
VX = os.path.join(TARGET, "debug", "vx")
HARNESS = os.path.join(TARGET, "debug", "vharness")
ENV = dict(os.environ)
ENV.update({"PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "HOME": "/root", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": TARGET, "CARGO_TERM_COLOR": "never",
            "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "1",
            "RUSTUP_TOOLCHAIN": "1.88-x86_64-unknown-linux-gnu"})
FAIL_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
             "possible arithmetic", "possible division", "decreases not satisfied", "possible bit shift",
             "loop ensures not satisfied", "could not prove termination", "unreached", "possible cast",
             "cannot show invariant", "unable to prove", "assert_by", "failed precondition", "constructed value may fail",
             "index out of bounds", "split assertion failure", "split postcondition failure", "split precondition failure",
             "cannot prove", "requires not satisfied", "unwrap")

def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, text=True, errors="replace", **kw)

def build(crate):
    for attempt in (0, 1):
        r = sh(["cargo", "build", "--offline", "-q"], 800, cwd=os.path.join(ROOT, crate))
        if r.returncode == 0: return None
        if "incremental" not in r.stderr: break
    return r.stderr

def run_unit(unit, ext, rlimit, probe):
    """One extraction and one Verus run. Returns a dict."""
    base = os.path.join(WORK, unit)
    gen, mp = base + ".rs", base + ".json"
    cmd = [VX, "--src", SRC, "--unit", os.path.join(ROOT, "units", unit + ".rs"), "--out", gen, "--map", mp]
    if ext: cmd += ["--ext", "\x1f".join(ext)]
    if probe: cmd += ["--probe", "1"]
    r = sh(cmd, 120)
    if r.returncode != 0:
        return {"error": "extraction failed: " + r.stderr[-2000:], "map": None}
    m = json.load(open(mp))
    env = dict(ENV); env.pop("RUSTUP_TOOLCHAIN", None)
    vcmd = ["verus", gen, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "3",
            "--error-format=json", "--rlimit", str(rlimit), "--no-report-long-running"]
    with open(gen) as f:
        for line in f:
            if line.startswith("//VERUSARGS "): vcmd += line.split()[1:]; break
    t0 = time.time()
    try:
        v = subprocess.run(vcmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, env=env, text=True, errors="replace", cwd=WORK)
    except subprocess.TimeoutExpired:
        return {"error": "verus timeout", "map": m, "cmd": vcmd}
    wall = time.time() - t0
    try: j = json.loads(v.stdout[v.stdout.index("{"):])
    except Exception: j = {}
    diags = []
    for line in v.stderr.splitlines():
        if line.startswith("{"):
            try: diags.append(json.loads(line))
            except Exception: pass
    return {"error": None, "map": m, "cmd": vcmd, "json": j, "diags": diags, "wall": wall, "gen": gen, "raw": v.stderr[-3000:]}

def fn_at(m, line):
    for f in m["fns"]:
        if f["start"] <= line <= f["end"]: return f
    return None

def decide_unit(unit, cfg):
    """Extract + verify; functions the verifier cannot take are re-emitted as trusted and reported undecided."""
    ext, undecided, notes = [], {}, []
    for rnd in range(6):
        res = run_unit(unit, ext, cfg.get("rlimit", 30), False)
        if res["error"]:
            return {"unit": unit, "status": "undecided", "why": res["error"], "verified": 0, "total": 0, "failed": [], "undecided": {"*": res["error"]}, "res": res}
        m = res["map"]
        hard = []   # (fn or None, diag) not a verification failure
        failed = {}
        for d in res["diags"]:
            if d.get("level") != "error" or d["message"].startswith("aborting"): continue
            spans = d.get("spans") or []
            fns = []
            for s in sorted(spans, key=lambda s: not s["is_primary"]):
                if os.path.basename(s["file_name"]) != unit + ".rs": continue
                f = fn_at(m, s["line_start"])
                if f: fns.append(f)
            msg = d["message"]
            isfail = any(x in msg for x in FAIL_MSGS)
            if isfail:
                # the function whose body produced the obligation: for a failed precondition the call site is secondary/primary
                names = [f["fn"] for f in fns if f["verified"]]
                who = None
                if "precondition" in msg:
                    # primary span is the call; label "failed precondition" is at the callee
                    for s in spans:
                        if s.get("is_primary") and os.path.basename(s["file_name"]) == unit + ".rs":
                            f = fn_at(m, s["line_start"])
                            if f: who = f["fn"]
                who = who or (names[0] if names else None)
                if who is None:
                    lines = [s["line_start"] for s in spans if os.path.basename(s["file_name"]) == unit + ".rs"]
                    who = "lemma@" + (owner(res["gen"], lines[0]) if lines else "?")
                failed.setdefault(who, []).append(d)
            elif "Resource limit" in msg or "rlimit" in msg:
                who = fns[0]["fn"] if fns else "?"
                undecided[who] = "resource limit"
            else:
                hard.append((fns[0]["fn"] if fns else None, d))
        if hard:
            new = {f for f, _ in hard if f and f not in ext}
            # a type-level or unattributed error cannot be repaired by trusting a function
            if not new:
                why = "; ".join(d["message"][:200] for _, d in hard[:3])
                if m["missing"]: why += " (missing: %s)" % ", ".join(m["missing"])
                return {"unit": unit, "status": "undecided", "why": why, "verified": 0, "total": len(m["fns"]), "failed": [], "undecided": {"*": why}, "res": res}
            for f, d in hard:
                if f in new: undecided[f] = "not accepted by the verifier: " + d["message"][:200]
            ext += sorted(new)
            continue
        break
    else:
        return {"unit": unit, "status": "undecided", "why": "too many unsupported functions", "verified": 0, "total": 0, "failed": [], "undecided": {"*": "unsupported"}, "res": res}
    vr = res["json"].get("verification-results", {})
    probe_failed = failed.pop("lemma@vx_probe", None)
    if cfg.get("probe", True) and not probe_failed:
        if not vr:
            return {"unit": unit, "status": "undecided", "why": "no verifier result: " + res["raw"][-400:], "verified": 0, "total": 0, "failed": [], "undecided": {"*": "no result"}, "res": res}
        return {"unit": unit, "status": "error", "why": "vacuity probe verified: inconsistent trusted base", "verified": 0, "total": 0, "failed": [], "undecided": {}, "res": res}
    lost = {}
    for l in m["lost"]: lost.setdefault(l["fn"], []).append(l)
    hardfail = []
    # functions and closures that did not exist when the unit was written carry no contract; a caller cannot be decided
    kf = os.path.join(ROOT, "units", unit + ".keys")
    base = {l.split("\t")[0]: l.split("\t")[1:] for l in open(kf).read().splitlines()} if os.path.exists(kf) else None
    now = {f["fn"]: f for f in m["fns"]}
    gl = open(res["gen"]).read().splitlines()
    fresh = {f["fn"].split("::")[-1] for f in m["fns"] if base is not None and f["fn"] not in base}
    def calls_fresh(who):
        t = "\n".join("\n".join(gl[f["start"] - 1:f["end"]]) for f in m["fns"] if f["fn"] == who)
        return next((n for n in fresh if re.search(r"\b%s\b" % re.escape(n), t)), None)
    for who, ds in failed.items():
        if who in lost:
            undecided[who] = "anchor lost: %s" % json.dumps(lost[who])[:300]
        elif who in ext:
            continue
        elif calls_fresh(who):
            undecided[who] = "calls %s, which has no contract" % calls_fresh(who)
        elif base is not None and who in base and who in now and now[who]["closures"] > int(base[who][0]):
            undecided[who] = "has a closure without a contract"
        elif base is not None and who in base and who in now and now[who]["shape"] == base[who][1] and now[who]["text"] != base[who][2]:
            undecided[who] = "its statements are in another order than the ones the proof was written for"
        else:
            hardfail.append((who, ds))
    for x in m["missing"]: undecided[x] = "item not found in the current tree"
    verified = vr.get("verified", 0)
    errs = vr.get("errors", 0) - (1 if probe_failed else 0)
    total = verified + max(errs, len(failed)) + len([u for u in undecided if u in ext or u in m["missing"]])
    return {"unit": unit, "status": "ok", "verified": verified, "total": total, "failed": hardfail, "undecided": undecided, "res": res}

def owner(gen, line):
    """Name of the hand-written item (lemma) around a generated line."""
    ls = open(gen).read().splitlines()
    for i in range(min(line, len(ls)) - 1, -1, -1):
        mm = re.match(r"\s*(?:pub |broadcast |proof |spec |open |uninterp )*fn (\w+)", ls[i])
        if mm: return mm.group(1)
    return "?"

def trusted_items(gen):
    """Every assumption in the generated file: external_body / assume / admit / assume_specification."""
    out = []
    ls = open(gen).read().splitlines()
    for i, l in enumerate(ls):
        t = l.strip()
        if "external_body" in t or "external_type_specification" in t:
            for k in range(i + 1, min(i + 6, len(ls))):
                mm = re.match(r"\s*(?:pub |broadcast |proof |closed |open |uninterp |unsafe |const )*(fn|struct|enum) (\w+)", ls[k])
                if mm: out.append("external %s %s" % (mm.group(1), mm.group(2))); break
        elif "assume_specification" in t: out.append(t.strip("{ "))
        elif re.search(r"\b(assume|admit)\(", t) and not t.startswith("//"): out.append("line %d: %s" % (i + 1, t[:120]))
        elif re.match(r"(pub )?(uninterp|closed)? ?spec fn|pub uninterp spec fn", t) and "uninterp" in t: out.append("uninterpreted " + re.sub(r"\(.*", "", t.split("fn ")[1]))
    seen = []
    for o in out:
        if o not in seen: seen.append(o)
    return seen

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.load(open(os.path.join(ROOT, "checks.json")))[pid]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    evf = os.path.join(ROOT, "evidence", pid + ".json")
    if os.path.exists(evf): os.remove(evf)
    e = build("vx")
    if e: die("cannot build vx: " + e[-2000:])
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(max_workers=4)
    hb = pool.submit(build, "harness")
    units = [pool.submit(decide_unit, u, cfg) for u in cfg["units"]]
    e = hb.result()
    if e: die("cannot build the harness against /repo: " + e[-3000:])
    hout = os.path.join(WORK, pid + ".harness.json")
    if os.path.exists(hout): os.remove(hout)
    hcmd = [HARNESS, pid, "--seed", str(seed), "--tier", tier, "--out", hout, "--root", ROOT]
    hlog = ""
    try:
        r = sh(hcmd, 700)
        hlog = r.stdout[-3000:] + r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        die("concrete stage timed out")
    if not os.path.exists(hout):
        # the process died: an abort (stack overflow, OOM) inside the code under test is itself reported by the harness
        die("concrete stage gave no result: rc=%s %s" % (r.returncode, hlog[-2500:]))
    h = json.load(open(hout))
    us = [u.result() for u in units]
    for u in us:
        if u["status"] == "error": die("%s: %s" % (u["unit"], u["why"]))
    known = []
    for l in open(os.path.join(ROOT, "known-findings.txt")).read().splitlines():
        mm = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if mm and mm.group(1) == pid: known.append((mm.group(2), mm.group(3)))
    kf, viol = [], []
    for v in h["violations"]:
        k = next((x for x in known if x[0] == v["key"]), None)
        (kf if k else viol).append(v)
    for k, txt in known:
        if any(v["key"] == k for v in kf): print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    failed = [(u["unit"], who, ds) for u in us for who, ds in u["failed"]]
    kobl = [k for k, _ in known if k.startswith("obligation:")]
    failed = [f for f in failed if "obligation:" + f[1].replace(" ", "_") not in kobl]
    undecided = {u["unit"] + "/" + k: w for u in us for k, w in u["undecided"].items()}
    verified = sum(u["verified"] for u in us)
    total = sum(max(u["total"], u["verified"]) for u in us)
    if any("*" in u["undecided"] for u in us): total = max(total, cfg.get("min_obligations", 0))
    fns, subs, dropped, trusted, solver, cmds = [], [], [], [], 0, []
    for u in us:
        m = u["res"].get("map")
        if m:
            fns += ["%s (%s:%d)%s" % (f["fn"], f["file"], f["line"], "" if f["verified"] else " [trusted]") for f in m["fns"]]
            subs += m["subs"]; dropped += m["dropped_fields"]
        j = u["res"].get("json") or {}
        solver += (j.get("times-ms", {}).get("smt", {}) or {}).get("total", 0)
        if u["res"].get("gen"): trusted += ["%s: %s" % (u["unit"], t) for t in trusted_items(u["res"]["gen"])]
        if u["res"].get("cmd"): cmds.append(" ".join(u["res"]["cmd"]))
    if not undecided and not failed and verified < cfg.get("min_obligations", 1):
        die("only %d obligations generated, expected at least %d" % (verified, cfg["min_obligations"]))
    rp = os.path.join(ROOT, "evidence", "replay", pid + ".txt")
    status = 0
    if viol or failed:
        status = 1
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for v in viol[:10]:
                f.write("\n== failing input (replayed on the real code)\nkey: %s\n%s\n%s\n" % (v["key"], v["msg"], v["replay"]))
            for un, who, ds in failed[:10]:
                f.write("\n== failed obligation: unit %s, function %s\n" % (un, who))
                for d in ds[:3]: f.write((d.get("rendered") or d["message"]) + "\n")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
          "coverage": {"obligations": total, "discharged": verified, "checker_cmd": " ; ".join(cmds),
                       "trusted_base": trusted, "backend": "Verus 0.2026.09.13 / Z3", "solver_ms": solver,
                       "functions_under_contract": fns, "functions_under_contract_count": len([f for f in fns if not f.endswith("[trusted]")]),
                       "extraction_substitutions": subs, "extraction_dropped_fields": dropped,
                       "undecided": undecided, "failed_obligations": ["%s/%s" % (a, b) for a, b, _ in failed],
                       "bounded_stand_in": {"evaluations": h["cases"], "rule": h.get("rule", ""), "samples": h.get("samples", [])[:3],
                                            "distinct_nontrivial": h.get("distinct", 0), "note": "bounded; not counted as proved"},
                       "evaluations": h["cases"], "distinct_nontrivial": h.get("distinct", 0)},
          "assumptions": cfg.get("assumptions", []) + ["extraction faithfulness of vx (list of edits in coverage)", "soundness of Verus and Z3"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(failed)}
    json.dump(ev, open(evf, "w"), indent=1)
    for k, w in list(undecided.items())[:20]: print("UNDECIDED by the verifier (bounded stand-in decided): %s: %s" % (k, w[:300]))
    print("%s: %d/%d obligations discharged, %d functions under contract, %d concrete cases, %.1fs" % (pid, verified, total, ev["coverage"]["functions_under_contract_count"], h["cases"], ev["wall_s"]))
    if status:
        for v in viol[:5]: print("failing input: %s: %s" % (v["key"], v["msg"][:400]))
        for un, who, ds in failed[:5]: print("failed obligation: %s/%s: %s" % (un, who, ds[0]["message"]))
        tail = "" if viol else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, tail))
    sys.exit(status)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except Exception as ex:
        import traceback; traceback.print_exc(); print("ERROR: %r" % ex); sys.exit(2)
