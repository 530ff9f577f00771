#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.
1. deductive part: vcgen/run.py extracts the functions under contract from /repo's source and discharges every obligation
2. concrete part: the real code compiled from /repo, run against an independent oracle (bounded; replays failed obligations,
   stands in for the functions the deductive part cannot reach)
Exit 0: held.  Exit 1 + VIOLATION line: broken."""
import sys, os, json, subprocess, tempfile, shutil, time, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TRR_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv: TIER = sys.argv[sys.argv.index("--tier") + 1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
THOROUGH = TIER == "thorough"
# property -> [(profile, share)] of the in-process harness
CORE = {
    "C01": ["std", "rich", "bigwait", "zero", "uni", "cap", "early", "geo"],
    "C02": ["std", "rich", "bigwait", "zero", "cap", "uni", "early", "late"],
    "C03": ["std", "rich", "bigwait", "uni", "early", "std", "rich", "late"],
    "C04": ["std", "rich", "uni", "uni", "early", "std", "rich", "late"],
    "C05": ["std", "rich", "uni", "uni", "early", "std", "rich", "bigwait"],
    "C06": ["std", "rich", "bigwait", "zero", "uni", "cap", "early", "std"],
    "C07": ["std", "rich", "bigwait", "zero", "cap", "uni", "early", "late"],
    "C08": ["std", "rich", "bigwait", "uni", "early", "std", "rich", "late"],
    "C09": ["std", "rich", "uni", "uni", "early", "std", "rich", "late"],
    "C10": ["std", "rich", "rich", "uni", "rich", "cap", "rich", "std"],
    "C11": ["std", "rich", "bigwait", "zero", "cap", "uni", "early", "late"],
    "C12": ["std", "rich", "late", "early", "late", "early", "uni", "late"],
    "C13": ["std", "rich", "uni", "cap"],
    "C18": ["std", "late"],
    "C19": ["std", "rich", "rich", "uni"],
}
HTTP = {"C13": [""], "C14": ["san", "tsan"], "C15": ["san"], "C16": [""], "C17": ["san"], "C18": ["san"], "C19": [""], "C20": ["san"]}
BUDGET = {"core": 35, "http": 45}
if THOROUGH: BUDGET = {"core": 420, "http": 480}
if PROP in ("C13", "C18", "C19") and not THOROUGH: BUDGET = {"core": 15, "http": 40}

def known():
    f = os.path.join(HERE, "KNOWN_FINDINGS"); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % PROP): out.append(l[len("known: "):])
    return out

def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try: o, e = p.communicate(timeout=timeout); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate(); return -9, o, e

def main():
    scratch = os.environ.get("TRR_BUILD") or tempfile.mkdtemp(prefix="trr_check_")
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    report = {"property": PROP, "tier": TIER, "seed": SEED}; notes = []; fails = []; stats = {}; samples = []
    try:
        ded = start_deductive(scratch)
        builds = []
        flavours = sorted(set([""] + HTTP.get(PROP, [])))
        ok = {}
        for fl in flavours:
            tg = ["server"] if fl else (["core"] + (["wcache", "server"] if PROP in HTTP else []))
            rc, o, e = run([sys.executable, HERE + "/replay/build.py", REPO, scratch, fl] + tg, 600)
            ok[fl] = rc == 0
            if rc: notes.append("build %r failed: %s" % (fl, e[-1500:]))
        d = finish_deductive(ded, scratch)        # the provers get the machine to themselves
        if ok.get("") and PROP in CORE: concrete(scratch, SEED * 1000000, BUDGET["core"], fails, stats)
        if ok.get("") and PROP in HTTP and not fails: http(scratch, SEED, BUDGET["http"], fails, stats, notes)
        if d and rejected(d) and not fails and time.time() - T0 < 420:      # look harder for an input that shows the rejected obligation
            if ok.get("") and PROP in CORE: concrete(scratch, (SEED + 7) * 1000000, 120, fails, stats)
            elif ok.get("") and PROP in HTTP: http(scratch, SEED + 7, 120, fails, stats, notes)
    finally:
        if not os.environ.get("TRR_BUILD"): shutil.rmtree(scratch, ignore_errors=True)
    verdict(report, notes, fails, stats, d, ev)

def rejected(d): return [o for o in d.get("obligations", []) if o["result"] in ("failed", "rejected")]

def concrete(scratch, base, budget, fails, stats):
    pr = CORE[PROP]; procs = []
    for i in range(8):
        p = pr[i % len(pr)]; a = base + i * 100000 + 1
        procs.append(("core " + p, subprocess.Popen(["bash", "-c", "ulimit -v 8000000; exec \"$0\" \"$@\"", scratch + "/core", "check", "--props", PROP, "--profile", p, "--seeds", "%d-%d" % (a, a + 99999), "--nq", "8", "--maxfail", "1", "--budget", str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for name, p in procs:
        try: o, e = p.communicate(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            p.kill(); o, e = p.communicate(); fails.append({"what": "the calculation did not end", "run": p.args[4:]}); continue
        collect(name, p.returncode, o, e, fails, stats, p.args[4:])

def http(scratch, seed, budget, fails, stats, notes):
    rc, o, e = run([sys.executable, HERE + "/replay/http_checks.py", PROP, scratch, "--seed", str(seed), "--budget", str(budget)], budget + 240)
    if rc not in (0, 1): notes.append("http_checks: rc %s %s" % (rc, e[-1500:]))
    collect("http", rc if rc in (0, 1) else 0, o, e, fails, stats, ["http_checks.py", PROP])

def collect(name, rc, o, e, fails, stats, cmd):
    st = {}
    for l in o.splitlines():
        if l.startswith("FAIL "):
            try: fails.append({"run": cmd, "failure": json.loads(l[5:])})
            except ValueError: fails.append({"run": cmd, "failure": l[5:][:5000]})
        elif l.startswith("STATS "): st = json.loads(l[6:])
    if rc not in (0, 1) and not any(f["run"] == cmd for f in fails):
        fails.append({"run": cmd, "failure": "the real code ended abnormally (status %s)" % rc, "stderr": e[-3000:]})
    s = stats.setdefault(name, {})
    for k, v in st.items():
        if isinstance(v, (int, float)): s[k] = s.get(k, 0) + v
        else: s[k] = v

def start_deductive(scratch):
    f = HERE + "/vcgen/run.py"
    sys.path.insert(0, HERE + "/vcgen")
    import registry
    if not registry.CHECKS.get(PROP): return None
    out = os.path.join(scratch, "ded_%s.json" % PROP)
    return out, subprocess.Popen(["python3-vt", f, PROP, "--repo", REPO, "--scratch", scratch, "--out", out, "--tier", TIER], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)

def finish_deductive(ded, scratch):
    if not ded: return None
    out, p = ded
    try: o, _ = p.communicate(timeout=(780 if THOROUGH else 600) - min(500, time.time() - T0))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate()
        return {"status": "undecided", "reason": "time limit", "log": o[-3000:], "obligations": [], "functions": []}
    if not os.path.exists(out): return {"status": "undecided", "reason": "engine error", "log": o[-4000:], "obligations": [], "functions": []}
    return json.load(open(out))

def verdict(report, notes, fails, stats, d, ev):
    kf = known()
    for k in kf: print("KNOWN-FINDING: " + k)
    runs = sum(v.get("cases", 0) for k, v in stats.items() if k.startswith("core")) + sum(sum(x for n, x in v.items() if isinstance(x, int) and ("requests" in n or n in ("pairs", "faults", "fresh_server_answers"))) for k, v in stats.items() if k == "http")
    succ = sum(v.get("successes", 0) for v in stats.values())
    conc = {"evaluations": runs, "distinct_nontrivial": succ, "rule": "generated worlds x queries; non-trivial: the answer is a success (an itinerary or a non-empty map was compared)", "per_run": stats, "label": "bounded, never counted as proved"}
    cov = {}; assumptions = []; rep = None; suffix = ""
    failed = []
    if d:
        failed = rejected(d)
        cov.update({"obligations": len(d.get("obligations", [])), "discharged": sum(1 for o in d.get("obligations", []) if o["result"] == "proved"),
                    "checker_cmd": "python3-vt vcgen/run.py %s" % PROP, "trusted_base": d.get("trusted", []), "functions_under_contract": d.get("functions", []),
                    "backends": d.get("backends", {}), "solver_s": d.get("solver_s"), "undischarged": [{k: o.get(k) for k in ("name", "result", "where")} for o in d.get("obligations", []) if o["result"] != "proved"][:40],
                    "deductive_status": d.get("status"), "deductive_reason": d.get("reason", ""), "obligation_list": [o["name"] for o in d.get("obligations", [])][:400], "bounded_functions": d.get("bounded", [])})
        assumptions = d.get("trusted", [])
        cov["concrete_stand_in"] = conc
        level = "proof"
    else:
        cov.update(conc); cov["samples"] = [stats]; level = "exploration"
    viol = 0
    if fails:
        viol = 1; rep = os.path.join(ev, "replay_%s.json" % PROP)
        json.dump({"property": PROP, "failures": fails[:3], "failed_obligations": failed[:10], "reproduce": "python3 replay/build.py %s DIR '' core wcache server; DIR/core check ... (see run)" % REPO}, open(rep, "w"), indent=1)
    elif failed:
        viol = 1; rep = os.path.join(ev, "replay_%s.json" % PROP); suffix = " no-failing-input-found"
        json.dump({"property": PROP, "failed_obligations": failed, "note": "the verifier rejects these obligations; the concrete search found no failing input"}, open(rep, "w"), indent=1)
    cov["notes"] = notes
    report.update({"level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - T0, 1), "violations": viol})
    json.dump(report, open(os.path.join(ev, PROP + ".json"), "w"), indent=1)
    if d: print("%s: %d/%d obligations discharged, %d concrete cases (%d successes), %.0f s; %s" % (PROP, cov["discharged"], cov["obligations"], runs, succ, report["wall_s"], d.get("status")))
    else: print("%s: %d concrete cases (%d successes), %.0f s" % (PROP, runs, succ, report["wall_s"]))
    for n in notes: print("note:", n[:600])
    if viol: print("VIOLATION property=%s replay=%s%s" % (PROP, rep, suffix)); sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()
