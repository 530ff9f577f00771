#!/usr/bin/env python3
"""run.py PROP --repo R --scratch S --out F [--tier T] [--jobs N]: discharges the obligations a property depends on.
Every obligation of every contract is generated from the current source; an obligation outside the property's own list that is not
discharged makes the proof incomplete (undecided), one inside the list makes it rejected (an alarm)."""
import sys, os, json, time, re, importlib, argparse, multiprocessing as mp, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "specs"))
import z3
import cast as C, prove, verify as V
from registry import CHECKS, ASSUME, TRUSTED

def norm(o, out):
    """text of a function body without positions, ids and comments"""
    if isinstance(o, dict):
        k = o.get("kind")
        out.append("(%s %s %s %s" % (k, o.get("name", ""), o.get("value", ""), o.get("opcode", "")))
        r = o.get("referencedDecl")
        if r: out.append(" ->%s" % r.get("name", ""))
        for c in o.get("inner", []): norm(c, out)
        out.append(")")
def fingerprint(fn):
    out = []; norm(C.body(fn), out); return hashlib.sha256("".join(out).encode()).hexdigest()[:16]

def one(prog, mod, idx, tmo, jobs, budget, conn, rel):
    t0 = time.time(); m = importlib.import_module("specs." + mod); s = m.specs(prog)[idx]
    try:
        r = V.verify(prog, s); out = []; t = 0.0; vac = []; nv = 0; gen = time.time() - t0
        if r["status"] == "ok":
            out, t = prove.discharge(r["obls"], tmo, jobs, budget)
            vac, nv = prove.vacuous(r["vacuity"], jobs)
            for o in out: o["rel"] = any(re.search(x, o["name"]) for x in rel)
            if vac: r["status"] = "undecided"; r["reason"] = "contradictory assumptions: %s" % sorted(set(vac))
        fps = {q: [fingerprint(f) for f in prog.defs.get(q, [])] for q in [s.q] + list(r["inlined"]) if q in prog.defs}
        conn.send({"label": s.label, "q": s.q, "status": r["status"], "reason": r["reason"], "inlined": r["inlined"], "obls": out, "gen_s": round(gen, 1), "solve_s": round(t, 1), "vacuity_checked": nv, "paths": r["paths"], "fp": fps, "note": s.note, "spec_bounded": getattr(s, "bounded", "")})
    except Exception as ex:
        import traceback
        conn.send({"label": s.label, "q": s.q, "status": "undecided", "reason": "engine: %r" % ex, "trace": traceback.format_exc()[-1500:], "inlined": [], "obls": [], "gen_s": 0, "solve_s": 0, "fp": {}, "note": ""})
    conn.close()

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--scratch", default="/tmp/w1"); ap.add_argument("--out"); ap.add_argument("--tier", default="quick"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--baseline", action="store_true")
    a = ap.parse_args(); t0 = time.time(); os.makedirs(a.scratch, exist_ok=True)
    items = CHECKS.get(a.prop, []); mods = {}
    for mod, want, rel in items: mods.setdefault(mod, importlib.import_module("specs." + mod))
    files = sorted(set(f for m in mods.values() for f in m.FILES)); res = []; status = "ok"; reasons = []
    if any(getattr(m, "CAPNP", False) for m in mods.values()): C.capnp_headers(a.repo, a.scratch)
    try: prog = C.Program(a.repo, files, a.scratch)
    except Exception as ex:
        json.dump({"status": "undecided", "reason": "extraction: %s" % str(ex)[:500], "obligations": [], "functions": [], "trusted": []}, open(a.out, "w")); return
    base = {}
    bf = os.path.join(HERE, "baseline.json")
    if os.path.exists(bf): base = json.load(open(bf))
    tmo, budget = (12, 240) if a.tier == "quick" else (40, 560)
    tasks = []
    for mod, want, rel in items:
        for i, s in enumerate(mods[mod].specs(prog)):
            if want and not re.search(want, s.label): continue
            tasks.append((mod, i, rel, s))
    running = []; queue = list(tasks); par = 3
    while queue or running:
        while queue and len(running) < par:
            mod, i, rel, s = queue.pop(0); p, c = mp.get_context("fork").Pipe(False); 
            q = mp.get_context("fork").Process(target=one, args=(prog, mod, i, tmo, a.jobs if len(tasks) == 1 or mod == 'optimize' else max(2, a.jobs // 3), budget, c, rel)); q.start(); c.close(); running.append((p, q, s))
        for x in list(running):
            p, q, s = x
            if p.poll(0.05):
                try: res.append(p.recv())
                except EOFError: res.append({"label": s.label, "q": s.q, "status": "undecided", "reason": "the generator process ended", "inlined": [], "obls": [], "gen_s": 0, "solve_s": 0, "fp": {}, "note": ""})
                q.join(); running.remove(x)
            elif not q.is_alive() and not p.poll(0):
                res.append({"label": s.label, "q": s.q, "status": "undecided", "reason": "the generator process ended", "inlined": [], "obls": [], "gen_s": 0, "solve_s": 0, "fp": {}, "note": ""}); running.remove(x)
        if not running and not queue: break
    obls = []; functions = []; backends = {}; solver = 0.0
    for r in sorted(res, key=lambda r: r["label"]):
        same = bool(r["fp"]) and base.get(r["label"]) == r["fp"]
        n = len(r["obls"]); d = sum(1 for o in r["obls"] if o["result"] == "proved"); solver += sum(o["s"] for o in r["obls"])
        for o in r["obls"]:
            # on the very source the proof is known to go through for, a solver giving up is a matter of resources
            if o["result"] == "unknown": o["result"] = "unknown" if same or o["why"] == "time budget" or o["why"].startswith("solver process") else ("rejected" if o["rel"] else "unknown")
            elif o["result"] == "failed" and not o["rel"]: o["result"] = "failed-elsewhere"
            backends[o["backend"]] = backends.get(o["backend"], 0) + (o["result"] == "proved"); obls.append(o)
        functions.append({"function": r["label"], "inlined": r["inlined"], "obligations": n, "discharged": d, "status": r["status"], "reason": r["reason"], "generation_s": r["gen_s"], "solving_s": r["solve_s"], "assumption_sets_checked_consistent": r.get("vacuity_checked", 0), "source_as_recorded": same, "note": r["note"]})
        if r["status"] != "ok": status = "undecided"; reasons.append("%s: %s" % (r["label"], r["reason"]))
    und = [o for o in obls if o["result"] != "proved"]
    if und and status == "ok": status = "rejected" if any(o["result"] in ("failed", "rejected") for o in und) else "undecided"
    if a.baseline:
        for r in res:
            if r["status"] == "ok": base[r["label"]] = r["fp"]
        json.dump(base, open(bf, "w"), indent=1, sort_keys=True)
    out = {"status": status, "reason": "; ".join(reasons), "obligations": obls, "functions": functions, "trusted": [TRUSTED[k] for k in ASSUME.get(a.prop, [])], "backends": {k: v for k, v in backends.items() if v}, "solver_s": round(solver, 1), "wall_s": round(time.time() - t0, 1), "bounded": [r["label"] for r in res if r.get("spec_bounded")]}
    if a.out: json.dump(out, open(a.out, "w"))
    print("%s %s: %d obligations, %d proved, %.0f s" % (a.prop, status, len(obls), len(obls) - len(und), time.time() - t0))
    for f in functions: print("  %-55s %4d/%-4d %s %s gen %.0fs solve %.0fs" % (f["function"], f["discharged"], f["obligations"], f["status"], f["reason"][:200], f["generation_s"], f["solving_s"]))
    for o in und[:25]: print("   ", o["result"], o["name"], o["where"], o["s"], o["why"][:160])
if __name__ == "__main__": main()
