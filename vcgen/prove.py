"""Discharging obligations: z3 first, cvc5 second; one process per obligation, hard time limits."""
import z3, time, subprocess, os, multiprocessing as mp, multiprocessing.connection as mpc, tempfile

def script(assume, goal):
    s = z3.Solver()
    for a in assume: s.add(a)
    s.add(z3.Not(goal))
    return s.to_smt2()

def z3run(o, tmo, seed=0, mbqi=True):
    s = z3.Solver(); s.set("timeout", int(tmo * 1000)); s.set("random_seed", seed)
    if not mbqi: s.set("mbqi", False)
    for a in o.assume: s.add(a)
    s.add(z3.Not(o.goal))
    r = s.check()
    return str(r), (s.reason_unknown() if r == z3.unknown else ""), (model_text(s) if r == z3.sat else "")
def model_text(s):
    try: return str(s.model())[:3000]
    except z3.Z3Exception: return ""

def cvc5run(text, tmo):
    if "lambda" in text: return "unknown", "lambda", ""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + text); n = f.name
    try:
        p = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=%d" % int(tmo * 1000), "--full-saturate-quant", n], capture_output=True, text=True, timeout=tmo + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        return (o if o in ("sat", "unsat") else "unknown"), (p.stdout + p.stderr)[:200], ""
    except subprocess.TimeoutExpired: return "unknown", "timeout", ""
    finally: os.unlink(n)

_ac = {}
def arrays(t):
    """array constants of a term"""
    k = t.get_id()
    if k in _ac: return _ac[k][0]
    out = set(); seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x):
            if z3.is_array(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else: todo += x.children()
    _ac[k] = (frozenset(out), t); return _ac[k][0]
def near(o, depth):
    """the assumptions within some steps of the goal (sharing array constants); proving from fewer assumptions is a proof"""
    S = set(arrays(o.goal)); keep = [not arrays(a) for a in o.assume]
    if not S: return None
    for _ in range(depth):
        new = set(S)
        for i, a in enumerate(o.assume):
            if not keep[i] and arrays(a) & S: keep[i] = True; new |= arrays(a)
        S = new
    if all(keep): return None
    return type(o)(o.name, tuple(a for a, k in zip(o.assume, keep) if k), o.goal, o.where, o.kind)
OBLS = []
def attempt(i, tmo):
    o = OBLS[i]; t0 = time.time(); log = []
    def part(depth, t, mbqi):
        n = near(o, depth)
        if n is None: return "unknown", "all near", ""
        r, why, m = z3run(n, t, 0, mbqi); return (r if r == "unsat" else "unknown"), why, ""
    plan = [("z3", lambda: z3run(o, min(tmo, 2), 0, False)), ("z3", lambda: part(3, 3, False)), ("z3", lambda: part(4, 3, False)), ("z3", lambda: part(2, 2, False)), ("z3", lambda: z3run(o, min(tmo, 4), 0, False)), ("z3", lambda: z3run(o, min(tmo, 6), 0, True)), ("cvc5", lambda: cvc5run(script(o.assume, o.goal), tmo / 2)), ("z3", lambda: z3run(o, tmo, 7, False)), ("z3", lambda: z3run(o, tmo, 3, True))]
    for be, f in plan:
        try: r, why, m = f()
        except z3.Z3Exception as ex: r, why, m = "unknown", str(ex)[:200], ""
        log.append("%s:%s:%s" % (be, r, why.strip()[:60]))
        if r == "unsat": return i, "proved", be, time.time() - t0, ""
        if r == "sat": return i, "failed", be, time.time() - t0, "counter-model: " + m[:2500]
    return i, "unknown", "-", time.time() - t0, "; ".join(log)
def worker(c, fn):
    while True:
        try: ix = c.recv()
        except EOFError: return
        if ix is None: return
        for i in ix:
            try: r = fn(i)
            except Exception as exn: r = (i, "unknown", "-", 0.0, "solver process: %r" % exn)
            c.send(r)
        c.send(None)
def pool(fn, todo, jobs, budget, hard, size):
    """results of fn over todo; a solver that ignores its own limit is ended after `hard` seconds without a result"""
    ctx = mp.get_context("fork"); res = {}; queue = [todo[a:a + size] for a in range(0, len(todo), size)]; ws = []; t0 = time.time()
    def start():
        p, c = ctx.Pipe(); q = ctx.Process(target=worker, args=(c, fn), daemon=False); q.start(); c.close(); return {"p": p, "q": q, "ix": [], "t": time.time()}
    def end(w):
        w["q"].kill(); w["p"].close(); w["q"].join()
    ws = [start() for _ in range(min(jobs, max(1, len(queue))))]
    while (queue or any(w["ix"] for w in ws)) and time.time() - t0 < budget:
        for n, w in enumerate(ws):
            if not w["ix"] and queue: w["ix"] = list(queue.pop(0)); w["t"] = time.time(); w["p"].send(w["ix"])
        ready = mpc.wait([w["p"] for w in ws if w["ix"]], 0.5)
        for n, w in enumerate(ws):
            if not w["ix"]: continue
            dead = False
            while w["p"] in ready and w["p"].poll(0):
                try: r = w["p"].recv()
                except EOFError: dead = True; break
                w["t"] = time.time()
                if r is None: w["ix"] = []; break
                res[r[0]] = r[1:]; w["ix"] = [i for i in w["ix"] if i != r[0]] or [-1]
            if w["ix"] and (dead or time.time() - w["t"] > hard):
                rest = [i for i in w["ix"] if i != -1]; end(w)
                if rest: res[rest[0]] = ("unknown", "-", hard, "solver process: ended"); 
                if rest[1:]: queue.insert(0, rest[1:])
                ws[n] = start()
    for w in ws: end(w)
    return res
def discharge(obls, tmo=40, jobs=8, budget=500):
    """list of (Obl) -> (list of dict, seconds); identical obligations are solved once"""
    global OBLS
    t0 = time.time(); OBLS = obls; rep = {}; order = []
    for i, o in enumerate(obls):
        if z3.is_true(z3.simplify(o.goal)): order.append(None); continue
        k = (o.goal.get_id(),) + tuple(a.get_id() for a in o.assume); order.append(rep.setdefault(k, i))
    todo = sorted(set(rep.values()))
    res = pool(lambda i: attempt(i, tmo), todo, jobs, max(5, budget), tmo * 5 + 10, max(1, min(16, len(todo) // (jobs * 4) or 1)))
    out = []
    for o, k in zip(obls, order):
        r, be, s, why = ("proved", "simplifier", 0.0, "") if k is None else res.get(k, ("unknown", "-", 0.0, "time budget"))
        out.append({"name": o.name, "where": o.where, "kind": o.kind, "result": r, "backend": be, "s": round(s, 2), "why": why})
    return out, time.time() - t0
VAC = []
def _cons(i):
    s = z3.Solver(); s.set("timeout", 2000)
    for a in VAC[i][1]: s.add(a)
    return i, s.check() != z3.unsat
def vacuous(entries, jobs=8, per=8):
    """names of the preconditions / invariants that are contradictory wherever they are assumed (a proof from them would be empty);
    a single occurrence may lie on a path that cannot be taken. An occurrence is looked at until one is not refuted."""
    global VAC
    seen = {}; VAC = []
    for n, pc in entries:
        if seen.get(n, 0) < per: seen[n] = seen.get(n, 0) + 1; VAC.append((n, pc))
    first = [i for i, (n, _) in enumerate(VAC) if n not in [m for m, _ in VAC[:i]]]
    r = pool(_cons, first, jobs, 60, 6, 1); bad = set(VAC[i][0] for i, x in r.items() if x[0] is False); checked = len(first)
    rest = [i for i in range(len(VAC)) if VAC[i][0] in bad and i not in first]
    if rest:
        r = pool(_cons, rest, jobs, 60, 6, 1); checked += len(rest)
        bad -= set(VAC[i][0] for i in rest if r.get(i, (True,))[0] is not False)
    return sorted(bad), checked
