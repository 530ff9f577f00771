#!/usr/bin/env python3
"""Concrete checks that need the real server binary (bounded stand-ins and replay of failed obligations).
usage: http_checks.py PROP BUILD_DIR --seed N --budget SECS [--out replay.json]
prints FAIL {json} lines (at most 3) and a final STATS {json} line."""
import sys, os, json, random, subprocess, tempfile, shutil, time, threading, copy, argparse, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from httplib_ import *

class Env:
    def __init__(self, bdir, seed, budget):
        self.b = bdir; self.seed = seed; self.t0 = time.time(); self.budget = budget
        self.tmp = tempfile.mkdtemp(prefix="trr_http_"); self.fails = []; self.stats = {}
        self.rnd = random.Random(seed)
    def left(self): return self.budget - (time.time() - self.t0)
    def fail(self, what, **kw):
        if len(self.fails) < 3: self.fails.append(dict(what=what, **kw)); print("FAIL " + json.dumps(self.fails[-1])[:20000], flush=True)
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def done(self): return len(self.fails) >= 3 or self.left() < 0
    def gen(self, seed, nq=6, profile="geo"):
        r = subprocess.run([self.b + "/core", "gen", "--profile", profile, "--seeds", "%d-%d" % (seed, seed), "--nq", str(nq)], capture_output=True, text=True)
        return json.loads(r.stdout)
    def expect(self, w):
        f = os.path.join(self.tmp, "w.json"); json.dump(dict(w, geo=True), open(f, "w"))
        r = subprocess.run([self.b + "/core", "expect", "--world", f], capture_output=True, text=True)
        if r.stdout.startswith("BORDER"): return None
        return json.loads(r.stdout)
    def validate(self, w, answers, props):
        f = os.path.join(self.tmp, "v.json"); json.dump(dict(w, geo=True, answers=answers), open(f, "w"))
        r = subprocess.run([self.b + "/core", "validate", "--world", f, "--props", props], capture_output=True, text=True)
        return [json.loads(l[5:]) for l in r.stdout.splitlines() if l.startswith("FAIL ")]
    def cache(self, w, name=None):
        d = os.path.join(self.tmp, name or "c%d" % random.getrandbits(40)); f = d + ".json"
        shutil.rmtree(d, ignore_errors=True)
        json.dump({"world": w["world"]}, open(f, "w"))
        subprocess.run([self.b + "/wcache", f, d], check=True)
        return d

def strip(p, k): return [x for x in p if x[0] != k]

def scenarios_plus(w, rnd, n):
    """adds scenarios with other inclusion and exclusion lists"""
    W = w["world"]; base = W["scenarios"][0]
    modes = sorted({l["mode"] for l in W["lines"]})
    for i in range(n):
        s = copy.deepcopy(base); s["uuid"] = "%08x-1111-4111-8111-%012x" % (rnd.getrandbits(32), rnd.getrandbits(48)); s["name"] = "Extra %d" % i
        s["services"] = sorted(rnd.sample(range(len(W["services"])), rnd.randint(1, len(W["services"]))))
        k = rnd.randint(0, 6)
        for f in ("onlyLines", "exceptLines", "onlyAgencies", "exceptAgencies", "onlyModes", "exceptModes"): s[f] = []
        if k == 0: s["onlyLines"] = rnd.sample(range(len(W["lines"])), max(1, len(W["lines"]) // 2))
        elif k == 1: s["exceptLines"] = rnd.sample(range(len(W["lines"])), 1)
        elif k == 2: s["onlyAgencies"] = rnd.sample(range(len(W["agencies"])), 1)
        elif k == 3: s["exceptAgencies"] = rnd.sample(range(len(W["agencies"])), 1)
        elif k == 4: s["onlyModes"] = [rnd.choice(modes)]
        elif k == 5: s["exceptModes"] = [rnd.choice(modes)]
        W["scenarios"].append(s)

def place(W, i): la, lo = W["places"][i]; return "%.9g,%.9g" % (lo, la)

def reqs(w, rnd, n):
    """n random valid requests: (path, params)"""
    W = w["world"]; out = []; qs = w["queries"]
    for i in range(n):
        q = rnd.choice(qs); t = q["t"] + rnd.choice([0, 0, -600, 600, -3600, 1800]); t = max(0, t)
        sc = rnd.choice(W["scenarios"])["uuid"]; fw = rnd.random() < .5
        ep = rnd.choice(["/v2/route", "/v2/route", "/v2/accessibility", "/v2/summary"])
        o = rnd.randrange(len(W["places"])); d = rnd.randrange(len(W["places"]))
        p = [("scenario_id", sc), ("time_of_trip", str(t)), ("time_type", "0" if fw else "1")]
        if ep == "/v2/accessibility": p.append(("place", place(W, o)))
        else:
            p += [("origin", place(W, o)), ("destination", place(W, d))]
            if rnd.random() < .4: p.append(("alternatives", "true"))
        for k, vs in (("min_waiting_time", [0, 60, 300]), ("max_travel_time", [0, 1800, 3600]), ("max_access_travel_time", [0, 600, 900]), ("max_egress_travel_time", [0, 600, 900]), ("max_transfer_travel_time", [0, 120, 600]), ("max_first_waiting_time", [0, 600, 1200])):
            if rnd.random() < .35: p.append((k, str(rnd.choice(vs))))
        out.append((ep, p))
    return out

BAD = [("/v2/route", []), ("/v2/summary", [("scenario_id", "x")]), ("/v2/accessibility", [("place", "1,2,3")]), ("/v2/route", [("origin", "abc"), ("destination", "0,0")]), ("/nothing", []), ("/v2/route", [("time_of_trip", "zz")]), ("/v2/accessibility", [("scenario_id", "deadbeef-dead-4ead-8ead-deadbeefdead"), ("time_of_trip", "28800"), ("place", "-73.5,45.5")])]

def answer(s, r):
    st, h, b, p = s.get(*r)
    if p: return ("problem", p, "")
    try: return (st, jbody(b) if b and r[0].startswith("/v2") else b.decode(errors="replace"))
    except ValueError: return (st, b.decode(errors="replace"))

def exe(env, san=""): return env.b + "/server" + san

def batched(env, s, rs): return [answer(s, r) for r in rs]

def C13(env):
    sd = env.seed * 1000
    while not env.done():
        sd += 1; rnd = random.Random(sd); w = env.gen(sd, 6); scenarios_plus(w, rnd, 2); d = env.cache(w)
        rs = reqs(w, rnd, 8)
        base = []
        for r in rs:
            with Server(exe(env), d) as s: base.append(answer(s, r))
        succ = sum(1 for b in base if b[0] == 200 and b[1].get("status") == "success"); env.count("fresh_server_answers", len(rs)); env.count("successes", succ)
        for alls in (False, True):
            with Server(exe(env), d, all_sets=alls) as s:
                hist = []
                for i in range(40):
                    if rnd.random() < .15: x = rnd.choice(BAD); answer(s, x); hist.append(x); continue
                    k = rnd.randrange(len(rs)); a = answer(s, rs[k]); env.count("requests")
                    if a != base[k]:
                        env.fail("answer differs from the one of a fresh server", all_sets=alls, request=rs[k], fresh=base[k], got=a, history=hist, world=w["world"]); break
                    hist.append(rs[k])
        shutil.rmtree(d); env.count("worlds")
        if env.stats["worlds"] >= 60: break

def hammer(env, s, rs, base, n, threads, w, label):
    def one(i):
        rnd = random.Random(env.seed * 7919 + i); bad = None
        for _ in range(n):
            k = rnd.randrange(len(rs)); a = answer(s, rs[k])
            if a != base[k]: return (k, a)
        return None
    with cf.ThreadPoolExecutor(threads) as ex: res = list(ex.map(one, range(threads)))
    env.count("concurrent_requests", n * threads)
    for r in res:
        if r: env.fail("answer under concurrency differs (%s)" % label, request=rs[r[0]], alone=base[r[0]], got=r[1], alive=s.alive(), server_log=s.output()[-2000:], world=w["world"]); return

def C14(env):
    sd = env.seed * 1000 + 500; rounds = 0
    while not env.done() and rounds < 12:
        rounds += 1; sd += 1; rnd = random.Random(sd); w = env.gen(sd, 6); scenarios_plus(w, rnd, 6); d = env.cache(w)
        rs = reqs(w, rnd, 24)
        with Server(exe(env), d) as s: base = batched(env, s, rs)
        for alls in (False, True):
            with Server(exe(env), d, threads=8, all_sets=alls) as s:
                hammer(env, s, rs, base, 60, 8, w, "release, all_sets=%s" % alls)
                after = batched(env, s, rs)
                for k, (x, y) in enumerate(zip(after, base)):
                    if x != y: env.fail("answer after concurrency differs", request=rs[k], alone=y, got=x, world=w["world"]); break
            if os.path.exists(exe(env, "tsan")):
                with Server(exe(env, "tsan"), d, threads=8, all_sets=alls, wait=60) as s:
                    hammer(env, s, rs, base, 12, 8, w, "tsan, all_sets=%s" % alls)
                    time.sleep(.1); o = s.output()
                    if "WARNING: ThreadSanitizer" in o: env.fail("data race", report=o[o.index("WARNING: ThreadSanitizer"):][:6000], world=w["world"])
            if os.path.exists(exe(env, "san")):
                with Server(exe(env, "san"), d, threads=8, all_sets=alls, wait=60) as s:
                    hammer(env, s, rs, base, 15, 8, w, "asan, all_sets=%s" % alls)
                    if not s.alive(): env.fail("server died", report=s.output()[-6000:], world=w["world"])
        shutil.rmtree(d); env.count("worlds")

def mutate_trips(w, rnd):
    """another timetable on the same lines, paths, services"""
    v = copy.deepcopy(w); W = v["world"]; ts = []
    off = rnd.choice([-1200, -300, 60, 420, 2400, 7200])
    for t in W["trips"]:
        if rnd.random() < .25: continue
        o = off + rnd.choice([0, 0, 60, -60])
        if t["dep"] and (min(t["dep"] + t["arr"]) + o < 0 or max(t["dep"] + t["arr"]) + o > 32 * 3600 - 1): o = 0
        t = copy.deepcopy(t); t["dep"] = [x + o for x in t["dep"]]; t["arr"] = [x + o for x in t["arr"]]
        if rnd.random() < .3: t["service"] = rnd.randrange(len(W["services"]))
        if rnd.random() < .5: t["uuid"] = "%08x-2222-4222-8222-%012x" % (rnd.getrandbits(32), rnd.getrandbits(48))
        ts.append(t)
    k = rnd.choice([0, 1, 2])
    if k == 1: ts = ts[:max(1, len(ts) // 3)]
    if k == 2:
        for t in list(ts):
            u = copy.deepcopy(t); u["uuid"] = "%08x-3333-4333-8333-%012x" % (rnd.getrandbits(32), rnd.getrandbits(48)); o = 333
            if max(u["dep"] + u["arr"]) + o < 32 * 3600: u["dep"] = [x + o for x in u["dep"]]; u["arr"] = [x + o for x in u["arr"]]; ts.append(u)
    if not ts: ts = [copy.deepcopy(W["trips"][0])]
    W["trips"] = ts
    return v

def sync_dir(src, dst):
    """replace the files in place"""
    for r, ds, fs in os.walk(dst):
        for f in fs: os.unlink(os.path.join(r, f))
    subprocess.run(["cp", "-rT", src, dst], check=True)

def C15(env):
    sd = env.seed * 1000 + 200
    while not env.done():
        sd += 1; rnd = random.Random(sd); A = env.gen(sd, 6); scenarios_plus(A, rnd, 2)
        chain = [A]; kinds = []
        for i in range(3):
            k = rnd.choice(["schedules", "schedules,scenarios", "all", "scenarios,schedules", "all"]); kinds.append(k); prev = chain[-1]
            if k == "schedules": chain.append(mutate_trips(prev, rnd))
            elif k != "all":
                B = mutate_trips(prev, rnd); keep = B["world"]["scenarios"]; extra = copy.deepcopy(B); scenarios_plus(extra, rnd, 2)
                sc = extra["world"]["scenarios"]
                for s in sc[:len(keep)]:
                    if rnd.random() < .4: s["services"] = sorted(rnd.sample(range(len(B["world"]["services"])), rnd.randint(1, len(B["world"]["services"]))))
                if len(sc) > 2 and rnd.random() < .4: sc.pop(rnd.randrange(len(sc)))
                chain.append(extra)
            else:
                if rnd.random() < .5: B = env.gen(sd + 100000 + i, 6)
                else:
                    B = mutate_trips(prev, rnd); W = B["world"]
                    for f in W["foot"]:
                        if f["from"] != f["to"] and rnd.random() < .5: f["time"] = max(0, f["time"] + rnd.choice([-60, 60, 180]))
                    if len(W["lines"]) > 1: W["lines"][0]["shortname"] += "x"; W["lines"][1]["mode"] = "rail" if W["lines"][1]["mode"] == "bus" else W["lines"][1]["mode"]
                    W["nodes"][0]["name"] += " bis"
                # requests must be able to name scenarios of both
                B["world"]["scenarios"][0]["uuid"] = prev["world"]["scenarios"][0]["uuid"]
                chain.append(B)
        dirs = [env.cache(x) for x in chain]; live = os.path.join(env.tmp, "live%d" % sd); shutil.copytree(dirs[0], live)
        use = "san" if sd % 2 and os.path.exists(exe(env, "san")) else ""
        rs = []
        for x in chain: rs += reqs(x, rnd, 6)
        for alls in (False, True):
            sync_dir(dirs[0], live)
            with Server(exe(env, use), live, threads=1 + (sd % 2) * 3, all_sets=alls, wait=60) as s:
                hist = []; batched(env, s, rnd.sample(rs, len(rs) // 2))
                for i, k in enumerate(kinds):
                    sync_dir(dirs[i + 1], live); hist.append(k)
                    if rnd.random() < .15: s.raw("/updateCache?names=" + k)   # refreshing twice is no different
                    st, h, b, p = s.raw("/updateCache?" + rnd.choice(["names", "caches", "cache_names"]) + "=" + k, 60)
                    if p or not s.alive(): env.fail("no answer to the refresh", kinds=hist, problem=p, log=s.output()[-3000:], worlds=[c["world"] for c in chain]); break
                    got = batched(env, s, rs); env.count("requests_after_refresh", len(rs))
                    with Server(exe(env), dirs[i + 1], all_sets=alls) as f: want = batched(env, f, rs)
                    env.count("successes", sum(1 for b in want if b[0] == 200 and b[1].get("status") == "success"))
                    bad = [j for j in range(len(rs)) if got[j] != want[j]]
                    if bad:
                        env.fail("after refresh the answer differs from a fresh server's", refreshes=hist, all_sets=alls, request=rs[bad[0]], fresh=want[bad[0]], got=got[bad[0]], alive=s.alive(), log=s.output()[-1500:] if not s.alive() else "", worlds=[c["world"] for c in chain]); break
        for d in dirs + [live]: shutil.rmtree(d, ignore_errors=True)
        env.count("chains")
        if env.stats["chains"] >= 40: break

OBJ = ("status", "reason")
def objective(j):
    o = {k: j.get(k) for k in OBJ}; r = j.get("result")
    if r and "routes" in r:
        o["r"] = [(x.get("departureTime"), x.get("arrivalTime")) for x in r["routes"]]
    if r and "nodes" in r:
        o["n"] = sorted(json.dumps({k: n.get(k) for k in ("nodeUuid", "nodeTime", "totalTravelTime", "nodeName", "nodeCode", "nodeCoordinates")}, sort_keys=True) for n in r["nodes"]); o["c"] = r.get("totalNodeCount")
    return o

def C16(env):
    sd = env.seed * 1000 + 700
    while not env.done():
        sd += 1; rnd = random.Random(sd); w = env.gen(sd, 8); scenarios_plus(w, rnd, 4)
        for q in w["queries"]: q["scen"] = rnd.randrange(len(w["world"]["scenarios"]))
        exp = env.expect(w)
        if exp is None: env.count("skipped_border"); continue
        d = env.cache(w); ans = []
        with Server(exe(env), d) as s:
            for i, e in enumerate(exp):
                for ep, key, pk in (("/v2/route", "route", "params"), ("/v2/accessibility", "accessibility", "aparams")):
                    a = answer(s, (ep, e[pk])); env.count("requests")
                    if a[0] != 200: env.fail("unexpected answer", request=e[pk], endpoint=ep, got=a, world=w["world"]); continue
                    if a[1].get("status") == "success": env.count("successes")
                    if objective(a[1]) != objective(e[key]): env.fail("answer differs from the dataset's", request=e[pk], endpoint=ep, got=objective(a[1]), want=objective(e[key]), world=w["world"]); continue
                    if key == "route": ans.append({"q": i, "endpoint": key, "body": a[1]})
        if ans:
            for f in env.validate(w, ans, "C01"): env.fail("itinerary not executable in the dataset", detail=f, world=w["world"]); break
        shutil.rmtree(d); env.count("worlds")
        if env.stats["worlds"] >= 120: break

CODES = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"}
ACODES = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"}
import re as _re
def isint(v):
    return bool(_re.fullmatch(r"[ \t\n\v\f\r]*[+-]?[0-9]+", v)) and -2**31 <= int(v) < 2**31
def coord(v):
    p = v.split(",")
    if len(p) != 2: return False
    for x in p:
        if not _re.fullmatch(r"[ \t]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", x): return False
        if abs(float(x)) == float('inf'): return False
    return True
NUM = ["min_waiting_time", "max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"]
def defects(ep, ps, W):
    """set of error codes naming a defect present; empty: valid.  must=True: a defect no duplicate repairs."""
    val = {}
    for k, v in ps: val.setdefault(k, []).append(v)
    D = set(); must = False
    for k in NUM + ["time_of_trip", "time_type"]:
        bad = [v for v in val.get(k, []) if not isint(v)]
        if bad:
            D.add("INVALID_NUMERICAL_DATA")
            must = True   # checked for every occurrence or only for the retained one
    def req(k, miss, inv):
        nonlocal must
        if k not in val: D.add(miss); return True
        bad = [v for v in val[k] if not coord(v)]
        if bad: D.add(inv)
        return len(bad) == len(val[k])
    m = False
    if ep == "/v2/accessibility": m |= req("place", "MISSING_PARAM_PLACE", "INVALID_PLACE")
    else: m |= req("origin", "MISSING_PARAM_ORIGIN", "INVALID_ORIGIN"); m |= req("destination", "MISSING_PARAM_DESTINATION", "INVALID_DESTINATION")
    sc = val.get("scenario_id")
    if not sc: D.add("MISSING_PARAM_SCENARIO"); m = True
    else:
        ok = [v for v in sc if v in {s["uuid"] for s in W["scenarios"]}]
        if len(ok) < len(sc): D.add("MISSING_PARAM_SCENARIO")
        if any(not s["services"] for s in W["scenarios"] if s["uuid"] in ok): D.add("EMPTY_SCENARIO")
        if not [s for s in W["scenarios"] if s["uuid"] in ok and s["services"]]: m = True
    tt = val.get("time_of_trip")
    if not tt: D.add("MISSING_PARAM_TIME_OF_TRIP"); m = True
    else:
        neg = [v for v in tt if isint(v) and int(v) < 0]
        if neg: D.add("MISSING_PARAM_TIME_OF_TRIP")
        if all((not isint(v)) or int(v) < 0 for v in tt): m = True
    for k in NUM + ["time_of_trip"]:
        if val.get(k) and all(not isint(v) for v in val[k]): m = True
    return D, m

def effective(ps, W):
    """single-valued requests: the same request with every optional parameter at its documented value"""
    v = dict(ps); out = [(k, v[k]) for k in ("origin", "destination", "place", "scenario_id", "time_of_trip") if k in v]
    return v, out

def C18(env):
    sd = env.seed * 1000 + 300; INTS = ["0", "1", "-1", "60", "180", "300", "1800", "3600", "2147483647", "2147483646", "-2147483648", "1073741823", "1073741824", "32767", "32768", "65535", "65536", "86400", "100000", "115199", "115200", "118800", "120000", "2147483640", " 5", "+7", "007"]
    BADI = ["", "abc", "1.5", "12x", "0x10", "1e3", "2147483648", "-2147483649", "99999999999999999999", "--1", "NaN", "1,2", "\u00e9", "5 ", "٣", "\x00"]
    BADP = ["", "abc", "1", "1,2,3", ",", "1,", ",1", "a,b", "1,b", "a,2", "1e400,2", "nan,nan", "inf,1", "1;2", "1,2x", "1x,2", "\u00e9,1", "1,,2", "-73.5;45.5"]
    EXTP = ["0,0", "180,90", "-180,-90", "1e10,1e10", "-1e308,1e308", "-73.5,95", "-200,45", "0.0,-0.0", "1e-300,1", "-73.5662,45.5"]
    BADS = ["", "x", "deadbeef-dead-4ead-8ead-deadbeefdead", "00000000-0000-0000-0000-000000000000", "deadbeef", "{deadbeef-dead-4ead-8ead-deadbeefdead}", "' or 1=1", "%00", "../../x", "Z" * 5000]
    worlds = 0
    while not env.done() and worlds < 40:
        worlds += 1; sd += 1; rnd = random.Random(sd); w = env.gen(sd, 6, "geo"); scenarios_plus(w, rnd, 1); W = w["world"]
        W["scenarios"].append(dict(copy.deepcopy(W["scenarios"][0]), uuid="eeeeeeee-eeee-4eee-8eee-eeeeeeeeeeee", services=[], name="empty"))
        d = env.cache(w); use = "san" if os.path.exists(exe(env, "san")) and worlds % 2 == 1 else ""
        rs = reqs({"world": dict(W, scenarios=[s for s in W["scenarios"] if s["services"]]), "queries": w["queries"]}, rnd, 20)
        with Server(exe(env, use), d, threads=rnd.choice([1, 4]), all_sets=rnd.random() < .5, wait=60) as s:
            def check(ep, ps):
                st, h, b, p = s.get(ep, ps); env.count("requests")
                rec = dict(request=[ep, ps], world=W)
                if p or st is None:
                    env.fail("no well-formed answer: %s" % p, alive=s.alive(), log=[l for l in s.output().splitlines() if "rror" in l or l.strip().startswith("#")][:10], **rec); return None
                try: j = jbody(b)
                except ValueError as e: env.fail("body is not JSON", body=b[:500].decode("latin1"), **rec); return None
                D, must = defects(ep, ps, W)
                if st == 400:
                    if j.get("status") != "query_error" or j.get("errorCode") not in (ACODES if ep == "/v2/accessibility" else CODES): env.fail("undocumented error answer", answer=j, **rec)
                    elif not D: env.fail("error answer to a valid request", answer=j, **rec)
                    elif j["errorCode"] not in D and not (j["errorCode"] == "PARAM_ERROR_UNKNOWN"): env.fail("error code names a defect not present", answer=j, present=sorted(D), **rec)
                    elif j["errorCode"] == "PARAM_ERROR_UNKNOWN": env.fail("error code names no defect present", answer=j, present=sorted(D), **rec)
                elif st == 200:
                    if must: env.fail("defective request accepted", answer=j, present=sorted(D), **rec); return j
                    if j.get("status") not in ("success", "no_routing_found"): env.fail("unexpected status", answer=j, **rec); return j
                    q = j.get("query"); val = {}
                    for k, v in ps: val.setdefault(k, []).append(v)
                    if not isinstance(q, dict): env.fail("request not echoed", answer=j, **rec); return j
                    if q.get("timeOfTrip") not in [int(v) for v in val["time_of_trip"] if isint(v)]: env.fail("time not echoed", answer=j, **rec)
                    tt = val.get("time_type", ["0"])   # values outside the documented 0 and 1 may be taken either way
                    if q.get("timeType") not in sum([[int(t)] if t in "01" and t else [0, 1] for t in tt], []): env.fail("time type not echoed", answer=j, **rec)
                    for k in (("place",) if ep == "/v2/accessibility" else ("origin", "destination")):
                        c = q.get(k); 
                        if not isinstance(c, list) or [round(x, 9) for x in c] not in [[round(float(x), 9) for x in v.split(",")] for v in val[k] if coord(v)]: env.fail("%s not echoed" % k, answer=j, **rec)
                else: env.fail("HTTP status %s" % st, answer=j, **rec)
                return j
            for ep, ps in rs:
                if env.done(): break
                a = check(ep, ps)
                if not s.alive(): break
                # documented defaults
                v = dict(ps); defaults = [("min_waiting_time", "180"), ("max_travel_time", "0"), ("max_access_travel_time", "1200"), ("max_egress_travel_time", "1200"), ("max_transfer_travel_time", "1200"), ("max_first_waiting_time", "1800"), ("time_type", "0")]
                full = ps + [(k, x) for k, x in defaults if k not in v]
                b = check(ep, full)
                if a is not None and b is not None and a != b: env.fail("omitted optional parameters do not take the documented defaults", request=[ep, ps], full=full, answer=a, answer_full=b, world=W)
                # non-positive means no limit
                for k in NUM[1:]:
                    x = rnd.choice(["0", "-1", "-2147483648"]); y = check(ep, strip(ps, k) + [(k, x)]); big = "2147483647" if k != "max_access_travel_time" else "2147483647"
                    z = check(ep, strip(ps, k) + [(k, big)])
                    if y is not None and z is not None and y != z: env.fail("non-positive %s is not 'no limit'" % k, request=[ep, ps], value=x, got=y, unlimited=z, world=W)
                mw = check(ep, strip(ps, "min_waiting_time") + [("min_waiting_time", "-5")]); m0 = check(ep, strip(ps, "min_waiting_time") + [("min_waiting_time", "0")])
                if mw != m0: env.fail("negative min_waiting_time is not 0", request=[ep, ps], got=mw, zero=m0, world=W)
                for _ in range(14):
                    q = list(ps)
                    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                        k = rnd.choice(NUM + ["time_of_trip", "time_of_trip", "time_type", "scenario_id", "origin", "destination", "place", "place", "alternatives", "foo"])
                        how = rnd.random()
                        if how < .2: q = strip(q, k); continue
                        if k in ("origin", "destination", "place"): x = rnd.choice(BADP if rnd.random() < .6 else EXTP)
                        elif k == "scenario_id": x = rnd.choice(BADS + ["eeeeeeee-eeee-4eee-8eee-eeeeeeeeeeee"])
                        elif k == "alternatives": x = rnd.choice(["true", "1", "false", "", "TRUE", "x" * 300])
                        elif k == "foo": x = rnd.choice(["", "bar", "\u00e9" * 20])
                        else: x = rnd.choice(INTS if rnd.random() < .6 else BADI)
                        if how < .85: q = strip(q, k)
                        q.insert(rnd.randrange(len(q) + 1), (k, x))
                    if rnd.random() < .05: q = [(k.upper() if rnd.random() < .3 else k, x) for k, x in q]
                    check(ep, q)
                    if not s.alive() or env.done(): break
                if not s.alive(): break
            for t in ("/v2/route?", "/v2/route?=&&=&=", "/v2/route?%", "/v2/summary?a=%zz&origin=%2", "/v2/accessibility?" + "x" * 3000, "/v2/route?origin", "/v2/route?origin=&destination=&", "/v2/route?" + "&".join("scenario_id=x" for _ in range(300))):
                if not s.alive(): break
                st, h, b, p = s.raw(t); env.count("requests")
                if p or st != 400: env.fail("no error answer", target=t, problem=p, status=st, world=W); continue
                if jbody(b).get("status") != "query_error": env.fail("no query_error", target=t, answer=jbody(b), world=W)
            if s.alive() and not env.done():
                names = ["all", "data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"]
                for q, known in [("", []), ("?", []), ("?names=", []), ("?names=foo", []), ("?names=,,", []), ("?x=all", []), ("?path=all", []), ("?names=foo,bar", []), ("?names=allx", []), ("?names=schedulesx", [])] + [("?%s=%s" % (rnd.choice(["names", "caches", "cache_names", "name", "cache", "cache_name"]), n), n.split(",")) for n in names + ["schedules,scenarios", "foo,schedules", "lines,paths", "nodes,bar"]] + [("?names=schedules&path=", ["schedules"]), ("?names=schedules&path=%22%5c%0a", ["schedules"])]:
                    st, h, b, p = s.raw("/updateCache" + q, 60); env.count("requests")
                    if p: env.fail("updateCache not answered: %s" % p, query=q, log=s.output()[-1500:], world=W); break
                    try: j = jbody(b)
                    except ValueError: env.fail("updateCache body not JSON", query=q, body=b[:500].decode("latin1"), world=W); break
                    ok = "error" not in json.dumps(j).lower(); txt = json.dumps(j)
                    kn = [n for n in known if n in names]
                    if ok != bool(kn): env.fail("updateCache answered with the wrong kind of object", query=q, answer=j, world=W)
                    if kn and not all(n in txt for n in kn): env.fail("updateCache does not name the refreshed caches", query=q, answer=j, world=W)
                    if kn and any('"%s"' % n in txt for n in names if n not in kn and n != "all") : pass
                if s.alive():
                    s.raw("/updateCache?names=all", 60)
                    for r in rs[:2]: check(*r)
            elif not s.alive() and not env.fails: env.fail("server died", log=s.output()[-3000:], world=W)
        # an empty cache directory: data_error for everything valid
        if worlds == 1:
            e = os.path.join(env.tmp, "empty"); os.makedirs(e, exist_ok=True)
            with Server(exe(env), e) as s:
                for ep in ("/v2/route", "/v2/summary", "/v2/accessibility"):
                    for r in ([], [r for e2, r in rs if e2 == ep][:1] and [r for e2, r in rs if e2 == ep][0]):
                        st, h, b, p = s.get(ep, r or []); env.count("requests")
                        if p: env.fail("not answered without data: %s" % p, request=[ep, r]); continue
                        j = jbody(b)
                        if j.get("status") not in ("data_error", "query_error") or (st == 200) != (j.get("status") == "data_error"): env.fail("unexpected answer without data", request=[ep, r], status=st, answer=j)
        shutil.rmtree(d); env.count("worlds")

KIND = {"agencies": "AGENCIES", "services": "SERVICES", "nodes": "NODES", "lines": "LINES", "paths": "PATHS", "scenarios": "SCENARIOS"}
def filefault(d, rnd):
    """one fault in one file (or one file set); returns description, kind of data certainly missing"""
    fs = sorted(os.path.join(r, f) for r, _, ff in os.walk(d) for f in ff)
    top = [f for f in fs if os.path.dirname(f) == d]
    f = rnd.choice(top) if rnd.random() < .45 else rnd.choice(fs)
    rel = os.path.relpath(f, d); name = os.path.basename(rel).split(".")[0]; b = open(f, "rb").read(); how = rnd.choice(["delete", "empty", "trunc", "trunc", "trunc", "flip", "flip", "flip", "flips", "zero", "ff", "swap", "dirgone", "dir", "append", "word", "word", "word", "unpack"])
    miss = None
    if not b: how = "delete"
    if how == "dirgone" and not all(os.path.isdir(os.path.join(d, x)) for x in ("lines", "nodes", "dataSources")): how = "delete"
    if how == "delete": os.unlink(f); miss = KIND.get(name) if os.path.dirname(rel) == "" else None
    elif how == "empty": b = b""
    elif how == "trunc": b = b[:rnd.randrange(len(b))]
    elif how == "flip": i = rnd.randrange(len(b)); b = b[:i] + bytes([b[i] ^ (1 << rnd.randrange(8))]) + b[i + 1:]
    elif how == "flips":
        x = bytearray(b)
        for _ in range(rnd.randint(2, 12)): x[rnd.randrange(len(x))] = rnd.randrange(256)
        b = bytes(x)
    elif how == "zero": i = rnd.randrange(len(b)); n = rnd.randint(1, 64); b = b[:i] + b"\0" * min(n, len(b) - i) + b[i + n:]
    elif how == "ff": i = rnd.randrange(len(b)); b = b[:i] + b"\xff" * min(rnd.randint(1, 9), len(b) - i) + b[i + 9:]
    elif how == "swap": b = open(rnd.choice(fs), "rb").read()
    elif how == "append": b = b + bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 40)))
    elif how == "word": i = rnd.randrange(len(b)); b = b[:i] + bytes([rnd.choice([0, 1, 2, 0x7f, 0x80, 0xff])]) + b[i + 1:]
    elif how == "unpack": b = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 8, 64, 800])))
    elif how == "dirgone":
        rel = rnd.choice(["lines", "nodes", "dataSources", ""]); shutil.rmtree(os.path.join(d, rel))
        if rel == "": os.makedirs(d)
        return "remove directory " + (rel or "(whole cache)"), ("SCHEDULES" if rel == "lines" else "ANY" if rel == "" else None)
    elif how == "dir": os.unlink(f); os.mkdir(f); return "directory instead of file " + rel, None
    if how != "delete": open(f, "wb").write(b)
    return "%s %s" % (how, rel), miss

def crossfault(w, rnd):
    """identifiers no file defines and inconsistent lists, written by the encoder"""
    v = copy.deepcopy(w); W = v["world"]; k = rnd.choice(["foot", "agency", "pline", "pnodes", "pnodes", "scen", "tpath", "tserv", "arr", "dep", "board", "unboard", "dup", "neg", "huge", "pshort", "dist", "emptytrip", "onestop", "mode", "dupall"])
    t = rnd.choice(W["trips"]); sc = rnd.choice(W["scenarios"]); pa = rnd.choice(W["paths"])
    if k == "foot": rnd.choice(W["foot"])["to"] = -1
    elif k == "agency": rnd.choice(W["lines"])["agency"] = -1
    elif k == "pline": pa["line"] = -1
    elif k == "pnodes":
        for i in range(len(pa["nodes"])):
            if rnd.random() < .5: pa["nodes"][i] = -1
    elif k == "scen":
        f = rnd.choice(["services", "onlyLines", "exceptLines", "onlyAgencies", "exceptAgencies"]); sc[f] = [-1] + (sc[f] if rnd.random() < .5 else [])
    elif k == "mode": rnd.choice(W["lines"])["mode"] = "hovercraft"; sc[rnd.choice(["onlyModes", "exceptModes"])] = ["hovercraft"]
    elif k == "tpath": t["path"] = -1
    elif k == "tserv": t["service"] = -1
    elif k in ("arr", "dep", "board", "unboard"):
        t[k] = rnd.choice([[], t[k][:-1], t[k] + [t[k][-1]] if t[k] else [1], t[k] * 3])
    elif k == "dup": W["trips"].append(copy.deepcopy(t))
    elif k == "dupall": W["nodes"].append(copy.deepcopy(W["nodes"][0])); W["lines"].append(copy.deepcopy(W["lines"][0])); W["agencies"].append(copy.deepcopy(W["agencies"][0]))
    elif k == "neg": o = rnd.choice([100000, 200000]); t["dep"] = [x - o for x in t["dep"]]; t["arr"] = [x - o for x in t["arr"]]
    elif k == "huge": i = rnd.randrange(len(t["dep"])); t[rnd.choice(["dep", "arr"])][i] = rnd.choice([2147483647, -2147483648, 115200, 118799, 118800, 1000000])
    elif k == "pshort": pa["nodes"] = rnd.choice([[], pa["nodes"][:1], pa["nodes"][:-1], pa["nodes"] + pa["nodes"][:1]])
    elif k == "dist": pa["dist"] = rnd.choice([[], pa["dist"][:-1], pa["dist"] + [5]])
    elif k == "emptytrip": t["arr"] = t["dep"] = t["board"] = t["unboard"] = []
    elif k == "onestop":
        for x in ("arr", "dep", "board", "unboard"): t[x] = t[x][:1]
    return v, "inconsistent " + k

def c17case(env, sd, san):
    rnd = random.Random(sd); w = env.gen(sd % 40 + 1, 4); W = w["world"]; d = env.cache(w, "k%d" % sd); live = os.path.join(env.tmp, "l%d" % sd); os.makedirs(live)
    rs = reqs(w, rnd, 3) + [("/v2/route", [])]; faults = []; res = None
    def mutate():
        nonlocal live
        shutil.rmtree(live); r = rnd.random(); miss = None; fl = []
        if r < .35:
            v, x = crossfault(w, rnd); c = env.cache(v, "x%d" % sd); shutil.copytree(c, live); shutil.rmtree(c); fl.append(x)
            if rnd.random() < .2: x, _ = filefault(live, rnd); fl.append(x)
        else:
            shutil.copytree(d, live); n = rnd.choice([1, 1, 1, 2, 4])
            for _ in range(n):
                if not os.listdir(live): break
                fs = [f for _, _, ff in os.walk(live) for f in ff]
                if not fs: break
                x, m = filefault(live, rnd); fl.append(x)
                if n == 1: miss = m
        faults.append(fl); return miss
    miss = mutate(); s = Server(env.b + "/server" + san, live, threads=1, all_sets=rnd.random() < .5, wait=90)
    def keep():   # the faulty files of the last step, for the replay
        return {os.path.relpath(os.path.join(r, f), live): open(os.path.join(r, f), "rb").read().hex() for r, _, ff in os.walk(live) for f in ff}
    try:
        for step in range(6):
            env.count("faults")
            if not s.alive() or not s.up: return dict(what="start-up or refresh did not complete", faults=faults, log=[l for l in s.output().splitlines() if "rror" in l or "terminate" in l or "what()" in l or l.strip().startswith("#")][:12], files=keep())
            for r in rs:
                st, h, b, p = s.get(*r)
                if p: return dict(what="no answer: %s" % p, faults=faults, request=r, alive=s.alive(), log=[l for l in s.output().splitlines() if "rror" in l or "terminate" in l or "what()" in l or l.strip().startswith("#")][:12], files=keep())
                try: j = jbody(b)
                except ValueError: return dict(what="no JSON answer", faults=faults, request=r, body=b[:300].decode("latin1"), files=keep())
                ok = (st == 200 and j.get("status") in ("success", "no_routing_found", "data_error")) or (st == 400 and j.get("status") == "query_error")
                if not ok: return dict(what="unexpected answer", faults=faults, request=r, status=st, answer=j, files=keep())
                env.count("answers_" + j["status"])
                if miss and step == 0 and (j.get("status") != "data_error" or (miss != "ANY" and j.get("errorCode") != "MISSING_DATA_" + miss) or not j.get("errorCode", "").startswith("MISSING_DATA")): return dict(what="missing data not named", faults=faults, request=r, status=st, answer=j, expected=miss, files=keep())
            miss = mutate()
            st, h, b, p = s.raw("/updateCache?names=all", 60)
            if p: return dict(what="refresh not answered: %s" % p, faults=faults, alive=s.alive(), log=[l for l in s.output().splitlines() if "rror" in l or "terminate" in l or "what()" in l or l.strip().startswith("#")][:12], files=keep())
        return None
    finally:
        s.stop(); shutil.rmtree(live, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)

def C17(env):
    san = "san" if os.path.exists(exe(env, "san")) else ""; sd = env.seed * 10000
    with cf.ThreadPoolExecutor(8) as ex:
        while not env.done() and sd < env.seed * 10000 + 3000:
            b = range(sd, sd + 24); sd += 24
            for x, r in zip(b, ex.map(lambda k: c17case(env, k, san), b)):
                if r: env.fail(r.pop("what"), case=x, **r)

def C19(env):
    sd = env.seed * 1000 + 400
    while not env.done():
        sd += 1; rnd = random.Random(sd); w = env.gen(sd, 8); W = w["world"]; d = env.cache(w)
        lines = {l["uuid"]: l for l in W["lines"]}
        with Server(exe(env), d) as s:
            for ep, ps in reqs(w, rnd, 40):
                if ep == "/v2/accessibility": continue
                r = answer(s, ("/v2/route", ps)); m = answer(s, ("/v2/summary", ps)); env.count("pairs")
                if r[0] != 200 or m[0] != 200: env.fail("no answer", request=ps, route=r, summary=m, world=W); break
                R = r[1]; M = m[1]
                if R["status"] == "no_routing_found": routes = []
                elif R["status"] == "success": routes = R["result"]["routes"]; env.count("successes"); env.count("routes", len(routes))
                else: env.fail("status", route=R, world=W); break
                cnt = {}
                for x in routes:
                    for st in x["steps"]:
                        if st["action"] == "boarding": cnt[st["lineUuid"]] = cnt.get(st["lineUuid"], 0) + 1
                got = M.get("result", {}); gl = {l["lineUuid"]: l for l in got.get("lines", [])}
                e = None
                if M["status"] != "success": e = "status %s" % M["status"]
                elif got.get("nbRoutes") != len(routes): e = "nbRoutes %s instead of %d" % (got.get("nbRoutes"), len(routes))
                elif len(gl) != len(got["lines"]): e = "a line is listed twice"
                elif set(gl) != set(cnt): e = "lines differ"
                else:
                    for u, n in cnt.items():
                        l = gl[u]; a = W["agencies"][lines[u]["agency"]]
                        if l["alternativeCount"] != n: e = "line count %s instead of %d" % (l["alternativeCount"], n)
                        for k, v in (("lineShortname", lines[u]["shortname"]), ("lineLongname", lines[u]["longname"]), ("agencyUuid", a["uuid"]), ("agencyName", a["name"]), ("agencyAcronym", a["acronym"])):
                            if l.get(k) != v: e = "%s is %r instead of %r" % (k, l.get(k), v)
                if e: env.fail(e, request=ps, route=R, summary=M, world=W); break
        shutil.rmtree(d); env.count("worlds")
        if env.stats["worlds"] >= 150: break

def C20(env):
    sd = env.seed * 1000 + 600; rounds = 0
    while not env.done() and rounds < 8:
        rounds += 1; sd += 1; rnd = random.Random(sd); w = env.gen(sd, 6); W = w["world"]; scenarios_plus(w, rnd, 1); d = env.cache(w); R = Router()
        rs = [r for r in reqs(w, rnd, 12)]
        use = "san" if os.path.exists(exe(env, "san")) and rounds % 2 == 1 else ""
        try:
            with Server(exe(env), d, osrm_port=R.port) as s: base = batched(env, s, rs)
            env.count("successes", sum(1 for b in base if b[0] == 200 and b[1].get("status") == "success"))
            nt = 1 if rounds % 3 else 4
            with Server(exe(env, use), d, threads=nt, osrm_port=R.port, wait=60) as s:
                fl = list(FAULTS); rnd.shuffle(fl); hist = []
                for f in fl:
                    if env.done(): break
                    R.modes = [f] if rnd.random() < .6 else [rnd.choice(["ok", f]) for _ in range(5)]; hist.append(f)
                    def one(k):
                        st, h, b, p = s.get(*rs[k], timeout=30); env.count("faulty_requests")
                        if p: return "no well-formed answer: %s" % p
                        try: j = jbody(b)
                        except ValueError: return "not JSON"
                        if not ((st == 200 and j.get("status") in ("success", "no_routing_found")) or (st == 400 and j.get("status") == "query_error" and j.get("errorCode") in (ACODES if rs[k][0] == "/v2/accessibility" else CODES))): return "unexpected answer %s %s" % (st, str(j)[:300])
                        if R.modes == [f] and f in HARD and j.get("status") == "success" and rs[k][0] == "/v2/route": return "success although the router failed"
                    ks = [rnd.randrange(len(rs)) for _ in range(4)]
                    with cf.ThreadPoolExecutor(nt) as ex: res = list(ex.map(one, ks))
                    for k, e in zip(ks, res):
                        if e: env.fail(e, fault=f, request=rs[k], history=hist, log=[l for l in s.output().splitlines() if "rror" in l][:10], alive=s.alive(), world=W); break
                    if not s.alive(): env.fail("server died", fault=f, history=hist, log=s.output()[-3000:], world=W); break
                    R.modes = []
                    k = rnd.randrange(len(rs)); a = answer(s, rs[k]); env.count("recovered_requests")
                    if a != base[k]: env.fail("answer after recovery differs", fault=f, request=rs[k], got=a, want=base[k], history=hist, world=W); break
                R.modes = []; 
                if s.alive() and not env.fails:
                    a = batched(env, s, rs)
                    if a != base: k = [i for i in range(len(rs)) if a[i] != base[i]][0]; env.fail("answer after all faults differs", request=rs[k], got=a[k], want=base[k], world=W)
            R.close()
            with Server(exe(env, use), d, osrm_port=R.port, wait=60) as s:   # connection refused
                for r in rs:
                    a = answer(s, r); env.count("faulty_requests")
                    if a[0] not in (200, 400): env.fail("no answer with a refused connection", request=r, got=a, world=W); break
        finally: R.close()
        shutil.rmtree(d); env.count("worlds")

HARD = {"drop0", "drop", "500", "400", "empty", "html", "nodur", "nullrow", "nullarr", "emptyarr", "emptyrow", "allnull", "array", "num", "jnull", "truncjson"}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("build"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--budget", type=float, default=60)
    a = ap.parse_args(); env = Env(a.build, a.seed, a.budget)
    try: globals()[a.prop](env)
    finally:
        shutil.rmtree(env.tmp, ignore_errors=True)
    print("STATS " + json.dumps(env.stats)); sys.exit(1 if env.fails else 0)
if __name__ == "__main__": main()
