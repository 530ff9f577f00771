"""The per-scenario connection-set caches: representation invariant (C13, C15) and lock contract (C14).
Good(set, scenario): the set is the one of that scenario in the current data."""
from specs.common import *
FILES = ["src/connection_cache.cpp"]
Good = z3.Function("Good", I, I, B)
def inv_one(c):
    u, l = c.this("lastUuid"), c.this("lastConnection"); return IMP(u.has, Good(l, u.val))
def inv_all(c):
    m = c.this("connectionSets"); k = z3.Int("k"); return A([k], IMP(z3.Select(m.dom, k), Good(z3.Select(m.el, k), k)), z3.Select(m.dom, k))
def spec(cls, inv, fields):
    Q = "TrRouting::%s::" % cls; out = []
    def setup(pre):
        def f(ex, st, fn):
            ex.thisrec(st, cls); ex.guarded = {x: "mutex" for x in fields}; st = ex.bindparams(st, fn); c = Ctx(ex, st); st.vars[("lock", "mutex")] = z3.IntVal(0); return st.add(inv(c)).add(pre(c))
        return f
    arg = lambda c: c.fn0.local("uuid")
    same = lambda c: AND([veq(c.this(x), c.fn0.this(x)) for x in fields])
    def g_get(c, r): return [("an answer is the set of the scenario asked for", IMP(r.has, Good(r.val, arg(c)))), ("the cache is unchanged", same(c))]
    def g_set(c, r): return [("every kept set is the one of its scenario", inv(c))]
    def g_clear(c, r):
        return [("nothing is kept", NOT(c.this("lastUuid").has) if cls.endswith("One") else z3.ForAll([z3.Int("k")], NOT(z3.Select(c.this("connectionSets").dom, z3.Int("k")))))]
    T = z3.BoolVal(True)
    return [Spec(Q + "get", setup(lambda c: T), g_get, label=cls + "::get"), Spec(Q + "set", setup(lambda c: Good(c.local("cache"), c.local("uuid"))), g_set, label=cls + "::set"), Spec(Q + "clear", setup(lambda c: T), g_clear, label=cls + "::clear")]
def specs(prog): return spec("ScenarioConnectionCacheOne", inv_one, ["lastUuid", "lastConnection"]) + spec("ScenarioConnectionCacheAll", inv_all, ["connectionSets"])
