"""One function against one contract: requires -> body -> ensures, loops cut at their invariants."""
import z3
z3.set_param('warning', False)
from values import *
from sym import LV, Ctx, State, Throw, LoopSpec, Unsupported as _U
from values import Unsupported
from stdlib import StdExecutor
import cast as C

class Spec:
    """contract of one function.
    q: qualified name; nparams: to pick an overload; setup(ex, st, fn) -> state (requires in st.pc)
    loops: {pre-order ordinal: LoopSpec}
    ensures(ctx, result) -> [(name, formula)]; throws(ctx, throw) -> [(name, formula)] or None when no exception may leave
    contracts: {callee: fn(ex, st, recv, args, e, full) -> [(state, value)]} used at call sites instead of the body"""
    def __init__(self, q, setup, ensures, loops=None, throws=None, nparams=None, contracts=None, models=None, label=None, bounds=True, cls=None, mutable=(), opaque=(), pick=None, note="", freeloops=False):
        self.q = q; self.setup = setup; self.ensures = ensures; self.loops = loops or {}; self.throws = throws; self.nparams = nparams; self.contracts = contracts or {}; self.models = models or {}
        self.label = label or q.replace("TrRouting::", ""); self.bounds = bounds; self.mutable = mutable; self.opaque = opaque; self.pick = pick; self.note = note; self.freeloops = freeloops

def verify(prog, spec):
    """-> {obls, inlined, status, reason, vacuity}"""
    ex = StdExecutor(prog); ex.bounds = spec.bounds
    ex.entity_mutable = set(spec.mutable); ex.opaque_classes |= set(spec.opaque)
    fns = [f for f in prog.defs.get(spec.q, []) if spec.nparams is None or len(C.params(f)) == spec.nparams]
    if spec.pick: fns = [f for f in fns if spec.pick(f)]
    res = {"label": spec.label, "obls": [], "inlined": [], "status": "ok", "reason": "", "vacuity": [], "paths": 0}
    if len(fns) != 1: res["status"] = "undecided"; res["reason"] = "%d definitions of %s" % (len(fns), spec.q); return res
    fn = fns[0]
    try:
        ex.contracts = dict(spec.contracts); ex.models = dict(spec.models); ex.loops = spec.loops; ex.curfn = fn; ex.freeloops = spec.freeloops
        st = ex.begin(fn); st = spec.setup(ex, st, fn)
        for k in list(st.vars): 
            if k == "this": st.vars.setdefault(("this",), LV(("var", "this")))
        ex.fn0 = Ctx(ex, st.copy())
        ex.vacuity.append(("requires", tuple(st.pc)))
        outs = ex.run(C.body(fn), st)
        for kind, s, v in outs:
            if kind not in ("next", "return"): raise Unsupported("outcome " + kind)
            ctx = Ctx(ex, s, fn0=ex.fn0); r = ex.read(s, v) if isinstance(v, LV) else v
            res["paths"] += 1
            for n, f in spec.ensures(ctx, r) or []: ex.oblige(s, n, f, ex.where(fn), "post")
        for s, t in ex.throws:
            ctx = Ctx(ex, s, fn0=ex.fn0); res["paths"] += 1
            posts = spec.throws(ctx, t) if spec.throws else [("no exception %s leaves the function" % t.cls, z3.BoolVal(False))]
            for n, f in posts: ex.oblige(s, n, f, t.where, "throws")
        unused = set(spec.loops) - ex.usedspecs
        if unused: raise Unsupported("loop invariants %s not applied" % sorted(unused))
        if ex.nloops != len(spec.loops) and not spec.freeloops: raise Unsupported('%d loops, invariants for %d' % (ex.nloops, len(spec.loops)))
        for o in ex.obls: o.name = spec.label + ": " + o.name
        res["obls"] = ex.obls; res["inlined"] = sorted(ex.inlined); res["vacuity"] = ex.vacuity
    except (Unsupported, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as exn:
        import traceback
        res["status"] = "undecided"; res["reason"] = "%s: %s" % (type(exn).__name__, str(exn)[:300]); res["trace"] = traceback.format_exc()[-1500:]
    return res
