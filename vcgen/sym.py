"""VC generation by symbolic execution of the extracted AST, function by function, against contracts."""
import z3, re, itertools, sys
from values import *
import cast as C
sys.setrecursionlimit(20000)

ENTITIES = {"Node", "Trip", "Connection", "Line", "Path", "Mode", "Agency", "Service", "Scenario", "ConnectionSet", "TransitData", "Point", "DataSource", "OdTrip", "Person", "GeoFilter", "Household", "Place", "DataFetcher", "CalculationTime", "ScenarioConnectionCache"}
ID_ENTITIES = {"Node", "Trip", "Line", "Path", "Mode", "Agency", "Service", "Scenario", "DataSource", "OdTrip", "Person"}
NOEFFECT = ("spdlog::",)
ITER_RE = re.compile(r"(__normal_iterator|_Node_iterator|_Node_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_List_iterator|_Deque_iterator|reverse_iterator|_Bit_iterator|_Bit_const_iterator)")

class State:
    __slots__ = ("vars", "pc", "writes", "ghost")
    def __init__(self, vars=None, pc=(), ghost=None): self.vars = vars if vars is not None else {}; self.pc = pc; self.ghost = ghost or {}
    def copy(self): s = State(dict(self.vars), self.pc, dict(self.ghost)); return s
    def add(self, c):
        s = self.copy(); s.pc = self.pc + ((c,) if not z3.is_true(c) else ()); return s

class Throw:
    def __init__(self, cls, val, where): self.cls = cls; self.val = val; self.where = where

class Obl:
    __slots__ = ("name", "assume", "goal", "where", "kind")
    def __init__(self, name, assume, goal, where, kind="post"): self.name = name; self.assume = assume; self.goal = goal; self.where = where; self.kind = kind

class LoopSpec:
    """inv(ctx) -> [(name, formula)];  match: ordinal in the function (0-based, pre-order)"""
    def __init__(self, inv, name="loop"): self.inv = inv; self.name = name

class Ctx:
    """what invariants and contracts can name"""
    def __init__(self, ex, st, **kw): self.ex = ex; self.st = st; self.__dict__.update(kw)
    def this(self, f):
        q = self.ex.quiet; self.ex.quiet = True
        try: return self.ex.read(self.st, LV(("var", "this"), (("f", f),)))
        finally: self.ex.quiet = q
    def local(self, name):
        """value of the local variable of the function under verification with this name"""
        for k in reversed(list(self.st.vars)):
            if isinstance(k, tuple) and k[0] == "L" and k[2] == name and k[3] == 0:
                v = self.st.vars[k]
                return self.ex.read(self.st, v) if isinstance(v, LV) else v
        raise Unsupported("no local variable " + name)
    local_last = local
    def at(self, st): return Ctx(self.ex, st, **{k: v for k, v in self.__dict__.items() if k not in ("ex", "st")})

class Executor:
    def __init__(self, prog, entities=ENTITIES, maxpaths=4000):
        self.prog = prog; self.entities = set(entities); self.obls = []; self.trusted = set(); self.inlined = set(); self.contracts = {}; self.models = {}
        self.loops = {}; self.frame = itertools.count(); self.depth = 0; self.maxpaths = maxpaths; self.recording = None; self.funcs = {}
        self.global_facts = []; self.curfn = None; self.loopord = {}; self.opaque_calls = set(); self.opaque_classes = {"CalculationTime", "shared_mutex", "mutex", "shared_lock", "unique_lock", "lock_guard", "scoped_lock"}; self.guarded = {}; self.quiet = False; self.cur_tu = None; self.solver_calls = 0
        self.bounds = True; self.entity_mutable = set(); self.tytmp = {}; self.strs = {}; self.loopmeta = {}; self.usedspecs = set(); self.clsfields = {}; self.vacuity = []; self.freeloops = False
        self.feas_cache = {}; self.variants = {"RoutingStep"}; self.sorts = []; self.prune = True; self.merge = True

    # ---- types -------------------------------------------------------------------------------
    def ty(self, t):
        if isinstance(t, dict):
            q = t.get("desugaredQualType") or t.get("qualType")
            try: return self.tys(q)
            except Unsupported:
                return self.tys(t.get("qualType"))
        return self.tys(t)
    def tys(self, q):
        if q in self.tytmp: return self.tytmp[q]
        r = self.parse(q); self.tytmp[q] = r; return r
    def parse(self, q):
        s = q.strip()
        while True:
            o = s; s = s.strip()
            if s.endswith("&&"): s = s[:-2]
            elif s.endswith("&") : s = s[:-1]
            elif s.endswith(" const") or s.endswith(">const") or s.endswith("*const"): s = s[:-5]
            for p in ("const ", "volatile ", "class ", "struct ", "typename ", "enum "):
                if s.startswith(p): s = s[len(p):]
            if s == o: break
        if s.endswith("*"):
            b = self.parse(s[:-1]); return b if b.k in ("ent", "rec") else Ty("ptr", t=b)
        if s in ("bool", "_Bool"): return BOOL
        if s in INTS: b, g = INTS[s]; return Ty("int", bits=b, signed=g)
        if s in ("float", "double", "long double"): return REAL
        if s == "void": return UNIT
        if s in ("std::string", "std::basic_string<char>", "std::__cxx11::basic_string<char>", "std::string_view", "string") or s.startswith("std::basic_string") or s.startswith("std::__cxx11::basic_string") or s.startswith("basic_string"): return STR
        if s in ("boost::uuids::uuid", "uuids::uuid"): return Ty("int", bits=256, signed=False)
        if ITER_RE.search(s.split("<")[0]): return Ty("iter")
        m = re.match(r"^([\w:]+)\s*<(.*)>$", s)
        if m:
            n = m.group(1).replace("std::__cxx11::", "std::"); a = split_args(m.group(2)); n = n[5:] if n.startswith("std::") else n
            if n == "optional": return opt(self.parse(a[0]))
            if n == "reference_wrapper": return self.parse(a[0])
            if n in ("shared_ptr", "__shared_ptr", "unique_ptr", "__shared_ptr_access"):
                b = self.parse(a[0]); return b if b.k == "ent" else opt(b)
            if n in ("vector", "deque", "list"): return vec(self.parse(a[0]))
            if n in ("map", "unordered_map"): return mp(self.parse(a[0]), self.parse(a[1]))
            if n in ("multimap", "unordered_multimap"): return mp(self.parse(a[0]), self.parse(a[1]), True)
            if n in ("set", "unordered_set"): return mp(self.parse(a[0]), UNIT)
            if n == "pair": return rec("pair", {"first": self.parse(a[0]), "second": self.parse(a[1])})
            if n == "tuple": return rec("tuple", {str(i): self.parse(x) for i, x in enumerate(a)})
            if n in ("atomic",): return self.parse(a[0])
            if n in ("allocator", "function", "less", "hash"): return OPAQUE
        n = s.split("<")[0].split("::")[-1]
        if n in self.entities: return ent(n)
        if n in self.opaque_classes: return OPAQUE
        for c in (s, "TrRouting::" + s, "TrRouting::" + n):
            if c in self.prog.cls: return self.classty(c, n)
        for tu in self.prog.tus.values():
            for i, (eq, en, v) in tu.enum.items():
                if eq == s or eq.endswith("::" + s) or eq.split("::")[-1] == n: return Ty("int", bits=32, signed=True)
        if s in ("element_type", "value_type", "reference", "const_reference", "mapped_type"): raise Unsupported("type " + q)
        if "lambda" in s: return Ty("fun")
        if s in ("std::exception",) or "exception" in s.lower(): return rec(n, {})
        raise Unsupported("type " + q)
    def classty(self, c, n):
        if n in self.clsfields: return self.clsfields[n]
        t = rec(n, {}); self.clsfields[n] = t
        def addall(c):
            o = self.prog.cls.get(c)
            if not o: return
            for b in o.get("bases", []):
                bt = b["type"].get("desugaredQualType") or b["type"]["qualType"]
                bt = bt.replace("class ", "")
                for x in (bt, "TrRouting::" + bt):
                    if x in self.prog.cls: addall(x); break
            for f in o.get("inner", []):
                if f.get("kind") == "FieldDecl" and f.get("name"):
                    try: t.fields[f["name"]] = self.ty(f["type"])
                    except Unsupported: t.fields[f["name"]] = OPAQUE
        addall(c)
        if n in self.variants:      # a base class whose objects are told apart by a tag: the fields of all its subclasses
            todo = [c]
            while todo:
                b = todo.pop().split("::")[-1]
                for d, o in self.prog.cls.items():
                    if any(x["type"]["qualType"].split("::")[-1].split()[-1] == b for x in o.get("bases", [])): addall(d); todo.append(d)
        return t
    def variantof(self, n):
        """the tagged base class of a class, if any"""
        for _ in range(5):
            if n in self.variants: return n
            o = self.prog.cls.get("TrRouting::" + n); b = (o or {}).get("bases", [])
            if not b: return None
            n = b[0]["type"]["qualType"].split("::")[-1].split()[-1]
        return None
    def entfield(self, cls, f):
        c = "TrRouting::" + cls
        def look(c):
            o = self.prog.cls.get(c)
            if not o: return None
            for x in o.get("inner", []):
                if x.get("kind") == "FieldDecl" and x.get("name") == f: return self.ty(x["type"])
            for b in o.get("bases", []):
                r = look("TrRouting::" + b["type"]["qualType"].split("::")[-1])
                if r: return r
        t = look(c)
        if t is None: raise Unsupported("field %s.%s" % (cls, f))
        return t
    def entval(self, cls, f, idt, t=None):
        """immutable data field as a function of the identity"""
        if f in ("uid", "uuid") and cls in ID_ENTITIES: return idt      # entities are represented by their identifier
        t = t or self.entfield(cls, f)
        return build(t, lambda n, s: z3.Function(n, I, s)(idt), "%s.%s" % (cls, f))

    # ---- memory ------------------------------------------------------------------------------
    def read(self, st, lv):
        if not isinstance(lv, LV): return lv
        if self.guarded: self.guardcheck(st, lv, 1)
        if lv.root[0] == "var":
            if lv.root[1] not in st.vars: raise Unsupported("uninitialised " + str(lv.root[1]))
            v = st.vars[lv.root[1]]
            if isinstance(v, LV): return self.read(st, LV(v.root, v.path + lv.path, lv.ty))
            path = lv.path
        elif lv.root[0] == "val": v = lv.root[1]; path = lv.path
        else:
            cls, idt = lv.root[1], lv.root[2]; path = lv.path
            if not path: return idt
            if (cls, path[0][1]) in self.entity_mutable: v = select(st.vars[("heap", cls, path[0][1])], idt)
            else: v = self.entval(cls, path[0][1], idt)
            path = path[1:]
        return self.walk(v, path, st)
    def walk(self, v, path, st):
        for j, p in enumerate(path):
            if isinstance(v, LV): return self.read(st, LV(v.root, v.path + tuple(path[j:])))
            if p[0] == "f":
                if isinstance(v, RecV):
                    if p[1] not in v.f: raise Unsupported("field %s of %s" % (p[1], v.name))
                    v = v.f[p[1]]
                elif z3.is_expr(v) and len(p) > 2: v = self.entval(p[2], p[1], v)   # field of an entity reached through a value
                else: raise Unsupported("field " + str(p))
            elif p[0] == "i": v = select(v.el, p[1])
            elif p[0] == "o": v = v.val
            elif p[0] == "len": v = v.len
            else: raise Unsupported(str(p))
        return v
    def write(self, st, lv, val):
        """new state"""
        if self.guarded: self.guardcheck(st, lv, 2)
        if lv.root[0] == "var":
            k = lv.root[1]; cur = st.vars.get(k)
            if isinstance(cur, LV): return self.write(st, LV(cur.root, cur.path + lv.path, lv.ty), val)
            self.record(k, lv.path)
            s = st.copy(); s.vars[k] = val if not lv.path else self.upd(cur, lv.path, val); return s
        if lv.root[0] == "ent":
            cls, idt = lv.root[1], lv.root[2]
            if not lv.path: raise Unsupported("assignment to entity %s" % cls)
            f = lv.path[0][1]
            if (cls, f) not in self.entity_mutable: raise Unsupported("write to immutable data %s.%s" % (cls, f))
            k = ("heap", cls, f); self.record(k, lv.path[1:]); s = st.copy(); old = select(st.vars[k], idt)
            new = val if len(lv.path) == 1 else self.upd(old, lv.path[1:], val)
            s.vars[k] = store(st.vars[k], idt, new); return s
        if lv.root[0] == "val": return st      # write to a temporary
        raise Unsupported("write")
    def guardcheck(self, st, lv, level):
        """a field under a lock contract is touched: the lock must be held (1 shared, 2 exclusive)"""
        if self.quiet or lv.root != ("var", "this") or not lv.path or lv.path[0][0] != "f" or lv.path[0][1] not in self.guarded: return
        m = self.guarded[lv.path[0][1]]; held = st.vars.get(("lock", m), z3.IntVal(0))
        self.oblige(st, "%s is %s only while %s is held%s" % (lv.path[0][1], "read" if level == 1 else "written", m, "" if level == 1 else " exclusively"), held >= level, "", "lock")
    def upd(self, v, path, val):
        p = path[0]; rest = path[1:]
        if p[0] == "f":
            if not isinstance(v, RecV): raise Unsupported("write field of non-record")
            f = dict(v.f); f[p[1]] = self.upd(f[p[1]], rest, val) if rest else val; return RecV(v.name, f)
        if p[0] == "i":
            old = select(v.el, p[1]); new = self.upd(old, rest, val) if rest else val
            if isinstance(v, VecV): return VecV(v.len, store(v.el, p[1], new))
            return MapV(v.dom, store(v.el, p[1], new), v.size)
        if p[0] == "o": return OptV(v.has, self.upd(v.val, rest, val) if rest else val)
        if p[0] == "len": return VecV(val, v.el)
        raise Unsupported(str(p))
    def record(self, k, path):
        if self.recording is not None:
            p = []
            for x in path:
                if x[0] == "i": p.append("el")
                elif x[0] == "f": p.append(x[1])
                elif x[0] == "o": p.append("val")
                elif x[0] == "len": p.append("len")
            self.recording.add((k, tuple(p)))
    def havoc(self, st, mods):
        s = st.copy()
        for k, p in mods:
            if k not in s.vars: continue
            v = s.vars[k]
            if v is None or isinstance(v, Fun): raise Unsupported('a pointer or function is rebound inside a loop')
            if isinstance(v, LV):
                if p == (): raise Unsupported('a reference or pointer is rebound inside a loop')
                continue
            if isinstance(v, IterV):
                s.vars[k] = IterV(v.kind, v.lv, z3.Const(fresh_name("it"), v.pos.sort()), None if v.kind == "vec" else z3.Const(fresh_name("itok"), B), v.rev); continue
            s.vars[k] = self.hv(v, p)
        return s
    def hv(self, v, p):
        def f(x, path):
            return z3.Const(fresh_name("h_" + "_".join(map(str, path[-2:]))), x.sort()) if path[:len(p)] == p else x
        return vmap(v, f)

    # ---- obligations and feasibility ------------------------------------------------------------
    def oblige(self, st, name, goal, where, kind):
        if self.recording is not None: return
        if z3.is_true(goal): goal = z3.BoolVal(True)
        self.obls.append(Obl(name, tuple(st.pc), goal, where, kind))
    def where(self, e):
        if e.get("_line") is not None: return "%s:%s" % ((self.cur_tu.name if self.cur_tu else "?"), e["_line"])
        def line(o):
            for key in ("loc", "range"):
                l = o.get(key) or {}
                if key == "range": l = l.get("begin", {})
                for z in (l, l.get("expansionLoc", {}), l.get("spellingLoc", {})):
                    if "line" in z: return z["line"]
            return None
        return "%s" % (line(e) or "")
    def feasible(self, st):
        if not self.prune or self.recording is not None: return True
        k = tuple(c.get_id() for c in st.pc)
        if k in self.feas_cache: return self.feas_cache[k][0]
        s = z3.Solver(); s.set("timeout", 60)
        for c in st.pc:
            if not has_quant(c): s.add(c)
        r = s.check() != z3.unsat
        self.feas_cache[k] = (r, st.pc); self.solver_calls += 1
        return r
    def split(self, st, c):
        """[(state, bool)] for a condition"""
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        for b, s in ((True, st.add(c)), (False, st.add(z3.Not(c)))):
            if self.feasible(s): out.append((s, b))
        return out

    # ---- expressions ------------------------------------------------------------------------------
    def ev(self, e, st):
        """[(state, rvalue)]"""
        out = []
        for s, v in self.evx(e, st):
            out.append((s, self.read(s, v) if isinstance(v, LV) else v))
        return out
    def evs(self, es, st):
        """[(state, [values])] (values may be LV)"""
        res = [(st, [])]
        for e in es:
            res = [(s2, vs + [v]) for s, vs in res for s2, v in self.evx(e, s)]
        return res
    def evx(self, e, st):
        k = e["kind"]; f = getattr(self, "e_" + k, None)
        if f is None: raise Unsupported("expression %s line %s" % (k, self.where(e)))
        return f(e, st)
    def e_pass(self, e, st): return self.evx(e["inner"][0], st)
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = e_pass
    def e_IntegerLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def e_CharacterLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def e_CXXBoolLiteralExpr(self, e, st): return [(st, z3.BoolVal(bool(e["value"])))]
    def e_FloatingLiteral(self, e, st): return [(st, z3.RealVal(str(e["value"])) if re.fullmatch(r"-?[0-9.]+", str(e["value"])) else z3.RealVal(repr(float(e["value"]))))]
    def e_StringLiteral(self, e, st):
        v = e.get("value", ""); self.strs.setdefault(v, len(self.strs) + 1); return [(st, z3.IntVal(1000000 + self.strs[v]))]
    def e_CXXNullPtrLiteralExpr(self, e, st): return [(st, None)]
    def e_GNUNullExpr(self, e, st): return [(st, None)]
    def e_CXXThisExpr(self, e, st):
        v = st.vars.get(("this",))
        return [(st, v)]
    def e_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]; k = d["kind"]
        if k == "EnumConstantDecl":
            for tu in self.prog.tus.values():
                if d["id"] in tu.enum and self.cur_tu is tu: return [(st, z3.IntVal(tu.enum[d["id"]][2]))]
            for tu in self.prog.tus.values():
                for i, (q, n, v) in tu.enum.items():
                    if n == d["name"] and q.endswith(e["type"].get("qualType", "").split("::")[-1]): return [(st, z3.IntVal(v))]
            raise Unsupported("enum constant " + d["name"])
        if k in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            key = st.vars.get(("id", d["id"], self.curframe))
            if key is not None: return [(st, LV(("var", key)) if not isinstance(key, LV) else key)]
            return [(st, self.globalvar(e, d))]
        if k in ("FunctionDecl", "CXXMethodDecl"): return [(st, ("fn", d))]
        raise Unsupported("reference to " + k)
    def globalvar(self, e, d):
        n = d["name"]
        if n == "MAX_INT": return z3.IntVal(2147483647)
        o = None
        for tu in [self.cur_tu] + list(self.prog.tus.values()):
            if tu and d["id"] in tu.byid: o = tu.byid[d["id"]]; break
        if o is not None:
            for c in o.get("inner", []):
                try:
                    r = self.ev(c, State())
                    if len(r) == 1 and z3.is_expr(r[0][1]) and ("const" in o["type"]["qualType"] or o.get("constexpr")): return r[0][1]
                except (Unsupported, KeyError): pass
        t = self.ty(e["type"])
        return build(t, lambda nn, s: z3.Const(nn, s), "global." + ((o or {}).get("_q") or n).replace("TrRouting::", ""))
    def enumval(self, name):
        for tu in self.prog.tus.values():
            for q, n, v in tu.enum.values():
                if n == name: return z3.IntVal(v)
        raise Unsupported("enum constant " + name)
    def globalconst(self, cls, n): return z3.Int("global.%s::%s" % (cls, n))
    def e_ImplicitCastExpr(self, e, st):
        ck = e.get("castKind"); x = e["inner"][0]
        if ck in ("LValueToRValue",): return self.ev(x, st)
        if ck in ("NoOp", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "ArrayToPointerDecay", "BuiltinFnToFnPtr"): return self.evx(x, st)
        if ck == "NullToPointer": return [(st, None)]
        t = self.ty(e["type"])
        return [(s, self.cast(ck, v, t, x)) for s, v in self.ev(x, st)]
    def cast(self, ck, v, t, x):
        if ck == "IntegralCast":
            if z3.is_expr(v) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            src = self.ty(x["type"])
            if src.k == "bool": return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.narrow(v, src, t)
        if ck in ("IntegralToBoolean",): return v != 0
        if ck == "PointerToBoolean": return self.truth(v)
        if ck == "IntegralToFloating": return z3.ToReal(v) if v.sort() == I else z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if ck == "FloatingToIntegral":
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == "FloatingCast": return v
        if ck == "FloatingToBoolean": return v != 0
        if ck in ("ToVoid",): return z3.IntVal(0)
        if ck in ("LValueBitCast", "BitCast"): return v
        raise Unsupported("cast " + str(ck))
    def narrow(self, v, src, t):
        if t.k != "int": return v
        if src.k == "int" and (src.bits < t.bits and (src.signed == t.signed or not src.signed)): return v
        if src.k == "int" and src.bits == t.bits and src.signed == t.signed: return v
        if t.bits >= 64: return v                       # sizes and indices: negative values show up as failed bounds obligations
        v = z3.simplify(v)
        lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
        if z3.is_int_value(v) and lo <= v.as_long() <= hi: return v
        if src.k == "int" and src.bits >= 64 and t.bits == 32: return v     # sizes that fit (assumption: containers below 2^31)
        if src.k == "int" and src.bits == 32 and t.bits == 32 and not t.signed: return v
        w = v - lo; return (w % (1 << t.bits)) + lo
    e_CXXConstCastExpr = e_pass
    def e_CStyleCastExpr(self, e, st):
        ck = e.get("castKind")
        if ck == "NoOp" or ck == "ConstructorConversion": return self.evx(e["inner"][0], st)
        if ck == "ToVoid": return [(s, z3.IntVal(0)) for s, _ in self.evx(e["inner"][0], st)]
        return self.e_ImplicitCastExpr(e, st)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr
    def truth(self, v):
        if v is None: return z3.BoolVal(False)
        if isinstance(v, OptV): return v.has
        if z3.is_expr(v) and v.sort() == B: return v
        if z3.is_expr(v) and v.sort() == I: return v != 0
        raise Unsupported("truth value")
    def pure(self, e):
        """no calls that could write or throw (syntactically cheap test)"""
        return True
    def e_BinaryOperator(self, e, st):
        op = e["opcode"]; a, b = e["inner"]
        if op in ("&&", "||"):
            out = []
            for s, x in self.ev(a, st):
                x = self.truth(x); xs = z3.simplify(x)
                if z3.is_true(xs) if op == "||" else z3.is_false(xs): out.append((s, z3.BoolVal(op == "||"))); continue
                if z3.is_false(xs) if op == "||" else z3.is_true(xs): out += [(s2, self.truth(y)) for s2, y in self.ev(b, s)]; continue
                # right operand evaluated under the left one
                g = s.add(x if op == "&&" else z3.Not(x)); n0 = len(g.pc)
                nthr = len(self.throws)
                rs = self.ev(b, g)
                if len(rs) == 1 and rs[0][0].vars is not None and same_vars(rs[0][0], s) and len(self.throws) == nthr and len(rs[0][0].pc) == n0:
                    y = self.truth(rs[0][1]); out.append((s, z3.And(x, y) if op == "&&" else z3.Or(x, y)))
                else:
                    for s2, y in rs: out.append((s2, self.truth(y)))
                    o = s.add(z3.Not(x) if op == "&&" else x)
                    if self.feasible(o): out.append((o, z3.BoolVal(op == "||")))
            return out
        if op == "=":
            out = []
            for s, v in self.ev(b, st):
                for s2, lv in self.evx(a, s):
                    if not isinstance(lv, LV): raise Unsupported("assignment target")
                    out.append((self.write(s2, lv, v), lv))
            return out
        if op == ",": return [(s2, v) for s, _ in self.evx(a, st) for s2, v in self.evx(b, s)]
        return [(s2, self.binop(op, x, y, e)) for s, x in self.ev(a, st) for s2, y in self.ev(b, s)]
    def binop(self, op, x, y, e=None):
        if x is None or y is None:
            z = y if x is None else x
            if isinstance(z, OptV): h = z.has
            elif z is None: h = z3.BoolVal(False)
            else: h = z >= 0 if z3.is_expr(z) and z.sort() == I else z3.BoolVal(True)
            return z3.Not(h) if op == "==" else h
        if op in ("==", "!="):
            r = self.eq(x, y); return r if op == "==" else z3.Not(r)
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() == B: x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == B: y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if x.sort() == R and y.sort() == I: y = z3.ToReal(y)
            if y.sort() == R and x.sort() == I: x = z3.ToReal(x)
            if op == "+": return x + y
            if op == "-": return x - y
            if op == "*": return x * y
            if op == "<": return x < y
            if op == ">": return x > y
            if op == "<=": return x <= y
            if op == ">=": return x >= y
            if op == "/":
                if x.sort() == R: return x / y
                q = z3.If(x >= 0, x / y, -((-x) / y))       # C++ truncation for y > 0
                return z3.If(y > 0, q, -z3.If(x >= 0, x / (-y), -((-x) / (-y))))
            if op == "%":
                return z3.If(x >= 0, x % y, -((-x) % y))
        if isinstance(x, IterV) and op in ("+", "-"):
            if isinstance(y, IterV): return x.pos - y.pos
            return IterV(x.kind, x.lv, x.pos + y if op == "+" else x.pos - y, x.ok, x.rev)
        raise Unsupported("operator %s" % op)
    def eq(self, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if x.kind == "vec": return x.pos == y.pos
            if y.ok is None or z3.is_false(z3.simplify(y.ok)): return z3.Not(x.ok)
            if x.ok is None or z3.is_false(z3.simplify(x.ok)): return z3.Not(y.ok)
            return z3.Or(z3.And(z3.Not(x.ok), z3.Not(y.ok)), z3.And(x.ok, y.ok, x.pos == y.pos))
        if isinstance(x, OptV) and isinstance(y, OptV): return z3.And(x.has == y.has, z3.Implies(x.has, self.eq(x.val, y.val)))
        if isinstance(x, OptV): return z3.And(x.has, self.eq(x.val, y))
        if isinstance(y, OptV): return self.eq(y, x)
        if isinstance(x, RecV) and isinstance(y, RecV): return z3.And([self.eq(x.f[k], y.f[k]) for k in x.f])
        if isinstance(x, VecV) and isinstance(y, VecV):
            i = z3.Int(fresh_name("qe")); return z3.And(x.len == y.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.len), veq(select(x.el, i), select(y.el, i)))))
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() == R and y.sort() == I: y = z3.ToReal(y)
            if y.sort() == R and x.sort() == I: x = z3.ToReal(x)
            if x.sort() == B and y.sort() == I: x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == B and x.sort() == I: y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            return x == y
        raise Unsupported("equality")
    def e_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]; a, b = e["inner"]; out = []
        for s, y in self.ev(b, st):
            for s2, lv in self.evx(a, s):
                x = self.read(s2, lv); v = self.binop(op, x, y)
                t = self.ty(a["type"])
                if t.k == "int" and z3.is_expr(v) and v.sort() == R: v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                out.append((self.write(s2, lv, v), lv))
        return out
    def e_UnaryOperator(self, e, st):
        op = e["opcode"]; x = e["inner"][0]
        if op in ("++", "--"):
            out = []
            for s, lv in self.evx(x, st):
                v = self.read(s, lv)
                if isinstance(v, IterV): n = self.iterstep(s, v, 1 if op == "++" else -1)
                else: n = v + 1 if op == "++" else v - 1
                s2 = self.write(s, lv, n); out.append((s2, v if e.get("isPostfix") else lv))
            return out
        if op == "!": return [(s, z3.Not(self.truth(v))) for s, v in self.ev(x, st)]
        if op == "-": return [(s, -v) for s, v in self.ev(x, st)]
        if op == "+": return self.ev(x, st)
        if op == "*":
            out = []
            for s, v in self.evx(x, st):
                r = self.read(s, v) if isinstance(v, LV) else v
                out += self.deref(s, r, v, e)
            return out
        if op == "&": return self.evx(x, st)
        raise Unsupported("unary " + op)
    def deref(self, s, r, lv, e):
        if isinstance(r, IterV):
            if r.kind == "vec":
                vv = self.read(s, r.lv)
                if self.bounds: self.oblige(s, "iterator dereferenced inside its container", z3.And(0 <= r.pos, r.pos < vv.len), self.where(e), "bounds")
                return [(s, r.lv.sub(("i", r.pos), None))]
            raise Unsupported("map iterator dereference")
        if isinstance(r, OptV):
            if self.bounds: self.oblige(s, "optional or pointer dereferenced only when set", r.has, self.where(e), "bounds")
            if isinstance(lv, LV): return [(s, lv.sub(("o",), None))]
            return [(s, r.val)]
        return [(s, lv)]
    def iterstep(self, s, v, d):
        if v.kind == "vec": return IterV("vec", v.lv, v.pos + d, v.ok, v.rev)
        raise Unsupported("map iterator increment")
    def e_ConditionalOperator(self, e, st):
        out = []
        for s, c in self.ev(e["inner"][0], st):
            for s2, b in self.split(s, self.truth(c)): out += self.ev(e["inner"][1 if b else 2], s2)
        # merge when both sides are single pure values
        return self.mergevals(st, out)
    def mergevals(self, st, out):
        if len(out) == 2 and all(same_vars(s, st) and len(s.pc) == len(st.pc) + 1 for s, _ in out) and all(z3.is_expr(v) for _, v in out):
            c = out[0][0].pc[-1]; return [(st, z3.If(c, out[0][1], out[1][1]))]
        return out
    def e_ArraySubscriptExpr(self, e, st): raise Unsupported("array subscript")
    def e_LambdaExpr(self, e, st): return [(st, Fun(e, (st, self.curframe)))]
    def e_CXXDefaultArgExpr(self, e, st): raise Unsupported("default argument")
    def e_CXXThrowExpr(self, e, st):
        if not e.get("inner"): 
            self.throws.append((st, Throw("rethrow", None, self.where(e)))); return []
        x = e["inner"][0]; cls = (x["type"].get("desugaredQualType") or x["type"]["qualType"]).split("::")[-1]
        for s, v in self.ev_throwval(x, st): self.throws.append((s, Throw(cls, v, self.where(e))))
        return []
    def ev_throwval(self, x, st):
        try: return self.ev(x, st)
        except Unsupported: return [(st, None)]
    def e_InitListExpr(self, e, st):
        try: t = self.ty(e["type"])
        except Unsupported: t = None
        xs = e.get("inner", [])
        if t is not None and t.k in ("int", "bool", "real", "str") and len(xs) == 1: return self.ev(xs[0], st)
        if t is not None and t.k in ("int", "bool", "real") and not xs: return [(st, default(t))]
        if t is not None and t.k == "rec":
            return [(s, RecV(t.name, {f: (self.read(s, v) if isinstance(v, LV) else v) for f, v in zip(t.fields, vs)})) for s, vs in self.evs(xs, st)]
        if len(xs) == 1: return self.evx(xs[0], st)
        raise Unsupported("initialiser list")
    def e_CXXStdInitializerListExpr(self, e, st): raise Unsupported("initializer_list")
    def e_CXXScalarValueInitExpr(self, e, st): return [(st, default(self.ty(e["type"])))]
    def e_ImplicitValueInitExpr(self, e, st): return [(st, default(self.ty(e["type"])))]
    def e_UnaryExprOrTypeTraitExpr(self, e, st): raise Unsupported("sizeof")
    def e_CXXDefaultInitExpr(self, e, st): raise Unsupported("default member init")
    def e_PredefinedExpr(self, e, st): return [(st, z3.IntVal(0))]

    # ---- member access ---------------------------------------------------------------------------
    def e_MemberExpr(self, e, st):
        n = e["name"]; x = e["inner"][0]; out = []
        for s, b in self.evx(x, st):
            out += self.member(s, b, n, x, e)
        return out
    def obj(self, s, b, arrow, e):
        """lvalue or value of the object designated by b (through ->)"""
        r = self.read(s, b) if isinstance(b, LV) and b.root != ("var", "this") else b
        if arrow and isinstance(r, OptV): return self.deref(s, r, b, e)[0][1]
        return b
    def member(self, s, b, n, x, e):
        if b is None: raise Unsupported("member of null")
        arrow = e.get("isArrow")
        if isinstance(b, LV) and b.root == ("var", "this") and not b.path:
            return [(s, self.thisfield(s, n, e))]
        r = self.read(s, b) if isinstance(b, LV) else b
        if isinstance(r, IterV):
            if r.kind == "map":
                if self.bounds: self.oblige(s, "map iterator dereferenced before end", r.ok, self.where(e), "bounds")
                if n == "first": return [(s, r.pos)]
                return [(s, r.lv.sub(("i", r.pos), None))]
            d = self.deref(s, r, b, e)[0][1]; return self.member(s, d, n, x, dict(e, isArrow=False))
        if arrow and isinstance(r, OptV):
            d = self.deref(s, r, b, e)[0][1]; return self.member(s, d, n, x, dict(e, isArrow=False))
        if isinstance(r, RecV):
            if isinstance(b, LV): return [(s, b.sub(("f", n), None))]
            return [(s, r.f[n])]
        if z3.is_expr(r):
            cls = self.entcls(x)
            if cls: return [(s, LV(("ent", cls, r), (("f", n),)))]
        raise Unsupported("member %s line %s" % (n, self.where(e)))
    def thisfield(self, s, n, e):
        cls = s.vars.get(("thiscls",))
        t = s.vars.get("this")
        if isinstance(t, RecV):
            if n not in t.f:
                try: ft = self.ty(e["type"])
                except Unsupported: raise Unsupported("this->" + n)
                raise Unsupported("this->%s not in record" % n)
            return LV(("var", "this"), (("f", n),))
        if isinstance(t, LV): return LV(t.root, t.path + (("f", n),))
        if z3.is_expr(t): return LV(("ent", cls, t), (("f", n),))
        raise Unsupported("this->" + n)
    def entcls(self, x):
        try: t = self.ty(x["type"])
        except Unsupported: return None
        if t.k == "ent": return t.cls
        if t.k == "ptr" and t.t.k == "ent": return t.t.cls
        if t.k == "opt" and t.t.k == "ent": return t.t.cls
        return None

    # ---- calls -----------------------------------------------------------------------------------
    def callee(self, e):
        c = e["inner"][0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
        return c
    def decl(self, d):
        tu = self.cur_tu
        if tu and d.get("id") in tu.byid: return tu.byid[d["id"]]
        return None
    def e_CallExpr(self, e, st):
        c = self.callee(e)
        if c["kind"] == "DeclRefExpr":
            d = c["referencedDecl"]; full = self.decl(d) or d; n = d["name"]; q = full.get("_q", n); args = e["inner"][1:]
            if self.is_log(c, e, n): return [(st, z3.IntVal(0))]
            return self.call(q, n, full, None, args, e, st)
        if c["kind"] == "MemberExpr": return self.e_CXXMemberCallExpr(e, st)
        raise Unsupported("call of " + c["kind"])
    def is_log(self, c, e, n):
        if n in ("debug", "info", "error", "warn", "trace", "critical", "set_level"): return True
        if n in ("__assert_fail",): return True
        return False
    def e_CXXMemberCallExpr(self, e, st):
        c = self.callee(e); args = e["inner"][1:]
        if c["kind"] != "MemberExpr": raise Unsupported("member call through " + c["kind"])
        n = c["name"]; x = c["inner"][0]; out = []
        mid = c.get("referencedMemberDecl"); full = self.cur_tu.byid.get(mid) if self.cur_tu else None
        for s, b in self.evx(x, st):
            q = (full or {}).get("_q", n)
            out += self.method(s, b, n, q, full, x, args, e, c)
        return out
    def method(self, s, b, n, q, full, x, args, e, c):
        if full is not None and "_q" in full and "TrRouting" in full["_q"]:
            if b is not None and c.get("isArrow"):
                r = self.read(s, b) if isinstance(b, LV) and b.root != ("var", "this") else b
                if isinstance(r, (OptV, IterV)): b = self.deref(s, r, b, e)[0][1]
            return self.call(q, n, full, (b, x), args, e, s)
        if n.startswith("operator "):    # conversion of a standard type
            v = self.read(s, b) if isinstance(b, LV) else b
            if isinstance(v, OptV): return [(s, v.has)]
            return [(s, b)]
        return self.std_method(s, b, n, x, args, e, c)
    def call(self, q, n, full, recv, args, e, st):
        """call of a function of the repository (or of a free standard function)"""
        if q in self.models: return self.models[q](self, st, recv, args, e)
        for p, m in self.models.items():
            if p.endswith("*") and q.startswith(p[:-1]): return m(self, st, recv, args, e)
        d = self.prog.definition(full) if full.get("mangledName") else None
        if d is None or not q.startswith("TrRouting"):
            m = getattr(self, "f_" + n, None)
            if m is not None and "TrRouting" not in q: return m(st, args, e)
        if q in self.contracts: return self.contracts[q](self, st, recv, args, e, full)
        if d is None and len(q.split("::")) > 2 and q.split("::")[-2] in self.opaque_classes: return [(st, fresh(self.ty(e["type"]), "opaque") if self.ty(e["type"]).k not in ("unit", "opaque") else z3.IntVal(0))]   # timers: any value
        if d is None: 
            raise Unsupported("no definition or contract for " + q)
        return self.inline(d, q, recv, args, e, st)
    def inline(self, d, q, recv, args, e, st):
        if self.depth > 12: raise Unsupported("recursion " + q)
        self.inlined.add(q)
        out = []
        for s, vs in self.evs([a for a in args if a["kind"] != "CXXDefaultArgExpr"], st):
            out += self.invoke(d, q, recv, vs, s, e)
        return out
    def invoke(self, d, q, recv, vs, s, e):
        ps = C.params(d); fr = next(self.frame); oldframe = self.curframe; oldtu = self.cur_tu; s = s.copy()
        savethis = (s.vars.get("this"), s.vars.get(("this",)), s.vars.get(("thiscls",)), s.vars.get(("thisbase",)))
        self.curframe = fr; self.cur_tu = d["_tu"]; self.depth += 1; mark = len(self.throws)
        try:
            inits = [(s, [])]
            for i, p in enumerate(ps):
                if i < len(vs): inits = [(s1, a + [vs[i]]) for s1, a in inits]
                else:
                    dv = p.get("inner") or []
                    # the default may be on the declaration
                    if not dv: dv = self.default_arg(d, i)
                    inits = [(s2, a + [v]) for s1, a in inits for s2, v in self.evx(dv[-1], s1)]
            res = []
            for s1, av in inits:
                s1 = s1.copy()
                for i, p in enumerate(ps):
                    v = av[i]; isref = p["type"]["qualType"].strip().endswith("&") or p["type"]["qualType"].strip().endswith("*")
                    key = ("L", p["id"], p.get("name", "_"), fr)
                    if isinstance(v, LV) and isref: pass
                    elif isinstance(v, LV): v = self.read(s1, v)
                    if not isinstance(v, LV): v = self.convert(v, p["type"])
                    s1.vars[key] = v; s1.vars[("id", p["id"], fr)] = key
                if recv is not None:
                    b, x = recv
                    base = b
                    if isinstance(b, LV) and b.root == ("var", "this") and not b.path: pass     # same this
                    else:
                        # rebind this to the receiver
                        r = self.read(s1, b) if isinstance(b, LV) else b
                        if z3.is_expr(r):
                            s1.vars[("thiscls",)] = self.entcls(x) or d.get("_scope", "").split("::")[-1]; s1.vars[("thisval",)] = r
                            s1.vars[("this",)] = LV(("ent", s1.vars[("thiscls",)], r))
                        elif isinstance(b, LV): s1.vars[("this",)] = b
                        else:
                            k = ("T", fr); s1.vars[k] = r; s1.vars[("this",)] = LV(("var", k))
                if d["kind"] == "CXXConstructorDecl": raise Unsupported("inline constructor")
                outs = self.run(C.body(d), s1); rt = d["type"]["qualType"].split("(")[0].strip()
                for kind, s2, v in outs:
                    if kind in ("next", "return"):
                        if isinstance(v, LV): v = self.detach(s2, v, fr)
                        if isinstance(v, LV) and not rt.endswith("&") and not rt.endswith("*"): v = self.read(s2, v)
                        res.append((self.leave(s2, s, fr, savethis), v))
                    else: raise Unsupported("outcome " + kind)
            # throws keep their state, leave the frame
            for i in range(mark, len(self.throws)):
                ts, tv = self.throws[i]; self.throws[i] = (self.leave(ts, s, fr, savethis), tv)
            return [(s2, self.fixret(v, d)) for s2, v in res]
        finally:
            self.curframe = oldframe; self.cur_tu = oldtu; self.depth -= 1
    def detach(self, s, v, fr):
        """an lvalue that goes through a local of the frame being left"""
        n = 0
        while isinstance(v, LV) and v.root[0] == "var" and isinstance(v.root[1], tuple) and v.root[1][-1] == fr and v.root[1][0] in ("L", "T"):
            cur = s.vars.get(v.root[1]); n += 1
            if isinstance(cur, LV) and n < 20: v = LV(cur.root, cur.path + v.path, v.ty)
            else: return self.read(s, v)
        return v
    def fixret(self, v, d): return v if v is not None else z3.IntVal(0)
    def default_arg(self, d, i):
        for tu in self.prog.tus.values():
            for o in tu.byid.values():
                if o.get("mangledName") == d.get("mangledName") and o is not d:
                    p = C.params(o)
                    if i < len(p) and p[i].get("inner"): return p[i]["inner"]
        raise Unsupported("default argument of " + d.get("_q", "?"))
    def leave(self, s2, s, fr, savethis):
        s2 = s2.copy()
        for k in [k for k in s2.vars if isinstance(k, tuple) and k[-1] == fr and k[0] in ("L", "id", "T") and k not in s.vars]: del s2.vars[k]
        s2.vars[("this",)] = savethis[1]
        if savethis[2] is not None: s2.vars[("thiscls",)] = savethis[2]
        return s2
    def convert(self, v, t):
        """implicit conversion into an optional parameter"""
        try: ty = self.ty(t)
        except Unsupported: return v
        if ty.k == "opt" and not isinstance(v, OptV) and v is not None and not isinstance(v, (LV, IterV)):
            return OptV(z3.BoolVal(True), v)
        return v

    # constructors
    def e_CXXConstructExpr(self, e, st):
        xs = e.get("inner", []); qt = e["type"].get("desugaredQualType") or e["type"]["qualType"]
        if "nullopt_t" in qt and "optional<" not in qt: return [(st, None)]
        try: t = self.ty(e["type"])
        except Unsupported:
            if "lambda" in qt and xs: return self.evx(xs[0], st)
            raise
        if t.k == "iter" and len(xs) == 1: return self.ev(xs[0], st)
        if t.k == "fun": return self.evx(xs[0], st)
        if t.k == "opt":
            if not xs: return [(st, OptV(z3.BoolVal(False), fresh(t.t, "none")))]
            if len(xs) >= 1:
                out = []
                for s, v in self.ev(xs[0], st):
                    if isinstance(v, OptV): out.append((s, v))
                    elif v is None or self.isnullopt(xs[0]): out.append((s, OptV(z3.BoolVal(False), fresh(t.t, "none"))))
                    else: out.append((s, OptV(z3.BoolVal(True), v)))
                return out
        if t.k in ("ent", "int", "bool", "real"):
            if len(xs) == 1:
                return self.evx(xs[0], st)
            if t.k == "ent":      # a new object: fresh identity, fields by the constructor's parameters are not tracked
                return [(s, z3.Int(fresh_name("new_" + t.cls))) for s, _ in self.evs([x for x in xs if x["kind"] != "CXXDefaultArgExpr"], st)]
        if t.k == "str":
            if not xs: return [(st, z3.IntVal(1000000))]
            return self.ev(xs[0], st)
        if t.k in ("vec", "map"):
            real = [x for x in xs if x["kind"] != "CXXDefaultArgExpr"]
            if not real: return [(st, default(t))]
            if len(real) == 1:
                out = []
                for s, v in self.ev(real[0], st):
                    if isinstance(v, (VecV, MapV)): out.append((s, v))
                    elif t.k == "vec" and z3.is_expr(v): out.append((s, VecV(v, vmap(default(t.t), lambda a, p: z3.K(I, a)))))
                    else: raise Unsupported("container construction")
                return out
            if t.k == "vec" and len(real) == 2:
                return [(s, VecV(self.read(s, vs[0]), vmap(self.read(s, vs[1]), lambda a, p: z3.K(I, a)))) for s, vs in self.evs(real, st)]
            raise Unsupported("container construction")
        if t.k == "rec":
            if len(xs) == 1:
                xt = None
                try: xt = self.ty(xs[0]["type"])
                except Unsupported: pass
                if xt is not None and xt.k == "rec" and (xt.name == t.name or t.name in ("exception",)) : return self.ev(xs[0], st)   # copy / move
            return self.construct(t, e, xs, st)
        if t.k == "opaque": return [(st, z3.Int(fresh_name("opaque")))]
        raise Unsupported("construction of %s line %s" % (qt, self.where(e)))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def isnullopt(self, x):
        q = x.get("type", {}).get("qualType", "")
        return "nullopt_t" in q or "nullptr_t" in q
    def construct(self, t, e, xs, st):
        if t.name in ("pair", "tuple"):
            return [(s, RecV(t.name, {f: (self.read(s, v) if isinstance(v, LV) else v) for f, v in zip(t.fields, vs)})) for s, vs in self.evs(xs, st)]
        q = "TrRouting::%s::%s" % (t.name, t.name); real = [x for x in xs]
        nd = [x for x in real if x["kind"] != "CXXDefaultArgExpr"]
        cands = [d for d in self.prog.defs.get(q, []) if len(C.params(d)) >= len(nd)]
        cands = [d for d in cands if len(C.params(d)) == len(real)] or cands
        if len(cands) > 1:   # match parameter types
            def score(d):
                n = 0
                for p, x in zip(C.params(d), nd):
                    try: n += (self.ty(p["type"]).k == self.ty(x["type"]).k)
                    except Unsupported: pass
                return n
            cands.sort(key=score, reverse=True)
        if not cands:
            o = self.prog.cls.get("TrRouting::" + t.name)
            if not real: return self.aggregate_default(t, o, st)
            if o is None or t.fields == {}: return [(s, RecV(t.name, {})) for s, _ in self.evs_quiet(nd, st)]
            raise Unsupported("constructor " + q)
        d = cands[0]; out = []
        for s, vs in self.evs(nd, st): out += self.ctor(t, d, vs, s)
        return out
    def evs_quiet(self, xs, st):
        try: return self.evs(xs, st)
        except Unsupported: return [(st, None)]
    def fielddefault(self, o, f, s):
        for c in (o or {}).get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name") == f["name"] and c.get("inner"): return self.ev(c["inner"][-1], s)
        return None
    def allfields(self, cname):
        o = self.prog.cls.get(cname); out = []
        if not o: return out
        for b in o.get("bases", []): out += self.allfields("TrRouting::" + b["type"]["qualType"].split("::")[-1])
        return out + [(o, f) for f in o.get("inner", []) if f.get("kind") == "FieldDecl" and f.get("name")]
    def aggregate_default(self, t, o, st):
        res = [(st, {})]
        for oo, f in self.allfields("TrRouting::" + t.name):
            n = []
            for s, d in res:
                if f.get("inner"):
                    for s2, v in self.ev(f["inner"][-1], s): n.append((s2, dict(d, **{f["name"]: self.convert(v, f["type"])})))
                else:
                    ft = t.fields[f["name"]]
                    v = fresh(ft, "uninit_" + f["name"]) if ft.k in ("int", "bool", "real", "ent") else (default(ft) if ft.k != "rec" else self.aggregate_default(ft, None, s)[0][1])
                    n.append((s, dict(d, **{f["name"]: v})))
            res = n
        return [(s, RecV(t.name, d)) for s, d in res]
    def ctor(self, t, d, vs, s):
        """constructor: member initialisers then body"""
        q = d["_q"]; self.inlined.add(q)
        fr = next(self.frame); oldframe = self.curframe; oldtu = self.cur_tu; self.curframe = fr; self.cur_tu = d["_tu"]; s = s.copy(); saved = s.vars.get(("this",)); self.depth += 1
        try:
            ps = C.params(d); inits = [(s, list(vs))]
            for i in range(len(vs), len(ps)):
                dv = ps[i].get("inner") or self.default_arg(d, i)
                inits = [(s2, a + [v]) for s1, a in inits for s2, v in self.evx(dv[-1], s1)]
            out = []
            for s1, av in inits:
                s1 = s1.copy()
                for i, p in enumerate(ps):
                    v = av[i]; isref = p["type"]["qualType"].strip().endswith("&")
                    if isinstance(v, LV) and not isref: v = self.read(s1, v)
                    if not isinstance(v, LV): v = self.convert(v, p["type"])
                    key = ("L", p["id"], p.get("name", "_"), fr); s1.vars[key] = v; s1.vars[("id", p["id"], fr)] = key
                k = ("T", fr); cur = [(s1, {})]
                for c in d.get("inner", []):
                    if c.get("kind") != "CXXCtorInitializer": continue
                    if "anyInit" in c:
                        fn = c["anyInit"]["name"]; nxt = []
                        for s2, f in cur:
                            if not c.get("inner"): nxt.append((s2, f)); continue
                            x = c["inner"][0]
                            if x["kind"] == "CXXDefaultInitExpr":
                                fd = [ff for oo, ff in self.allfields("TrRouting::" + t.name) if ff["name"] == fn][0]
                                x = fd["inner"][-1]
                            if t.fields.get(fn) is OPAQUE: nxt.append((s2, f)); continue
                            for s3, v in self.ev(x, s2): nxt.append((s3, dict(f, **{fn: self.convert(v, {"qualType": "X"}) if t.fields[fn].k != "opt" else (v if isinstance(v, OptV) else OptV(z3.BoolVal(v is not None), v if v is not None else fresh(t.fields[fn].t, "none")))})))
                        cur = nxt
                    else:   # base initialiser
                        x = c["inner"][0]; nxt = []
                        for s2, f in cur:
                            try:
                                for s3, v in self.ev(x, s2): nxt.append((s3, dict(f, **(v.f if isinstance(v, RecV) else {}))))
                            except Unsupported: nxt.append((s2, f))
                        cur = nxt
                for s2, f in cur:
                    full = {}
                    for n, ft in t.fields.items():
                        if n in f: full[n] = f[n]
                        else:
                            dd = [ff for oo, ff in self.allfields("TrRouting::" + t.name) if ff["name"] == n]
                            if dd and dd[0].get("inner"): full[n] = self.ev(dd[0]["inner"][-1], s2)[0][1]
                            elif ft.k in ("opt", "vec", "map"): full[n] = default(ft)
                            else: full[n] = fresh(ft, "uninit_" + n)
                    s2 = s2.copy(); s2.vars[k] = RecV(t.name, full); s2.vars[("this",)] = LV(("var", k))
                    b = C.body(d)
                    for kind, s3, v in (self.run(b, s2) if b else [("next", s2, None)]):
                        s3 = s3.copy(); val = s3.vars[k]; s3.vars[("this",)] = saved; out.append((s3, val))
            return out
        finally: self.curframe = oldframe; self.cur_tu = oldtu; self.depth -= 1

    # ---- statements --------------------------------------------------------------------------------
    def run(self, b, st):
        """[(kind, state, value)]; thrown exceptions go to self.throws"""
        k = b["kind"]; f = getattr(self, "s_" + k, None)
        if f: return f(b, st)
        if "Expr" in k or "Operator" in k or "Literal" in k: return [("next", s, None) for s, _ in self.evx(b, st)]
        raise Unsupported("statement %s line %s" % (k, self.where(b)))
    def s_CompoundStmt(self, b, st):
        cur = [("next", st, None)]
        for c in b.get("inner", []):
            nxt = []
            for kind, s, v in cur:
                if kind != "next": nxt.append((kind, s, v)); continue
                nxt += self.run(c, s)
            cur = self.blur(nxt, st) if self.recording is not None else nxt
            if len(cur) > self.maxpaths: raise Unsupported("too many paths")
        if self.guarded: cur = [(k, self.unlocked(s, st), v) for k, s, v in cur]
        return cur
    def blur(self, outs, base):
        """while only the written locations are collected: several states become one that allows them all (differing values arbitrary)"""
        keep = []; groups = {}
        for o in outs:
            if o[0] in ("next", "break", "continue"): groups.setdefault(o[0], []).append(o[1])
            else: keep.append(o)
        for kind, nx in groups.items():
            done = []
            for s in nx:
                for i, m in enumerate(done):
                    r = self.blur2(m, s)
                    if r is not None: done[i] = r; break
                else: done.append(s)
            keep += [(kind, s, None) for s in done]
        return keep
    def blur2(self, a, b):
        n = 0
        while n < min(len(a.pc), len(b.pc)) and a.pc[n] is b.pc[n]: n += 1
        vals = {}
        for k in a.vars:
            if k not in b.vars: continue
            x, y = a.vars[k], b.vars[k]
            if x is y: vals[k] = x; continue
            if isinstance(x, IterV) and isinstance(y, IterV) and x.kind == y.kind and repr(x.lv) == repr(y.lv): vals[k] = IterV(x.kind, x.lv, z3.Const(fresh_name("it"), x.pos.sort()), None if x.kind == "vec" else z3.Const(fresh_name("itok"), B), x.rev); continue
            if isinstance(x, LV) and isinstance(y, LV) and repr(x) == repr(y): vals[k] = x; continue
            if x is None or y is None or isinstance(x, (LV, IterV, Fun, tuple, str)) or isinstance(y, (LV, IterV, Fun, tuple, str)): return None
            try: vals[k] = vmap2(x, y, lambda p, q: p if p.eq(q) else z3.Const(fresh_name("blur"), p.sort()))
            except (z3.Z3Exception, KeyError, AttributeError): return None
        return State(vals, a.pc[:n], dict(a.ghost)) if a.ghost == b.ghost else None
    def unlocked(self, s, st):
        """locks taken in a block end with it"""
        ks = [k for k in s.vars if isinstance(k, tuple) and k[0] == "lock" and s.vars[k] is not st.vars.get(k)]
        if not ks: return s
        s = s.copy()
        for k in ks:
            if k in st.vars: s.vars[k] = st.vars[k]
            else: s.vars[k] = z3.IntVal(0)
        return s
    def s_NullStmt(self, b, st): return [("next", st, None)]
    def s_DeclStmt(self, b, st):
        cur = [st]
        for d in b.get("inner", []):
            if d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl"): continue
            if d["kind"] == "DecompositionDecl": cur = [s2 for s in cur for s2 in self.decomp(d, s)]; continue
            if d["kind"] != "VarDecl": raise Unsupported("declaration " + d["kind"])
            nxt = []
            for s in cur: nxt += self.declvar(d, s)
            cur = nxt
        return [("next", s, None) for s in cur]
    def declvar(self, d, st):
        key = ("L", d["id"], d.get("name", "_"), self.curframe if self.curframe != self.topframe else 0); isref = d["type"]["qualType"].strip().endswith("&")
        init = [c for c in d.get("inner", []) if "Expr" in c["kind"] or "Literal" in c["kind"] or "Operator" in c["kind"]]
        out = []
        lk = re.match(r"(?:const )?(?:std::)?(shared_lock|unique_lock|lock_guard|scoped_lock)<", d["type"]["qualType"])
        if lk and self.guarded:
            x = init[0] if init else None
            while x is not None and x["kind"] in ("ExprWithCleanups", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "CXXConstructExpr") and len(x.get("inner", [])) == 1: x = x["inner"][0]
            if x is None or x["kind"] != "MemberExpr": raise Unsupported("lock without a plain mutex")
            s = st.copy(); s.vars[("lock", x.get("name"))] = z3.IntVal(1 if lk.group(1) == "shared_lock" else 2); s.vars[key] = z3.Int(fresh_name("lock")); s.vars[("id", d["id"], self.curframe)] = key; return [s]
        if not init:
            t = self.ty(d["type"]); s = st.copy()
            s.vars[key] = fresh(t, d.get("name", "v")) if t.k in ("int", "bool", "real") else (fresh(t, "v") if t.k == "ent" else (default(t) if t.k not in ("rec",) else self.aggregate_default(t, None, st)[0][1])) if t.k != "opaque" else z3.Int(fresh_name("o"))
            s.vars[("id", d["id"], self.curframe)] = key; self.record(key, ()); return [s]
        try: t = self.ty(d["type"])
        except Unsupported: t = None
        for s, v in self.evx(init[0], st):
            if isinstance(v, LV) and not isref: v = self.read(s, v)
            if v is None and t is not None and t.k == "opt": v = OptV(z3.BoolVal(False), fresh(t.t, "none"))
            if t is not None and t.k == "opt" and not isinstance(v, (OptV, LV)): v = OptV(z3.BoolVal(True), v)
            if t is not None and t.k == "int" and z3.is_expr(v) and v.sort() == R: v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            s = s.copy(); s.vars[key] = v; s.vars[("id", d["id"], self.curframe)] = key; self.record(key, ()); out.append(s)
        return out
    def decomp(self, d, st):
        init = [c for c in d.get("inner", []) if c["kind"] != "BindingDecl"]; bind = [c for c in d.get("inner", []) if c["kind"] == "BindingDecl"]; out = []
        for s, v in self.evx(init[0], st):
            r = self.read(s, v) if isinstance(v, LV) else v
            if not isinstance(r, RecV): raise Unsupported("structured binding")
            s = s.copy()
            for c, f in zip(bind, list(r.f)):
                key = ("L", c["id"], c["name"], self.curframe if self.curframe != self.topframe else 0)
                s.vars[key] = v.sub(("f", f), None) if isinstance(v, LV) and d["type"]["qualType"].strip().endswith("&") else r.f[f]
                s.vars[("id", c["id"], self.curframe)] = key
            out.append(s)
        return out
    def s_IfStmt(self, b, st):
        inner = [c for c in b["inner"]]; cur = [st]
        if b.get("hasInit"): cur = [s for st1 in cur for k, s, v in self.run(inner[0], st1)]; inner = inner[1:]
        if b.get("hasVar"): raise Unsupported("if with variable")
        out = []
        for s0 in cur:
            for s, c in self.ev(inner[0], s0):
                for s2, t in self.split(s, self.truth(c)):
                    if t: out += self.run(inner[1], s2)
                    elif len(inner) > 2: out += self.run(inner[2], s2)
                    else: out.append(("next", s2, None))
        return self.join(st, out) if len(cur) == 1 else out
    def join(self, base, out):
        """states that reach the end of a branching statement become one state with conditional values"""
        nx = [s for k, s, v in out if k == "next"]
        if not self.merge or len(nx) < 2 or len(nx) > 12: return out
        n = len(base.pc); conds = []; keys = list(base.vars); named = []
        for s in nx:
            if s.pc[:n] != base.pc or any(has_quant(x) for x in s.pc[n:]): return out
            conds.append(z3.And(list(s.pc[n:])) if len(s.pc) - n != 1 else s.pc[n])
            if any(k not in s.vars for k in keys) or s.ghost != base.ghost: return out
        vals = {}
        for k in keys:
            vs = [s.vars[k] for s in nx]
            if all(v is vs[0] for v in vs): vals[k] = vs[0]; continue
            if any(isinstance(v, (LV, IterV, Fun, tuple, str)) or v is None for v in vs): return out
            try:
                r = vs[-1]
                for c, v in reversed(list(zip(conds[:-1], vs[:-1]))): r = vite(c, v, r)
                # arrays get a name (conditional terms make poor triggers)
                lv = [dict(leaves(v)) for v in vs]
                def name(x, path):
                    if not z3.is_array(x) or all(l[path].eq(x) for l in lv): return x
                    m = z3.Const(fresh_name("join_" + "_".join(map(str, path[-2:]))), x.sort())
                    for c, l in zip(conds, lv): named.append(z3.Implies(c, m == l[path]))
                    return m
                vals[k] = vmap(r, name)
            except (z3.Z3Exception, KeyError, AttributeError): return out
        d = z3.simplify(z3.Or(conds)); m = State(vals, base.pc + (() if z3.is_true(d) else (d,)) + tuple(named), dict(base.ghost))
        return [("next", m, None)] + [o for o in out if o[0] != "next"]
    def s_ReturnStmt(self, b, st):
        if not b.get("inner"): return [("return", st, None)]
        return [("return", s, v) for s, v in self.evret(b["inner"][0], st)]
    def evret(self, x, st):
        out = []
        for s, v in self.evx(x, st):
            out.append((s, v))
        return out
    def s_BreakStmt(self, b, st): return [("break", st, None)]
    def s_ContinueStmt(self, b, st): return [("continue", st, None)]
    def s_SwitchStmt(self, b, st):
        cond, bodyst = b["inner"][-2], b["inner"][-1]; out = []
        items = bodyst.get("inner", []); flat = []
        def unwrap(c, labels):
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                labels.append(c["inner"][0] if c["kind"] == "CaseStmt" else None); c = c["inner"][-1]
            return c
        for c in items:
            l = []; x = unwrap(c, l); flat.append((l, x))
        for s, v in self.ev(cond, st):
            starts = []; rest = s; deflt = None
            for i, (l, x) in enumerate(flat):
                for lab in l:
                    if lab is None: deflt = i; continue
                    c = self.ev(lab, s)[0][1]; t = rest.add(v == c)
                    if self.feasible(t): starts.append((i, t))
                    rest = rest.add(v != c)
            if self.feasible(rest):
                if deflt is not None: starts.append((deflt, rest))
                else: out.append(("next", rest, None))
            for i, t in starts:
                cur = [("next", t, None)]
                for l, x in flat[i:]:
                    nxt = []
                    for kind, s2, vv in cur: nxt += self.run(x, s2) if kind == "next" else [(kind, s2, vv)]
                    cur = nxt
                out += [("next" if kind == "break" else kind, s2, vv) for kind, s2, vv in cur]
        return out
    def s_CXXTryStmt(self, b, st):
        mark = len(self.throws); body = b["inner"][0]; outs = self.run(body, st); thrown = self.throws[mark:]; del self.throws[mark:]
        for s, t in thrown:
            done = False
            for h in b["inner"][1:]:
                if h["kind"] != "CXXCatchStmt": continue
                v = h["inner"][0]; blk = h["inner"][-1]
                if isinstance(v, dict) and v.get("kind") == "VarDecl":
                    cls = v["type"]["qualType"].replace("const ", "").replace("&", "").strip().split("::")[-1]
                    if not self.catches(cls, t.cls): continue
                    s2 = s.copy(); key = ("L", v["id"], v.get("name", "_"), self.curframe); s2.vars[key] = t.val; s2.vars[("id", v["id"], self.curframe)] = key
                else: s2 = s
                m2 = len(self.throws); outs += self.run(blk, s2); 
                for i in range(m2, len(self.throws)):
                    if self.throws[i][1].cls == "rethrow": self.throws[i] = (self.throws[i][0], t)
                done = True; break
            if not done: self.throws.append((s, t))
        return outs
    def catches(self, h, t):
        if h == t: return True
        if t in ("anystd", "out_of_range", "bad_optional_access", "bad_alloc", "invalid_argument"): return h in ("exception",) or h == t
        q = "TrRouting::" + t
        o = self.prog.cls.get(q)
        if o:
            for b in o.get("bases", []):
                if self.catches(h, b["type"]["qualType"].split("::")[-1]): return True
        if t.endswith("exception") or t.endswith("Exception") or t.endswith("_error"): return h == "exception"
        return False

    # ---- loops -------------------------------------------------------------------------------------
    def loopkey(self, b):
        return self.loopmeta.get(id(b))
    def number_loops(self, fn):
        """pre-order ordinals of the loops of the function under verification"""
        n = [0]; meta = {}
        def go(o, parents):
            if isinstance(o, dict):
                k = o.get("kind")
                if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"): meta[id(o)] = (n[0], tuple(parents)); n[0] += 1; parents = parents + [n[0] - 1]
                if k == "LambdaExpr": return
                for c in o.get("inner", []): go(c, parents)
        go(C.body(fn), []); self.loopmeta = meta; return n[0]
    def modset(self, runbody, st):
        saved = (self.recording, self.throws, self.prune); self.recording = set(); self.throws = []
        try: runbody(st); r = self.recording
        finally: self.recording, self.throws, self.prune = saved[0], saved[1], saved[2]
        if saved[0] is not None: saved[0].update(r)
        return r
    def fixmods(self, once, st):
        """everything an iteration may write: the body is run from ever more arbitrary states until no new location appears"""
        mods = set(); live = set(st.vars); h = st
        for _ in range(12):
            new = mods | {(k, p) for k, p in self.modset(once, h) if k in live}
            if new == mods: return mods
            mods = new; h = self.havoc(st, mods)
        raise Unsupported("the locations a loop writes do not settle")
    def cutloop(self, b, st, spec, step, cond, bodyf, idxread, post=None, extra=None):
        """generic cut.  cond(state) -> [(state, bool)]; bodyf(state) -> outcomes; step(state) -> [states]"""
        if spec is None and not self.freeloops: raise Unsupported("a loop without an invariant at %s" % self.where(b))
        def once(s):
            for s1, c in cond(s):
                if c:
                    for kind, s2, v in bodyf(s1):
                        if kind in ("next", "continue"): step(s2)
        if self.recording is not None:       # only the locations written matter
            # whatever the loop did, the state after it differs from the one before only there (a return leaves nothing to record)
            return [("next", self.havoc(st, self.fixmods(once, st)), None)]
        mods = self.fixmods(once, st)
        name = spec.name if spec else "loop"
        entry = st
        def inv(s): return spec.inv(Ctx(self, s, entry=entry, pos=idxread(s), fn0=self.fn0, **(extra or {}))) if spec else []
        for n, f in inv(st): self.oblige(st, "%s: %s holds on entry" % (name, n), f, self.where(b), "inv")
        h = self.havoc(st, mods)
        for n, f in inv(h): h = h.add(f)
        for f in (post(h) if post else []): h = h.add(f)
        outs = []
        if self.recording is None and self.prune: self.vacuity.append((name, tuple(h.pc)))
        for s1, c in cond(h):
            if not c: outs.append(("next", s1, None)); continue
            for kind, s2, v in bodyf(s1):
                if kind in ("next", "continue"):
                    for s3 in step(s2):
                        for n, f in inv(s3): self.oblige(s3, "%s: %s is preserved" % (name, n), f, self.where(b), "inv")
                elif kind == "break": outs.append(("next", s2, None))
                else: outs.append((kind, s2, v))
        return outs
    def spec_for(self, b):
        m = self.loopmeta.get(id(b))
        if m is None: return None
        s = self.loops.get(m[0]); 
        if s: self.usedspecs.add(m[0])
        return s
    def s_ForStmt(self, b, st):
        init, var, cond, inc, body = b["inner"][0], b["inner"][1], b["inner"][2], b["inner"][3], b["inner"][4]
        cur = [("next", st, None)] if not init else self.run(init, st); outs = []
        d = None
        if init and init.get("kind") == "DeclStmt": d = init["inner"][0]
        for kind, s, v in cur:
            key = s.vars.get(("id", d["id"], self.curframe)) if d else None
            if key is not None and isinstance(s.vars[key], IterV) and s.vars[key].kind == "map": outs += self.mapfor(b, s, key, d, cond, inc, body); continue
            def idx(s, key=key):
                if key is None: return None
                v = s.vars[key]; return v.pos if isinstance(v, IterV) else v
            def c(s): return [x for s1, v1 in (self.ev(cond, s) if cond else [(s, z3.BoolVal(True))]) for x in self.split(s1, self.truth(v1))]
            def step(s): return [s2 for s2, _ in (self.evx(inc, s) if inc else [(s, None)])]
            # counting upwards from the initial value keeps the position at or above it
            lower = idx(s)
            def post(h, lower=lower):
                p = idx(h)
                up = inc and inc.get("opcode") == "++" or (inc and inc.get("kind") == "CXXOperatorCallExpr" and "operator++" in str(self.callee(inc).get("referencedDecl", {}).get("name")))
                return [p >= lower] if p is not None and lower is not None and up and z3.is_expr(p) and p.sort() == I else []
            outs += self.cutloop(b, s, self.spec_for(b), step, c, lambda s: self.run(body, s), idx, post, {"lower": lower})
        return outs
    def mapfor(self, b, st, key, d, cond, inc, body):
        """for (it = m.begin(); it != m.end(); it++): every key once, in any order"""
        def names(e, n): return e is not None and (e.get("referencedDecl", {}).get("id") == n or any(names(c, n) for c in e.get("inner", []) if c))
        def opname(e): return str((self.callee(e) or {}).get("referencedDecl", {}).get("name")) if e and e.get("kind") == "CXXOperatorCallExpr" else ""
        def calls(e):
            if e is None: return set()
            r = {e.get("name")} if e.get("kind") == "MemberExpr" else set()
            for c in e.get("inner", []): r |= calls(c) if c else set()
            return r
        init = b["inner"][0]
        while cond.get("kind") in ("ExprWithCleanups",): cond = cond["inner"][0]
        if not ("operator++" in opname(inc) and names(inc, d["id"]) and opname(cond).split("::")[-1] in ("operator!=", "operator==") and names(cond, d["id"]) and calls(cond) & {"end", "cend"} and calls(init) & {"begin", "cbegin"}): raise Unsupported("iterator loop over a map")
        lv = st.vars[key].lv; val = self.read(st, lv); dsort = val.dom.sort().domain(); ik = ("I", next(self.frame)); s = st.copy(); s.vars[ik] = z3.K(dsort, z3.BoolVal(False)); kt = z3.Const(fresh_name("key"), dsort); s.vars[key] = IterV("map", lv, kt, z3.BoolVal(True))
        def c(s1):
            m = self.read(s1, lv); k = z3.Const(fresh_name("k"), dsort)
            more = s1.add(z3.And(z3.Select(m.dom, kt), z3.Not(z3.Select(s1.vars[ik], kt)))); done = s1.add(z3.ForAll([k], z3.Select(m.dom, k) == z3.Select(s1.vars[ik], k), patterns=[z3.Select(m.dom, k)]))
            return [(more, True), (done, False)]
        def bodyf(s1):
            out = self.run(body, s1)
            for kind, s2, v in out:
                if s2.vars[key] is not s1.vars[key]: raise Unsupported("the iterator is moved inside the loop")
            return out
        def step(s1): self.record(ik, ()); s2 = s1.copy(); s2.vars[ik] = z3.Store(s1.vars[ik], kt, z3.BoolVal(True)); return [s2]
        return self.cutloop(b, s, self.spec_for(b), step, c, bodyf, lambda s1: s1.vars[ik], None, {"key": kt})
    def s_WhileStmt(self, b, st):
        cond, body = b["inner"][-2], b["inner"][-1]
        def c(s): return [x for s1, v1 in self.ev(cond, s) for x in self.split(s1, self.truth(v1))]
        return self.cutloop(b, st, self.spec_for(b), lambda s: [s], c, lambda s: self.run(body, s), lambda s: None)
    def s_CXXForRangeStmt(self, b, st):
        inner = b["inner"]; rng = inner[1] if inner[0] is None or not inner[0] else inner[0]
        decls = [c for c in inner if c and c.get("kind") == "DeclStmt"]
        rdecl = decls[0]["inner"][0]; vdecl = decls[-1]["inner"][0]; body = inner[-1]; outs = []
        rinit = [c for c in rdecl["inner"]][0]
        for s, r in self.evx(rinit, st):
            if not isinstance(r, LV):
                k = ("R", next(self.frame)); s = s.copy(); s.vars[k] = r; r = LV(("var", k))
            val = self.read(s, r)
            if isinstance(val, OptV): raise Unsupported("range over optional")
            isref = vdecl["type"]["qualType"].strip().endswith("&")
            ik = ("I", next(self.frame)); s = s.copy()
            if isinstance(val, VecV):
                s.vars[ik] = z3.IntVal(0)
                def cond(s1): return self.split(s1, s1.vars[ik] < self.read(s1, r).len)
                def bodyf(s1): return self.bindrun(vdecl, isref, r.sub(("i", s1.vars[ik]), None), body, s1)
                def step(s1): self.record(ik, ()); s2 = s1.copy(); s2.vars[ik] = s1.vars[ik] + 1; return [s2]
                def post(h): return [h.vars[ik] >= 0, h.vars[ik] <= self.read(h, r).len]
                outs += self.cutloop(b, s, self.spec_for(b), step, cond, bodyf, lambda s1: s1.vars[ik], post, {"rng": r, "lower": z3.IntVal(0)})
            elif isinstance(val, MapV):
                dsort = val.dom.sort().domain(); s.vars[ik] = z3.K(dsort, z3.BoolVal(False))     # visited keys
                kt = z3.Const(fresh_name("key"), dsort)
                def cond(s1):
                    m = self.read(s1, r); k = z3.Const(fresh_name("k"), dsort)
                    more = s1.add(z3.And(z3.Select(m.dom, kt), z3.Not(z3.Select(s1.vars[ik], kt)))); done = s1.add(z3.ForAll([k], z3.Select(m.dom, k) == z3.Select(s1.vars[ik], k), patterns=[z3.Select(m.dom, k)]))
                    return [(more, True), (done, False)]
                def bodyf(s1):
                    if vdecl["kind"] == "DecompositionDecl":
                        bd = [c for c in vdecl["inner"] if c["kind"] == "BindingDecl"]; s2 = s1.copy()
                        for c, v in zip(bd, (kt, r.sub(("i", kt), None))):
                            key = ("L", c["id"], c["name"], self.curframe if self.curframe != self.topframe else 0); s2.vars[key] = v; s2.vars[("id", c["id"], self.curframe)] = key
                        return self.run(body, s2)
                    # element pair: a record view
                    key = ("L", vdecl["id"], vdecl.get("name", "_"), self.curframe if self.curframe != self.topframe else 0); s2 = s1.copy()
                    s2.vars[key] = IterV("map", r, kt, z3.BoolVal(True)); s2.vars[("id", vdecl["id"], self.curframe)] = key
                    return self.run(body, s2)
                def step(s1): self.record(ik, ()); s2 = s1.copy(); s2.vars[ik] = z3.Store(s1.vars[ik], kt, z3.BoolVal(True)); return [s2]
                outs += self.cutloop(b, s, self.spec_for(b), step, cond, bodyf, lambda s1: s1.vars[ik], None, {"rng": r, "key": kt})
            else: raise Unsupported("range over " + str(type(val)))
        return outs
    def bindrun(self, vdecl, isref, lv, body, s1):
        if vdecl["kind"] == "DecompositionDecl":
            bd = [c for c in vdecl["inner"] if c["kind"] == "BindingDecl"]; s2 = s1.copy(); r = self.read(s1, lv)
            for c, f in zip(bd, list(r.f)):
                key = ("L", c["id"], c["name"], self.curframe if self.curframe != self.topframe else 0); s2.vars[key] = lv.sub(("f", f), None); s2.vars[("id", c["id"], self.curframe)] = key
            return self.run(body, s2)
        key = ("L", vdecl["id"], vdecl.get("name", "_"), self.curframe if self.curframe != self.topframe else 0); s2 = s1.copy()
        s2.vars[key] = lv if isref else self.read(s1, lv); s2.vars[("id", vdecl["id"], self.curframe)] = key; self.record(key, ())
        return self.run(body, s2)

def same_vars(a, b):
    if len(a.vars) != len(b.vars): return False
    for k, v in a.vars.items():
        if b.vars.get(k) is not v: return False
    return True
_hq = {}
def has_quant(c):
    i = c.get_id()
    if i in _hq: return _hq[i][0]
    todo = [c]
    while todo:
        x = todo[-1]; i = x.get_id()
        if i in _hq: todo.pop(); continue
        if z3.is_quantifier(x): _hq[i] = (True, x); todo.pop(); continue
        ch = x.children(); wait = [y for y in ch if y.get_id() not in _hq]
        if wait: todo += wait; continue
        _hq[i] = (any(_hq[y.get_id()][0] for y in ch), x); todo.pop()
    return _hq[c.get_id()][0]
