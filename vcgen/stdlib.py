"""Axiomatic models of the standard-library operations the extracted functions use (trusted; listed in the evidence)."""
import z3
from values import *
import cast as C
from sym import Executor, IterV, LV, Throw, State, same_vars, Fun

def rd(ex, s, v): return ex.read(s, v) if isinstance(v, LV) else v

class StdExecutor(Executor):
    def bound(self, s, name, goal, e):
        if self.bounds: self.oblige(s, name, goal, self.where(e), "bounds")
        return s.add(goal)
    def asval(self, st, b):
        """an lvalue for a possibly temporary object"""
        return b if isinstance(b, LV) else LV(("val", b))

    # ---- operators ---------------------------------------------------------------------------
    def e_CXXOperatorCallExpr(self, e, st):
        c = self.callee(e); args = e["inner"][1:]
        d = c.get("referencedDecl") or {}; n = d.get("name", ""); full = self.decl(d) or d
        op = n[len("operator"):].strip()
        if op == "<<": return [(st, ("stream",))]
        if "TrRouting" in full.get("_q", "") and self.prog.definition(full) is not None and op != "=":
            q = full["_q"]
            if full.get("kind") == "CXXMethodDecl":
                out = []
                for s, b in self.evx(args[0], st): out += self.call(q, n, full, (b, args[0]), args[1:], e, s)
                return out
            return self.call(q, n, full, None, args, e, st)
        out = []
        if op == "=":
            for s, v in self.evx(args[1], st):
                val = rd(self, s, v)
                if isinstance(val, Fun): out.append((s, val)); continue
                for s2, lv in self.evx(args[0], s):
                    if not isinstance(lv, LV): raise Unsupported("assignment target line %s" % self.where(e))
                    out.append((self.assign(s2, lv, val, args[0], args[1]), lv))
            return out
        if op == "()":
            for s, vs in self.evs(args, st):
                f = rd(self, s, vs[0])
                if not isinstance(f, Fun): raise Unsupported("call operator")
                out += self.calllambda(f, vs[1:], s, e)
            return out
        for s, vs in self.evs(args, st):
            r = [rd(self, s, v) for v in vs]
            out += self.opcall(op, s, vs, r, args, e)
        return out
    def assign(self, s, lv, val, targ=None, varg=None):
        t = None
        try: t = self.ty(targ["type"]) if targ is not None else None
        except Unsupported: pass
        if t is not None and t.k == "opt":
            if val is None: val = OptV(z3.BoolVal(False), fresh(t.t, "none"))
            elif not isinstance(val, OptV): val = OptV(z3.BoolVal(True), val)
        if t is not None and t.k == "opaque": return s
        return self.write(s, lv, val)
    def opcall(self, op, s, vs, r, args, e):
        x = r[0]; y = r[1] if len(r) > 1 else None
        if op == "[]":
            if isinstance(x, VecV):
                s = self.bound(s, "index inside the vector", z3.And(0 <= y, y < x.len), e)
                return [(s, self.asval(s, vs[0]).sub(("i", y), None))]
            if isinstance(x, MapV):
                t = self.ty(args[0]["type"]); lv = vs[0]
                d = default(t.t) if t.t.k not in ("rec",) else self.aggregate_default(t.t, None, s)[0][1]
                n = MapV(z3.Store(x.dom, y, z3.BoolVal(True)), store(x.el, y, vite(z3.Select(x.dom, y), select(x.el, y), d)), z3.If(z3.Select(x.dom, y), x.size, x.size + 1))
                s2 = self.write(s, lv, n); return [(s2, lv.sub(("i", y), None))]
            if z3.is_expr(x) and z3.is_expr(y): return [(s, z3.Function("str.at", I, I, I)(x, y))]
            raise Unsupported("operator[] line %s" % self.where(e))
        if op == "*" and len(args) == 1: return self.deref(s, x, vs[0], e)
        if op == "->": 
            if isinstance(x, IterV): return [(s, x)]
            return [(s, vs[0])]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if op in ("==", "!=") : return [(s, self.binop(op, x, y))]
            if isinstance(x, IterV): x, y = x.pos, y.pos
            return [(s, self.binop(op, x, y))]
        if op in ("++", "--"):
            if not isinstance(x, IterV): raise Unsupported("operator" + op)
            n = self.iterstep(s, x, 1 if op == "++" else -1); s2 = self.write(s, vs[0], n)
            return [(s2, x if len(args) > 1 else vs[0])]
        if op in ("+", "-"):
            if isinstance(x, IterV): return [(s, self.binop(op, x, y))]
            if z3.is_expr(x) and z3.is_expr(y): return [(s, z3.Function("str.cat", I, I, I)(x, y))]
        if op in ("+=", "-="):
            if isinstance(x, IterV):
                n = self.binop(op[0], x, y); return [(self.write(s, vs[0], n), vs[0])]
            if z3.is_expr(x) and op == "+=":
                yv = y if z3.is_expr(y) and y.sort() == I else z3.Int(fresh_name("str"))
                return [(self.write(s, vs[0], z3.Function("str.cat", I, I, I)(x, yv)), vs[0])]
        if op == "!": return [(s, z3.Not(self.truth(x)))]
        if op == "bool": return [(s, self.truth(x))]
        raise Unsupported("operator%s line %s" % (op, self.where(e)))
    def calllambda(self, f, vs, s, e):
        node = f.node; body = None; ps = []; 
        rec_ = [c for c in node["inner"] if c["kind"] == "CXXRecordDecl"][0]
        m = [c for c in rec_["inner"] if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()"][0]
        ps = C.params(m); body = C.body(m) or [c for c in node["inner"] if c["kind"] == "CompoundStmt"][-1]
        fr = self.curframe; s1 = s.copy()
        for p, v in zip(ps, vs):
            isref = p["type"]["qualType"].strip().endswith("&")
            if isinstance(v, LV) and not isref: v = self.read(s1, v)
            key = ("L", p["id"], p.get("name", "_"), fr if fr != self.topframe else 0); s1.vars[key] = v; s1.vars[("id", p["id"], fr)] = key
        out = []
        for kind, s2, v in self.run(body, s1):
            if kind in ("next", "return"): out.append((s2, v if v is not None else z3.IntVal(0)))
            else: raise Unsupported("outcome of lambda")
        return out

    # ---- methods --------------------------------------------------------------------------------
    def std_method(self, s, b, n, x, args, e, c):
        real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        r = rd(self, s, b)
        if isinstance(r, IterV) and c.get("isArrow"):
            b = self.deref(s, r, b, e)[0][1]; r = rd(self, s, b)
        elif isinstance(r, OptV) and c.get("isArrow"):
            b = self.deref(s, r, b, e)[0][1]; r = rd(self, s, b)
        out = []
        for s1, vs in self.evs(real, s):
            # the receiver may have been changed by argument evaluation
            r1 = rd(self, s1, b) if isinstance(b, LV) else r
            out += self.stdm(s1, b, r1, n, x, vs, real, e)
        return out
    def stdm(self, s, b, r, n, x, vs, args, e):
        v = [rd(self, s, a) for a in vs]; nope = lambda: Unsupported("method %s line %s" % (n, self.where(e)))
        lv = self.asval(s, b); zero = z3.IntVal(0)
        if isinstance(r, VecV):
            if n in ("size", "length"): return [(s, r.len)]
            if n == "empty": return [(s, r.len == 0)]
            if n == "at":
                s = self.bound(s, "index inside the vector", z3.And(0 <= v[0], v[0] < r.len), e); return [(s, lv.sub(("i", v[0]), None))]
            if n in ("begin", "cbegin"): return [(s, IterV("vec", lv, zero))]
            if n in ("end", "cend"): return [(s, IterV("vec", lv, r.len))]
            if n == "back":
                s = self.bound(s, "back of a non-empty vector", r.len > 0, e); return [(s, lv.sub(("i", r.len - 1), None))]
            if n == "front":
                s = self.bound(s, "front of a non-empty vector", r.len > 0, e); return [(s, lv.sub(("i", zero), None))]
            if n in ("push_back", "emplace_back"):
                val = storable(v[0]) if len(v) == 1 else None
                t = self.ty(x["type"]); t = t.t if t.k == "ptr" else t
                if val is None and n == "emplace_back": raise nope()
                if t.t.k == "opt" and not isinstance(val, OptV): val = OptV(z3.BoolVal(val is not None), val if val is not None else fresh(t.t.t, "none"))
                return [(self.write(s, lv, VecV(r.len + 1, store(r.el, r.len, val))), zero)]
            if n == "push_front":
                s, el = self.shifted(s, r, zero, z3.IntVal(1)); el = store(el, zero, storable(v[0]))
                return [(self.write(s, lv, VecV(r.len + 1, el)), zero)]
            if n == "pop_back":
                s = self.bound(s, "pop_back of a non-empty vector", r.len > 0, e); return [(self.write(s, lv, VecV(r.len - 1, r.el)), zero)]
            if n == "clear": return [(self.write(s, lv, VecV(zero, r.el)), zero)]
            if n in ("reserve", "shrink_to_fit"): return [(s, zero)]
            if n == "assign" and len(v) == 2 and z3.is_expr(v[0]):
                self_ok = v[0] >= 0; s = self.bound(s, "size passed to assign is not negative", self_ok, e)
                return [(self.write(s, lv, VecV(v[0], vmap2(r.el, v[1], lambda a, y: z3.K(I, y)))), zero)]
            if n == "resize":
                t = self.ty(x["type"]); d = v[1] if len(v) > 1 else (default(t.t) if t.t.k != "rec" else self.aggregate_default(t.t, None, s)[0][1])
                s = self.bound(s, "size passed to resize is not negative", v[0] >= 0, e)
                el, facts = self.extended(r, d, v[0]); s2 = s
                for f in facts: s2 = s2.add(f)
                return [(self.write(s2, lv, VecV(v[0], el)), zero)]
            if n == "insert" and isinstance(v[0], IterV) and len(v) == 2:
                p = v[0].pos; s, el = self.shifted(s, r, p, z3.IntVal(1)); el = store(el, p, storable(v[1]))
                s = self.bound(s, "insert position inside the vector", z3.And(0 <= p, p <= r.len), e)
                return [(self.write(s, lv, VecV(r.len + 1, el)), IterV("vec", lv, p))]
            if n == "erase" and isinstance(v[0], IterV):
                p = v[0].pos; q = v[1].pos if len(v) > 1 else p + 1
                s = self.bound(s, "erased range inside the vector", z3.And(0 <= p, p <= q, q <= r.len), e)
                s, el = self.shifted(s, r, p, p - q)
                return [(self.write(s, lv, VecV(r.len - (q - p), el)), IterV("vec", lv, p))]
        if isinstance(r, MapV):
            if n == "size": return [(s, r.size)]
            if n == "empty": return [(s, r.size == 0)]
            if n == "count": return [(s, z3.If(z3.Select(r.dom, v[0]), z3.IntVal(1), zero))]
            if n == "contains": return [(s, z3.Select(r.dom, v[0]))]
            if n == "find": return [(s, IterV("map", lv, v[0], z3.Select(r.dom, v[0])))]
            if n in ("end", "cend"): return [(s, IterV("map", lv, z3.Const(fresh_name("endk"), r.dom.sort().domain()), z3.BoolVal(False)))]
            if n in ("begin", "cbegin"):
                k = z3.Const(fresh_name("firstk"), r.dom.sort().domain()); q = z3.Const(fresh_name("k"), r.dom.sort().domain())
                ne = z3.Select(r.dom, k); s = s.add(z3.Or(ne, z3.ForAll([q], z3.Not(z3.Select(r.dom, q)), patterns=[z3.Select(r.dom, q)])))
                return [(s, IterV("map", lv, k, ne))]
            if n == "at":
                s = self.bound(s, "key present in the map", z3.Select(r.dom, v[0]), e); return [(s, lv.sub(("i", v[0]), None))]
            if n in ("emplace", "insert", "insert_or_assign", "try_emplace"):
                if len(v) == 1:
                    if not isinstance(v[0], RecV) and self.ty(x["type"]).t.k == "unit": k, val = v[0], zero
                    else: k, val = v[0].f["first"], v[0].f["second"]
                else: k, val = v[0], v[1]
                t = self.ty(x["type"]); t = t.t if t.k == "ptr" else t
                if t.t.k == "opt" and not isinstance(val, OptV): val = OptV(z3.BoolVal(True), val)
                has = z3.Select(r.dom, k); old = select(r.el, k)
                nv = val if n == "insert_or_assign" else vite(has, old, val)
                m = MapV(z3.Store(r.dom, k, z3.BoolVal(True)), store(r.el, k, nv), z3.If(has, r.size, r.size + 1))
                return [(self.write(s, lv, m), RecV("pair", {"first": IterV("map", lv, k, z3.BoolVal(True)), "second": z3.Not(has)}))]
            if n == "erase" and not isinstance(v[0], IterV):
                has = z3.Select(r.dom, v[0])
                return [(self.write(s, lv, MapV(z3.Store(r.dom, v[0], z3.BoolVal(False)), r.el, z3.If(has, r.size - 1, r.size))), zero)]
            if n == "clear": return [(self.write(s, lv, MapV(z3.K(r.dom.sort().domain(), z3.BoolVal(False)), r.el, zero)), zero)]
            if n in ("reserve",): return [(s, zero)]
        if isinstance(r, OptV):
            if n == "has_value": return [(s, r.has)]
            if n in ("value",):
                s = self.bound(s, "optional read only when set", r.has, e); return [(s, lv.sub(("o",), None))]
            if n == "get": return [(s, b)]        # smart pointer
            if n == "value_or": return [(s, vite(r.has, r.val, v[0]))]
            if n == "reset": return [(self.write(s, lv, OptV(z3.BoolVal(False), r.val)), zero)]
            if n == "emplace": return [(self.write(s, lv, OptV(z3.BoolVal(True), v[0])), zero)]
        if r is None and n in ("get", "has_value"): return [(s, None)]
        if isinstance(r, RecV) and n == "get": return [(s, b)]      # reference_wrapper of a record
        if z3.is_expr(r) and r.sort() == I:
            if n == "get": return [(s, b)]
            t = None
            try: t = self.ty(x["type"])
            except Unsupported: pass
            if t is not None and t.k == "str":
                f = lambda nm, srt: z3.Function("str." + nm + "".join("_i" for _ in v), *([I] + [a.sort() for a in v if z3.is_expr(a)] + [srt]))(r, *[a for a in v if z3.is_expr(a)])
                if n in ("size", "length"):
                    q = f("size", I); return [(s.add(q >= 0), q)]
                if n == "empty": return [(s, z3.Function("str.size", I, I)(r) == 0)]
                if n in ("c_str", "data"): return [(s, r)]
                if n in ("find", "compare", "substr"): return [(s, f(n, I))]
                if n in ("pop_back", "clear", "append", "push_back"): return [(self.write(s, lv, f(n, I)), zero)]
            if t is not None and t.k == "ent" and n == "reset": return [(self.write(s, lv, z3.IntVal(-1)), zero)]
        if z3.is_expr(r) and n in ("load",): return [(s, r)]
        raise nope()
    def shifted(self, s, r, p, d):
        """elements with those at and after p moved by d (fresh arrays with their defining axioms)"""
        facts = []; j = z3.Int(fresh_name("j")); back = z3.If(d < 0, d, z3.IntVal(0))
        def f(a, path):
            n = z3.Const(fresh_name("shift"), a.sort())
            if not z3.is_const(a) and a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                b = z3.Const(fresh_name("before"), a.sort()); facts.append(b == a); a = b
            facts.append(z3.ForAll([j], z3.Select(n, j) == z3.If(j < p, z3.Select(a, j), z3.Select(a, j - d)), patterns=[z3.Select(n, j)]))
            facts.append(z3.ForAll([j], z3.Implies(j < p, z3.Select(n, j) == z3.Select(a, j)), patterns=[z3.Select(a, j)]))
            facts.append(z3.ForAll([j], z3.Implies(j >= p - back, z3.Select(n, j + d) == z3.Select(a, j)), patterns=[z3.Select(a, j)]))
            return n
        el = vmap(r.el, f)
        for x in facts: s = s.add(x)
        return s, el
    def extended(self, r, d, n):
        facts = []; j = z3.Int(fresh_name("j"))
        def f(a, y):
            q = z3.Const(fresh_name("resized"), a.sort())
            facts.append(z3.ForAll([j], z3.Select(q, j) == z3.If(j < r.len, z3.Select(a, j), y), patterns=[z3.Select(q, j)])); return q
        return vmap2(r.el, d, f), facts

    # ---- free functions -----------------------------------------------------------------------------
    def vals(self, st, args):
        return [(s, [rd(self, s, v) for v in vs]) for s, vs in self.evs(args, st)]
    def f_min(self, st, args, e):
        return [(s, z3.If(v[1] < v[0], v[1], v[0])) for s, v in self.vals(st, args)]
    def f_max(self, st, args, e):
        if not args: raise Unsupported("numeric_limits")
        return [(s, z3.If(v[0] < v[1], v[1], v[0])) for s, v in self.vals(st, args)]
    def f_ceil(self, st, args, e):
        return [(s, z3.ToReal(-z3.ToInt(-v[0]))) for s, v in self.vals(st, args)]
    f_ceilf = f_ceil
    def f_floor(self, st, args, e): return [(s, z3.ToReal(z3.ToInt(v[0]))) for s, v in self.vals(st, args)]
    def f_abs(self, st, args, e): return [(s, z3.If(v[0] < 0, -v[0], v[0])) for s, v in self.vals(st, args)]
    def f_sqrt(self, st, args, e): return [(s, z3.Function("sqrt", R, R)(v[0])) for s, v in self.vals(st, args)]
    def f_cos(self, st, args, e): return [(s, z3.Function("cos", R, R)(v[0])) for s, v in self.vals(st, args)]
    def f_pow(self, st, args, e): return [(s, z3.Function("pow", R, R, R)(*[a if a.sort() == R else z3.ToReal(a) for a in v])) for s, v in self.vals(st, args)]
    def ident(self, st, args, e): return self.evx(args[0], st)
    f_cref = f_ref = f_move = f_forward = f_as_const = ident
    def f_make_shared(self, st, args, e):
        t = self.ty(e["type"]); t = t.t if t.k == "opt" else t
        m = self.models.get("make:" + (t.cls if t.k == "ent" else t.name)); out = []
        if m is None and t.k == "rec":      # the constructor as written; the object is owned by the pointer
            b = self.variantof(t.name); bt = self.classty("TrRouting::" + b, b) if b and b != t.name else None
            for s, r in self.construct(t, e, args, st):
                if bt: r = RecV(b, {f: (r.f[f] if f in r.f else fresh(ft, "unused_" + f)) for f, ft in bt.fields.items()})
                out.append((s, OptV(z3.BoolVal(True), r)))
            return out
        if m is None: raise Unsupported("make_shared of %r" % t)
        for s, v in self.vals(st, args): out += m(self, s, v)
        return out
    f_make_unique = f_make_shared
    def f_make_optional(self, st, args, e): return [(s, OptV(z3.BoolVal(True), v[0])) for s, v in self.vals(st, args)]
    def f_make_tuple(self, st, args, e): return [(s, RecV("tuple", {str(i): x for i, x in enumerate(v)})) for s, v in self.vals(st, args)]
    def f_make_pair(self, st, args, e): return [(s, RecV("pair", {"first": v[0], "second": v[1]})) for s, v in self.vals(st, args)]
    def f_get(self, st, args, e):
        # std::get<i>: the index is in the callee's template argument; resolved through the type of the expression when unique
        idx = self.template_index(e)
        return [(s, (v.sub(("f", str(idx)), None) if isinstance(v, LV) else v.f[str(idx)])) for s, v in self.evx(args[0], st)]
    def template_index(self, e):
        raise Unsupported("std::get")
    def f_distance(self, st, args, e): return [(s, v[1].pos - v[0].pos) for s, v in self.vals(st, args)]
    def f_find(self, st, args, e):
        """first position in [a, b) holding x"""
        out = []
        for s, v in self.vals(st, args):
            a, b, xx = v; vv = rd(self, s, a.lv); p = z3.Int(fresh_name("found")); j = z3.Int(fresh_name("j"))
            s = s.add(z3.And(a.pos <= p, p <= b.pos)); s = s.add(z3.Implies(p < b.pos, self.eq(select(vv.el, p), xx)))
            q = z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < p), z3.Not(self.eq(select(vv.el, j), xx))))
            s = s.add(q); out.append((s, IterV("vec", a.lv, p)))
        return out
    def lessof(self, s, f, el, e):
        """the comparator as a formula over two elements"""
        i0 = z3.Int(fresh_name("i0")); mk = lambda: vmap(select(el, i0), lambda a, p: z3.Const(fresh_name("cmp"), a.sort())); x, y = mk(), mk()
        if f is None: r = self.binop("<", x, y)
        else:
            ps = []; n = len(s.pc); thr = len(self.throws)
            for s2, v in self.calllambda(f, [x, y], s, e):
                v = rd(self, s2, v); ps.append(z3.And(list(s2.pc[n:]) + [v]))
            if len(self.throws) != thr: raise Unsupported("comparator that throws")
            r = z3.Or(ps)
        xs, ys = [l for _, l in leaves(x)], [l for _, l in leaves(y)]
        def less(a, b): return z3.substitute(r, *(list(zip(xs, [l for _, l in leaves(a)])) + list(zip(ys, [l for _, l in leaves(b)]))))
        return less, mk
    def sort(self, st, args, e, stable):
        out = []
        for s, v in self.vals(st, args):
            a, b = v[0], v[1]; f = v[2] if len(v) > 2 else None
            if not isinstance(a, IterV) or a.kind != "vec": raise Unsupported("sort")
            if f is not None and not isinstance(f, Fun): raise Unsupported("sort with a comparator object")
            vv = rd(self, s, a.lv); s = self.bound(s, "sorted range inside the vector", z3.And(0 <= a.pos, a.pos <= b.pos, b.pos <= vv.len), e)
            less, mk = self.lessof(s, f, vv.el, e); x, y, z = mk(), mk(), mk(); eqv = lambda a, b: z3.And(z3.Not(less(a, b)), z3.Not(less(b, a)))
            for n, g in (("irreflexive", z3.Not(less(x, x))), ("asymmetric", z3.Implies(less(x, y), z3.Not(less(y, x)))), ("transitive", z3.Implies(z3.And(less(x, y), less(y, z)), less(x, z))), ("a weak order", z3.Implies(z3.And(eqv(x, y), eqv(y, z)), eqv(x, z)))):
                self.oblige(s, "the order given to sort is " + n, g, self.where(e), "bounds")
            perm = z3.Function(fresh_name("perm"), I, I); inv = z3.Function(fresh_name("perminv"), I, I); i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
            new = vmap(vv.el, lambda a, p: z3.Const(fresh_name("sorted"), a.sort())); ins = lambda k: z3.And(a.pos <= k, k < b.pos); trig = lambda el, k: leaves(select(el, k))[0][1]
            s = s.add(z3.ForAll([i], z3.Implies(ins(i), z3.And(ins(perm(i)), inv(perm(i)) == i, veq(select(new, i), select(vv.el, perm(i))))), patterns=[trig(new, i)]))
            s = s.add(z3.ForAll([i], z3.Implies(ins(i), z3.And(ins(inv(i)), perm(inv(i)) == i, veq(select(new, inv(i)), select(vv.el, i)))), patterns=[trig(vv.el, i)]))
            s = s.add(z3.ForAll([i], z3.Implies(z3.Not(ins(i)), veq(select(new, i), select(vv.el, i))), patterns=[trig(new, i)]))
            s = s.add(z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, i < j, j < b.pos), z3.And(z3.Not(less(select(new, j), select(new, i))), *([z3.Implies(eqv(select(new, i), select(new, j)), perm(i) < perm(j))] if stable else []))), patterns=[z3.MultiPattern(trig(new, i), trig(new, j))]))
            self.sorts.append((perm, inv)); out.append((self.write(s, a.lv, VecV(vv.len, new)), z3.IntVal(0)))
        return out
    def f_sort(self, st, args, e): return self.sort(st, args, e, False)
    def f_stable_sort(self, st, args, e): return self.sort(st, args, e, True)
    def f_any(self, st, args, e): raise Unsupported("call")

    def thisrec(self, st, cls):
        """this as a record of arbitrary field values"""
        t = self.classty("TrRouting::" + cls, cls)
        fs = {}
        for f, ft in t.fields.items():
            try: fs[f] = fresh(ft, cls + "." + f) if ft.k != "opaque" else z3.Int(fresh_name(f))
            except Unsupported: fs[f] = z3.Int(fresh_name(f))
        st.vars["this"] = RecV(cls, fs); st.vars[("this",)] = LV(("var", "this")); st.vars[("thiscls",)] = cls
        return st.vars["this"]
    # ---- entry --------------------------------------------------------------------------------------
    def begin(self, fn):
        """state for verifying fn; fills parameters with arbitrary values"""
        self.curframe = self.topframe = next(self.frame); self.throws = []; self.cur_tu = fn["_tu"]; self.nloops = self.number_loops(fn); self.usedspecs = set()
        st = State({}, ()); self.params0 = {}
        return st
    def bindparams(self, st, fn, given=None):
        given = given or {}
        for p in C.params(fn):
            n = p.get("name", "_"); key = ("L", p["id"], n, 0)
            if n in given: v = given[n]
            else: v = fresh(self.ty(p["type"]), n)
            st.vars[key] = v; st.vars[("id", p["id"], self.curframe)] = key; self.params0[n] = v
        return st
