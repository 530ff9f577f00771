"""Types and symbolic values.  Containers are (length | domain, arrays lifted over the leaves of the element)."""
import z3, re, itertools
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
_ctr = itertools.count()
def fresh_name(p): return "%s!%d" % (p, next(_ctr))

class Ty:
    def __init__(self, k, **kw): self.k = k; self.__dict__.update(kw)
    def __repr__(self): return "%s(%s)" % (self.k, ",".join("%s=%r" % x for x in self.__dict__.items() if x[0] not in ("k", "fields")))
INT = Ty("int", bits=32, signed=True); BOOL = Ty("bool"); REAL = Ty("real"); STR = Ty("str"); UNIT = Ty("unit"); OPAQUE = Ty("opaque")
def ent(c): return Ty("ent", cls=c)
def opt(t): return Ty("opt", t=t)
def vec(t): return Ty("vec", t=t)
def mp(k, v, multi=False): return Ty("map", kt=k, t=v, multi=multi)
def rec(n, fields): return Ty("rec", name=n, fields=fields)

INTS = {"int": (32, True), "signed int": (32, True), "unsigned int": (32, False), "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "short": (16, True), "unsigned short": (16, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "size_t": (64, False), "std::size_t": (64, False), "ssize_t": (64, True), "int16_t": (16, True), "uint16_t": (16, False), "int8_t": (8, True), "uint8_t": (8, False), "int32_t": (32, True), "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False), "Node::uid_t": (32, True), "Trip::uid_t": (32, True), "uid_t": (32, True)}

def split_args(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Unsupported(Exception): pass

# ---- symbolic values -------------------------------------------------------------------------
class OptV:
    __slots__ = ("has", "val")
    def __init__(self, has, val): self.has = has; self.val = val
class VecV:
    __slots__ = ("len", "el")
    def __init__(self, len, el): self.len = len; self.el = el
class MapV:
    __slots__ = ("dom", "el", "size")
    def __init__(self, dom, el, size): self.dom = dom; self.el = el; self.size = size
class RecV:
    __slots__ = ("name", "f")
    def __init__(self, name, f): self.name = name; self.f = f
class IterV:
    """iterator: vector position or map key"""
    __slots__ = ("kind", "lv", "pos", "ok", "rev")
    def __init__(self, kind, lv, pos, ok=None, rev=False): self.kind = kind; self.lv = lv; self.pos = pos; self.ok = ok; self.rev = rev
class LV:
    """lvalue: root ('var', key) or ('ent', cls, idterm) or ('val', value); path of ('f',name) ('i',term) ('o',)"""
    __slots__ = ("root", "path", "ty")
    def __init__(self, root, path=(), ty=None): self.root = root; self.path = tuple(path); self.ty = ty
    def sub(self, step, ty): return LV(self.root, self.path + (step,), ty)
    def __repr__(self): return "LV%r%r" % (self.root, self.path)
class Fun:
    """lambda or other opaque callable"""
    def __init__(self, node, env): self.node = node; self.env = env

def lift(srt, lifts):
    for k in reversed(lifts): srt = z3.ArraySort(k, srt)
    return srt
def keysort(t): return B if t.k == "bool" else R if t.k == "real" else I

def build(ty, mk, name, lifts=()):
    """value of type ty whose leaves are mk(name, sort)"""
    k = ty.k
    if k in ("int", "ent", "str", "opaque"): return mk(name, lift(I, lifts))
    if k == "bool": return mk(name, lift(B, lifts))
    if k == "real": return mk(name, lift(R, lifts))
    if k == "unit": return mk(name, lift(I, lifts))
    if k == "iter": return RecV("iter", {"pos": mk(name + ".pos", lift(I, lifts)), "home": mk(name + ".home", lift(I, lifts))})
    if k == "opt": return OptV(mk(name + ".has", lift(B, lifts)), build(ty.t, mk, name + ".val", lifts))
    if k == "vec": return VecV(mk(name + ".len", lift(I, lifts)), build(ty.t, mk, name + ".el", tuple(lifts) + (I,)))
    if k == "map": return MapV(mk(name + ".dom", lift(B, tuple(lifts) + (keysort(ty.kt),))), build(ty.t, mk, name + ".el", tuple(lifts) + (keysort(ty.kt),)), mk(name + ".size", lift(I, lifts)))
    if k == "rec": return RecV(ty.name, {f: build(t, mk, name + "." + f, lifts) for f, t in ty.fields.items()})
    raise Unsupported("build " + repr(ty))
_homes = {}
def home(lv):
    """number standing for the container an iterator belongs to"""
    return z3.IntVal(_homes.setdefault(repr(lv), len(_homes) + 1))
def storable(v):
    """an iterator as a value that can be kept in a container"""
    return RecV("iter", {"pos": v.pos, "home": home(v.lv)}) if isinstance(v, IterV) and v.kind == "vec" else v
def fresh(ty, name): return build(ty, lambda n, s: z3.Const(fresh_name(n), s), name)

def vmap(v, f, path=()):
    if isinstance(v, OptV): return OptV(f(v.has, path + ("has",)), vmap(v.val, f, path + ("val",)))
    if isinstance(v, VecV): return VecV(f(v.len, path + ("len",)), vmap(v.el, f, path + ("el",)))
    if isinstance(v, MapV): return MapV(f(v.dom, path + ("dom",)), vmap(v.el, f, path + ("el",)), f(v.size, path + ("size",)))
    if isinstance(v, RecV): return RecV(v.name, {k: vmap(x, f, path + (k,)) for k, x in v.f.items()})
    if isinstance(v, (IterV, Fun, LV)) or v is None: return v
    return f(v, path)
def vmap2(a, b, f):
    if isinstance(a, OptV): return OptV(f(a.has, b.has), vmap2(a.val, b.val, f))
    if isinstance(a, VecV): return VecV(f(a.len, b.len), vmap2(a.el, b.el, f))
    if isinstance(a, MapV): return MapV(f(a.dom, b.dom), vmap2(a.el, b.el, f), f(a.size, b.size))
    if isinstance(a, RecV): return RecV(a.name, {k: vmap2(a.f[k], b.f[k], f) for k in a.f})
    return f(a, b)
def leaves(v, path=()):
    out = []; vmap(v, lambda x, p: (out.append((p, x)), x)[1], path); return out
def select(el, i): return vmap(el, lambda a, p: z3.Select(a, i))
def store(el, i, v): return vmap2(el, v, lambda a, x: z3.Store(a, i, x))
def vite(c, a, b): return vmap2(a, b, lambda x, y: x if x.eq(y) else z3.If(c, x, y))
def veq(a, b):
    es = []; vmap2(a, b, lambda x, y: (es.append(x == y), x)[1]); return z3.And(es) if len(es) != 1 else es[0]
def default(ty):
    """value-initialised"""
    k = ty.k
    if k in ("int", "ent", "str", "unit", "opaque"): return z3.IntVal(0)
    if k == "bool": return z3.BoolVal(False)
    if k == "real": return z3.RealVal(0)
    if k == "opt": return OptV(z3.BoolVal(False), fresh(ty.t, "none"))
    if k == "vec": return VecV(z3.IntVal(0), build(ty.t, lambda n, s: z3.Const(fresh_name(n), s), "empty", (I,)))
    if k == "map": return MapV(z3.K(keysort(ty.kt), z3.BoolVal(False)), build(ty.t, lambda n, s: z3.Const(fresh_name(n), s), "empty", (keysort(ty.kt),)), z3.IntVal(0))
    raise Unsupported("default " + repr(ty))
