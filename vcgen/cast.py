"""Extraction: clang's typed AST of /repo's translation units (JSON), indexed by function.  Nothing is edited or hand-copied."""
import json, os, subprocess, re, glob, hashlib, sys, concurrent.futures as cf

FLAGS = ["-std=c++17", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-pthread", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json"]

def capnp_headers(repo, scratch):
    gen = os.path.join(scratch, "vgen", "capnp"); os.makedirs(gen, exist_ok=True)
    schemas = sorted(glob.glob(repo + "/include/capnp/*.capnp"))
    subprocess.run(["capnp", "compile", "-oc++:" + gen, "--src-prefix=" + repo + "/include/capnp"] + schemas, check=True)
    return os.path.join(scratch, "vgen")

def dump(repo, f, scratch, flt="TrRouting"):
    inc = ["-I" + repo + "/include", "-I" + repo + "/connection_scan_algorithm/include"]
    if scratch and os.path.isdir(os.path.join(scratch, "vgen")): inc = ["-I" + os.path.join(scratch, "vgen")] + inc
    r = subprocess.run(["clang++"] + FLAGS + inc + ["-Xclang", "-ast-dump-filter=" + flt, os.path.join(repo, f)], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("clang: " + r.stderr[-2000:])
    return r.stdout

def docs(text):
    d = json.JSONDecoder(); i = 0; n = len(text); out = []
    while True:
        while i < n and text[i] in " \n\r\t": i += 1
        if i >= n: return out
        if text[i] != "{":                       # "Dumping X:" lines
            j = text.find("\n", i); i = n if j < 0 else j; continue
        o, i = d.raw_decode(text, i); out.append(o)

class TU:
    """one translation unit"""
    def __init__(self, name, text):
        self.name = name; self.byid = {}; self.fn = {}; self.cls = {}; self.enum = {}; self.glob = {}; self.qual = {}
        self.curline = None
        for o in docs(text): self.walk(o, "")
    def walk(self, o, scope):
        k = o.get("kind"); i = o.get("id")
        if i: self.byid[i] = o
        # clang's dump gives a line only when it changes: carry it along
        for l in (o.get("loc"), (o.get("range") or {}).get("begin"), (o.get("range") or {}).get("end")):
            for z in (l or {}, (l or {}).get("spellingLoc") or {}, (l or {}).get("expansionLoc") or {}):
                if "line" in z: self.curline = z["line"]
            if l and o.get("_line") is None and l is not o.get("loc"): o["_line"] = self.curline
        n = o.get("name")
        if k == "NamespaceDecl": q = (scope + "::" + n) if scope else (n or "")
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            q = (scope + "::" + (n or "?")) if scope else (n or "?")
            if o.get("completeDefinition"): self.cls.setdefault(q, o)
        elif k == "EnumDecl":
            q = (scope + "::" + (n or "?")); v = 0
            for c in o.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    x = const_value(c); v = x if x is not None else v
                    self.enum[c["id"]] = (q, c["name"], v); v += 1
        else: q = scope
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            par = o.get("parentDeclContextId"); qn = scope
            if par and par in self.qual: qn = self.qual[par]
            o["_q"] = (qn + "::" + n) if qn else n; o["_tu"] = self
            if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in o.get("inner", [])): self.fn.setdefault(o["_q"], []).append(o)
            o["_scope"] = qn
        if i and k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "EnumDecl"): self.qual[i] = q; o["_q"] = q
        if k == "VarDecl":
            qn = self.qual.get(o.get("parentDeclContextId"), scope); o["_q"] = (qn + "::" + (n or "")) if qn else n
        for c in o.get("inner", []):
            if isinstance(c, dict) and c: self.walk(c, q)

def const_value(o):
    for c in o.get("inner", []):
        if c.get("kind") == "ConstantExpr" and "value" in c: return int(c["value"])
        r = const_value(c)
        if r is not None: return r
        if c.get("kind") == "IntegerLiteral": return int(c["value"])
    return None

class Program:
    def __init__(self, repo, files, scratch, jobs=8):
        self.repo = repo; self.tus = {}; self.defs = {}; self.cls = {}; self.bymangled = {}
        with cf.ThreadPoolExecutor(jobs) as ex: texts = list(ex.map(lambda f: dump(repo, f, scratch), files))
        for f, t in zip(files, texts):
            tu = TU(f, t); self.tus[f] = tu
            for q, os_ in tu.fn.items():
                for o in os_:
                    m = o.get("mangledName") or q
                    self.bymangled.setdefault(m, o); self.defs.setdefault(q, [])
                    if all((x.get("mangledName") or q) != m for x in self.defs[q]): self.defs[q].append(o)
            for q, o in tu.cls.items(): self.cls.setdefault(q, o)
        for tu in self.tus.values():
            for i, v in tu.enum.items(): pass
    def definition(self, decl):
        """definition of a (possibly only declared) function"""
        m = decl.get("mangledName")
        if m and m in self.bymangled: return self.bymangled[m]
        return None
    def find(self, q, nparams=None):
        c = [o for o in self.defs.get(q, []) if nparams is None or len(params(o)) == nparams]
        return c[0] if c else None

def params(fn): return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
def body(fn):
    for c in fn.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"): return c
    return None
