#!/usr/bin/env python3
"""Compile /repo's current working tree (copied mechanically, no edits) with the replay programs.
usage: build.py REPO OUT [san|tsan] [targets...]   Objects are keyed by a hash of the preprocessed inputs' contents (all headers)."""
import sys, os, subprocess, hashlib, glob, concurrent.futures as cf, shutil, fcntl
REPO, OUT = sys.argv[1], sys.argv[2]
SAN = sys.argv[3] if len(sys.argv) > 3 else ""
TARGETS = sys.argv[4:] or ["core", "wcache", "server"]
HERE = os.path.dirname(os.path.abspath(__file__))
os.makedirs(OUT, exist_ok=True)
lock = open(os.path.join(OUT, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
CXX = "g++"
opt = ["-O1", "-g1"] if not SAN else (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"] if SAN == "san" else ["-O1", "-g1", "-fsanitize=thread"])
gen = os.path.join(OUT, "gen", "capnp")
os.makedirs(gen, exist_ok=True)
schemas = sorted(glob.glob(REPO + "/include/capnp/*.capnp"))
hs = hashlib.sha256()
for s in schemas: hs.update(open(s, "rb").read())
stamp = os.path.join(gen, "stamp")
if not os.path.exists(stamp) or open(stamp).read() != hs.hexdigest():
    subprocess.run(["capnp", "compile", "-oc++:" + gen, "--src-prefix=" + REPO + "/include/capnp"] + schemas, check=True)
    open(stamp, "w").write(hs.hexdigest())
inc = ["-I" + os.path.join(OUT, "gen"), "-I" + REPO + "/include", "-I" + REPO + "/connection_scan_algorithm/include", "-I" + HERE]
flags = ["-std=c++17"] + opt + ["-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-pthread", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-w"] + inc
# header hash: everything that can be included from the repo, plus our own headers
hh = hashlib.sha256((" ".join(flags)).encode())
for pat in ("/include/*.hpp", "/include/capnp/*.capnp", "/connection_scan_algorithm/include/*.hpp", "/src/*.hpp", "/connection_scan_algorithm/src/*.hpp"):
    for f in sorted(glob.glob(REPO + pat)): hh.update(f.encode() + open(f, "rb").read())
for f in sorted(glob.glob(HERE + "/*.hpp")): own = open(f, "rb").read()
ownh = hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(glob.glob(HERE + "/*.hpp"))))
objdir = os.path.join(OUT, "obj" + SAN); os.makedirs(objdir, exist_ok=True)
def obj(src):
    h = hh.copy(); h.update(open(src, "rb").read())
    if src.startswith(HERE): h.update(ownh.digest())
    o = os.path.join(objdir, os.path.basename(src).replace(".", "_") + "_" + h.hexdigest()[:20] + ".o")
    return src, o
csa = [f for f in sorted(glob.glob(REPO + "/connection_scan_algorithm/src/*.cpp") + glob.glob(REPO + "/connection_scan_algorithm/src/parameters/*.cpp"))]
main = [f for f in csa if f.endswith("transit_routing_http_server.cpp")]
csa = [f for f in csa if f not in main]
src = sorted(glob.glob(REPO + "/src/*.cpp"))
base = [f for f in src if "cache_fetcher" not in f and not f.endswith("modes_initialization.cpp")]
fetch = [f for f in src if f not in base]
capnpc = sorted(glob.glob(gen + "/*.c++"))
am = "\n".join(x.split("#")[0] for x in open(REPO + "/src/Makefile.am").read().split("\n"))
skip = [f for f in src if os.path.basename(f) not in am]   # households/places are not part of the build
base = [f for f in base if f not in skip]; fetch = [f for f in fetch if f not in skip]
libs = ["-lcapnp", "-lkj", "-lspdlog", "-lfmt", "-lpthread", "-lboost_filesystem", "-lboost_regex", "-lboost_system", "-lboost_date_time", "-lboost_program_options", "-lboost_iostreams", "-lboost_thread", "-lboost_serialization", "-lssl", "-lcrypto"]
T = {}
T["core"] = csa + base + [HERE + "/core.cpp"]
T["wcache"] = capnpc + [HERE + "/wcache.cpp"]
T["server"] = csa + base + fetch + capnpc + main
need = {}
for t in TARGETS:
    for s in T[t]: need[s] = obj(s)[1]
todo = [(s, o) for s, o in need.items() if not os.path.exists(o)]
def comp(so):
    s, o = so
    r = subprocess.run([CXX] + (["-x", "c++"] if s.endswith(".c++") else []) + flags + ["-c", s, "-o", o + ".tmp"], capture_output=True, text=True)
    if r.returncode: return s, r.stderr[-4000:]
    os.replace(o + ".tmp", o); return None
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
    bad = [x for x in ex.map(comp, sorted(todo, key=lambda so: -os.path.getsize(so[0]))) if x]
if bad:
    for s, e in bad: print("COMPILE-ERROR", s, e, file=sys.stderr)
    sys.exit(3)
for t in TARGETS:
    objs = [need[s] for s in T[t]]
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest(); exe = os.path.join(OUT, t + SAN)
    if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key: continue
    r = subprocess.run([CXX] + opt + ["-pthread"] + objs + ["-o", exe + ".tmp"] + libs, capture_output=True, text=True)
    if r.returncode: print("LINK-ERROR", t, r.stderr[-4000:], file=sys.stderr); sys.exit(3)
    os.replace(exe + ".tmp", exe); open(exe + ".key", "w").write(key)
