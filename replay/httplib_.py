"""Drives the real trRouting server binary over HTTP (loopback), with a scripted walking-router stub."""
import socket, subprocess, time, os, json, threading, tempfile, shutil, urllib.parse, http.server, re, signal

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Bad(Exception): pass

class Server:
    def __init__(self, exe, cache, threads=1, all_sets=False, osrm_port=None, wait=20, extra=()):
        self.log = tempfile.NamedTemporaryFile("w+", prefix="trr_", suffix=".log", delete=False)
        for attempt in range(4):
            self.port = free_port()
            cmd = [exe, "--port", str(self.port), "--cachePath", cache, "--threads", str(threads)]
            cmd += ["--cacheAllConnectionSets", "1" if all_sets else "0"]
            if osrm_port is None: cmd += ["--useEuclideanDistance", "1"]
            else: cmd += ["--osrmPort", str(osrm_port), "--osrmHost", "127.0.0.1"]
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99", TSAN_OPTIONS="exitcode=0:halt_on_error=0")
            self.p = subprocess.Popen(cmd + list(extra), stdout=self.log, stderr=subprocess.STDOUT, env=env, cwd=cache if os.path.isdir(cache) else "/")
            t0 = time.time(); self.up = False
            while time.time() - t0 < wait:
                if self.p.poll() is not None: break
                try: socket.create_connection(("127.0.0.1", self.port), timeout=1).close(); self.up = True; break
                except OSError: time.sleep(0.01)
            if self.up or "Address already in use" not in self.output(): break
    def output(self):
        self.log.flush()
        return open(self.log.name, errors="replace").read()
    def alive(self): return self.p.poll() is None
    def raw(self, target, timeout=20):
        """returns (status, headers, body bytes, problem)"""
        try:
            s = socket.create_connection(("127.0.0.1", self.port), timeout=timeout)
        except OSError as e:
            return None, {}, b"", "cannot connect: %s" % e
        try:
            s.settimeout(timeout)
            s.sendall(("GET " + target + " HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\n\r\n").encode("latin1", "replace"))
            data = b""
            while True:
                try: b = s.recv(65536)
                except socket.timeout: return None, {}, data, "no complete answer within %d s" % timeout
                except OSError as e: return None, {}, data, "connection error %s" % e
                if not b: break
                data += b
        finally: s.close()
        return parse(data)
    def get(self, path, params, timeout=20):
        q = "&".join(urllib.parse.quote(k, safe="") + "=" + urllib.parse.quote(v, safe=",") for k, v in params)
        return self.raw(path + ("?" + q if q else ""), timeout)
    def stop(self):
        if self.alive(): self.p.kill()
        self.p.wait(); self.log.close()
        try: os.unlink(self.log.name)
        except OSError: pass
    def __enter__(self): return self
    def __exit__(self, *a): self.stop()

def parse(data):
    if not data: return None, {}, b"", "empty answer"
    i = data.find(b"\r\n\r\n")
    if i < 0: return None, {}, data, "no header end"
    lines = data[:i].decode("latin1").split("\r\n"); m = re.match(r"HTTP/1\.1 (\d+)", lines[0])
    if not m: return None, {}, data, "bad status line %r" % lines[0]
    h = {}
    for l in lines[1:]:
        k, _, v = l.partition(":")
        if k.lower() in h: return int(m.group(1)), h, data[i + 4:], "header %s twice" % k
        h[k.lower()] = v.strip()
    body = data[i + 4:]
    if "content-length" not in h: return int(m.group(1)), h, body, "no Content-Length"
    if int(h["content-length"]) != len(body): return int(m.group(1)), h, body, "Content-Length %s but %d bytes" % (h["content-length"], len(body))
    return int(m.group(1)), h, body, None

def jbody(body):
    return json.loads(body.decode("utf-8"))

class Router:
    """scripted OSRM stub: mode(i) decides the fault of the i-th exchange"""
    def __init__(self, table=None):
        self.sock = socket.socket(); self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0)); self.port = self.sock.getsockname()[1]; self.sock.listen(64)
        self.modes = []; self.n = 0; self.stopf = False; self.lock = threading.Lock(); self.table = table or self.default
        self.t = threading.Thread(target=self.loop, daemon=True); self.t.start()
    @staticmethod
    def default(pts):
        la0, lo0 = pts[0]
        ds = [(((a - la0) * 111000) ** 2 + ((o - lo0) * 78000) ** 2) ** .5 for o, a in [(p[1], p[0]) for p in pts]]
        return [round(d / 1.38, 1) for d in ds], [round(d, 1) for d in ds]
    def loop(self):
        while not self.stopf:
            try: c, _ = self.sock.accept()
            except OSError: return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()
    def one(self, c):
        try:
            c.settimeout(10); d = b""
            with self.lock:
                mode = self.modes[self.n % len(self.modes)] if self.modes else "ok"; self.n += 1
            if mode == "drop0":
                c.close(); return
            while b"\r\n\r\n" not in d:
                b = c.recv(65536)
                if not b: return
                d += b
            url = d.split(b" ")[1].decode()
            m = re.match(r"/table/v1/\w+/([^?]*)", url)
            pts = [tuple(map(float, x.split(","))) for x in m.group(1).split(";")] if m else [(0, 0)]
            dur, dist = self.table([(p[1], p[0]) for p in pts])
            j = {"code": "Ok", "durations": [dur], "distances": [dist]}
            status = "200 OK"; body = None; cut = None; n = len(pts)
            if mode == "drop": c.close(); return
            elif mode == "500": status = "500 Internal Server Error"
            elif mode == "400": status = "400 Bad Request"; j = {"code": "InvalidQuery", "message": "x"}
            elif mode == "empty": body = b""
            elif mode == "html": body = b"<html>oops</html>"
            elif mode == "nodur": del j["durations"]
            elif mode == "nodist": del j["distances"]
            elif mode == "nullrow": j["durations"] = [None]
            elif mode == "nullarr": j["durations"] = None
            elif mode == "emptyarr": j["durations"] = []; j["distances"] = []
            elif mode == "emptyrow": j["durations"] = [[]]; j["distances"] = [[]]
            elif mode == "nulls": j["durations"] = [[None if i % 2 else x for i, x in enumerate(dur)]]
            elif mode == "allnull": j["durations"] = [[None] * n]; j["distances"] = [[None] * n]
            elif mode == "nulldist": j["distances"] = [[None] * n]
            elif mode == "short": j["durations"] = [dur[:max(1, n // 2)]]; j["distances"] = [dist[:max(1, n // 2)]]
            elif mode == "shortdist": j["distances"] = [dist[:max(1, n // 2)]]
            elif mode == "shortdur": j["durations"] = [dur[:max(1, n // 2)]]
            elif mode == "long": j["durations"] = [dur + [1.0] * 200]; j["distances"] = [dist + [1.0] * 200]
            elif mode == "huge": j["durations"] = [[1e30] * n]
            elif mode == "neg": j["durations"] = [[-5e9] * n]
            elif mode == "strings": j["durations"] = [["x"] * n]
            elif mode == "array": body = b"[1,2,3]"
            elif mode == "num": body = b"42"
            elif mode == "jnull": body = b"null"
            elif mode == "objrow": j["durations"] = [{"a": 1, "b": 2}]
            elif mode == "rowobj": j["durations"] = {"a": 1}
            elif mode == "strdur": j["durations"] = "abc"
            if body is None: body = json.dumps(j).encode()
            if mode == "truncjson": body = body[:len(body) // 2]
            if mode == "dupbom": body = b"\xef\xbb\xbf" + body + b"}"
            hdr = ("HTTP/1.1 %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (status, len(body))).encode()
            if mode == "badlen": hdr = hdr.replace(b"Content-Length: ", b"Content-Length: x")
            if mode == "nohdr": hdr = b""
            if mode == "halfhdr": c.sendall(hdr[:20]); c.close(); return
            if mode == "trunc": c.sendall(hdr + body[:len(body) // 2]); c.close(); return
            c.sendall(hdr + body); c.close()
        except OSError: pass
        finally:
            try: c.close()
            except OSError: pass
    def close(self):
        self.stopf = True
        try: self.sock.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.sock.close()
FAULTS = ["drop0", "drop", "500", "400", "empty", "html", "nodur", "nodist", "nullrow", "nullarr", "emptyarr", "emptyrow", "nulls", "allnull", "nulldist", "short", "shortdist", "shortdur", "truncjson", "badlen", "halfhdr", "trunc", "array", "num", "jnull", "objrow", "rowobj", "strdur", "strings", "nohdr", "long", "huge", "neg", "dupbom"]
