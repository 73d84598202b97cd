"""Runs the web service on a loopback address of its own and talks to it over plain sockets."""
import json, os, re, select, signal, socket, struct, subprocess, time
from pyrun import Fail, require, SAN_ENV

_n = [0]
def address():
    """an address in 127/8 nobody else uses: process number and a counter"""
    _n[0] += 1
    p = os.getpid()
    return "127.%d.%d.%d" % (1 + (p >> 8) % 250, 1 + p % 250, 1 + _n[0] % 250)

class Server:
    def __init__(self, env, db, index=None, base="/v1/pwned/api", workers=None, threads=None, verbose=0, prog="server", env_extra=None, popen=None):
        self.base, self.port, self.prog = base, 31337, prog
        for attempt in range(20):
            self.host = address()
            args = [env.progs[prog], "-I", db, "-A", "http://%s:%d%s" % (self.host, self.port, base)]
            if index: args += ["-X", index]
            if workers is not None: args += ["-W", str(workers)]
            if threads is not None: args += ["-T", str(threads)]
            args += ["-v"] * verbose
            self.errfile = env.path(".server.err")
            self.err = open(self.errfile, "wb")
            e = dict(SAN_ENV); e.update(env_extra or {})
            self.p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, **{"env": e, "start_new_session": True, **(popen or {})})
            end = time.time() + 30
            while time.time() < end:
                if self.p.poll() is not None:
                    break
                s = socket.socket()
                s.settimeout(30)
                try:
                    s.connect((self.host, self.port)); s.close(); return
                except OSError:
                    s.close(); time.sleep(0.004)
            text = self.errors()
            if self.p.poll() is None:
                self.stop()
                raise Fail("the server does not listen within 30 s")
            self.stop()
            if "in use" not in text:
                raise Fail("the server does not start: exit status %s\n%s" % (self.p.returncode, text[:800]))
        raise Fail("no free address")
    def errors(self):
        self.err.flush()
        return open(self.errfile, "rb").read(20000).decode("utf-8", "replace")
    def alive(self):
        rc = self.p.poll()
        if rc is not None:
            raise Fail("the server has ended with status %s\n%s" % (rc, self.errors()[:1500]))
    def stop(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait(); self.err.close()
    def finish(self):
        """still running, nothing reported by the sanitizers"""
        self.alive()
        t = self.errors()
        require("AddressSanitizer" not in t and "runtime error:" not in t, "sanitizer report\n" + t[:1500])
    def connect(self):
        s = socket.socket()
        s.settimeout(30)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            s.connect((self.host, self.port))
        except OSError as e:
            s.close(); self.alive()
            raise Fail("no connection: %s" % e)
        return s

def reset(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()

def receive(s, server, seconds=30):
    """everything up to the end of the connection, as (status, headers, body)"""
    data, end = b"", time.time() + seconds
    while True:
        s.settimeout(max(0.01, end - time.time()))
        try:
            d = s.recv(65536)
        except socket.timeout:
            server.alive()
            raise Fail("no answer within %d s%s" % (seconds, ", got %r" % data[:200] if data else ""))
        except OSError as e:
            server.alive()
            raise Fail("connection lost before the answer is complete: %s (%d bytes received)" % (e, len(data)))
        if d:
            data += d
            h = data.find(b"\r\n\r\n")
            m = re.search(rb"(?i)\r\ncontent-length: *(\d+)", data[:h + 2]) if h >= 0 else None
            if m and len(data) >= h + 4 + int(m[1]):
                break
        else:
            break
    if not data:
        server.alive()
        raise Fail("the connection is closed without an answer")
    h = data.find(b"\r\n\r\n")
    require(h >= 0, "incomplete answer %r" % data[:200])
    m = re.match(rb"HTTP/1\.[01] (\d{3})", data)
    require(m is not None, "answer %r is no HTTP response" % data[:100])
    m2 = re.search(rb"(?i)\r\ncontent-length: *(\d+)", data[:h + 2])
    body = data[h + 4:]
    if m2:
        require(len(body) >= int(m2[1]), "body of %d bytes instead of %s" % (len(body), m2[1].decode()))
        body = body[:int(m2[1])]
    return int(m[1]), data[:h], body

def request(method, target, version="1.1", headers=(), body=b""):
    h = "".join("%s: %s\r\n" % x for x in headers)
    if body:
        h += "Content-Length: %d\r\n" % len(body)
    return ("%s %s HTTP/%s\r\nHost: x\r\n%s\r\n" % (method, target, version, h)).encode("latin-1") + body

def lookup_answer(ans, key, count):
    status, head, body = ans
    require(status == 200, "lookup of %032x: status %d" % (key, status))
    try: js = json.loads(body)
    except ValueError: raise Fail("lookup: the body %r is no JSON" % body[:200])
    require(isinstance(js, dict) and js.get("hash") == "%032x" % key, "lookup of %032x: hash %r in the answer" % (key, js.get("hash") if isinstance(js, dict) else js))
    require(js.get("found") == count and not isinstance(js.get("found"), (str, bool)), "lookup of %032x: found %r instead of %d" % (key, js.get("found"), count))
    return js

def info_answer(ans, n, mtime):
    status, head, body = ans
    require(status == 200, "info: status %d" % status)
    try: js = json.loads(body)
    except ValueError: raise Fail("info: the body %r is no JSON" % body[:200])
    require(js.get("count") == n, "info: count %r instead of %d" % (js.get("count"), n))
    require(js.get("last-update") == mtime, "info: last-update %r instead of %d" % (js.get("last-update"), mtime))

def not_found(ans, what):
    """a hash parameter that is no hash: whatever the status, nothing is found"""
    status, head, body = ans
    if status == 200:
        try: js = json.loads(body)
        except ValueError: raise Fail("%s: the body %r is no JSON" % (what, body[:200]))
        require(not js.get("found"), "%s: reported as found %r times" % (what, js.get("found")))
    else:
        require(400 <= status < 500, "%s: status %d" % (what, status))
