"""drives the icbd built in ./_build, in a scratch directory of its own"""
import os, shutil, socket, ssl, subprocess, sys, tempfile, time, atexit
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Server:
    def __init__(self, files=(), args=()):
        self.dir = tempfile.mkdtemp(prefix="icbd-demo-")
        for f in os.listdir("prod"):
            if os.path.isfile("prod/" + f): shutil.copy("prod/" + f, self.dir)
        for n, t in dict(files).items():
            open(f"{self.dir}/{n}", "wb").write(t if isinstance(t, bytes) else t.encode())
        self.icbd = os.path.abspath("_build/server/icbd")
        self.args = list(args)
        atexit.register(self.end)
        self.start()
    def start(self):
        self.port = port()
        self.p = subprocess.Popen([self.icbd, "-f", "-p", str(self.port), "-l", "0", *self.args], cwd=self.dir,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(100):
            try: socket.create_connection(("127.0.0.1", self.port)).close(); break
            except OSError: time.sleep(0.05)
        time.sleep(0.1)
    def stop(self):
        if self.p.poll() is None:
            self.p.terminate()
            try: self.p.wait(3)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def alive(self): return self.p.poll() is None
    def end(self):
        self.stop(); shutil.rmtree(self.dir, ignore_errors=True)
    def client(self, nick=None, group="1", loginid=None, pw="", port=None, tls=False):
        s = socket.create_connection(("127.0.0.1", port or self.port))
        if tls:
            c = ssl.create_default_context(); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
            s = c.wrap_socket(s)
        c = Client(s)
        if nick is not None:
            c.login(nick, group, loginid or nick, pw); c.get()
        return c
class Client:
    def __init__(self, s): self.s = s; self.buf = b""; self.closed = False
    def raw(self, b):
        try: self.s.sendall(b)
        except OSError: self.closed = True
    def pkt(self, t, body=b""):
        b = t + (body if isinstance(body, bytes) else body.encode()) + b"\0"
        self.raw(bytes([len(b)]) + b)
    def login(self, nick, group="1", loginid="x", pw=""): self.pkt(b"a", "\1".join([loginid, nick, group, "login", pw]))
    def cmd(self, c, a=""): self.pkt(b"h", c.encode() + b"\1" + (a if isinstance(a, bytes) else a.encode()))
    def open(self, t): self.pkt(b"b", t)
    def get(self, quiet=0.25, limit=5):
        """the packets that arrive until nothing comes for a while: (type, [fields])"""
        out = []; end = time.time() + limit
        while time.time() < end:
            while self.buf and len(self.buf) > self.buf[0]:
                n = self.buf[0]; b = self.buf[1:n + 1]; self.buf = self.buf[n + 1:]
                out.append((chr(b[0]) if b else "", b[1:].rstrip(b"\0").decode("utf-8", "replace").split("\1")))
            self.s.settimeout(quiet)
            try: d = self.s.recv(4096)
            except (socket.timeout, TimeoutError): break
            except OSError: self.closed = True; break
            if not d: self.closed = True; break
            self.buf += d
        return out
def has(pkts, *words): return any(all(w in " ".join(f) for w in words) for t, f in pkts)
def types(pkts): return "".join(t for t, f in pkts)
def check(c, msg):
    if not c: print("FAILED:", msg); sys.exit(1)
