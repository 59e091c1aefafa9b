"""Small helper for the demonstrations: runs the built conmand on scratch files and talks to it."""
import os, sys, socket, select, subprocess, tempfile, time, shutil, signal, threading, atexit
REPO = os.getcwd()
DAEMON = os.path.join(REPO, "_build", "conmand")
CLIENT = os.path.join(REPO, "_build", "conman")
TMP = tempfile.mkdtemp(prefix="cmdemo.", dir="/tmp")
_procs = []
def _clean():
    for p in _procs:
        if p.poll() is None:
            p.kill(); p.wait()
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_clean)
def fail(msg):
    print("DEMO: property broken:", msg); sys.stdout.flush(); sys.exit(1)
def need(msg):
    print("DEMO: set-up did not work:", msg); sys.stdout.flush(); sys.exit(3)
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def wait(pred, t=10.0):
    end = time.time() + t
    while time.time() < end:
        if pred(): return True
        time.sleep(0.02)
    return bool(pred())
class Dev:
    """A console device on a unix or TCP socket."""
    def __init__(self, name, tcp=False, auto=True):
        self.name, self.conn, self.got, self.count, self.lock = name, None, b"", 0, threading.Lock()
        self.reading = True
        if tcp:
            self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.l.bind(("127.0.0.1", 0))
            self.dev = "127.0.0.1:%d" % self.l.getsockname()[1]
        else:
            self.path = os.path.join(TMP, name + ".sock"); self.l = socket.socket(socket.AF_UNIX); self.l.bind(self.path); self.dev = "unix:" + self.path
        self.l.listen(5)
        threading.Thread(target=self.run, daemon=True).start()
    def run(self):
        while True:
            try: c, _ = self.l.accept()
            except OSError: return
            self.count += 1; self.conn = c
            threading.Thread(target=self.rd, args=(c,), daemon=True).start()
    def rd(self, c):
        while True:
            while not self.reading: time.sleep(0.02)
            try: d = c.recv(65536)
            except OSError: return
            if not d: return
            with self.lock: self.got += d
    def send(self, d): self.conn.sendall(d)
    def drop(self):
        try: self.conn.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.conn.close()
class Daemon:
    def __init__(self, conf, devs=(), env=None, args=(), wrap=()):
        self.port = port(); self.conf = os.path.join(TMP, "conman.conf"); self.pidfile = os.path.join(TMP, "pid"); self.log = os.path.join(TMP, "conmand.log")
        t = 'server port=%d\nserver pidfile="%s"\nserver logdir="%s"\n' % (self.port, self.pidfile, TMP)
        open(self.conf, "w").write(t + conf.replace("@TMP@", TMP) + "\n")
        self.err = open(os.path.join(TMP, "stderr"), "wb")
        e = dict(os.environ); e.update(env or {})
        self.p = subprocess.Popen(list(wrap) + [DAEMON, "-F", "-c", self.conf] + list(args), stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=e, cwd=TMP); _procs.append(self.p)
        def up():
            try: s = socket.create_connection(("127.0.0.1", self.port), 1); s.close(); return True
            except OSError: return False
        if not wait(up, 15): need("the daemon does not listen: " + self.stderr())
        for d in devs:
            if not wait(lambda: d.conn is not None, 15): need("console %s was not connected: %s" % (d.name, self.stderr()))
        time.sleep(0.3)
    def stderr(self): return open(os.path.join(TMP, "stderr"), "rb").read().decode("latin1")
    def alive(self): return self.p.poll() is None
    def sig(self, n): self.p.send_signal(n)
    def fds(self): return len(os.listdir("/proc/%d/fd" % self.p.pid))
    def session(self, *a, **k): return Sess(self, *a, **k)
class Sess:
    """A protocol session; names is a list of patterns, opts a list such as ["FORCE"]."""
    def __init__(self, d, cmd, names, opts=(), user="u", go=True, tty="", rcvbuf=0, hello=True):
        self.s = socket.socket()
        if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(10); self.s.connect(("127.0.0.1", d.port))
        self.rx = b""; self.rsp = ""; self.eof = False
        if not hello: return
        self.s.sendall(("HELLO USER='%s'%s\n" % (user, " TTY='%s'" % tty if tty else "")).encode())
        if not self.line().startswith("OK"): need("greeting refused")
        if go: self.request(cmd, names, opts)
    def request(self, cmd, names, opts=()):
        self.s.sendall((cmd + "".join(" OPTION=" + o for o in opts) + "".join(" CONSOLE='%s'" % n for n in names) + "\n").encode())
        self.rsp = self.line(); self.ok = self.rsp.startswith("OK")
    def line(self):
        l = b""
        while not l.endswith(b"\n"):
            c = self.s.recv(1)
            if not c: break
            l += c
        return l.decode("latin1")
    def send(self, d): self.s.sendall(d)
    def esc(self, c): self.s.sendall(b"\xff" + c.encode())
    def pump(self, t=0.5, until=None):
        """Read for t seconds, or until the bytes 'until' were received."""
        end = time.time() + t
        while time.time() < end and not self.eof:
            r, _, _ = select.select([self.s], [], [], max(0, min(0.1, end - time.time())))
            if r:
                try: d = self.s.recv(65536)
                except OSError: d = b""
                if not d: self.eof = True
                self.rx += d
                if until is not None and until in self.rx: return True
        return until is not None and until in self.rx
    def data(self):
        """Received console output without the daemon's messages."""
        o, i, r = b"", 0, self.rx
        while True:
            q = r.find(b"\r\n<ConMan> ", i)
            if q < 0: return o + r[i:]
            o += r[i:q]; e = r.find(b"\r\n", q + 2)
            if e < 0: return o
            i = e + 2
    def close(self): self.s.close()
