"""Runs the built proxy as a black box: real process, real sockets."""
import os, re, socket, struct, subprocess, sys, tempfile, shutil, threading, time

REPO = os.getcwd()
PROX = os.path.join(REPO, "_build/bin/amqpprox")
CTL = os.path.join(REPO, "_build/bin/amqpprox_ctl")


def free_port():
    while True:  # below the range of ports given to outgoing connections
        s = socket.socket(); p = 10000 + int.from_bytes(os.urandom(2), "big") % 22000
        try: s.bind(("", p)); return p
        except OSError: pass
        finally: s.close()


def sstr(b):
    if isinstance(b, str): b = b.encode()
    return bytes([len(b)]) + b


def lstr(b):
    if isinstance(b, str): b = b.encode()
    return struct.pack(">I", len(b)) + b


def frame(t, ch, body): return struct.pack(">BHI", t, ch, len(body)) + body + b"\xce"
def method(c, m, body=b""): return frame(1, 0, struct.pack(">HH", c, m) + body)


class Proxy:
    def __init__(self, *args, env=None, files=None):
        self.dir = tempfile.mkdtemp(prefix="demo")
        def limit():
            import resource
            if files: resource.setrlimit(resource.RLIMIT_NOFILE, (files, files))
        self.sock = os.path.join(self.dir, "ctl")
        self.p = subprocess.Popen([PROX, "--controlSocket", self.sock, "--logDirectory", self.dir + "/logs", *args],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, **(env or {})), preexec_fn=limit)
        for _ in range(200):
            try:
                s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close(); break
            except OSError: time.sleep(0.05)
        else:
            raise SystemExit("proxy did not start")

    def ctl(self, line, timeout=5):
        s = socket.socket(socket.AF_UNIX); s.settimeout(timeout)
        s.connect(self.sock); s.sendall(line.encode() + b"\n")
        out = b""
        try:
            while True:
                d = s.recv(65536)
                if not d: break
                out += d
        except (socket.timeout, ConnectionError): pass
        s.close()
        return out.decode("latin1")

    def alive(self): return self.p.poll() is None

    def stop(self):
        self.p.kill(); self.p.wait(); shutil.rmtree(self.dir, ignore_errors=True)


class Conn:
    """One accepted broker side."""
    def __init__(self, s, broker):
        self.s, self.b = s, broker
        self.buf = b""; self.data = b""; self.open = False; self.closed = False
        self.startok = self.tuneok = self.openm = None
        self.line = None
        broker.conns.append(self)  # before anything can be answered
        threading.Thread(target=self.run, daemon=True).start()

    def need(self, n):
        while len(self.buf) < n:
            d = self.s.recv(65536)
            if not d: raise EOFError
            self.buf += d

    def frame(self):
        self.need(7)
        t, ch, ln = struct.unpack(">BHI", self.buf[:7])
        self.need(8 + ln)
        b = self.buf[7:7 + ln]; self.buf = self.buf[8 + ln:]
        return t, ch, b

    def run(self):
        try:
            if self.b.proxy:
                while b"\r\n" not in self.buf: self.need(len(self.buf) + 1)
                self.line, self.buf = self.buf.split(b"\r\n", 1)
            self.need(8); self.buf = self.buf[8:]
            self.s.sendall(method(10, 10, b"\0\x09" + lstr(b"") + lstr("PLAIN") + lstr("en_US")))
            self.startok = self.frame()[2]
            self.s.sendall(method(10, 30, struct.pack(">HIH", *self.b.tune)))
            self.tuneok = self.frame()[2]
            self.openm = self.frame()[2]
            self.s.sendall(method(10, 41, b"\0"))
            self.open = True
            self.data = self.buf
            while True:
                d = self.s.recv(65536)
                if not d: break
                self.data += d
        except (EOFError, OSError): pass
        self.closed = True


class Broker:
    def __init__(self, ip="127.0.0.1", proxy=False, tune=(0, 131072, 0)):
        self.proxy, self.tune = proxy, tune
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((ip, 0)); self.l.listen(200)
        self.ip, self.port = self.l.getsockname()
        self.conns = []
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            try: s, _ = self.l.accept()
            except OSError: return
            Conn(s, self)


def plain(user="guest", pw="guest"): return b"\0" + user.encode() + b"\0" + pw.encode()


class Client:
    """open() leaves .state one of open, close, eof, timeout."""
    def __init__(self, port, vhost="/", props=b"", mech="PLAIN", resp=None, timeout=5, src=None):
        for k in range(60):
            self.s = socket.socket(); self.s.settimeout(timeout)
            if src: self.s.bind((src, 0))
            try: self.s.connect(("127.0.0.1", port)); break
            except ConnectionRefusedError:
                if k == 59: raise
                time.sleep(0.05)
        self.vhost, self.props, self.mech, self.resp = vhost, props, mech, resp or plain()
        self.buf = b""; self.state = None; self.reply = None; self.rx = b""

    def need(self, n):
        while len(self.buf) < n:
            d = self.s.recv(65536)
            if not d: raise EOFError
            self.rx += d
            self.buf += d

    def frame(self):
        self.need(7)
        t, ch, ln = struct.unpack(">BHI", self.buf[:7])
        self.need(8 + ln)
        b = self.buf[7:7 + ln]; self.buf = self.buf[8 + ln:]
        return t, ch, b

    def open(self):
        try:
            self.s.sendall(b"AMQP\0\0\x09\x01")
            self.frame()
            self.s.sendall(method(10, 11, lstr(self.props) + sstr(self.mech) + lstr(self.resp) + sstr("en_US")))
            self.tune = self.frame()[2]
            self.s.sendall(method(10, 31, self.tune[4:]) + method(10, 40, sstr(self.vhost) + b"\0\0"))
            b = self.frame()[2]
            self.classify(b)
        except EOFError: self.state = "eof"
        except socket.timeout: self.state = "timeout"
        except ConnectionError: self.state = "eof"
        return self

    def classify(self, b):
        cm = struct.unpack(">HH", b[:4])
        if cm == (10, 41): self.state = "open"
        elif cm == (10, 50):
            self.state = "close"; self.code = struct.unpack(">H", b[4:6])[0]
            self.reply = b[7:7 + b[6]]
        else: self.state = "?%s" % (cm,)

    def wait(self, timeout=5):
        self.s.settimeout(timeout)
        try: self.classify(self.frame()[2])
        except EOFError: self.state = "eof"
        except socket.timeout: self.state = "timeout"
        except ConnectionError: self.state = "eof"
        return self

    def read(self, n, timeout=5):
        self.s.settimeout(timeout)
        try: self.need(n)
        except (EOFError, OSError): pass
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


def until(f, t=5):
    e = time.time() + t
    while time.time() < e:
        if f(): return True
        time.sleep(0.02)
    return bool(f())


def check(ok, what):
    if not ok:
        print("DEMO FAILED:", what); sys.stdout.flush(); os._exit(1)


def done():
    print("demo ok"); sys.stdout.flush(); os._exit(0)


SHIM = r"""
#define _GNU_SOURCE
#include <netdb.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <netinet/in.h>
/* answers come from the file $DEMO_HOSTS: lines "name address address..." */
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
  FILE *f = fopen(getenv("DEMO_HOSTS"), "r"); char line[4096];
  struct addrinfo *first = 0, **end = &first; struct in_addr a;
  if (node && inet_pton(AF_INET, node, &a) == 1) snprintf(line, sizeof line, "%s %s\n", node, node);
  else { int ok = 0; size_t n = node ? strlen(node) : 0;
    while (f && fgets(line, sizeof line, f)) if (n && !strncmp(line, node, n) && line[n] == ' ') { ok = 1; break; }
    if (!ok) { if (f) fclose(f); return EAI_NONAME; } }
  if (f) fclose(f);
  strtok(line, " \n");
  for (char *t; (t = strtok(0, " \n"));) {
    struct addrinfo *i = calloc(1, sizeof *i); struct sockaddr_in *s = calloc(1, sizeof *s);
    s->sin_family = AF_INET; inet_pton(AF_INET, t, &s->sin_addr); s->sin_port = htons(svc ? atoi(svc) : 0);
    i->ai_family = AF_INET; i->ai_socktype = SOCK_STREAM; i->ai_protocol = 6; i->ai_addrlen = sizeof *s; i->ai_addr = (void *)s;
    *end = i; end = &i->ai_next;
  }
  if (!first) return EAI_NONAME;
  *res = first; return 0;
}
void freeaddrinfo(struct addrinfo *i) { while (i) { struct addrinfo *n = i->ai_next; free(i->ai_addr); free(i); i = n; } }
"""


class Names:
    """A name service for the proxy: Proxy(env=names.env)."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="demo")
        open(self.dir + "/s.c", "w").write(SHIM)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", self.dir + "/s.so", self.dir + "/s.c"])
        self.env = dict(LD_PRELOAD=self.dir + "/s.so", DEMO_HOSTS=self.dir + "/hosts")
        self.set({})

    def set(self, hosts):
        open(self.dir + "/h", "w").write("".join("%s %s\n" % (k, " ".join(v)) for k, v in hosts.items()))
        os.rename(self.dir + "/h", self.dir + "/hosts")

    def stop(self): shutil.rmtree(self.dir, ignore_errors=True)


def cert(d):
    """A throw-away certificate in directory d."""
    subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", d + "/key.pem", "-out", d + "/cert.pem",
                           "-days", "2", "-subj", "/CN=localhost"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return d + "/cert.pem", d + "/key.pem"


def compiled(src, *extra):
    """Compile a program against the built library; returns its path."""
    d = tempfile.mkdtemp(prefix="demo")
    open(d + "/p.cpp", "w").write(src)
    return d, subprocess.run(["g++", "-std=c++17", "-DBOOST_LOG_DYN_LINK", "-DBOOST_ALL_DYN_LINK", "-I" + REPO + "/libamqpprox", "-o", d + "/p", d + "/p.cpp", *extra]).returncode
