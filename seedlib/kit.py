"""A scripted SMTP server on the loopback network and a runner for the driver program."""
import os, socket, ssl, struct, subprocess, sys, tempfile, threading, time, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = tempfile.mkdtemp(prefix="demo-")
DRIVER = None


def done(rc):
    shutil.rmtree(WORK, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def fail(why):
    print("FAIL: " + why)
    done(1)


def check(cond, why):
    if not cond:
        fail(why)


def build(asan=True, repo=None, flags=()):
    """Compiles the library's sources from the current directory with the driver."""
    global DRIVER
    repo = repo or os.getcwd()
    fl = ["-std=c++17", "-w", "-O0", "-g", "-pthread", "-I" + repo + "/src", "-I" + repo + "/src/cpp"] + (["-fsanitize=address"] if asan else []) + list(flags)
    src = glob.glob(repo + "/src/*.cpp") + glob.glob(repo + "/src/cpp/*.cpp") + [HERE + "/driver.cpp"]
    objs, ps = [], []
    for i, s in enumerate(src):
        o = "%s/%d.o" % (WORK, i); objs.append(o)
        ps.append(subprocess.Popen(["g++"] + fl + ["-c", s, "-o", o]))
    if any([p.wait() for p in ps]):
        print("compilation failed"); done(3)
    DRIVER = WORK + "/driver"
    if subprocess.call(["g++"] + fl + objs + ["-o", DRIVER, "-lssl", "-lcrypto"]):
        print("link failed"); done(3)


def cert(cn="localhost", days=30):
    """A self-signed certificate for the name."""
    k, c = WORK + "/k.pem", WORK + "/c.pem"
    subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", k, "-out", c, "-days", str(days), "-subj", "/CN=" + cn, "-addext", "subjectAltName=DNS:" + cn], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return k, c


class Conn:
    def __init__(self):
        self.cmds, self.msgs, self.data, self.tlsdata = [], [], b"", b""
        self.tls = False
        self.closed = False
        self.rcpts = []


class Server:
    """reply(cmd, conn, n): the reply bytes of the n-th command with this verb on the connection, a list of (bytes, pause),
    None for the ordinary reply, 'close', 'rst' or 'silent'. cmd is 'GREETING', 'DOT' or the command line."""
    def __init__(self, reply=None, caps=("8BITMIME",), capstls=None, key=None, crt=None, implicit=False, maxtls=None):
        self.reply, self.caps, self.capstls = reply, list(caps), list(capstls if capstls is not None else caps)
        self.ctx, self.implicit = None, implicit
        if key:
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); self.ctx.load_cert_chain(crt, key)
            if maxtls:
                self.ctx.maximum_version = maxtls
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.s.bind(("127.0.0.1", 0)); self.s.listen(50)
        self.port = self.s.getsockname()[1]
        self.conns = []
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            k = Conn(); self.conns.append(k)
            threading.Thread(target=self.serve, args=(c, k), daemon=True).start()

    def say(self, k, what):
        if isinstance(what, (bytes, bytearray)):
            what = [(what, 0)]
        for b, pause in what:
            if b:
                k.sock.sendall(b)
            if pause:
                time.sleep(pause)

    def answer(self, k, cmd, default):
        verb = cmd.split(" ")[0].split(":")[0].upper()
        n = k.count.get(verb, 0); k.count[verb] = n + 1
        r = self.reply(cmd, k, n) if self.reply else None
        if r is None:
            r = default
        if r == "close":
            k.sock.close(); raise EOFError
        if r == "rst":
            k.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); k.sock.close(); raise EOFError
        if r == "silent":
            while k.sock.recv(65536):
                pass
            raise EOFError
        self.say(k, r)
        return r

    def serve(self, c, k):
        k.sock, k.count = c, {}
        try:
            if self.implicit:
                k.sock = self.ctx.wrap_socket(c, server_side=True); k.tls = True
            self.answer(k, "GREETING", b"220 demo ESMTP\r\n")
            buf = b""
            while True:
                while b"\r\n" not in buf:
                    d = k.sock.recv(65536)
                    if not d:
                        k.closed = True; return
                    buf += d
                    if k.tls:
                        k.tlsdata += d
                    else:
                        k.data += d
                line, buf = buf.split(b"\r\n", 1)
                cmd = line.decode("latin1"); k.cmds.append(("T:" if k.tls else "C:") + cmd); up = cmd.upper()
                if up.startswith("EHLO"):
                    lines = ["demo greets you"] + (self.capstls if k.tls else self.caps)
                    self.answer(k, cmd, "".join("250%s%s\r\n" % ("-" if i < len(lines) - 1 else " ", l) for i, l in enumerate(lines)).encode())
                elif up == "STARTTLS":
                    r = self.answer(k, cmd, b"220 go\r\n")
                    if r[:3] == b"220":
                        k.sock = self.ctx.wrap_socket(k.sock, server_side=True); k.tls = True; buf = b""
                elif up == "AUTH LOGIN":
                    self.answer(k, cmd, b"334 VXNlcm5hbWU6\r\n"); k.login = 2
                elif getattr(k, "login", 0):
                    k.login -= 1
                    self.answer(k, "LOGINDATA " + cmd, b"334 UGFzc3dvcmQ6\r\n" if k.login else b"235 ok\r\n")
                elif up.startswith("AUTH"):
                    self.answer(k, cmd, b"235 ok\r\n")
                elif up.startswith("MAIL"):
                    k.rcpts = []; k.sender = cmd; self.answer(k, cmd, b"250 sender ok\r\n")
                elif up.startswith("RCPT"):
                    k.rcpts.append(cmd); self.answer(k, cmd, b"250 recipient ok\r\n")
                elif up == "DATA":
                    r = self.answer(k, cmd, b"354 go\r\n")
                    if r[:3] == b"354":
                        while b"\r\n.\r\n" not in buf:
                            d = k.sock.recv(65536)
                            if not d:
                                k.closed = True; return
                            buf += d
                            if k.tls:
                                k.tlsdata += d
                            else:
                                k.data += d
                        m, buf = buf.split(b"\r\n.\r\n", 1)
                        r = self.answer(k, "DOT", b"250 queued\r\n")
                        if r[:3] == b"250":
                            k.msgs.append((k.sender, list(k.rcpts), m))
                elif up == "QUIT":
                    self.answer(k, cmd, b"221 bye\r\n"); k.sock.close(); return
                else:
                    self.answer(k, cmd, b"500 what\r\n")
        except (EOFError, OSError):
            pass
        finally:
            k.closed = True


def esc(s):
    return str(s).replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")


def unesc(s):
    r, i = "", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            i += 1; r += {"n": "\n", "r": "\r", "t": "\t"}.get(s[i], s[i])
        else:
            r += s[i]
        i += 1
    return r


def run(*cmds, timeout=200, env=None, ok=True):
    """Runs driver commands (tuples); returns the lines of output, fields unescaped."""
    text = "".join("\t".join(esc(x) for x in c) + "\n" for c in cmds)
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"; e["HOME"] = WORK; e.update(env or {})
    try:
        p = subprocess.run([DRIVER], input=text.encode("utf8", "surrogateescape"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        if not ok:
            return -99, [], ""
        fail("the program does not come to an end")
    out = [[unesc(f) for f in l.split("\t")] for l in p.stdout.decode("utf8", "surrogateescape").splitlines()]
    if ok:
        check(p.returncode == 0, "the program ended with status %d\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
        return out
    return p.returncode, out, p.stderr.decode(errors="replace")


def results(out):
    return [int(l[1]) for l in out if l[0] == "result"]


def passed():
    print("ok"); done(0)
