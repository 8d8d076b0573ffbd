"""helpers of the demonstrations: a scripted peer, a run of the tool, record files decoded"""
import os, re, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time

AM = os.path.abspath(os.environ.get("AM", "target/debug/basjoofan"))
DIR = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(lambda: shutil.rmtree(DIR, ignore_errors=True))


def head_of(c):
    b = b""
    while b"\r\n\r\n" not in b:
        d = c.recv(65536)
        if not d:
            break
        b += d
    return b


class Peer:
    """answers every connection with f(i, conn); keeps what the connections sent"""

    def __init__(self, f=None, host="127.0.0.1", port=0, family=socket.AF_INET):
        self.f = f or (lambda i, c, b: c.sendall(b"HTTP/1.1 200 OK\r\n\r\nok"))
        self.s = socket.socket(family)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((host, port))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.at = "127.0.0.1:%d" % self.port
        self.got, self.lock = [], threading.Lock()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            with self.lock:
                i = len(self.got)
                self.got.append(b"")
            threading.Thread(target=self.one, args=(i, c), daemon=True).start()

    def one(self, i, c):
        try:
            b = head_of(c)
            self.got[i] = b
            self.f(i, c, b)
            try:
                c.shutdown(socket.SHUT_WR)
                c.settimeout(0.2)
                while True:
                    d = c.recv(65536)
                    if not d:
                        break
                    self.got[i] += d
            except OSError:
                pass
        except OSError:
            pass
        c.close()


def reset(c):
    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    c.close()


def am(args, stdin="", timeout=30, env=None, cwd=None):
    try:
        p = subprocess.run([AM] + args, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd or DIR, env=dict(os.environ, **(env or {})))
        return p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode("utf-8", "replace"), "timeout"


def repl(*lines, **kw):
    return am([], "".join(l + "\n" for l in lines), **kw)[0].splitlines()


def source(text, name="main.fan"):
    d = tempfile.mkdtemp(dir=DIR)
    with open(os.path.join(d, name), "w", newline="") as f:
        f.write(text)
    return d


def test(text, *args, **kw):
    return am(["test"] + list(args) + ["-p", source(text)], **kw)[0]


def longs(b, p):
    z = s = 0
    while True:
        z |= (b[p] & 127) << s
        s += 7
        p += 1
        if b[p - 1] < 128:
            return (z >> 1) ^ -(z & 1), p


def text(b, p):
    n, p = longs(b, p)
    if n < 0 or p + n > len(b):
        raise ValueError("string of %d bytes at %d" % (n, p))
    return b[p:p + n], p + n


def array(b, p, item):
    out = []
    while True:
        n, p = longs(b, p)
        if n == 0:
            return out, p
        for _ in range(n):
            x, p = item(b, p)
            out.append(x)


def assertion(b, p):
    out = []
    for _ in range(4):
        x, p = text(b, p)
        out.append(x)
    return out + [b[p]], p + 1


FIELDS = "name thread number order start end total resolve connect write delay read request method url version headers body rversion status reason rheaders rbody asserts error".split()


def records(b):
    """the blocks of a record file; raises if it is not valid"""
    if b[:4] != b"Obj\x01":
        raise ValueError("magic")
    p = 4
    n, p = longs(b, p)
    for _ in range(2 * n):
        _, p = text(b, p)
    n, p = longs(b, p)
    mark, p = b[p:p + 16], p + 16
    blocks = []
    while p < len(b):
        n, p = longs(b, p)
        size, p = longs(b, p)
        end, rs = p + size, []
        for _ in range(n):
            r = {}
            for f in FIELDS:
                if f in ("headers", "rheaders"):
                    r[f], p = array(b, p, lambda b, p: array(b, p, text))
                elif f == "asserts":
                    r[f], p = array(b, p, assertion)
                elif f in "thread number order start end total resolve connect write delay read status".split():
                    r[f], p = longs(b, p)
                else:
                    r[f], p = text(b, p)
            rs.append(r)
        if p != end or b[p:p + 16] != mark:
            raise ValueError("block")
        p += 16
        blocks.append(rs)
    return blocks


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
