"""A scripted HTTP peer: answers each connection as planned and keeps every byte it received.

A plan is a dict:
  segments  list of (pause before it in seconds, bytes)
  end       "close" (orderly), "reset" (RST), "goodbye" (TLS: with close_notify)
  when      "head" (default: answer once the head of the request has arrived), "now" (at once)
  hold      seconds to wait after the answer before ending
  tls       the TLS context to speak with; noise: what to say instead of speaking TLS (see below)
  who       facts about the peer, handed on to the specification
"""
import re, socket, ssl, struct, threading, time


class Server:
    def __init__(self, plan, host="127.0.0.1", port=0, family=socket.AF_INET, tls=None, backlog=256):
        """plan: list of plans (by order of acceptance) or a function index -> plan"""
        self.plan = plan if callable(plan) else (lambda i: plan[i] if i < len(plan) else {"segments": [], "end": "close"})
        self.tls = tls
        self.exch, self.threads, self.lock = [], [], threading.Lock()
        self.sock = socket.socket(family, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((host, port))
        self.sock.listen(backlog)
        self.host, self.port = host, self.sock.getsockname()[1]
        self.closing = False
        self.t0 = time.monotonic()
        self.on_request = None          # called with the record once the head of a request has arrived
        t = threading.Thread(target=self._accept, daemon=True)
        t.start()

    def now(self):
        return time.monotonic() - self.t0

    def _accept(self):
        while not self.closing:
            try:
                conn, peer = self.sock.accept()
            except OSError:
                return
            with self.lock:
                rec = {"i": len(self.exch), "wire": b"", "sent": b"", "end": "open", "t_accept": self.now(), "t_head": None, "done": False}
                self.exch.append(rec)
            t = threading.Thread(target=self._serve, args=(conn, rec), daemon=True)
            self.threads.append(t)
            t.start()

    def _serve(self, conn, rec):
        try:
            try:
                self._talk(conn, rec)
            except OSError as e:
                rec.setdefault("trouble", repr(e))
            finally:
                try:
                    conn.close()
                except OSError:
                    pass
        finally:
            rec["t_end"] = self.now()
            rec["done"] = True

    def _read(self, conn, rec):
        data = conn.recv(65536)
        rec["wire"] += data
        return data

    def _talk(self, conn, rec):
        plan = self.plan(rec["i"])
        rec["plan"] = plan
        conn.settimeout(60)
        conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if "noise" in plan:
            return self._noise(conn, rec, plan)
        tls = plan.get("tls", self.tls)
        if tls:
            rec["raw"] = b""
            return self._talk_tls(conn, rec, plan, tls)
        if plan.get("when", "head") == "head":
            eof = False
            while b"\r\n\r\n" not in rec["wire"]:
                if not self._read(conn, rec):
                    eof = True
                    break
            rec["t_head"] = self.now()
            if not eof and self.on_request:
                self.on_request(rec)
        rec["end"] = "broken"
        segments = plan["segments"](rec) if callable(plan["segments"]) else plan["segments"]
        for pause, data in segments:
            if pause:
                time.sleep(pause)
            rec["sent"] += data
            if data:
                conn.sendall(data)
        rec["t_sent"] = self.now()
        if plan.get("hold"):
            time.sleep(plan["hold"])
        end = plan.get("end", "close")
        if end == "reset":
            conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return
        conn.shutdown(socket.SHUT_WR)
        rec["end"] = "close"
        while self._read(conn, rec):
            pass

    def _until_eof(self, conn, rec, key="raw"):
        while True:
            d = conn.recv(65536)
            rec[key] += d
            if not d:
                return

    def _noise(self, conn, rec, plan):
        """a peer that does not speak TLS: keeps what it gets, says something of its own"""
        rec["raw"], rec["end"] = b"", "broken"
        if plan.get("when", "head") != "now":
            rec["raw"] += conn.recv(65536)
        for pause, data in plan["noise"]:
            time.sleep(pause)
            conn.sendall(data)
        time.sleep(plan.get("hold", 0))
        if plan.get("end") == "reset":
            conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return
        conn.shutdown(socket.SHUT_WR)
        self._until_eof(conn, rec)

    def _talk_tls(self, conn, rec, plan, ctx):
        """plan: until - the request has arrived once this pattern is found; cut - only so many bytes of the handshake are sent;
        held - (which flight of the handshake, how many of its last bytes are held back)"""
        inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        obj = ctx.wrap_bio(inb, outb, server_side=True)
        rec["end"], rec["handshake"], sent, flights, stop = "broken", False, 0, 0, False

        def flush():
            nonlocal sent, flights, stop
            d = outb.read()
            if not d:
                return
            if not rec["handshake"]:
                flights += 1
                if "cut" in plan:
                    stop = sent + len(d) >= plan["cut"]
                    d = d[:max(0, plan["cut"] - sent)]
                if "held" in plan and plan["held"][0] == flights:
                    stop, d = True, d[:-plan["held"][1]]
            sent += len(d)
            conn.sendall(d)

        def feed():
            d = conn.recv(65536)
            rec["raw"] += d
            inb.write(d) if d else inb.write_eof()
            return d

        def finish():
            if plan.get("end") == "reset":
                conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return
            conn.shutdown(socket.SHUT_WR)
            self._until_eof(conn, rec)
        if plan.get("cut") == 0:
            conn.recv(65536)
            return finish()
        while True:
            try:
                obj.do_handshake()
                if "cut" not in plan and "held" not in plan:
                    rec["handshake"] = True
                flush()
                if stop:
                    time.sleep(plan.get("hold", 0))
                    return finish()
                rec["handshake"] = True
                break
            except ssl.SSLWantReadError:
                flush()
                if stop:
                    time.sleep(plan.get("hold", 0))
                    return finish()
                if not feed():
                    return
            except ssl.SSLError as e:       # the client refused us
                rec["trouble"] = repr(e)
                flush()
                return finish()

        def read():
            while True:
                try:
                    d = obj.read(65536)
                    rec["wire"] += d
                    return d
                except ssl.SSLWantReadError:
                    flush()
                    if not feed():
                        return b""
                except ssl.SSLZeroReturnError:
                    return b""
        try:
            while not re.search(plan.get("until", rb"\r\n\r\n"), rec["wire"]):
                if not read():
                    return finish()
        except ssl.SSLError as e:
            rec["trouble"] = repr(e)
            return finish()
        rec["t_head"] = self.now()
        segments = plan["segments"](rec) if callable(plan["segments"]) else plan["segments"]
        for pause, data in segments:
            if pause:
                time.sleep(pause)
            rec["sent"] += data
            if data:
                obj.write(data)
                flush()
        if plan.get("hold"):
            time.sleep(plan["hold"])
        end = plan.get("end", "close")
        if end == "goodbye":
            try:
                obj.unwrap()
            except ssl.SSLError:
                pass
            flush()
        if end != "reset":
            rec["end"] = "close"
            conn.shutdown(socket.SHUT_WR)
            try:
                while end == "close" and read():
                    pass
            except ssl.SSLError:
                pass
        finish()

    def finish(self, wait=10):
        """waits until the connections accepted so far are over; returns their records"""
        end = time.monotonic() + wait
        while time.monotonic() < end and any(not r["done"] for r in list(self.exch)):
            time.sleep(0.002)
        self.close()
        return list(self.exch)

    def close(self):
        self.closing = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()


def recorded(exch, whole=None):
    """the connections of a server as the specification reads them"""
    return [{"wire": list(r["wire"]), "whole": (r["end"] == "close") if whole is None else whole,
             "sent": list(r["sent"]), "end": "close" if r["end"] == "close" else "broken"} for r in exch]


def http(body="", status="200 OK", headers=(), version="HTTP/1.1"):
    """the bytes of a response"""
    b = body if isinstance(body, bytes) else body.encode()
    return ("%s %s\r\n" % (version, status) + "".join("%s: %s\r\n" % h for h in headers) + "\r\n").encode() + b


def reply(body="", **kw):
    return {"segments": [(0, http(body, **kw))], "end": "close"}
