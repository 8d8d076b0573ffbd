"""Runs of `basjoofan test`: carried out against a scripted server, recorded, validated by RunTrace.tla."""
import json, os, re, shutil, signal, socket, subprocess, tempfile, threading, time
from common import *
from server import Server, recorded, reply, http

SERIAL = re.compile(rb"s\d{6};")


def serial(i):
    return "s%06d;" % i


def answers(f=None):
    """plan: every connection i is answered with 200 and its serial in a header; f(i, rec) may give a plan of its own
    or the arguments of server.http"""
    def plan(i):
        def segments(rec):
            got = f(i, rec) if f else None
            got = dict(got or {})
            heads = list(got.pop("headers", ())) + [("serial", serial(i))]
            body = got.pop("body", "ok")
            return [(0, http(body, headers=heads, **got))]
        return {"segments": segments, "end": "close"}
    return plan


def closed_port():
    """a port of 127.0.0.1 that refuses connections; the socket keeps it reserved"""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    return s, s.getsockname()[1]


def long_at(b, p):
    z, shift = 0, 0
    while True:
        z |= (b[p] & 127) << shift
        shift += 7
        p += 1
        if b[p - 1] < 128:
            return (z >> 1) ^ -(z & 1), p


def dump_cases(path, cases):
    with open(path, "w") as f:
        json.dump(cases, f, separators=(",", ":"))


def first_name(b):
    """test name of the first record of a record file, None if it has none (only to tell which thread ran which test)"""
    try:
        p = 4
        while True:
            n, p = long_at(b, p)
            if n == 0:
                break
            for _ in range(2 * n):
                k, p = long_at(b, p)
                p += k
        p += 16
        n, p = long_at(b, p)
        _, p = long_at(b, p)
        if n == 0:
            return None
        k, p = long_at(b, p)
        return b[p:p + k].decode()
    except (IndexError, UnicodeDecodeError):
        return None


class Wait(Exception):
    pass


def wait_for(f, seconds=15, step=0.003):
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        if f():
            return True
        time.sleep(step)
    return False


def catches_sigint(pid):
    try:
        for l in open("/proc/%d/status" % pid):
            if l.startswith("SigCgt:"):
                return bool(int(l.split()[1], 16) & (1 << (signal.SIGINT - 1)))
    except OSError:
        pass
    return False


class Run:
    """one run: Run(binary, text, name=..., ...).go() -> case for RunTrace"""

    def __init__(self, binary, text, name=None, threads=None, number=None, duration=None, plan=None, rec=True, stat=False,
                 pod=None, hosts=(), conf=(), files=(), env=None, tests=None, timeout=60, tls=None, source=None, control=None,
                 extra=(), srv=(), keep=False, peers=(), before=(), odd=()):
        # odd: hosts of https requests that no certificate can name
        # before: (name, bytes) of files that lie in the record directory already
        # peers: (host, port called) -> a server of its own that answers for it; PEERk in the text stands for host:port
        self.__dict__.update(locals())
        self.args_shim = list(hosts) or list(conf)

    def go(self):
        for k in range(4):      # the clock was set back meanwhile: the times recorded mean nothing
            before = time.time() - time.monotonic()
            case = self._go0()
            if time.time() - time.monotonic() > before - 0.0005:
                break
        return case

    def _go0(self):
        if STOP.is_set():
            raise Skipped()
        self.dir = tempfile.mkdtemp(prefix="run-", dir=scratch())
        try:
            return self._go()
        finally:
            if not self.keep:
                shutil.rmtree(self.dir, ignore_errors=True)

    def _go(self):
        plan = self.plan or answers()
        self.server = srv = Server(plan, tls=self.tls)
        files = []
        text = self.text.replace("ADDR", "127.0.0.1:%d" % srv.port).replace("PORT", str(srv.port))
        for k, (n, data) in enumerate(self.files):
            path = os.path.join(self.dir, n)
            with open(path, "wb") as f:
                f.write(data)
            text = text.replace("FILE%d" % k, path)
            files.append([cps(path), list(data)])
        more, lines, env = [], list(self.conf), dict(self.env or {})
        servers = [[cps("127.0.0.1"), srv.port]] + [[cps(h), p] for h, p in self.srv]
        for k, (h, port) in enumerate(self.peers):
            at = h if re.fullmatch(r"127[.0-9]+", h) else "127.0.0.1"
            peer = Server(lambda i, k=k: plan(1000 * (k + 1) + i), host=at, tls=self.tls)
            if at != h:
                first = [x for x, _ in self.peers].index(h) + 1      # one address per name, whatever the port
                lines += ["addr 198.18.1.%d %d 0 to %d" % (first, port, peer.port)] + (["host %s 0 198.18.1.%d" % (h, first)] if first == k + 1 else [])
            else:
                port = peer.port
            servers.append([cps(h), port])
            text = text.replace("PEER%d" % k, "%s:%d" % (h, port))
            more.append((h, port, peer))
        src = os.path.join(self.dir, "src")
        os.makedirs(src)
        with open(os.path.join(src, "main.fan"), "w", encoding="utf-8", newline="") as f:
            f.write(text)
        recdir = os.path.join(self.dir, "rec")
        os.makedirs(recdir)
        for n, data in self.before:
            with open(os.path.join(recdir, n), "wb") as f:
                f.write(data)
        args = [self.binary, "test"] + ([self.name] if self.name is not None else [])
        for flag, v in (("-t", self.threads), ("-n", self.number), ("-d", self.duration)):
            if v is not None:
                args += [flag, str(v)]
        args += ["-p", src] + (["-r", recdir] if self.rec else []) + (["-s"] if self.stat else []) + list(self.extra)
        if self.pod is not None:
            env["POD"] = self.pod
        for h in self.hosts:            # (name, port it is called with): leads to our server
            lines += ["host %s 0 198.18.0.1" % h[0], "addr 198.18.0.1 %d 0 to %d" % (h[1], srv.port)]
            servers.append([cps(h[0]), h[1]])
        if lines:
            conf = os.path.join(self.dir, "conf")
            with open(conf, "w") as f:
                f.write("\n".join(l.replace("PORT", str(srv.port)).replace("RECDIR", recdir) for l in lines) + "\n")
            env.update(LD_PRELOAD=shim(), SHIM_CONF=conf, SHIM_LOG=os.path.join(self.dir, "log"))
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "RUST_BACKTRACE": "0"}
        e.update(env)
        self.t0 = time.monotonic()
        p = self.proc = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.dir, preexec_fn=limit_memory)
        buf = {1: b"", 2: b""}
        self.buf = buf
        self.times = []             # (time, bytes of output so far)

        def drain(f, k):
            while True:
                d = os.read(f.fileno(), 65536)
                if not d:
                    return
                if len(buf[k]) > OUTPUT_LIMIT:
                    self.flood = True
                    p.kill()
                    return
                buf[k] += d
                if k == 1:
                    self.times.append((time.monotonic() - self.t0, len(buf[1])))
        ts = [threading.Thread(target=drain, args=(p.stdout, 1), daemon=True), threading.Thread(target=drain, args=(p.stderr, 2), daemon=True)]
        for t in ts:
            t.start()
        self.facts, self.flood = None, False
        try:
            if self.control:
                self.facts = self.control(self)
        finally:
            try:
                code = p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                code = None
                p.kill()
                p.wait()
            self.t_exit = time.monotonic() - self.t0
            for t in ts:
                t.join(10)
        if self.flood:
            code = None
        if code is None:        # it did not end: what it did until then is cut short, TLC rejects it for its end
            STOP.set()
            buf[1] = buf[1][:4000]
        end = "timeout" if code is None else "ok" if code == 0 else "exit %d" % code if code > 0 else "signal %d" % -code
        exch = srv.finish()
        for h, port, peer in more:
            for r in peer.finish():
                exch.append(dict(r, addr=[cps(h), port], t_accept=r["t_accept"] + peer.t0 - srv.t0, serial=1000 * (more.index((h, port, peer)) + 1) + r["i"]))
        exch.sort(key=lambda r: r["t_accept"])
        records = []
        for n in sorted(os.listdir(recdir)):
            with open(os.path.join(recdir, n), "rb") as f:
                records.append((n, f.read()))
        log = []
        if os.path.exists(os.path.join(self.dir, "log")):
            log = open(os.path.join(self.dir, "log")).read().splitlines()
        self.log = log
        threads = 1 if self.threads is None else self.threads
        number = 1 if self.number is None else self.number
        case = {"text": cps(text + "\n"), "mode": "named" if self.name is not None else "all", "name": cps(self.name or ""),
                "threads": threads, "number": number, "stat": self.stat, "rec": self.rec, "pod": cps(self.pod or ""),
                "records": [{"name": cps(n), "bytes": list(b)} for n, b in records], "srv": servers, "files": files,
                "out": cps(buf[1]), "end": end, "tests": []}
        order = []
        if self.name is None:
            left = list(self.tests or [])
            order = [first_name(b) for n, b in records] if self.rec else []
            order = [x if x in left else None for x in order]
            rest = [x for x in left if x not in order]
            order = [x if x is not None else (rest.pop(0) if rest else "?") for x in order] + rest
            case["tests"] = [cps(x) for x in order]
        ts = attribute(exch, records, order, threads if self.name is not None else len(order))
        case["exch"] = [dict(r, t=t, addr=e.get("addr", servers[0])) for r, t, e in zip(recorded(exch), ts, exch)]
        for x, e in zip(case["exch"], exch):
            if "who" in e.get("plan", {}):
                x.update(e["plan"]["who"], raw=list(e.get("raw", b"")))
            if "pause" in e:
                x["pause"] = e["pause"]
        if self.odd:    # names no certificate can have: not reached, and if reached told nothing
            odd = [cps(h) for h in self.odd]
            case["strays"] = [{"wire": x["wire"], "raw": x["raw"]} for x in case["exch"] if x["addr"][0] in odd and x["raw"] + x["wire"]]
            kept = [i for i, x in enumerate(case["exch"]) if x["addr"][0] not in odd]
            case["exch"], exch, ts = [case["exch"][i] for i in kept], [exch[i] for i in kept], [ts[i] for i in kept]
        self.exch, self.thread_of = exch, ts
        if self.facts and "iters" in self.facts:
            case["iters"] = self.facts["iters"](self) if callable(self.facts["iters"]) else self.facts["iters"]
        if code is None:
            case.update(exch=case["exch"][:4], records=[])
        case["err"] = buf[2].decode("utf-8", "replace")[-300:]
        case["args"] = " ".join(args[1:])
        return case


def attribute(exch, records, tests, threads):
    """which thread made which exchange: a guess from the serials, which the specification then judges"""
    n = len(exch)
    group, where = [None] * n, [None] * n
    owner = {}
    for t, (name, data) in enumerate(records):
        for m in SERIAL.findall(data):
            owner.setdefault(m, t)
    for i, r in enumerate(exch):
        w = r["wire"]
        line = w.split(b"\r\n", 1)[0]
        if re.match(rb"\S+ /top", line):
            where[i] = -1
            continue
        m = re.search(rb"t=(\w+)", line)
        if tests and m and m.group(1).decode() in tests:
            where[i] = tests.index(m.group(1).decode())
            continue
        if threads == 1:
            where[i] = 0
            continue
        m = re.search(rb"me=(s\d{6};)", w)
        me = int(m.group(1)[1:7]) if m else i
        group[i] = me
        s = serial(i).encode()
        if s in owner:
            where[i] = owner[s]
    for i in range(n):          # the others of the same group
        if where[i] is None:
            known = [where[j] for j in range(n) if group[j] == group[i] and where[j] is not None]
            if known:
                where[i] = known[0]
    left = sorted({g for i, g in enumerate(group) if where[i] is None and g is not None}, key=lambda g: (-sum(1 for x in group if x == g), g))
    free = [t for t in range(threads) if t not in where]
    for g in left:
        t = free.pop(0) if free else 0
        for i in range(n):
            if where[i] is None and group[i] == g:
                where[i] = t
    return [0 if w is None else w for w in where]


def show_run(case, line=0):
    return "run %s | %d threads, number %d | source %s | output %r | end %s | %s" % (
        case["args"], case["threads"], case["number"], uncps(case["text"])[:700], uncps(case["out"])[-900:], case["end"],
        case.get("err", "")[-200:])


def judge_runs(cases, module="RunTrace", timeout=800):
    """-> (tlc result, per case: "ok", "open" or an explanation of the rejection)"""
    path = os.path.join(scratch(), "runs-%d.json" % time.monotonic_ns())
    dump_cases(path, cases)
    r = tlc(module, env={"CASES": path}, timeout=timeout)
    if r.code != 0:
        raise ToolError("%s: %s" % (module, r.out[-3000:]))
    seen = {}
    for v, c, p in re.findall(r'<<\s*"CASE",\s*"([^"]*)",\s*(\d+),\s*(\d+)\s*>>', r.out):
        seen.setdefault(int(c) - 1, set()).add(v)
    verdicts = []
    for i, c in enumerate(cases):
        s = seen.get(i, set())
        if "ok" in s:
            verdicts.append("ok")
        elif "open" in s:
            verdicts.append("open")
        elif s:
            verdicts.append("; ".join(sorted(s)))
        else:
            verdicts.append("stuck")
    for i, v in enumerate(verdicts):
        if v == "stuck" and module == "RunTrace":
            dump_cases(path, [cases[i]])
            d = tlc(module, env={"CASES": path, "DIAG": "1"}, timeout=timeout)
            at = [(int(p), idx) for p, idx in re.findall(r'<<\s*"TRAIL",\s*(\d+),\s*<<([\d, ]*)>>\s*>>', d.out)]
            p, idx = max(at) if at else (1, "")
            verdicts[i] = "the output from position %d on is no report that is due there (pieces taken: <<%s>>): %r" % (
                p, idx, uncps(cases[i]["out"])[p - 1:p + 300])
            break
    return r, verdicts


def validate_runs(check, runs, what, workers=WORKERS, chunk=60, again=None, module="RunTrace"):
    """carries out the runs and has TLC judge them"""
    cases = parallel(lambda r: r.go(), runs, workers)
    opened = 0
    for b in range(0, len(cases), chunk):
        part = cases[b:b + chunk]
        r, verdicts = judge_runs(part, module)
        check.states += r.distinct
        check.transitions += r.generated
        for c, v in zip(part, verdicts):
            if v == "open":
                opened += 1
            elif v != "ok":
                check.violation(what, {"module": module, "case": c, "explain": v + " | " + show_run(c)})
                return cases
            else:
                check.traces += 1
    check.count("runs:" + what, len(cases))
    check.count("exchanges in runs", sum(len(c["exch"]) for c in cases))
    if any("peer" in x for c in cases for x in c["exch"]):
        check.count("exchanges with peers that got a request", sum(1 for c in cases for x in c["exch"] if x["wire"]))
    if opened:
        check.count("runs left open by the specification", opened)
    for c in cases[:2]:
        check.sample(show_run(c))
    check.log("%s: %d runs validated" % (what, len(cases)))
    return cases
