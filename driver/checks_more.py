"""C23-C25: ways of giving a program, connections, displayed texts."""
import itertools, json, os, random, re, shutil, struct, subprocess, tempfile, threading, time
from decimal import Decimal
from runs import *
from runs import judge_runs
from server import Server, recorded, http, reply
from checks_run import Gate, Gen, events_case, judge_events, validate_events, validate_runs, plan_with_faults, body_for, CONF, TreeRun, F, D
from checks_http import CERTS, tls_context
from checks_lang import run_sessions, run_templates, run_texts, show

# ---------------------------------------------------------------- C23
class Prog:
    """definitions and statements; statements hold no line end"""

    def __init__(self, rng):
        self.rng = rng
        names = ["a", "b", "c"]
        val = lambda: rng.choice(["1", "[1, 2.5]", '"t"', '"x; y"', "a", "b", "[a, b]", "a == b", "true", '{"k": a}', 'format("{x}", a)', "q0().json.n", "q1().status", "length(\"ab\")", "[][0]", "0.1 + 0.2"])
        self.defs = ["request q%d `%s http://ADDR/%d?a={a}&b={b}`%s" % (k, rng.choice(["GET", "DELETE"]), k, rng.choice(["", "[status == 200]", "[status == 200, json.n < 2, (let a = 5) == 5]"])) for k in range(2)]
        self.defs.append("request dead `GET http://127.0.0.1:1/{a}`")
        if rng.random() < 0.4:
            self.defs.append('test %s { %s }' % (rng.choice(["zz", "u"]), rng.choice(["nosuch", 'println("never")', "q0()"])))
        self.stmts = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6])):
            k = rng.random()
            n = rng.choice(names)
            self.stmts.append(
                "let %s = %s" % (n, val()) if k < 0.4 else
                'println("{x} {y}", %s, %s)' % (val(), n) if k < 0.52 else
                'print("%s", %s)' % (rng.choice(["{x};", "{x} ", "{x}\\n"]).replace("\\n", ""), val()) if k < 0.6 else
                rng.choice(["q0()", "q1().status", "let r = q0(); r.json", "dead().status", "q1().json.n + 1"]) if k < 0.78 else
                "if (%s) { %s } else { let %s = %s }" % (val(), rng.choice(["let d = 4; [d]", "q0().body", "{}"]), n, val()) if k < 0.88 else
                rng.choice(["1 / 0", "nosuch", "[let c = 3, nosuch]", "let b = a; nosuch; let a = 7", "a.k.k", "println(\"{x}\")"]) if k < 0.94 else
                rng.choice(["[a, b]", '"last"', "a", "{}", "3 - 1", "!a"]))
        if rng.random() < 0.08:
            self.stmts.insert(rng.randrange(len(self.stmts) + 1), rng.choice(["let = 1", "1 +", "[1", '"open', "if (1) 2", ")", "test { }", "@"]))
        # what the definitions are put between; a and b are bound first in most programs
        if rng.random() < 0.85:
            self.stmts = ["let a = %s" % rng.choice(["0", '"s"', "[]"]), "let b = 2"] + self.stmts

    def whole(self, seps=("; ", ";", " ;  ")):
        """definitions anywhere"""
        parts = list(self.stmts)
        for d in self.defs:
            parts.insert(self.rng.randrange(len(parts) + 1), d)
        out = parts[0]
        for p in parts[1:]:
            out += self.rng.choice(seps) + p
        return out

    def front(self, sep="; "):
        return sep.join(self.defs) + sep


def c23(check):
    rng = check.rng
    m = 12 if check.thorough else 1
    check.model("MCModes", "MCModes2" if check.thorough else "MCModes", timeout=3000)
    binary = check.bin()
    plan = lambda: answers(lambda i, rec: dict(body='{"n": %d, "list": [%d, "x"]}' % (i, i)))
    progs = [Prog(rng) for _ in range(130 * m)]
    jobs, runs = [], []
    for p in progs:
        jobs += [("text", p.whole(("; ", ";\n", "\n;", ";"))), ("line", p.whole()), ("lines", list(p.defs) + list(p.stmts)), ("file", p.whole(("; ", ";\n", ";"))),
                 ("text", p.front("\n") + "if (true) { " + "; ".join(p.stmts) + " }"), ("line", p.front() + "if (1 == 2) { 0 } else { %s }" % ";".join(p.stmts))]
        tail = "; println(\"{a} {b} {c}\", a, b, c)"
        runs.append(Run(binary, p.front("\n").replace("test zz", "test zzz") + "let c = 0;\ntest t {%s%s }" % ("; ".join(p.stmts), tail), name="t", number=rng.choice([1, 1, 2]), plan=plan()))
        # the same in files that are read one after another
        texts, left = [], list(p.stmts)
        while left:
            k = rng.randrange(1, len(left) + 1)
            texts.append(";\n".join(left[:k]) + ";")
            left = left[k:]
        for d in p.defs:
            k = rng.randrange(len(texts) + 1)
            if k < len(texts) and rng.random() < 0.5:
                texts[k] = d + rng.choice(["\n", ";"]) + texts[k]
            else:
                texts.insert(k, d)
        names = sorted(rng.sample(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o"], len(texts)))
        es = [F(n + ".fan", t) if rng.random() < 0.7 else D(n, F("x.fan", t)) for n, t in zip(names, texts)]
        runs.append(TreeRun(check, es, name="nosuchtest", plan=plan(), top=True))
    # texts are taken as they are
    odd = ["\u00a0", "\u3000", "\ufeff", "\u200b", "\u2028", "\u0085", "\x0b", "\x0c", "\x7f", "\t", "  ", "\u00ad", "\r", "\x01", "\u200e", "e\u0301", "\\", "\U0001f600", "'", "$(x)", "%41", "~"]
    for o in odd:
        for t in ("%s1", "1%s", '"%s"', '"a%s"', '"%sa"', 'println("%s%s")' % (o, "%s"), 'let a = "x%s"; [a]', '["%s", length("%s")]' % ("%s", o), "%s", "[1]%s;", '{"%s": 1}', "a%s"):
            jobs += [(k, t.replace("%s", o)) for k in (("text", "file", "line") if rng.random() < 0.6 or check.thorough else (rng.choice(["text", "file", "line"]),))]
    # semicolons and blanks where statements end, and where there is none
    for t in (";", ";;", "1;", "1 ;", "1;;", "1; ;", ";1", "; 1;", "1;;2", "1; 2", "1 2", "1  ;  2 ;", "let a = 1;; [a]", "let a = 1;", "[1] ; ", "if (1) { 2; }", "if (1) { 2;; }", "if (1) { ; }", "if (1) { }", "if (1) { 2 };", "if (1) { 2 };;", "if (1) { 2 } 3",
              "request q `GET http://ADDR/`;", "request q `GET http://ADDR/`;;", "test t { };", "test t { 1;; }", "test t { ; }", "1;\r", "1;\t", "1\t;", "{};", "{} {}", "[];[]", "print(\"a\");", "print(\"a\");;", "nosuch;", "nosuch;;"):
        jobs += [(k, t) for k in ("text", "line", "file")] + [("lines", [t, "let z = 3", t, "[z]"])]
    jobs = [(k, t) for k, t in jobs if not (k == "line" and t.strip("\r") in ("exit", ""))]

    def one(job):
        kind, t = job
        srv = Server(plan())
        at = "127.0.0.1:%d" % srv.port
        lines = [x.replace("ADDR", at) for x in (t if kind == "lines" else [t])]
        if kind == "text":
            out, err, end = run_binary([binary, "eval", "--", lines[0]], timeout=40, again=False)
        elif kind == "file":
            d = tempfile.mkdtemp(prefix="mode-", dir=scratch())
            with open(os.path.join(d, "p.fan"), "w", newline="") as f:
                f.write(lines[0])
            out, err, end = run_binary([binary, "test", "nosuch", "-p", os.path.join(d, "p.fan")], timeout=40, again=False)
            shutil.rmtree(d, ignore_errors=True)
        else:
            out, err, end = session(binary, lines, 40, False)
        case = {"lines": [cps(x) for x in lines], "out": cps(out), "end": end, "err": err.decode("utf-8", "replace")[-300:], "srv": [[cps("127.0.0.1"), srv.port]],
                "exch": recorded(srv.finish()), "files": []}
        srv.close()
        if kind in ("text", "file"):
            case.update(mode=kind)
        if kind == "file":
            case.update(name=cps("nosuch"), lines=[cps(lines[0] + "\n")])
        return case
    cases = parallel(one, jobs)
    check.validate("ReplTrace", cases, "programs as one text, one line, several lines, a file, in an if", describe=show)
    for k in ("text", "line", "lines", "file"):
        check.count("recordings given as " + k, sum(1 for x, _ in jobs if x == k))
    validate_runs(check, runs, "programs as the body of a test, in several files", chunk=90)


# ---------------------------------------------------------------- C24
def held(pid, log=None):
    """(sockets, regular files) a process has open, its threads"""
    sockets = files = 0
    for fd in os.listdir("/proc/%d/fd" % pid):
        try:
            to = os.readlink("/proc/%d/fd/%s" % (pid, fd))
        except OSError:
            continue
        if to.startswith("socket:"):
            sockets += 1
        elif to.startswith("/") and not to.startswith("/dev/") and to != log:
            files += 1
    return sockets, files, len(os.listdir("/proc/%d/task" % pid))


HOLD = """let me = [][0]; let n = 0;
request ping `GET SCHEME://ADDR/ping%s?me={me}&n={n}`[status == 200]
request bad0 `GET SCHEME://ADDR/%s?me={me}`
request bad1 `POST SCHEME://ADDR/%s?me={me}

{n}`[status == 200]
request dead `GET http://127.0.0.1:1/refused`
request gone `GET http://nowhere.invalid/x`
request up `POST SCHEME://ADDR/up?me={me}
Content-Type: multipart/form-data

a: {n}
f: @FILE0`[status == 200]
test a { let r = ping(); if (!me) { let me = r.headers.serial[0] } let n = n + 1; %s }
"""


def held_case(check, rng, patience):
    """answers are given round by round; before each round it is counted what the run holds"""
    threads, per = rng.choice([1, 2, 3, 4, 8]), rng.choice([1, 2, 3])
    number = threads * rng.choice([1, 2, 3, 4]) + rng.choice([0, 0, 1])
    https = rng.random() < 0.3
    faults = ["cut", "none", "bin", "reset", "ok"]
    body, sent = [], 1
    while sent < per:
        body.append(rng.choice(["bad0()", "bad1()", "up()", "ping()"]))
        sent += 1
    for _ in range(rng.choice([0, 1, 2])):
        body.insert(rng.randrange(len(body) + 1), rng.choice(["dead()", "gone()", "dead(); gone()"]))
    text = HOLD % (rng.choice(["", "/b2", "/b4"]), rng.choice(faults), rng.choice(faults), "; ".join(body) or "n")
    text = text.replace("SCHEME", "https" if https else "http")
    gate = Gate(base=plan_with_faults)
    rec = rng.random() < 0.7

    def control(run):
        total = number * per
        seen = 0
        while seen < total:
            left = total - seen
            if not wait_for(lambda: gate.arrived() > seen, 5 * patience):
                break
            # all threads that have something left get to their next request
            wait_for(lambda: gate.arrived() >= min(seen + threads, total), 0.25 * patience)
            time.sleep(0.08 * patience)
            now = gate.arrived()
            s, f, _ = held(run.proc.pid, os.path.join(run.dir, "log"))
            if gate.arrived() == now:
                gate.note("held", f, s)
            seen = now
            gate.release(range(now))
            if now >= 40:
                break
        gate.release()
    kw = {}
    if https:
        kw = dict(tls=tls_context("good"), env={"SSL_CERT_FILE": os.path.join(CERTS, "root.pem")})
    run = Run(check.bin(), text, name="a", threads=threads, number=number, plan=gate.plan, control=control, rec=rec, stat=rng.random() < 0.5,
              conf=CONF, files=[("part.txt", b"some contents\n")], timeout=60, **kw)
    case = run.go()
    return events_case(run, case, gate.trace(run) + ([{"k": "exit", "t": 0, "n": 0}] if case["end"] == "ok" else []), per)


class Talk:
    """one session, line by line; calls: per call the outcomes of its addresses; what the process holds is counted while the answer
    is held back and once it has been printed"""

    def __init__(self, binary, calls, patience=1):
        self.binary, self.calls, self.patience = binary, calls, patience

    def go(self):
        if STOP.is_set():
            raise Skipped()
        d = tempfile.mkdtemp(prefix="talk-", dir=scratch())
        try:
            return self._go(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _go(self, d):
        conf, lines, servers, number, events = [], [], [], {}, []
        gate = threading.Event()
        for c, (outs, fault) in enumerate(self.calls):
            names = []
            for k, (what, delay) in enumerate(outs):
                a = "198.18.%d.%d" % (10 + c, k + 1)
                names.append(a)
                number[a] = len(number) + 1
                if what == "fail":
                    conf.append("addr %s 80 %d refuse" % (a, delay))
                else:
                    def segments(rec, c=c, fault=fault, a=a):
                        if not rec["wire"]:
                            return []
                        events.append((time.monotonic(), {"k": "use", "n": number[a]}))
                        held_at.set()
                        gate.wait(20)
                        return {"ok": [(0, http("from %d" % c))], "cut": [(0, b"HTTP/1.1 200 OK\r\nA")], "none": [], "bin": [(0, b"HTTP/1.1 200 OK\r\n\r\n\xff\xfe")],
                                "reset": [(0, b"HTTP/1.1 200 OK\r\n")]}[fault]
                    s = Server(lambda i, seg=segments, f=fault: {"segments": seg, "end": "reset" if f == "reset" else "close"})
                    servers.append(s)
                    conf.append("addr %s 80 %d to %d" % (a, 10000000 if what == "never" else delay, s.port))
            conf.append("host c%d.test 0 %s" % (c, " ".join(names)))
            lines.append("request q%d `GET http://c%d.test/x`" % (c, c))
        held_at = threading.Event()
        with open(os.path.join(d, "conf"), "w") as f:
            f.write("\n".join(conf) + "\n")
        log = os.path.join(d, "log")
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0", "LD_PRELOAD": shim(), "SHIM_CONF": os.path.join(d, "conf"), "SHIM_LOG": log}
        p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=d, preexec_fn=limit_memory)
        got, state = [], {"done": False}

        def reader():
            for l in p.stdout:
                got.append(l)
            state["done"] = True
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        wait = 0.06 * self.patience

        def sample():
            time.sleep(wait)
            s, f, k = held(p.pid, log)
            events.append((time.monotonic(), {"k": "held", "n": s, "m": f, "t": k}))

        def say(line):
            p.stdin.write((line + "\n").encode())
            p.stdin.flush()
        text = []
        try:
            for l in lines:
                say(l)
                text.append(l)
            wait_for(lambda: len(got) >= len(text), 10)
            sample()
            for c, (outs, fault) in enumerate(self.calls):
                n = len(got)
                gate.clear()
                held_at.clear()
                events.append((time.monotonic(), {"k": "call"}))
                text.append("q%d().status" % c)
                say(text[-1])
                wait_for(lambda: held_at.is_set() or len(got) > n, 15)
                if held_at.is_set():
                    sample()
                    gate.set()
                if not wait_for(lambda: len(got) > n or state["done"], 15):
                    break
                events.append((time.monotonic(), {"k": "over"}))
                sample()
            longest = max([ms for outs, _ in self.calls for w, ms in outs if w != "never"] + [0])
            time.sleep(longest / 1000 + 0.05)       # attempts still under way are answered meanwhile
            sample()
            p.stdin.close()
            p.wait(20)
        except (BrokenPipeError, ProcessLookupError, FileNotFoundError, subprocess.TimeoutExpired):
            pass
        finally:
            p.kill()
            p.wait()
            gate.set()
            t.join(10)
            for s in servers:
                s.close()
        for l in open(log).read().splitlines() if os.path.exists(log) else []:
            w = l.split()
            if w[0] in ("start", "done") and w[3] in number:
                events.append((int(w[2]) / 1e9, {"k": "start" if w[0] == "start" else "ok" if w[6] == "ok" else "fail", "n": number[w[3]]}))
        events.sort(key=lambda x: x[0])
        evs = [dict({"n": 0, "m": 0, "t": 0}, **x) for _, x in events]
        return {"events": evs, "args": "session", "source": "\n".join(text), "out": b"".join(got).decode("utf-8", "replace")[-400:],
                "calls": [[list(map(list, o)), f] for o, f in self.calls]}


def c24(check):
    rng = check.rng
    check.model("MCConns")
    check.model("MCRunner")
    n = 160 if check.thorough else 26
    seeds = [rng.random() for _ in range(n)]
    validate_events(check, "what runs hold", lambda i, patience: held_case(check, random.Random("%s" % seeds[i]), patience), n)
    # one connection for each call, also where it comes to nothing at once
    ends = {"ok": ([(0, http("{}"))], "close"), "none": ([], "close"), "reset": ([], "reset"), "line": ([(0, b"HTTP/1.1 200 OK\r\n")], "close"), "cut": ([(0, b"HTTP/1.1 503 Gone\r\nA: b\r\n")], "close"), "partreset": ([(0, b"HTTP/1.1 200 OK\r\nA: b\r\n\r\nab")], "reset"),
            "bin": ([(0, b"HTTP/1.1 200 OK\r\n\r\n\xff\xfe")], "close"), "408": ([(0, http("late", "408 Request Timeout"))], "close"), "503": ([(0, http("", "503 Busy", [("Retry-After", "0")]))], "close"), "302": ([(0, http("", "302 Found", [("Location", "/x")]))], "close"),
            "100": ([(0, b"HTTP/1.1 100 Continue\r\n\r\n"), (0.05, http("{}"))], "close"), "401": ([(0, http("", "401 No", [("WWW-Authenticate", "Basic")]))], "close"), "keep": ([(0, http("{}", headers=[("Connection", "keep-alive")]))], "close")}
    runs = []
    for k in range(200 if check.thorough else 24):
        seq = [rng.choice(list(ends)) for _ in range(40)]
        text = "request q `%s`[status == 200]\nrequest p `%s`\ntest a { %s }\n" % (rng.choice(["GET http://ADDR/q", "GET http://ADDR/q\nConnection: keep-alive", "POST http://ADDR/q\n\nbody"]), rng.choice(["DELETE http://ADDR/p", "PUT http://ADDR/p\nContent-Type: multipart/form-data\n\na: b"]),
            "; ".join(rng.choice(["q()", "p()", "q().status"]) for _ in range(rng.choice([1, 2, 4]))))
        runs.append(Run(check.bin(), text, name="a", number=rng.choice([1, 2, 4, 8]), plan=lambda i, seq=seq: {"segments": ends[seq[i % 40]][0], "end": ends[seq[i % 40]][1]}))
    validate_runs(check, runs, "one connection for each call, however it ends", chunk=40)
    # sessions: calls whose hosts have several addresses, connections that come too late
    outs = [("ok", 0), ("ok", 80), ("ok", 300), ("ok", 500), ("fail", 0), ("fail", 90), ("fail", 300), ("never", 0)]
    faults = ["ok", "ok", "ok", "cut", "none", "bin", "reset"]

    def answered(o):
        return any(w == "ok" for w, _ in o) or all(w == "fail" for w, _ in o)
    pool = [o for k in (1, 2) for o in itertools.product(outs, repeat=k) if answered(o)]
    talks = [[(o, "ok")] for o in pool]
    for _ in range(300 if check.thorough else 24):
        calls = []
        for _ in range(rng.choice([2, 3, 4, 5])):
            o = [rng.choice(outs) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
            if not answered(o):
                o.append(("ok", 0))
            calls.append((tuple(o), rng.choice(faults)))
        talks.append(calls)
    talks += [[((("ok", 0),), f)] * 12 for f in ("ok", "cut", "bin", "reset", "none")] + [[((("fail", 0),), "ok")] * 20, [((("ok", 300), ("ok", 0)), "ok")] * 6]
    todo, tries, workers = talks, 0, 16
    while todo:
        cases = parallel(lambda c: (c, Talk(check.bin(), c, 1 + 3 * tries).go()), todo, workers)
        r, verdicts = judge_runs([c for _, c in cases], "ConnsTrace")
        check.states += r.distinct
        check.transitions += r.generated
        todo = [(c, x) for (c, x), v in zip(cases, verdicts) if v != "ok"]
        check.traces += len(cases) - len(todo)
        if todo and tries == 2:
            c, x = todo[0]
            check.violation("what sessions hold", {"module": "ConnsTrace", "case": x, "explain": "the events are no behaviour of the specified calls | %s | %s | output %r" % (
                json.dumps(x["calls"]), " ".join("%s:%d" % (e["k"], e["n"]) + (":%d:%d" % (e["m"], e["t"]) if e["k"] == "held" else "") for e in x["events"]), x["out"])})
            break
        if todo:
            check.count("sessions repeated for their times", len(todo))
        todo, tries, workers = [c for c, x in todo], tries + 1, 4
    check.count("sessions with connections counted", len(talks))
    check.sample(cases[0][1]["events"][:12])
    check.log("what sessions hold: %d sessions validated" % len(talks))


# ---------------------------------------------------------------- C25
def double(rng, far=False):
    """a literal of a random double"""
    while True:
        e = rng.randrange(1, 2046) if far else 1023 + rng.choice([rng.randrange(-70, 70), rng.randrange(-12, 30)])
        m = rng.choice([rng.getrandbits(52), rng.getrandbits(52), 0, 1, 2 ** 52 - 1, rng.getrandbits(8) << 44, rng.getrandbits(20) << 32])
        t = format(Decimal(repr(struct.unpack("<d", struct.pack("<Q", e << 52 | m))[0])), "f")
        return t if "." in t else t + ".0"


SHOWN = ["0.1 + 0.2", "1.0 / 3", "2.0 / 3", "10.0", "1.50", "100000.0", "9999999999999998.0", "10000000000000000.0", "123456789012345680.0", "0.0001", "0.00001",
         "0.00006103515625", "0.1", "0.5", "-0.0", "0.0", "1.0 / 0", "-1.0 / 0", "0.0 / 0", "5e", "2251799813685247.75", "2251799813685247.25", "1125899906842623.125",
         "0.3 - 0.1", "1 - 0.9", "4.35 * 100", "1.1 + 2.2", "9007199254740993.0", "4503599627370496.5", "0.1 * 3", "7.0 % 0.3", "1000000.0 * 1000000.0 * 1000000.0 * 1000000.0",
         "0", "-1", "9223372036854775807", "-9223372036854775807 - 1", "1000000", "007", "true", "false", "[][0]", '""', '"a"', '"0.1"', '"1"', '"null"', '"true"',
         '"\u00e9\u20ac"', '"{a}"', '"tab\t"', '"back\\\\slash"', '"[1]"', "[]", "{}", "[1.0]", "[1, 0.5, -2.0]", '["a", true, [][0]]', '{"k": 0.1}', '{1.5: 1.0}', "{1.0: [2.0]}", '[[0.1], {"a": {}}]', '{true: {0.5: [][0]}}',
         '["it\'s", "\t", "\\\\"]', "[1e]", "[100000000000000000000.0, 0.00001]", "1 == 1.0", "[0.0 / 0, -1.0 / 0]", "-0.1", "- 12345.678"]


def c25(check):
    rng = check.rng
    m = 10 if check.thorough else 1
    os.environ["EXACT"] = "1"
    check.model("MCShow")
    numbers = [double(rng) for _ in range(110 * m)] + [double(rng, True) for _ in range(4 * m)]
    values = SHOWN + [rng.choice(["%s", "%s", "-%s", "[%s]", "{%s: 1}", "{\"f\": [%s]}"]) % x for x in numbers]
    rng.shuffle(values)
    # in a session: the answer, what is printed and formatted, the key it is kept under
    ses = []
    for part in [values[i:i + 6] for i in range(0, len(values), 6)]:
        lines = ["let a = 1"]
        for v in part:
            lines += ["let a = " + v, "a", 'println("{a}|{b}", a, [a])', 'let t = format("{a}", a)', "[t, length(t)]", "t", "let m = {a: [a], 12: t}.x; let m = {a: [a]}", "m", "m[a]", "m[t]",
                      "[m[a] == [a], a == a]", 'print("{x}{x}{x}", a, t, m); a']
        ses.append(lines)
    run_sessions(check, ses, "values in sessions")
    # in requests: path, headers, body, form fields
    reqs = []
    plain = [v for v in values if not re.search(r'["\[{]', v)]
    for part in [plain[i:i + 4] for i in range(0, len(plain), 4)]:
        def lines(at, part=part, kinds=[rng.randrange(3) for _ in part]):
            ls = []
            for v, k in zip(part, kinds):
                ls += ["let a = %s" % v, ("request q `%s`" % [
                    "GET http://%s/{a}?v={a}&w=%%7B{a}\\nX-{a}: {a}" % at, "POST http://%s/\\nA: {a} {a}\\n\\n{a}\\n{ a }" % at,
                    "PUT http://%s/\\nContent-Type: application/x-www-form-urlencoded\\n\\na: {a}\\nb{a}: x" % at][k], True), "q().status"]
            return ls
        reqs.append({"lines": lines, "plan": lambda i: reply("ok")})
    run_templates(check, reqs, "values in requests")
    # asserted operands: what is shown and recorded of them, and what the body makes of them
    runs = []
    for i in range(24 * m):
        nums = [rng.choice(["-", "", ""]) + rng.choice([rng.choice(numbers[:110 * m]), str(rng.randrange(-3, 5) / 4), "%d.%d" % (rng.randrange(99), rng.randrange(99)), str(rng.getrandbits(62))]).lstrip("-") for _ in range(6)]
        vals = ['"' + n + '"' if rng.random() < 0.1 else n for n in nums]
        body = "{%s}" % ", ".join('"v%d": %s' % (k, v) for k, v in enumerate(vals))
        ops = ["json.v%d" % k for k in range(6)] + [n.lstrip("-") for n in nums[:3]] + ["-json.v2", "[json.v3]", "json.v4 * 2", "json.v0 + 0.1", '{"k": json.v5}', "body.none"]
        asserts = ["%s %s %s" % (rng.choice(ops), rng.choice(["==", "!=", "<", ">=", "<=", ">"]), rng.choice(ops)) for _ in range(5)] + [rng.choice(ops)]
        text = "request q `GET http://ADDR/`[%s]\ntest a { let r = q(); println(\"{a} {b}\", r.json.v0, [r.json.v1]); let k = {r.json.v2: r.json.v3}; println(\"{k}\", k) }\n" % ", ".join(asserts)
        runs.append(Run(check.bin(), text, name="a", plan=answers(lambda i, rec, b=body: dict(body=b))))
    validate_runs(check, runs, "asserted operands")
    del os.environ["EXACT"]


# ---------------------------------------------------------------- C26
class Still:
    """holds every answer back; whenever nothing moves any more it notes what can be seen, then lets one of the waiting requests go on"""

    def __init__(self, rng, patience, base=None, halves=0.3):
        self.rng, self.patience, self.base, self.halves = rng, patience, base or answers(), halves
        self.lock, self.held, self.over, self.seen = threading.Condition(), set(), set(), []
        self.events = 0

    def plan(self, i):
        base = self.base(i)
        half = self.rng.random() < self.halves

        def wait():
            with self.lock:
                self.held.add(i)
                self.events += 1
                self.lock.notify_all()
                self.lock.wait_for(lambda: i in self.over, 60)

        def parts(rec):
            got = base["segments"](rec) if callable(base["segments"]) else base["segments"]
            data = b"".join(d for _, d in got)
            k = self.rng.randrange(1, len(data)) if half and len(data) > 1 else 0
            if k:
                yield (0, data[:k])
            wait()
            yield (0, data[k:])
        return dict(base, segments=parts)

    def control(self, run):
        rec = os.path.join(run.dir, "rec")

        def state():
            return (self.events, len(run.buf[1]), tuple(os.path.getsize(os.path.join(rec, n)) for n in sorted(os.listdir(rec))))
        try:
            while run.proc.poll() is None:
                last, since = state(), time.monotonic()
                while run.proc.poll() is None and time.monotonic() - since < 0.08 * self.patience:
                    time.sleep(0.01)
                    now = state()
                    if now != last:
                        last, since = now, time.monotonic()
                with self.lock:
                    waiting = sorted(self.held - self.over)
                    if run.proc.poll() is not None:
                        break
                    if not waiting:
                        if time.monotonic() - run.t0 > 40:
                            break
                        continue
                    self.seen.append({"shown": last[1], "lens": list(last[2]), "here": sorted(self.held), "waiting": waiting})
                    self.over.add(self.rng.choice(waiting if self.rng.random() < 0.6 else waiting[:1]))
                    self.lock.notify_all()
        finally:
            with self.lock:
                self.over |= set(range(100000))
                self.lock.notify_all()
        return {}

    def snaps(self, run, case):
        threads = case["threads"] if case["mode"] == "named" else len(case["tests"])
        out = []
        for s in self.seen:
            here = [run.thread_of[i] for i in s["here"] if i < len(run.thread_of)]
            wait = [run.thread_of[i] for i in s["waiting"] if i < len(run.thread_of)]
            out.append({"shown": len(run.buf[1][:s["shown"]].decode("utf-8", "replace")), "top": here.count(-1) if -1 in wait else 0,
                        "sent": [here.count(t) for t in range(threads)], "held": [t in wait for t in range(threads)], "lens": (s["lens"] + [0] * threads)[:threads]})
        return out


def still_run(check, seed, patience):
    rng = random.Random("%s" % seed)
    bodies = lambda i, rec, r=random.Random("%s.b" % seed): {"body": r.choice(["ok", "", "[1, 2]", '{"n": 1}', "x" * 300])}
    base = answers(bodies)
    broken = lambda i: [base(i), base(i), base(i), {"segments": [(0, b"HTTP/1.1 200 OK\r\nserial: %s\r\n" % serial(i).encode())], "end": "close"}][random.Random("%s.%d" % (seed, i)).randrange(4)]
    names = ["a"] if rng.random() < 0.75 else ["a", "b", "c", "d"][:rng.randint(2, 4)]
    g = Gen(rng, faults=0, fails=0.35, tests=names, calls=(1, 3), prints=2.0, top=0.5)
    named = len(names) == 1
    threads = rng.choice([1, 1, 2, 3]) if named else None
    still = Still(rng, patience, broken if rng.random() < 0.3 and threads in (1, None) else base)
    run = Run(check.bin(), g.text, name="a" if named else None, tests=None if named else names, threads=threads, number=rng.choice([1, 2, 3, 4]) if named else None,
              plan=still.plan, control=still.control, rec=rng.random() < (0.8 if named else 0.6) or named and threads > 1, stat=rng.random() < 0.6, timeout=60)
    case = run.go()
    case["snaps"] = still.snaps(run, case)
    return case


def c26(check):
    rng = check.rng
    check.model("MCPrompt")
    n = 400 if check.thorough else 60
    seeds = [rng.random() for _ in range(n)]
    cases = parallel(lambda s: still_run(check, s, 1), seeds)
    judge_still(check, "seen while requests wait", cases, lambda k: still_run(check, seeds[k], 5))
    # sessions: each line is answered before the next is given
    pool = ["1 + 1", "let a = 5", "[a, b]", "nosuch", "1 / 0", ")", "", "   ", 'println("{x}", a)', 'print("{x}", 7)', 'print("open ")', '"two\nlines"'.replace("\n", " "), 'println("a"); println("b"); 3', 'print("x"); nosuch',
            'println("shown"); 1 / 0', "request z `GET http://127.0.0.1:1/`", "z()", "z().status", "let b = [a, 1]", "{}", 'if (a) { println("yes") } else { println("no") }', "test t { 1 }", '"\u00e9\u4e2d"', "x" * 3000, '"%s"' % ("long " * 3000)]
    calls = ["q()", "q().status", "let r = q(); r.json", 'println("before"); q(); println("after")', 'print("part "); q().status', "request q `GET http://ADDR/other`[status == 200]", "q().body; nosuch", "[q().json, q().json]"]
    make = []
    for k in range(600 if check.thorough else 90):
        ls = [rng.choice(pool) for _ in range(rng.choice([2, 5, 12]))] + (["exit"] if rng.random() < 0.4 else [])
        make.append(lambda p, ls=ls: Prompted(check.bin(), ls, p))
    for k in range(200 if check.thorough else 30):
        ls = ["request q `POST http://ADDR/%d`" % k] + [rng.choice(calls + pool[:12]) for _ in range(rng.choice([2, 5, 9]))]
        make.append(lambda p, ls=ls: Prompted(check.bin(), lambda at: [l.replace("ADDR", at) for l in ls], p, lambda i: reply(str(i))))
    judge_prompted(check, "answers before the next line", make)
    # one text: what it prints before a request is there while the answer is waited for
    pieces = ['println("line {x}", 1)', 'print("part ")', 'print("{x}", [1, "two"])', "q()", "q().json.n", "let r = q(); println(\"{s}\", r.status)", 'println("{x}", q().status)', "1", "nosuch", 'if (q().status == 200) { println("yes"); q() }', "[q(), q()]"]
    make = []
    for k in range(300 if check.thorough else 50):
        t = "request q `GET http://ADDR/%d`%s" % (k, rng.choice(["", "[status == 200]"])) + "\n" + "; ".join(rng.choice(pieces[:8] if rng.random() < 0.8 else pieces) for _ in range(rng.choice([2, 4, 7])))
        make.append(lambda p, t=t: HeldText(check.bin(), t, p))
    judge_prompted(check, "texts whose answers are held back", make)


class Prompted:
    """a session whose next line is given only once nothing more comes in answer to the last; its input stays open"""

    def __init__(self, binary, lines, patience=1, plan=None):
        self.binary, self.lines, self.patience, self.plan = binary, lines, patience, plan

    def go(self):
        if STOP.is_set():
            raise Skipped()
        srv = Server(self.plan) if self.plan else None
        lines = self.lines("127.0.0.1:%d" % srv.port) if srv else self.lines
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0"}
        p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=scratch(), preexec_fn=limit_memory)
        buf, shown = [b""], []

        def reader():
            while True:
                d = os.read(p.stdout.fileno(), 65536)
                if not d:
                    return
                buf[0] += d
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        try:
            for l in lines:
                n = len(buf[0])
                p.stdin.write((l + "\n").encode())
                p.stdin.flush()
                if l == "exit":
                    break
                if l.strip():
                    wait_for(lambda: len(buf[0]) > n and buf[0].endswith(b"\n") or p.poll() is not None, 0.6 * self.patience)
                last, since = len(buf[0]), time.monotonic()
                while time.monotonic() - since < 0.015 * self.patience:
                    time.sleep(0.003)
                    if len(buf[0]) != last:
                        last, since = len(buf[0]), time.monotonic()
                shown.append(last)
            if not lines or lines[-1] != "exit" or len(shown) % 2:
                p.stdin.close()
            code = p.wait(20)
        except BrokenPipeError:
            code = p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = None
        t.join(10)
        out = buf[0]
        case = {"lines": [cps(l) for l in lines], "out": cps(out), "shown": [len(out[:k].decode("utf-8", "replace")) for k in shown] + [0] * (len(lines) - len(shown)),
                "end": "timeout" if code is None else "ok" if code == 0 else "exit %d" % code}
        if srv:
            case.update(srv=[[cps("127.0.0.1"), srv.port]], exch=recorded(srv.finish()), files=[])
        return case


class HeldText:
    """basjoofan eval TEXT: every answer is held back until nothing more is printed"""

    def __init__(self, binary, text, patience=1):
        self.binary, self.text, self.patience = binary, text, patience

    def go(self):
        if STOP.is_set():
            raise Skipped()
        buf, shown = [b""], {}

        def plan(i):
            def segments(rec):
                last, since = len(buf[0]), time.monotonic()
                while time.monotonic() - since < 0.1 * self.patience:
                    time.sleep(0.01)
                    if len(buf[0]) != last:
                        last, since = len(buf[0]), time.monotonic()
                shown[i] = last
                return [(0, http('{"n": %d}' % i))]
            return {"segments": segments, "end": "close"}
        srv = Server(plan)
        text = self.text.replace("ADDR", "127.0.0.1:%d" % srv.port)
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0"}
        p = subprocess.Popen([self.binary, "eval", "--", text], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=scratch(), preexec_fn=limit_memory)

        def reader():
            while True:
                d = os.read(p.stdout.fileno(), 65536)
                if not d:
                    return
                buf[0] += d
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        try:
            code = p.wait(30)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = None
        t.join(10)
        exch = recorded(srv.finish())
        for i, x in enumerate(exch):
            if i in shown:
                x["shown"] = len(buf[0][:shown[i]].decode("utf-8", "replace"))
        return {"mode": "text", "lines": [cps(text)], "out": cps(buf[0]), "end": "timeout" if code is None else "ok" if code == 0 else "exit %d" % code,
                "srv": [[cps("127.0.0.1"), srv.port]], "exch": exch, "files": []}


def judge_prompted(check, what, make):
    """sessions made again with more patience if they are rejected"""
    cases = parallel(lambda f: f(1).go(), make)
    for b in range(0, len(cases), 400):
        part = cases[b:b + 400]
        path = os.path.join(scratch(), "prompted.json")
        dump_cases(path, part)
        r = tlc("ReplTrace", env={"CASES": path})
        check.states += r.distinct
        check.transitions += r.generated
        bad = sorted({int(c) - 1 for v, c, l in r.cases if v == "bad"})
        if r.code != 0 and not bad:
            raise ToolError("ReplTrace: %s" % r.out[-3000:])
        check.traces += len(part)
        for k in bad[:3]:
            STOP.clear()
            check.count("sessions repeated with more patience", 1)
            check.validate("ReplTrace", [make[b + k](6).go()], what, describe=lambda c, l: show(c, l) + " | shown after each line: %s" % c.get("shown"), samples=0)
    check.count("sessions:" + what, len(cases))
    check.count("lines answered one by one", sum(len(c["lines"]) for c in cases))
    check.log("%s: %d sessions validated" % (what, len(cases)))


def judge_still(check, what, cases, again):
    for b in range(0, len(cases), 30):
        part = cases[b:b + 30]
        r, verdicts = judge_runs(part)
        check.states += r.distinct
        check.transitions += r.generated
        for k, (c, v) in enumerate(zip(part, verdicts)):
            if v not in ("ok", "open"):     # with more patience
                STOP.clear()
                c = again(b + k)
                v = judge_runs([c])[1][0]
                check.count("recordings repeated with more patience", 1)
            if v not in ("ok", "open"):
                check.violation(what, {"module": "RunTrace", "case": c, "explain": v + " | " + show_run(c) + " | snaps %s" % json.dumps(c["snaps"])[:600]})
                return
            check.traces += 1
    check.count("runs:" + what, len(cases))
    check.count("moments at which nothing moved", sum(len(c["snaps"]) for c in cases))
    for c in cases[:2]:
        check.sample({"run": show_run(c), "snaps": c["snaps"][:3]})
    check.log("%s: %d runs validated" % (what, len(cases)))


CHECKS = {"C23": c23, "C24": c24, "C25": c25, "C26": c26}
NOTES = {
    "C23": "MCModes checks on every program of up to 2 (thorough: 3) statements of a pool of 13, definitions before, between or behind them, that one text, its lines one by one, other places of the definitions, the body of a test or of an if, and files read one after another mean the same; 130 random programs with requests, failing and unparsable statements are given to the real program in 8 ways each (eval, one line, several lines, a file, in an if by eval and by line, as a test, in several files), and texts with unusual characters around and within; TLC validates every recording against the same specification.",
    "C24": "MCConns checks every interleaving of calls, their racing attempts and the closing of sockets (24k states); runs whose answers are given round by round, over http and https, with faults, refused calls and uploads, have their open sockets and files counted while requests wait; sessions whose calls race several addresses have theirs counted during and after each call; TLC validates the events against Runner and Conns.",
    "C25": "MCShow checks for 690 doubles (powers of two and their neighbours, subnormals, the largest) that the text found from the interval of the numbers rounding to them is the shortest and nearest one that reads back, and agrees with literals, format and map keys of the specified language; about 180 values, random doubles among them, are shown by the real program in answers, prints, formats, keys, requests and assertions, and TLC compares each text with the specified one character by character.",
    "C26": "MCPrompt checks, for 2 threads and 3 steps each, that a line a waiting thread has ended is shown whatever the others do and that nothing is lost or reordered; in real runs every answer is held back and, whenever nothing moves any more, the sizes of standard output and record files are noted, then one waiting request is let go (in random order): TLC compares each moment with the pieces and records the specified threads have written by then; sessions give each line only after the answer to the last. Complete lines only; a begun line may be kept back. A rejected recording is made again with five times the patience before it counts.",
}
