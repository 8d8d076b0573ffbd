"""C15-C22: runs of tests, decided by Runner.tla / RunnerTrace.tla (how a run proceeds) and RunTrace.tla (what it says)."""
import itertools, os, random, signal, time
from runs import *

# ---------------------------------------------------------------- random programs
ASSERTS = ["status == 200", "status", "status > 199", "status < 100", 'reason == "OK"', 'body == "ok"', 'body == "no"',
           "headers.serial[0] != [][0]", 'headers["serial"][0]', "json.k == 3", "json.list[1] < 2", "length(body)",
           'status == 200 && reason == "OK"', "unknown == 3", "1 / 0 == 2", "status % 0", "!status", "json",
           'format("{a}", status) == "200"', 'version == "HTTP/1.1"', "status + 1 == 201", "[1, status][1] == 200", "json.list == [1, 2.5]",
           '{"a": 1} == {"a": 1}', "-1 < 0", "if (status == 200) { 3 } else { 4 } == 3", "status == 200 || nope", "append([], 1)"]
BODIES = ["ok", "no", '{"k": 3, "list": [1, 2.5], "neg": -4}', "", "two\nlines\n", "h\u00e9llo \u4e16", '"text"', "[1, [2], {}]"]


def body_for(i, rec):
    """what the scripted server answers: asked for in the path"""
    line = rec["wire"].split(b"\r\n", 1)[0].decode("utf-8", "replace")
    m = re.search(r"/b(\d)", line)
    kw = {"body": BODIES[int(m.group(1)) % len(BODIES)] if m else "ok"}
    m = re.search(r"/s(\d{3})", line)
    if m:
        kw["status"] = {"404": "404 Not Found", "500": "500 Internal Server Error", "204": "204"}.get(m.group(1), m.group(1) + " Some Reason")
    return kw


def plan_with_faults(i):
    """as asked for in the path: /reset breaks the connection, /cut closes within the head, /bin answers no text"""
    base = answers(body_for)(i)

    def segments(rec):
        line = rec["wire"].split(b"\r\n", 1)[0]
        if b"/cut" in line:
            return [(0, b"HTTP/1.1 200 OK\r\nserial: " + serial(i).encode() + b"\r\nx")]
        if b"/none" in line:
            return []
        if b"/bin" in line:
            return [(0, b"HTTP/1.1 200 OK\r\n\r\n\xff\xfe")]
        if b"/reset" in line:
            rec["plan"]["end"] = "reset"
            return [(0, b"HTTP/1.1 200 OK\r\n")]
        return base["segments"](rec)
    return {"segments": segments, "end": "close"}


FAULTS = ["http://127.0.0.1:1/refused", "http://nowhere.invalid/x", "http://ADDR/cut", "http://ADDR/none", "http://ADDR/bin", "http://ADDR/reset"]
CONF = ["nohost nowhere.invalid 0", "addr 127.0.0.1 1 0 refuse"]


class Gen:
    def __init__(self, rng, faults=0.0, fails=0.3, tests=("a",), top=0.5, calls=(1, 4), prints=0.5, nreq=4):
        self.rng, self.faults, self.fails, self.calls, self.prints = rng, faults, fails, calls, prints
        r = rng
        self.reqs = ["first"]
        text = ["let me = [][0]", "let n = 0", "let last = [][0]", 'let tag = "t"', "let seen = []"]
        text.append("request first `GET http://ADDR/first?t={tag}&me={me}&n={n}`%s" % self.asserts())
        for k in range(nreq):
            text.append(self.request("r%d" % k))
            self.reqs.append("r%d" % k)
        if r.random() < top:
            text.append("request setup `GET http://ADDR/top?n={n}`[status == 200]")
            text.append("let last = setup()")
            if r.random() < 0.5:
                text.append('println("top {s}", last.status)')
            if r.random() < 0.3:
                text.append("setup()")
        body = [self.test(t) for t in tests]
        self.text = ";\n".join(text) + ";\n" + "\n".join(body)
        if r.random() < 0.3:        # definitions may come in any order
            self.text = "\n".join(body) + "\n" + ";\n".join(text) + ";"

    def asserts(self):
        k = self.rng.choice([0, 1, 1, 2, 3, 5])
        return "[%s]" % ", ".join(self.rng.choice(ASSERTS) for _ in range(k)) if k else ""

    def request(self, name):
        r = self.rng
        path = "http://ADDR/%s%s%s?t={tag}&me={me}" % (name, "/b%d" % r.randrange(8) if r.random() < 0.6 else "", "/s%s" % r.choice(["404", "500", "204", "201"]) if r.random() < 0.2 else "")
        if r.random() < self.faults:
            path = r.choice(FAULTS)
            if "ADDR" in path:
                path += "?t={tag}&me={me}"
        k = r.random()
        if k < 0.4:
            tpl = "GET %s" % path
        elif k < 0.6:
            tpl = "POST %s HTTP/1.0\nX-One: {n}\nX-One: two\n\n{\"n\": {n}, \"list\": [1]}\nmore" % path
        elif k < 0.8:
            tpl = "PUT %s\nContent-Type: application/x-www-form-urlencoded\n\na: {n}\nb c: x&y" % path
        else:
            tpl = "POST %s\nContent-Type: multipart/form-data\n\na: {n}\nb: two words" % path
        return "request %s `%s`%s" % (name, tpl, self.asserts())

    def call(self):
        return self.rng.choice(self.reqs[1:] or self.reqs) + "()"

    def stmt(self):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return "let last = " + self.call()
        if k < 0.45:
            return "[%s, %s]" % (self.call(), self.call())
        if k < 0.52:
            return "if (last.status == 200) { %s } else { let n = n + 1; %s }" % (self.call(), self.call())
        if k < 0.58:
            return "n > 1 && " + self.call()
        if k < 0.63:
            return "let seen = append(seen, n)"
        if k < 0.7:
            return "let n = n + %d" % r.randrange(1, 3)
        if k < 0.7 + self.prints * 0.2:
            return r.choice(['println("n {n} of {me}", n, me)', 'print("part {m} ", me)', 'println("seen {s}", seen)', 'println("two\nlines {m}", me)', 'print("odd end\r")', 'println("back {m}\r", me)', 'println(" blanks \t ")', 'println("")', 'print("\n\n")', 'println("bell\x07\x1b[0m\x0c")', 'println("\u00a0\u0085\u2028")', 'println("last {s} {t}", last.status, last.json)'])
        return self.call()

    def test(self, name):
        r = self.rng
        body = ['let tag = "%s"' % name, "let head = first()", "if (!me) { let me = head.headers.serial[0] }", "let n = n + 1"]
        for _ in range(r.randint(*self.calls)):
            body.append(self.stmt())
        if r.random() < self.fails:
            body.insert(r.randrange(4, len(body) + 1), "if (n > %d) { %s }" % (r.randrange(0, 5), r.choice(["1 / 0", "undefined_name", '1 + "x"', "length(3)", "first(last.nothing[0])", "[%s, 1 / 0]" % self.call()])))
        if r.random() < 0.4:
            body.append('println("end {m} {n}", me, n)')
        return "test %s {\n  %s\n}" % (name, ";\n  ".join(body))


def random_run(check, rng, named=True, threads=None, number=None, faults=0.15, fails=0.3, rec=None, stat=None, **kw):
    if named:
        g = Gen(rng, faults, fails, **kw)
        threads = threads or rng.choice([1, 1, 2, 3, 4])
        number = number or rng.choice([1, 2, 3, 5, 8])
        rec = True if rec is None else rec
        return Run(check.bin(), g.text, name="a", threads=threads, number=number, plan=plan_with_faults, rec=rec,
                   stat=rng.random() < 0.5 if stat is None else stat, pod=rng.choice([None, "pod-", "x"]) if rec else None, conf=CONF)
    names = ["a", "b", "c", "d"][:rng.randint(1, 4)]
    g = Gen(rng, faults, fails, tests=names, **kw)
    return Run(check.bin(), g.text, tests=names, plan=plan_with_faults, rec=rng.random() < 0.7 if rec is None else rec,
               stat=rng.random() < 0.5 if stat is None else stat, conf=CONF)


# ---------------------------------------------------------------- how a run proceeds
def events_case(run, case, events, reqs=1, fails=(), timed=False):
    return {"threads": case["threads"] if case["mode"] == "named" else len(case["tests"]), "number": -1 if timed else case["number"],
            "all": case["mode"] == "all", "timed": timed, "reqs": reqs, "fails": [list(f) for f in fails], "events": events, "rec": case["rec"],
            "source": uncps(case["text"]), "args": case["args"], "out": uncps(case["out"])[-600:]}


class Gate:
    """holds the answers of a server back until told; keeps the order of events"""

    def __init__(self, f=None, base=None):
        self.f, self.lock, self.events, self.open = f, threading.Condition(), [], False
        self.base = base or answers(f)
        self.released = set()

    def plan(self, i):
        base = self.base(i)

        def segments(rec):
            with self.lock:
                self.events.append(("req", i, time.monotonic()))
                self.lock.notify_all()
                self.lock.wait_for(lambda: self.open or i in self.released, 60)
                self.events.append(("resp", i, time.monotonic()))
            return base["segments"](rec)
        return dict(base, segments=segments)

    def arrived(self):
        with self.lock:
            return sum(1 for e in self.events if e[0] == "req")

    def note(self, kind, t=0, n=0):
        with self.lock:
            self.events.append((kind, (t, n), time.monotonic()))

    def release(self, ids=None):
        with self.lock:
            if ids is None:
                self.open = True
            else:
                self.released |= set(ids)
            self.lock.notify_all()

    def trace(self, run):
        out = []
        for k, i, _ in list(self.events):
            if k in ("req", "resp"):
                if i < len(run.thread_of):
                    out.append({"k": k, "t": run.thread_of[i] + 1, "n": 0})
            else:
                out.append({"k": k, "t": i[0], "n": i[1]})
        return out


def validate_events(check, what, make, n, retry=True):
    """make(i, patience) -> case for RunnerTrace; a rejected one is made again with more patience (slow machines)"""
    made = parallel(lambda i: (i, make(i, 1)), range(n))
    cases = [c for _, c in made]
    r, verdicts = judge_runs(cases, "RunnerTrace") if cases else (None, [])
    bad = [made[k][0] for k, v in enumerate(verdicts) if v != "ok"]
    if bad and retry:
        STOP.clear()
        again = parallel(lambda i: make(i, 4), bad[:4], 2)
        r2, v2 = judge_events(again)
        for c, v in zip(again, v2):
            if v != "ok":
                check.violation(what, {"module": "RunnerTrace", "case": c, "explain": v + " | " + json.dumps(c["events"])[:900] + " | " + c["args"] + " | " + c["source"][:600] + " | output " + c["out"]})
                break
        else:
            check.count("event recordings repeated with more patience", len(bad))
    check.states += r.distinct if r else 0
    check.transitions += r.generated if r else 0
    check.traces += len(cases)
    check.count("event recordings:" + what, len(cases))
    if cases:
        check.sample({"events": cases[0]["events"][:14], "args": cases[0]["args"]})
    check.log("%s: %d event recordings validated" % (what, len(cases)))


def judge_events(cases):
    r, v = judge_runs(cases, "RunnerTrace")
    out = []
    for c, x in zip(cases, v):
        out.append("ok" if x == "ok" else "the events are no behaviour of the specified run (%s)" % x[:120])
    return r, out


ONE = '''let me = [][0];
request ping `GET http://ADDR/ping?t={tag}&me={me}`[status == 200]
test a { let tag = "a"; let r = ping(); if (!me) { let me = r.headers.serial[0] } }
'''


def barrier_case(check, threads, number, patience):
    """all threads have to be at their first request at the same time"""
    gate = Gate()
    facts = {}

    def control(run):
        everyone = wait_for(lambda: gate.arrived() >= min(threads, number), 5 * patience)
        time.sleep(0.15 * patience)
        gate.note("quiet")
        gate.release()
    run = Run(check.bin(), ONE, name="a", threads=threads, number=number, plan=gate.plan, control=control)
    case = run.go()
    return case, events_case(run, case, gate.trace(run) + ([{"k": "exit", "t": 0, "n": 0}] if case["end"] == "ok" else []))


def c15(check):
    check.model("MCRunner")
    if check.thorough:
        check.model("MCRunner", "MCRunner2")
    rng = check.rng
    # every share: threads x number
    grid = [(t, n) for t in range(1, 9) for n in range(1, 18)] if check.thorough else [(t, n) for t in range(1, 9) for n in (1, 2, 3, 5, 7, 8, 9, 13, 16)]
    validate_runs(check, [Run(check.bin(), ONE, name="a", threads=t, number=n, plan=answers()) for t, n in grid], "threads x number")
    validate_runs(check, [Run(check.bin(), ONE, name="a", threads=t, number=n, plan=answers()) for t, n in ((None, None), (None, 4), (3, None), (1, 40), (8, 64))], "defaults and larger")
    # iterations without requests, many of them
    quiet = 'let n = 0;\ntest a { let n = n + 1; println("it {n}", n) }\n'
    validate_runs(check, [Run(check.bin(), quiet, name="a", threads=t, number=n, rec=r) for t, n, r in ((1, 30, True), (1, 30, False), (3, 20, True), (4, 6, True))], "iterations without requests")
    # one thread fails, the others go on: whoever got the answer with that serial, at the given iteration
    fail = '''let me = [][0]; let n = 0;
request ping `GET http://ADDR/ping?me={me}`[status == 200]
test a { let r = ping(); if (!me) { let me = r.headers.serial[0] } let n = n + 1; if (me == "s00000%d;" && n == %d) { 1 / 0 } ping(); if (me == "s00000%d;" && n == %d) { nope } }
'''
    runs = []
    for t, n in ((1, 4), (2, 6), (3, 9), (4, 10), (5, 20)):
        for k in range(4 if not check.thorough else 12):
            runs.append(Run(check.bin(), fail % (rng.randrange(t), rng.randrange(1, 4), rng.randrange(t), rng.randrange(1, 4)), name="a", threads=t, number=n, plan=answers()))
    validate_runs(check, runs, "threads that fail")
    validate_runs(check, [random_run(check, rng) for _ in range(400 if check.thorough else 40)], "random programs")
    # the threads run at the same time and each does its share, whatever the order of the answers
    def make(i, patience):
        r = random.Random("%s/%d" % (check.seed, i))
        t = 2 + i % 7
        return barrier_case(check, t, t + r.randrange(0, 2 * t), patience)[1]
    validate_events(check, "concurrent threads", make, 60 if check.thorough else 14)


# ---------------------------------------------------------------- C16
CROWD = """let me = [][0]; let n = 0;
request one `GET http://ADDR/one/b2?me={me}&n={n}`[status == 200, json.k == 3, headers.serial[0] != [][0], body == "no", json.list == [1, 2.5], reason]
request two `POST http://ADDR/two/b4?me={me}

{n} of {me}`[status < 100, body, length(body) == 10, 1 / 0 == 2, headers["serial"][0]]
test a { let r = one(); if (!me) { let me = r.headers.serial[0] } let n = n + 1; println("turn {n} of {me}", n, me); two(); one(); %s }
"""


def crowd_run(check, threads, number, extra="", rec=True, stat=True):
    """many threads that report at the same time: answers are held back and released together"""
    gate = Gate(body_for)

    def control(run):
        for k in range(1, 4):
            wait_for(lambda: gate.arrived() >= min(threads, number) * k, 3)
            gate.release(range(gate.arrived()))
        gate.release()
    return Run(check.bin(), CROWD % extra, name="a", threads=threads, number=number, plan=gate.plan, control=control, rec=rec, stat=stat)


def c16(check):
    check.model("MCRunner")
    if check.thorough:
        check.model("MCRunner", "MCRunner2")
    rng = check.rng
    m = 6 if check.thorough else 1
    validate_runs(check, [random_run(check, rng, stat=True, calls=(2, 6)) for _ in range(28 * m)], "named tests", chunk=40)
    validate_runs(check, [random_run(check, rng, named=False, calls=(2, 6), fails=0.6) for _ in range(28 * m)], "all tests", chunk=40)
    runs = [crowd_run(check, t, n, e, stat=st) for t, n, e, st in ((8, 16, "", True), (8, 24, "if (n == 2) { nope }", True), (6, 12, "", False), (8, 8, "1 / 0", True), (4, 16, "if (n > 2) { one(); 1 / 0 }", True), (7, 21, "", True))]
    validate_runs(check, runs * m, "many threads reporting at once", chunk=20)
    # exchanges of many bytes, among small ones
    large = lambda n: {"body": b'{"a": "' + b"".join(b"%07d " % k for k in range(n // 8 + 1))[:n] + b'"}'}
    text = """request one `POST http://ADDR/one\nA: b\n\n%s`[status == 200]
test a { one(); one(); one() }
"""
    runs = [Run(check.bin(), text % ("x" * k), name="a", plan=answers(lambda i, rec, n=n: large(n if i == 1 else 10)), stat=True) for k, n in ((10, 1100000), (140000, 70000), (0, 270000))]
    validate_runs(check, runs, "exchanges of many bytes", chunk=1)
    # an iteration that fails right after, between and before its requests, in every position
    calls = ["one()", "two()", "one()"]
    runs = []
    for at in range(4):
        for failing in ("1 / 0", "let r = [one(), nope]", 'println("{a}")', "two(one())", "one() && undefined", "if (one().status == 200) { 1 / 0 }"):
            body = calls[:at] + [failing] + calls[at:]
            text = """request one `GET http://ADDR/one?t={tag}`[status == 200]
request two `GET http://ADDR/two?t={tag}`[status == 404]
let tag = "x";
test a { let tag = "a"; %s }
test b { let tag = "b"; two(); one() }
""" % "; ".join(body)
            runs.append(Run(check.bin(), text, name="a", plan=answers(body_for), stat=True, number=rng.choice([1, 2])))
            if at % 2 == 0 or check.thorough:
                runs.append(Run(check.bin(), text, tests=["a", "b"], plan=answers(body_for), stat=True, rec=rng.random() < 0.5))
    validate_runs(check, runs, "failing at every point")
    # requests of the top level belong to no test
    text = """request setup `GET http://ADDR/top?x=1`[status == 200]
request one `GET http://ADDR/one?t={tag}&me={me}`[status == 200]
let tag = ""; let me = [][0]; let base = setup(); setup(); println("base {s}", base.status);
test a { let tag = "a"; let r = one(); if (!me) { let me = r.headers.serial[0] } one() }
test b { let tag = "b"; one() }
test c { let tag = "c"; println("none") }
"""
    runs = [Run(check.bin(), text, plan=answers(), stat=s, rec=r, **kw) for s in (True, False) for r in (True, False)
            for kw in (dict(name="a"), dict(name="a", threads=3, number=3), dict(name="c", number=2), dict(tests=["a", "b", "c"]))]
    validate_runs(check, runs, "requests of the top level")


# ---------------------------------------------------------------- C17
TWO = """let me = [][0];
request ping `GET http://ADDR/ping?me={me}`[status == 200]
test a { let r = ping(); if (!me) { let me = r.headers.serial[0] } %s }
"""


def rounds(n, reqs):
    return -(-n // reqs)


def iters_of(run, reqs):
    return [rounds(sum(1 for t in run.thread_of if t == k), reqs) for k in range(run.threads or 1)]


def stop_case(check, threads, reqs, before, how, patience, signals=1, number=None, stat=True, linger=0):
    """answers flow until `before` requests were seen; then they are held, the run is told to stop, answers flow again"""
    text = TWO % "; ".join(["ping()"] * (reqs - 1))
    gate = Gate()
    gate.released = set(range(before))
    seconds = 1

    def control(run):
        t0 = run.t0
        wait_for(lambda: gate.arrived() >= before + threads, 10)
        time.sleep(0.05)
        if how == "signal":
            wait_for(lambda: catches_sigint(run.proc.pid), 10)
            gate.note("tell")
            for _ in range(signals):
                run.proc.send_signal(signal.SIGINT)
                time.sleep(0.02)
            time.sleep(0.25 * patience)
        else:
            time.sleep(max(0, t0 + seconds - time.monotonic()))
            gate.note("tell")
            time.sleep(0.8 * patience)
        gate.note("heard")
        if linger:
            time.sleep(linger)
        gate.release()
        return {"iters": lambda r: iters_of(r, reqs)}
    run = Run(check.bin(), text, name="a", threads=threads, number=number if number is not None else (100000 if how == "signal" else None),
              duration="%ds" % seconds if how == "duration" else None, plan=gate.plan, control=control, stat=stat, timeout=30)
    case = run.go()
    events = gate.trace(run) + ([{"k": "exit", "t": 0, "n": 0}] if case["end"] == "ok" else [])
    return case, events_case(run, case, events, reqs, timed=how == "duration")


def flow_case(check, threads, seconds, number, pause, patience, failing=None):
    """answers flow all the time; the run ends with its duration"""
    extra = "n = n" if False else ""
    text = TWO % ("if (me == \"%s\") { 1 / 0 }" % failing if failing else "")
    gate = Gate(lambda i, rec: time.sleep(pause) or {})
    gate.open = True

    def control(run):
        t0 = run.t0
        wait_for(lambda: run.proc.poll() is not None, max(0, t0 + seconds - time.monotonic()), 0.01)
        gate.note("tell") if time.monotonic() >= t0 + seconds else None
        if wait_for(lambda: run.proc.poll() is not None, 0.9 * patience, 0.01) is False:
            gate.note("heard")
    run = Run(check.bin(), text, name="a", threads=threads, duration="%ds" % seconds, number=number, plan=gate.plan, control=control, stat=True, timeout=30)
    case = run.go()
    events = gate.trace(run) + ([{"k": "exit", "t": 0, "n": 0}] if case["end"] == "ok" else [])
    case["iters"] = iters_of(run, 1)
    return case, events_case(run, case, events, 1, timed=True)


def both(check, what, make, n):
    """recordings with two faces: the events go to RunnerTrace, what was printed and recorded to RunTrace"""
    made = {}

    def one(i, patience):
        case, ev = make(i, patience)
        made[i] = case
        return ev
    validate_events(check, what, one, n)
    cases = [made[i] for i in sorted(made)]

    class Made:
        def __init__(self, c):
            self.c = c

        def go(self):
            return self.c
    if not check.violations:
        validate_runs(check, [Made(c) for c in cases], what)


def c17(check):
    check.model("MCRunner")
    rng = check.rng
    plans = [(t, r, b, s) for t in (1, 2, 3, 4) for r in (1, 2, 3) for b in (0, 1, 2, 5, 9) for s in (1, 2)]
    if not check.thorough:
        plans = [(1, 1, 0, 1), (1, 2, 1, 1), (1, 3, 5, 2)] + rng.sample(plans, 11)
    both(check, "interrupted", lambda i, p: stop_case(check, *plans[i][:3], "signal", p, plans[i][3], stat=i % 3 != 2), len(plans))
    # a few have only the iterations left that are in flight
    few = [(1, 1, 0, 2), (2, 2, 2, 3), (3, 1, 3, 9)]
    both(check, "interrupted near the end", lambda i, p: stop_case(check, few[i][0], few[i][1], few[i][2], "signal", p, 1, few[i][3]), len(few))
    plans2 = [(t, r, b) for t in (1, 2, 4) for r in (1, 2) for b in (0, 3, 6)]
    if not check.thorough:
        plans2 = rng.sample(plans2, 6)
    both(check, "duration elapsed during iterations", lambda i, p: stop_case(check, *plans2[i], "duration", p, number=[None, 1, 7][i % 3]), len(plans2))
    flows = [(1, 1, None, 0.02), (2, 1, 1, 0.05), (4, 1, 3, 0.06), (3, 2, None, 0.1)] + ([(t, s, n, 0.05) for t in (1, 2, 5) for s in (1, 2, 3) for n in (None, 2, 50)] if check.thorough else [])
    both(check, "duration while answers flow", lambda i, p: flow_case(check, *flows[i], p), len(flows))
    # a run with a duration ends early only if all its threads fail
    def all_fail(i, p):
        gate = Gate()
        gate.open = True
        text = TWO % "1 / 0"
        run = Run(check.bin(), text, name="a", threads=1 + i % 3, duration=["9s", "9000s", "9s"][i % 3], number=[None, 2][i % 2], plan=gate.plan, stat=True, timeout=30)
        case = run.go()
        case["iters"] = [1] * (1 + i % 3)
        late = case["end"] == "timeout" or run.t_exit > min(5 * p, 8)      # nothing is left to do: it should long have ended
        ev = gate.trace(run) + [{"k": "alive", "t": 0, "n": 0}] * late + [{"k": "exit", "t": 0, "n": 0}]
        return case, events_case(run, case, ev, 1, [(t + 1, 0, 1) for t in range(1 + i % 3)], True)
    both(check, "all threads fail before the duration", all_fail, 5)


# ---------------------------------------------------------------- C18
SHARED = """let x = "top"; let last = [][0]; let tag = ""; let me = [][0]; let list = [1];
request get `GET http://ADDR/get?t={tag}&me={me}&x={x}`[status == 200%s]
%s
"""


def c18(check):
    check.model("MCRunner")
    rng = check.rng
    m = 8 if check.thorough else 1

    def stepwise(run_threads, per):
        """answers are given round by round once all have arrived: the tests advance in lock step"""
        gate = Gate(body_for)

        def control(run):
            for k in range(1, per + 1):
                wait_for(lambda: gate.arrived() >= run_threads * k, 2)
                gate.release(range(gate.arrived()))
            gate.release()
        return gate, control
    runs = []
    for _ in range(14 * m):
        names = ["a", "b", "c", "d"][:rng.randint(2, 4)]
        tests = ""
        for t in names:
            stm = []
            for k in range(3):
                stm.append(rng.choice(['let x = "%s%d"' % (t, k), "let last = get()", 'let list = append(list, "%s")' % t, 'let y_%s = %d' % (t, k), "x", 'println("own {a} {b}", x, list)']))
                stm.append("let last = get()" if rng.random() < 0.5 else "get()")
            stm.append('println("%s sees {x} {l} {s}", x, list, last.headers.serial)' % t)
            stm.append("get()")
            if rng.random() < 0.5:
                stm.append("y_%s" % rng.choice(names))
            tests += 'test %s { let tag = "%s"; %s }\n' % (t, t, "; ".join(stm))
        extra = rng.choice(["", ", x == \"top\"", ", let x = 5", ", let status = 7, status == 7", ", last", ", append([], 1), let body = \"changed\""])
        gate, control = stepwise(len(names), 4)
        runs.append(Run(check.bin(), SHARED % (extra, tests), tests=names, plan=gate.plan, control=control, rec=rng.random() < 0.7, stat=False))
    validate_runs(check, runs, "all tests in lock step")
    runs = []
    for _ in range(14 * m):
        body = ["let r = get()", "if (!me) { let me = r.headers.serial[0] }", "let list = append(list, me)", 'println("{m} has {l} and {x}", me, list, x)',
                rng.choice(["let x = me", 'let x = format("{a}+", x)', "if (length(list) > 2) { let x = list }"]), "let last = get()",
                rng.choice(['println("{x}", x)', "get()", "if (length(list) == 3) { y }", "let y = length(list)"])]
        extra = rng.choice(["", ", x == \"top\"", ", let x = 5, let me = 6", ", list", ", let get = 3"])
        t = rng.randint(2, 5)
        gate, control = stepwise(t, 4)
        runs.append(Run(check.bin(), SHARED % (extra, "test a { %s }" % "; ".join(body)), name="a", threads=t, number=t * rng.randint(1, 3), plan=gate.plan, control=control))
    validate_runs(check, runs, "threads in lock step")
    validate_runs(check, [random_run(check, rng, named=False) for _ in range(20 * m)], "random programs, all tests")
    validate_runs(check, [random_run(check, rng, threads=rng.choice([2, 3, 4, 6]), number=rng.choice([4, 6, 9, 12])) for _ in range(14 * m)], "random programs, threads")


# ---------------------------------------------------------------- C19
def killed_case(check, text, threads, number, conf, finished_from, plan=None, when=None, look=False):
    """a run that is killed (by the shim at a byte, or from outside), and what its record files hold"""
    gate = Gate(body_for)
    gate.open = True
    snap = {}

    def control(run):
        if when:
            gate.open = False
            gate.released = set(range(when))
            wait_for(lambda: gate.arrived() >= when + 1, 10)
            # at least this much was there before the kill
            snap["seen"] = gate.arrived()
            run.proc.kill()
            gate.release()
        elif look:
            gate.open = False
            gate.released = set(range(look))
            wait_for(lambda: gate.arrived() >= look + threads, 10)
            time.sleep(0.01)
            rec = os.path.join(run.dir, "rec")
            snap["files"] = [(n, open(os.path.join(rec, n), "rb").read()) for n in sorted(os.listdir(rec))]
            snap["seen"] = gate.arrived()
            run.proc.kill()
            gate.release()
    run = Run(check.bin(), text, name="a", threads=threads, number=number, plan=gate.plan, control=control, conf=conf, timeout=30)
    case = run.go()
    if look:
        case["records"] = [{"name": cps(n), "bytes": list(b)} for n, b in snap["files"]]
    per = finished_from
    seen = [sum(1 for i, t in enumerate(run.thread_of) if t == k and i < snap.get("seen", 1 << 30)) for k in range(threads)]
    case["finished"] = [max(0, (s - 1) // per) if s else 0 for s in seen]
    case["text"] = case["text"]
    return case


def validate_kills(check, cases, what):
    r, verdicts = judge_runs(cases, "KillTrace")
    check.states += r.distinct
    check.transitions += r.generated
    for c, v in zip(cases, verdicts):
        if v not in ("ok", "open"):
            check.violation(what, {"module": "KillTrace", "case": c, "explain": v + " | finished %s, file sizes %s | %s" % (c["finished"], [len(x["bytes"]) for x in c["records"]], show_run(c))})
            return
    check.traces += len(cases)
    check.count("record files of stopped runs:" + what, len(cases))
    check.log("%s: %d recordings validated" % (what, len(cases)))


RICH = """let me = [][0]; let n = 0;
request one `GET http://ADDR/one/b6?me={me}&n={n}
X-%s: v%s`[status == 200, body, headers.serial[0] != [][0]]
request two `POST http://ADDR/two/b2?me={me}
Content-Type: application/x-www-form-urlencoded
Empty:
Accept: a/b

name: {n}`[json.k == 3, json]
test a { let r = one(); if (!me) { let me = r.headers.serial[0] } let n = n + 1; two() }
"""


def c19(check):
    rng = check.rng
    m = 5 if check.thorough else 1
    validate_runs(check, [random_run(check, rng, faults=0.3, rec=True) for _ in range(20 * m)] + [random_run(check, rng, named=False, faults=0.3, rec=True) for _ in range(16 * m)], "random programs", chunk=40)
    # shapes: many headers, assertions and fields, empty and long texts, non-ASCII, lengths around the limits of the encoding
    shapes = []
    for nh, na, blen in [(0, 0, 0), (1, 1, 1), (63, 2, 63), (64, 63, 64), (65, 64, 127), (3, 65, 128), (130, 3, 8191), (2, 2, 8192), (5, 1, 20000), (1, 1, 66000)] + ([(70, 130, 16383), (1, 0, 16384), (0, 1, 70000)] if check.thorough else []):
        heads = "".join("\nH%d: v%s" % (k, "\u00e9" * (k % 3)) for k in range(nh))
        asserts = ", ".join("status == %d" % (200 + k % 3) for k in range(na))
        text = "request one `POST http://ADDR/one\n%s\n\n%s`%s\ntest a { one() }\n" % (heads.strip("\n") or "A: b", "x\u4e16" * (blen // 4) + "y" * (blen % 4), "[%s]" % asserts if asserts else "")
        body = ("z" * blen).encode()

        def f(i, rec, nh=nh, body=body):
            return {"body": body, "headers": [("h%d" % k, "w" * (k % 5)) for k in range(nh)]}
        shapes.append(Run(check.bin(), text, name="a", number=2, plan=answers(f)))
    validate_runs(check, shapes, "shapes of records")
    pods = [Run(check.bin(), ONE, name="a", threads=2, number=2, plan=answers(), pod=p) for p in ("p", "pod-1-", "\u00e9", "000", "a.b")]
    validate_runs(check, pods, "names of record files")
    # iterations which send nothing: their blocks hold no record
    idle = "request one `GET http://ADDR/one` [status == 200]\ntest a { %s }\n"
    none = [Run(check.bin(), idle % body, name="a", threads=t, number=n, plan=answers()) for body, t, n in (("1", 1, 3), ("1", 2, 5), ("let x = 1", 1, 1), ("1 + null", 2, 4))]
    none += [Run(check.bin(), idle % "if (one().status == 200) { one() }", name="a", threads=1, number=4, plan=answers()),
             Run(check.bin(), idle % "1" + "test b { one() }\ntest c { 2 }\n", tests=["a", "b", "c"], plan=answers())]
    validate_runs(check, none, "iterations without requests")
    # record files of an earlier run lie there already: longer, shorter, broken
    earlier = [bytes(f["bytes"]) for f in Run(check.bin(), RICH % ("One", "old"), name="a", threads=2, number=12, plan=answers(body_for)).go()["records"]]
    runs = [Run(check.bin(), RICH % ("One", ""), name="a", threads=t, number=n, plan=answers(body_for), before=b, pod=p)
            for t, n, p, b in ((1, 1, None, [("000000", earlier[0])]), (2, 3, "x", [("x000000", earlier[0]), ("x000001", earlier[1])]), (1, 9, None, [("000000", earlier[0][:700])]),
                               (1, 0, None, [("000000", earlier[0])]), (1, 2, None, [("000000", b"\0" * 20000)]), (1, 30, None, [("000000", b"Obj")]))]
    runs += [Run(check.bin(), RICH % ("One", ""), tests=["a"], plan=answers(body_for), before=[("000000", earlier[0])])]
    validate_runs(check, runs, "over the files of an earlier run")
    # the system writes fewer bytes than asked
    runs = []
    for mode in ("one", "half", "some", "intr"):
        for t, n in ((1, 3), (3, 6)):
            runs.append(Run(check.bin(), RICH % ("One", "\u00e9"), name="a", threads=t, number=n, plan=answers(body_for), conf=["short file RECDIR %s" % mode]))
        runs.append(Run(check.bin(), RICH % ("One", ""), tests=["a"], plan=answers(body_for), conf=["short file RECDIR %s" % mode]))
    validate_runs(check, runs, "short writes")
    # killed once so many bytes are written
    whole = Run(check.bin(), RICH % ("One", ""), name="a", number=2, plan=answers(body_for)).go()
    size = len(whole["records"][0]["bytes"])
    head = bytes(whole["records"][0]["bytes"]).find(b"afilesyncmarker") + 16
    head = head if head > 16 else 2000
    points = range(0, size + 2) if check.thorough else sorted(set([0, 1, 3, 4, 5, head - 17, head - 1, head, head + 1, head + 2, head + 3, size - 17, size - 16, size - 1, size] + rng.sample(range(size), 45)))
    cases = parallel(lambda n: killed_case(check, RICH % ("One", ""), 1, 3, ["crash RECDIR %d" % max(0, n)], 2), list(points))
    validate_kills(check, cases, "killed at a byte")
    # killed or looked at while requests are in flight
    plans = [(t, w) for t in (1, 2, 3) for w in range(1, 16)]
    plans = plans if check.thorough else rng.sample(plans, 16)
    cases = parallel(lambda a: killed_case(check, RICH % ("One", ""), a[0], 100, [], 2, when=a[1]), plans)
    validate_kills(check, cases, "killed while requests are in flight")
    plans = [(t, w) for t in (1, 2, 3) for w in range(0, 12)]
    plans = plans if check.thorough else rng.sample(plans, 16)
    cases = parallel(lambda a: killed_case(check, RICH % ("One", ""), a[0], 100, [], 2, look=a[1] or 1), plans)
    validate_kills(check, cases, "read while the run goes on")


# ---------------------------------------------------------------- C20
def c20(check):
    check.model("MCRunner")
    rng = check.rng
    m = 6 if check.thorough else 1

    def slow(f):
        def plan(i):
            base = f(i)
            seg = base["segments"]

            def segments(rec):
                time.sleep(((i * 7919) % 11) * 0.004)
                return seg(rec)
            return dict(base, segments=segments)
        return plan
    runs = []
    for _ in range(24 * m):
        r = random_run(check, rng, stat=True, faults=0.15)
        r.plan = slow(r.plan)
        runs.append(r)
    validate_runs(check, runs, "named tests", chunk=40)
    runs = []
    for _ in range(20 * m):
        r = random_run(check, rng, named=False, stat=True, faults=0.15, fails=0.5)
        r.plan = slow(r.plan)
        runs.append(r)
    validate_runs(check, runs, "all tests", chunk=40)
    runs = [crowd_run(check, 8, 24), crowd_run(check, 4, 8, "if (n == 2) { 1 / 0 }"), crowd_run(check, 1, 12), crowd_run(check, 3, 9, stat=False)]
    runs += [Run(check.bin(), ONE, name="a", threads=t, number=n, plan=slow(answers()), stat=True, rec=r) for t, n, r in ((1, 1, True), (1, 40, False), (4, 32, True), (8, 16, False), (2, 0, True))]
    none = 'test a { println("no request") }\n'
    runs += [Run(check.bin(), none, name="a", stat=s, number=3) for s in (True, False)] + [Run(check.bin(), none, tests=["a"], stat=True)]
    validate_runs(check, runs, "many or no exchanges")
    # one name in several tests, several names in one test, names redefined
    text = """let tag = "";
request p `GET http://ADDR/p?t={tag}`[status == 200]
request q `GET http://ADDR/q?t={tag}`
request p2 `GET http://127.0.0.1:1/none`
test a { let tag = "a"; p(); q(); p() }
test b { let tag = "b"; p(); p2(); p2() }
test c { let tag = "c"; q(); 1 / 0; p() }
"""
    runs = [Run(check.bin(), text, tests=["a", "b", "c"], plan=slow(answers()), stat=True, rec=r, conf=CONF) for r in (True, False) for _ in range(3)]
    runs += [Run(check.bin(), text, name=n, number=k, plan=slow(answers()), stat=True, conf=CONF) for n in "abc" for k in (1, 3)]
    validate_runs(check, runs, "names shared by tests")
    # names which are nearly the same
    text = "request p `GET http://ADDR/1`\nrequest P `GET http://ADDR/2`\nrequest p_ `GET http://ADDR/3`\nrequest _p `GET http://ADDR/4`\nrequest pp `GET http://ADDR/5`\n"
    text += "test a { p(); P(); P(); pp(); p_(); _p(); pp(); pp() }\ntest A { P(); pp() }\n"
    runs = [Run(check.bin(), text, name=n, number=2, plan=slow(answers()), stat=True, conf=CONF) for n in "aA"] + [Run(check.bin(), text, tests=["a", "A"], plan=slow(answers()), stat=True, conf=CONF)]
    validate_runs(check, runs, "names which are nearly the same")


# ---------------------------------------------------------------- C21
FILE_NAMES = ["a.fan", "B.fan", "b.fan", "a-b.fan", "a0.fan", "z.FAN", "x.fan.bak", ".fan", "a.b.fan", "fan", "readme.md", "\u00e9.fan", "_.fan", "10.fan", "9.fan", "A.fan", "a b.fan", "a.fan~", "ab.fan", ".x.fan", "..fan"]
DIR_NAMES = ["a", "b", "B", "a.fan", "d.fan", "a-b", "z", "0", "sub dir", ".hidden", "\u00e9", "fan"]


def rand_tree(rng, depth, counter):
    def content():
        counter[0] += 1
        k = counter[0]
        body = [rng.choice(['println("file %d {w}", who)' % k, 'let who = %d' % k, "print(\"<%d>\")" % k, 'let v%d = who' % (k % 4), 'println("{v}", v%d)' % (k % 4), "", "let last = 1", "-1", "1 +", "2", "(3)", '"s"'][:rng.choice([5, 7, 8, 12])]) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.15:
            body.append("test t%d { println(\"%d\") }" % (k % 3, k))
        sep = rng.choice(["\n", ";\n", "; "])
        return sep.join(body) + rng.choice(["", "\n", "\n\n", ";", " "])
    entries, used = [], set()
    for _ in range(rng.randint(0, 5)):
        if depth and rng.random() < 0.35:
            n = rng.choice(DIR_NAMES)
            if n in used:
                continue
            used.add(n)
            entries.append({"name": n, "dir": True, "entries": rand_tree(rng, depth - 1, counter), "text": ""})
        else:
            n = rng.choice(FILE_NAMES)
            if n in used:
                continue
            used.add(n)
            entries.append({"name": n, "dir": False, "entries": [], "text": content()})
    rng.shuffle(entries)
    return entries


def make_tree(path, entries):
    os.makedirs(path, exist_ok=True)
    for e in entries:
        p = os.path.join(path, e["name"])
        if e["dir"]:
            make_tree(p, e["entries"])
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(e["text"])


def coded(e):
    return {"name": list(e["name"].encode()), "dir": e["dir"], "text": cps(e["text"]), "entries": [coded(x) for x in e["entries"]]}


class TreeRun:
    """`basjoofan test` on a directory (or file); how: "path", "cwd", "relative", "slash" """

    def __init__(self, check, entries, name="nosuchtest", how="path", start=None, plan=None, tests=None, top=False):
        # top: all requests are made by the top-level statements
        self.check, self.entries, self.name, self.how, self.start, self.plan, self.tests, self.top = check, entries, name, how, start, plan, tests, top

    def go(self):
        d = tempfile.mkdtemp(prefix="tree-", dir=scratch())
        srv = Server(self.plan or answers())

        def fill(es):
            return [dict(e, text=e["text"].replace("ADDR", "127.0.0.1:%d" % srv.port), entries=fill(e["entries"])) for e in es]
        try:
            root = os.path.join(d, "root")
            entries = fill(self.entries)
            make_tree(root, entries)
            tree = {"name": "root", "dir": True, "text": "", "entries": entries}
            path = root
            for step in (self.start or []):
                tree = [e for e in tree["entries"] if e["name"] == step][0]
                path = os.path.join(path, step)
            args = [self.check.bin(), "test"] + ([self.name] if self.name else [])
            cwd = d
            if self.how == "path":
                args += ["-p", path]
            elif self.how == "relative":
                args += ["--path", os.path.relpath(path, d)]
            elif self.how == "slash":
                args += ["-p", path + "/"]
            else:
                cwd = path
            rec = os.path.join(d, "records")
            os.makedirs(rec)
            args += ["-r", rec]
            out, err, end = run_binary(args, timeout=40, cwd=cwd, again=False)
            exch = srv.finish()
            records = [(n, open(os.path.join(rec, n), "rb").read()) for n in sorted(os.listdir(rec))]
            order = []
            if not self.name:
                order = [first_name(b) for n, b in records]
                rest = [x for x in (self.tests or []) if x not in order]
                order = [x if x in (self.tests or []) else (rest.pop(0) if rest else "?") for x in order] + rest
            ts = [-1] * len(exch) if self.top else attribute(exch, records, order, 1 if self.name else len(order))
            return {"tree": coded(tree), "text": cps(json.dumps(self.entries)[:1500]), "mode": "named" if self.name else "all", "name": cps(self.name or ""),
                    "threads": 1, "number": 1, "stat": False, "rec": True, "pod": [], "records": [{"name": cps(n), "bytes": list(b)} for n, b in records],
                    "srv": [[cps("127.0.0.1"), srv.port]], "files": [], "out": cps(out), "end": end, "tests": [cps(x) for x in order],
                    "exch": [dict(r, t=t) for r, t in zip(recorded(exch), ts)], "args": " ".join(args[1:]), "err": err.decode("utf-8", "replace")[-300:]}
        finally:
            shutil.rmtree(d, ignore_errors=True)


def F(name, text):
    return {"name": name, "dir": False, "text": text, "entries": []}


def D(name, *entries):
    return {"name": name, "dir": True, "text": "", "entries": list(entries)}


def c21(check):
    check.model("MCLoader")
    rng = check.rng
    m = 10 if check.thorough else 1
    runs = []
    for _ in range(150 * m):
        runs.append(TreeRun(check, rand_tree(rng, 3, [0]), how=rng.choice(["path", "cwd", "relative", "slash"])))
    # every pair of names side by side tells their order
    names = FILE_NAMES + DIR_NAMES
    pairs = list(itertools.combinations(range(len(names)), 2))
    for a, b in pairs if check.thorough else rng.sample(pairs, 60):
        es, used = [], set()
        for k in (b, a):
            n = names[k]
            if n in used:
                continue
            used.add(n)
            say = 'println("%d")' % k
            es.append(F(n, say) if k < len(FILE_NAMES) else D(n, F("m.fan", say), F("c.fan", 'println("%d c")' % k)))
        runs.append(TreeRun(check, es))
    validate_runs(check, runs, "what is read, in which order", chunk=400)
    # definitions across files: usable everywhere, the later one wins, a program that does not parse or fails runs nothing
    req = "request ping `GET http://ADDR/%s?t={tag}`[status == 200]\n"
    sets = [
        [F("a.fan", 'test t { let tag = "t"; ping(); println("{v}", v) }'), F("b.fan", 'let tag = "x"; let v = 7;'), D("c", F("d.fan", req % "one"))],
        [F("a.fan", req % "one"), D("b", F("x.fan", req % "two")), F("c.fan", 'let tag = 1; test t { let tag = "t"; ping() }')],
        [F("z.fan", req % "last"), D("b", F("x.fan", req % "two")), F("c.fan", 'let tag = 1; test t { let tag = "t"; ping() }')],
        [F("a.fan", 'test t { let tag = "old" ; println("old") }'), F("b.fan", 'test t { let tag = "t"; println("new"); ping() }'), F("c.fan", req % "one"), F("d.fan", "let tag = 3")],
        [F("a.fan", "let tag = 1; let v = 1"), D("m", F("k.fan", "let v = 2")), F("z.fan", req % "one" + 'test t { let tag = "t"; println("{v}", v); ping() }')],
        [F("a.fan", req % "one" + 'let tag = 0; test t { let tag = "t"; ping() }'), F("b.fan", "let x = ;")],
        [F("a.fan", req % "one" + 'let tag = 0; test t { let tag = "t"; ping() }'), F("b.fan", "1 / 0")],
        [F("a.fan", req % "one" + 'let tag = 0; ping2(); test t { let tag = "t"; ping() }'), F("b.fan", "request ping2 `GET http://ADDR/top`"), F("c.fan", "let y = nope")],
        [F("a.fan", req % "one" + 'let tag = 0; test t { let tag = "t"; ping() }'), F("b.fan", "test u { "), D("c", F("d.fan", 'println("in u") }'))],
        [F("a.fan", "let tag = 12"), F("b.fan", "34"), F("c.fan", 'println("{t}", tag); test t { println("{t}", tag) }')],
        [F("a.fan", 'let tag = "a'), F("b.fan", 'b"; println("{t}", tag); test t { println("{t}", tag) }')],
        [F("a.fan", 'println("x")'), F("b.txt", "1 / 0"), F("c.fan", 'test t { println("t") }')],
        [],
        [D("e"), D("f", D("g"))],
    ]
    runs = []
    for es in sets:
        for name in ("t", None, "u"):
            has_u = any("test u" in json.dumps(e) for e in es)
            tests = [x for x in ("t", "u") if any("test %s " % x in json.dumps(e) for e in es)]
            for how in ("path", "cwd") if name == "t" else ("relative",):
                runs.append(TreeRun(check, es, name=name, how=how, tests=tests))
    # files are taken as they are, and one ends where the next begins: odd characters, and texts that go over from file to file
    odd = ("\r\n", "\r", "\n\r\n", "\n\n", "\t", " ", "\u00a0", "\u0085", "\u2028", "\ufeff", "\x0b", "\x0c", "\x00", "\x1a", "\x1b", "\u200b", "e\u0301", "\u00e9", "\U0001f600", "\\n", "\\", "//", "#", "/* */", "--", "%", "$a", "'")
    def within(o, k):
        text = ['let v = "%s";' % o, 'let v = "a%sb";' % o, 'let v = "%sb%s";' % (o, o), 'let%sv%s=%s"x"%s;' % (o, o, o, o), '%slet v = "x";' % o, 'let v = "x";%s' % o, 'let v = "x"%s' % o][k]
        show = 'println("{l} {v}", length(v), v)'
        return [[F("a.fan", text), F("b.fan", show)], [F("a.fan", text + show)], [F("a.fan", o), F("b.fan", text + "\n" + show)], [F("a.fan", 'let v = "1%s' % o), F("b.fan", '%s2"; %s' % (o, show))],
                [F("a.fan", req % "one" + text + show), F("b.fan", 'let tag = "t"; request ping `POST http://ADDR/x?t={tag}\nA: b\n\n1%s2\n{v}`; test t { %s; ping() }' % (o, show))]]
    for o in odd:
        ways = [w for k in range(7) for w in within(o, k)]
        for es in ways if check.thorough else rng.sample(ways, 2) + [rng.choice(within(o, 0)[:2] + within(o, 1)[:2])]:
            tests = ["t"] if "test t" in json.dumps(es) else []
            runs.append(TreeRun(check, es, name="t", how="path", tests=tests))
    # a single file
    one = [F("main.fan", 'println("top"); test t { println("in t") }'), F("main.txt", 'println("txt"); test t { println("in t") }'), F("noext", "test t { 1 }"), F("two.x.fan", 'test t { println("two") }'), F("up.FAN", "test t { 1 }"), D("d.fan", F("q.fan", 'test t { println("q") }'))]
    for e in one:
        for how in ("path", "relative"):
            runs.append(TreeRun(check, one, name="t", how=how, start=[e["name"]]))
    validate_runs(check, runs, "programs in several files", chunk=400)


# ---------------------------------------------------------------- C22
def c22(check):
    check.model("MCRunner")
    rng = check.rng
    m = 6 if check.thorough else 1
    text = """println("top {n}", 1);
request setup `GET http://ADDR/top?once`[status == 200]
request hit `GET http://ADDR/hit?t={tag}`[status == 200]
let tag = ""; let s = setup();
%s
println("top {n}", s.status);
"""
    runs = []
    for k in range(12 * m):
        names = rng.sample(["a", "b", "c", "ab", "a_b", "test1", "A", "_", "hit2"], rng.randint(1, 6))
        tests = ""
        for t in names:
            body = rng.choice(['hit()', 'println("in %s")' % t, "hit(); 1 / 0; hit()", "nope", "", "hit(); hit()"])
            tests += 'test %s { let tag = "%s"; %s }\n' % (t, t, body)
        if rng.random() < 0.3:
            tests += 'test %s { let tag = "%s"; println("again"); hit() }\n' % (names[0], names[0])
        runs.append(Run(check.bin(), text % tests, tests=names, plan=answers(), rec=k % 2 == 0, stat=k % 3 == 0))
        for n in rng.sample(names, min(2, len(names))) + [rng.choice(["zz", "hit", "setup", "a ", "", "A", "ab", "t", "tag"])]:
            runs.append(Run(check.bin(), text % tests, name=n, plan=answers(), rec=k % 2 == 1, stat=k % 3 == 1, threads=rng.choice([None, 1, 2]) if n in names and k % 2 == 1 else None, number=rng.choice([None, 2])))
        if k < 8 * m:       # names that are nearly those of tests
            n = rng.choice(names)
            near = [n + " ", " " + n, n + "\n", n + "\t", n.upper(), n.lower(), n.title(), n[:-1] or "x", n + n, n + "_", "_" + n, '"%s"' % n, "`%s`" % n, "test " + n, "test", n + "," + rng.choice(names), n + ";", n + " " + rng.choice(names), n + "()", "*", ".", "%s*" % n[:1],
                    "%s.fan" % n, n + "\u200b", n + "\u00a0", n + "\u0301", "\ufeff" + n, "".join(chr(ord(c) + 0xfee0) for c in n), n[::-1], "0", "1", "main", "all", "%" + n, n.replace("_", "-"), n.replace("_", "")]
            for x in near if check.thorough else rng.sample(near, 9):
                if x not in names or rng.random() < 0.3:
                    runs.append(Run(check.bin(), text % tests, name=x, plan=answers(), rec=k % 2 == 1, stat=k % 3 == 1, number=rng.choice([None, 2])))
    validate_runs(check, runs, "selected tests")
    validate_runs(check, [random_run(check, rng, named=False, fails=0.6) for _ in range(16 * m)], "random programs, all tests")

    # every test runs on its own: with all answers held, all tests have to get to their first request
    def together(i, patience):
        r = random.Random("%s/%d" % (check.seed, i))
        names = ["t%d" % k for k in range([2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 65][i % 12])]
        bad = r.choice(names)
        held = [n for n in names]
        gate = Gate()
        body = "".join('test %s { let tag = "%s"; hit(); %s }\n' % (n, n, "1 / 0" if n == bad and i % 2 else "") for n in names)
        src = 'request hit `GET http://ADDR/hit?t={tag}`[status == 200]\nlet tag = "";\n' + body

        def control(run):
            wait_for(lambda: gate.arrived() >= len(names), 5 * patience)
            time.sleep(0.1 * patience)
            gate.note("quiet")
            order = list(range(gate.arrived()))
            r.shuffle(order)
            for j in order[:-1]:        # one after the other, in any order; the last is left waiting for a while
                gate.release([j])
                time.sleep(0.01)
            time.sleep(0.1 * patience)
            gate.note("quiet")
            gate.release()
        run = Run(check.bin(), src, tests=names, plan=gate.plan, control=control, rec=i % 3 != 0)
        case = run.go()
        fails = [(k + 1, 0, 1) for k, t in enumerate(case["tests"]) if uncps(t) == bad and i % 2]
        return events_case(run, case, gate.trace(run) + ([{"k": "exit", "t": 0, "n": 0}] if case["end"] == "ok" else []), 1, fails)
    validate_events(check, "no test waits for another", together, 48 if check.thorough else 12)

    # unusable numbers are rejected before anything runs
    prog = 'println("ran");\ntest a { 1 / 0 }\n'
    values = {"number": ["0", "1", "3", "+2", "00", "-1", "abc", "", "1.5", "4294967295", "4294967296", "99999999999999999999", " 1", "1 ", "1e3", "0x1", "\u0661", "one", "1_000"],
              "threads": ["1", "2", "+1", "0", "00", "-1", "x", "", "1.0", "4294967296", " 2", "3 "],
              "duration": ["1s", "2m", "1h", "0s", "00s", "+1s", "1", "s", "", "1d", "1ms", "-1s", "1.5s", "s1", "1 s", " 1s", "1S", "18446744073709551615s", "18446744073709551616s", "307445734561825860m", "307445734561825861m", "5124095576030431h", "5124095576030432h", "99999999999999999999h", "1\u79d2", "\u00e9", "1hh", "m"]}
    flags = {"number": ["-n", "--number"], "threads": ["-t", "--threads"], "duration": ["-d", "--duration"]}
    sets = [[(k, v)] for k in values for v in values[k]]
    for _ in range(40 * m):
        sets.append([(k, rng.choice(values[k])) for k in rng.sample(["number", "threads", "duration"], rng.randint(2, 3))])
    sets = [s for s in sets if not any(k == "threads" and v.strip("+0").isdigit() and int(v) > 64 and int(v) < 1 << 32 for k, v in s)]

    def invoke(s):
        d = tempfile.mkdtemp(prefix="args-", dir=scratch())
        try:
            with open(os.path.join(d, "m.fan"), "w") as f:
                f.write(prog)
            os.makedirs(os.path.join(d, "rec"))
            args = [check.bin(), "test", "a", "-p", d, "-r", os.path.join(d, "rec")]
            for k, v in s:
                fl = rng.choice(flags[k])
                args += ["%s=%s" % (fl, v)] if fl.startswith("--") or v.startswith("-") or not v else [fl, v]
            out, err, end = run_binary(args, timeout=40, again=False)
            files = os.listdir(os.path.join(d, "rec"))
            return {"flags": [[k, cps(v)] for k, v in s], "ran": b"ran" in out or bool(files), "said": bool((out + err).strip()), "ended": end != "timeout" and not end.startswith("signal"),
                    "args": args[2:], "text": cps(prog), "threads": 0, "number": 0, "out": cps(out), "end": end, "err": err.decode("utf-8", "replace")[-200:]}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    cases = parallel(invoke, sets)
    for c in cases:
        c["args"] = " ".join(c["args"])
    r, verdicts = judge_runs(cases, "ArgTrace")
    check.states += r.distinct
    check.transitions += r.generated
    for c, v in zip(cases, verdicts):
        if v != "ok":
            check.violation("numbers of a run", {"module": "ArgTrace", "case": c, "explain": v + " | " + show_run(c)})
            break
    else:
        check.traces += len(cases)
    check.count("invocations with numbers", len(cases))
    check.log("numbers of a run: %d invocations validated" % len(cases))


CHECKS = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22}
NOTES = {
    "C15": "MCRunner checks share, numbering and order over all interleavings of up to 3 threads; runs of the real binary over a grid of threads x iterations (exhaustive for small ones), random programs, failing iterations and unusual numbers are recorded (output, record files, requests at the server) and validated by TLC against RunTrace, which evaluates every iteration with the specified language.",
    "C16": "MCRunner (one report per exchange, whole, in order, over all interleavings); recorded runs of random programs, of all tests, with up to 8 threads reporting at once and with iterations failing at every position, each decided by TLC: the output must be an interleaving of the threads' printed lines and whole reports, the record blocks and statistics must agree.",
    "C17": "MCRunner with liveness (every run ends; no iteration begins after the stop was heard); stop histories of the real binary - signal or duration at every point of a gated run, several signals, number smaller or larger than the duration - recorded as events at the server and validated by TLC against Runner; also duration against number timing. Time bounds carry slack and are retried before they count.",
    "C18": "Programs in which threads, iterations and tests set, read and append to the same names, redefine requests and evaluate assertions; recorded runs are validated by TLC, where each thread of the specification starts from the state of the top level alone.",
    "C19": "Record files of recorded runs are decoded byte by byte by the specified Avro decoder (schema taken from the file) and compared with the specified exchanges; shapes around the length limits of the encoding; short writes injected by an LD_PRELOAD shim; the process killed at sampled (thorough: all) byte positions of the file and while requests are in flight, the remainder validated by TLC as a prefix with all finished blocks.",
    "C20": "Recorded runs with slow and fast answers, several names and tests, failing exchanges; the statistics lines are recomputed by TLC from the durations reported (and, when recording, from the record files).",
    "C21": "MCLoader checks the specified order over all small trees; 210 random trees (names around the byte order, directories named x.fan, links, other extensions) and 68 programs split over files are run and their output validated by TLC.",
    "C22": "Runs with and without NAME over programs with many tests, unknown names, failing tests and top-level failures validated by TLC; a gated server holds one test while the others must finish; usable and unusable numbers, durations and counts are generated and decided by the Args specification.",
}
