"""C08-C14: single exchanges, decided by Http.tla, JsonText.tla, Report.tla, Connect.tla and Tls.tla through RunTrace / ConnectTrace."""
import itertools, os, random, time
from runs import *
from checks_run import CONF

# ---------------------------------------------------------------- C08
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT", "get", "FETCH", "Post", "GETX", "-"]
VERSIONS = ["", "", " HTTP/1.1", " HTTP/1.0", " HTTP/0.9", " HTTP/2.0", " HTTP/3.0", " HTTP/2", " http/1.1", " 1.1", " HTTP/1.0 more words"]
PATHS = ["", "/", "/a", "/a/b/", "//a", "/a?b=c", "?b=c", "?", "/a?b=c&d=e%20f", "/a#frag", "#frag", "/a:b", "/a:80/b", "/p?u=http://x:1/y", "/\u00e9/\u4e16?\u00fc=1",
         "/%7Btag%7D", "/a;b=c,d", "/a?x={\"a\":1}", "/~'()*!$&+=@[]|^", "/a?b?c", "/..", "/a//b", "/" + "long/" * 40, "/a?q=1;2", "/\\", "/{ 1}", "/{}", "?q=:8080", "/@host:99/"]
HEADERS = ["A: b", "A: c", "a: d", "X-Empty:", "X-Empty: ", "X-Spaces:    two   words   ", "  Indented: x", "X:y", "Time: 12:30:45", "Quote: \"q\"; a='b'", "Uni: h\u00e9llo \u4e16",
           "no colon here", "X-Long: " + "v" * 300, "Host: example.org", "Content-Length: 3", "Content-Length: 0", "Tab:\tx\ty", "Accept: */*", "Name With Space : v", ": no name", "Connection: keep-alive",
           "Transfer-Encoding: chunked", "{n}: {tag}", "X-{n}: {  tag }", "X: {\"a\": {n}}", "Expect: 100-continue"]
LINES = ["text", "two words", "  indented", "trailing  ", "", "", "   ", "\t", "a: b", "k: v: w", "{\"n\": {n}, \"s\": \"{tag}\"}", "[1, 2,", "]", "h\u00e9llo \u4e16 \U0001f600", "--", "a=b&c=d", "{n}{n}", "x" * 500, "\\n", "'quotes' \"\"", "@file", ": empty", "%41+%20"]
FIELDS = ["a: 1", "b: two words", "a: 2", "c:", ": v", "no colon", "k: v: w", "sp ace: x", "\u00e9: \u4e16", "  pad  :  ded  ", "sym: !#$%&'()*+,-./:;<=>?[]^_|~", "n{n}: {tag}", "amp: a&b=c", "plus: 1+1=2", "", "quote: \"q\"", "at: a@b", "tilde~: ~", "nul: \x01\x7f", "emoji: \U0001f600"]
FILES = [("plain.txt", b"hello"), ("empty.bin", b""), ("bytes.bin", bytes(range(256))), ("lines.txt", b"a\r\nb\nc\r\n\r\nd"), ("n\u00e4me.json", b'{"a": 1}'), ("dashes", b"--x\r\n--y--\r\n"), ("big.dat", b"0123456789abcdef" * 600)]


def eol(rng, lines):
    k = rng.random()
    if k < 0.7:
        return "\n".join(lines)
    if k < 0.85:
        return "\r\n".join(lines)
    return "".join(l + rng.choice(["\n", "\r\n"]) for l in lines[:-1]) + (lines[-1] if lines else "")


def template(rng, hosts, kind=None):
    head = "%s %s%s%s" % (rng.choice(METHODS), "http://" + rng.choice(hosts), rng.choice(PATHS), rng.choice(VERSIONS))
    if rng.random() < 0.05:
        head = "  " + head.replace(" ", "   ") + " "
    hs = [rng.choice(HEADERS) for _ in range(rng.choice([0, 0, 1, 2, 3, 6]))]
    kind = kind or rng.choice(["none", "raw", "raw", "form", "multi"])
    if kind == "raw" and rng.random() < 0.4:
        hs.append(rng.choice(["Content-Type: application/json", "content-type: text/plain", "Content-Type: application/x-www-form-urlencoded; charset=utf-8", "Content-Type: multipart/form-data; boundary=mine", "Content-Type: APPLICATION/X-WWW-FORM-URLENCODED", "X-Content-Type: multipart/form-data"]))
    if kind in ("form", "multi"):
        ct = {"form": "application/x-www-form-urlencoded", "multi": "multipart/form-data"}[kind]
        hs.insert(rng.randint(0, len(hs)), rng.choice(["Content-Type: ", "content-type: ", "CONTENT-TYPE:   ", "Content-type:"]) + ct)
        if rng.random() < 0.1:
            hs.append("Content-Type: " + rng.choice(["text/plain", "multipart/form-data"]))
    body = []
    if kind == "raw":
        body = [rng.choice(LINES) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    elif kind == "form":
        body = [rng.choice(FIELDS) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
    elif kind == "multi":
        body = [rng.choice(FIELDS) for _ in range(rng.choice([0, 1, 2, 4]))]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            body.insert(rng.randint(0, len(body)), rng.choice(["f: @FILE%d", "file%d: @FILE%d" % (rng.randrange(3), rng.randrange(len(FILES)))]).replace("%d", str(rng.randrange(len(FILES)))))
    lines = [head] + hs + ([rng.choice(["", "", "", "  ", "\t"])] + body if body or rng.random() < 0.3 else [])
    text = eol(rng, lines)
    if rng.random() < 0.2:
        text = rng.choice(["\n", "  \n", "\r\n\n "]) + text
    if rng.random() < 0.2:
        text += rng.choice(["\n", "\n\n", " ", "\r\n"])
    return text


def program(templates, prelude='let n = 7; let tag = "t\u00e9";\n', number=1):
    text = prelude + "".join("request q%d `%s`\n" % (k, t) for k, t in enumerate(templates))
    return text + "test a { %s }\n" % "; ".join("q%d()" % k for k in range(len(templates)))


PEERS = [("alpha.test", 80), ("beta.test", 8080), ("127.0.0.2", 0), ("gamma-1.example.org", 80), ("delta.test", 81)]
HOSTS = ["ADDR", "ADDR", "ADDR", "PEER2", "alpha.test", "beta.test:8080", "gamma-1.example.org", "alpha.test:80", "delta.test:81", "gamma-1.example.org:"]


def wire_run(check, templates, conf=(), **kw):
    return Run(check.bin(), program(templates), name="a", plan=answers(), files=FILES, peers=PEERS, conf=conf, **kw)


def c08(check):
    rng = check.rng
    m = 8 if check.thorough else 1
    # every part of the request line with every other, then everything else
    heads = [(a, p, v) for a in METHODS for p in PATHS for v in sorted(set(VERSIONS))]
    heads = heads if check.thorough else [(a, rng.choice(PATHS), rng.choice(VERSIONS)) for a in METHODS] + [(rng.choice(METHODS), p, rng.choice(VERSIONS)) for p in PATHS] + \
        [(rng.choice(METHODS), rng.choice(PATHS), v) for v in sorted(set(VERSIONS))]
    lines = ["%s http://%s%s%s" % (a, rng.choice(HOSTS), p, v) for a, p, v in heads]
    lines += ["GET http://" + h + p for h in sorted(set(HOSTS)) for p in ("", "/", "?x", "/a:1")]
    validate_runs(check, [wire_run(check, lines[b:b + 12]) for b in range(0, len(lines), 12)], "request lines", chunk=40)
    # header lines: each alone, in pairs, and repeated
    tpls = [eol(rng, ["GET http://ADDR/h", h] + (["", "body"] if rng.random() < 0.3 else [])) for h in HEADERS]
    pairs = list(itertools.product(HEADERS, repeat=2))
    tpls += [eol(rng, ["PUT http://ADDR/h", a, b]) for a, b in (pairs if check.thorough else rng.sample(pairs, 60))]
    validate_runs(check, [wire_run(check, tpls[b:b + 12]) for b in range(0, len(tpls), 12)], "header lines", chunk=40)
    # bodies line by line; form fields; parts
    tpls = [eol(rng, ["POST http://ADDR/b", "A: b", "", a, b]) for a, b in (itertools.product(LINES, repeat=2) if check.thorough else [(rng.choice(LINES), rng.choice(LINES)) for _ in range(40)])]
    for ct in ("application/x-www-form-urlencoded", "multipart/form-data"):
        tpls += [eol(rng, ["POST http://ADDR/f", "Content-Type: " + ct, "", f]) for f in FIELDS]
        tpls += [eol(rng, ["POST http://ADDR/f", "A: b", "Content-Type: " + ct, "C: d", "", a, b]) for a, b in (itertools.product(FIELDS, repeat=2) if check.thorough else [(rng.choice(FIELDS), rng.choice(FIELDS)) for _ in range(20)])]
    tpls += [eol(rng, ["POST http://ADDR/f", "Content-Type: multipart/form-data", "", "f: @FILE%d" % k]) for k in range(len(FILES))]
    tpls += [eol(rng, ["POST http://ADDR/f", "Content-Type: multipart/form-data", "", "f: @FILE%d" % a, "t: x", "g: @FILE%d" % b]) for a, b in (itertools.product(range(len(FILES)), repeat=2) if check.thorough else [(rng.randrange(6), rng.randrange(6)) for _ in range(8)])]
    validate_runs(check, [wire_run(check, tpls[b:b + 10]) for b in range(0, len(tpls), 10)], "bodies", chunk=40)
    runs = [wire_run(check, [template(rng, HOSTS) for _ in range(8)], number=rng.choice([1, 1, 2])) for _ in range(30 * m)]
    validate_runs(check, runs, "random templates", chunk=40)
    # the system takes fewer bytes than offered; bodies larger than the socket takes at once
    runs = []
    for mode in ("one", "half", "some", "intr"):
        runs += [wire_run(check, [template(rng, HOSTS, k) for k in ("none", "raw", "form", "multi", "multi")], conf=["short socket - %s" % mode]) for _ in range(2 * m)]
    big = "POST http://ADDR/big\nA: b\n\n" + ("0123456789\u00e9" * 30 + "\n") * 90
    runs += [wire_run(check, [big, "GET http://ADDR/after"], conf=c) for c in ([], ["short socket - half"], ["short socket - some"])]
    validate_runs(check, runs, "short writes and large bodies", chunk=10)
    # contents, headers and paths beyond the size of any buffer on the way
    large = []
    data = lambda n: b"".join(b"%07d\n" % k for k in range(n // 8 + 1))[:n]
    text = lambda n: data(n).decode().replace("\n", " ").strip()
    for n, f in ((9000, 150000), (17000, 65536)) + (((34000, 8193), (10000, 500000)) if check.thorough else ()):
        tpls = ["POST http://ADDR/f\nContent-Type: multipart/form-data\n\na: 1\nf: @FILE0\nb: " + text(n), "PUT http://ADDR/b\n\n" + data(2 * n).decode(), "GET http://ADDR/" + text(n).replace(" ", "/"),
                "GET http://ADDR/h\nX-Large: " + text(n) + "\n" + "".join("X-%d: %s\n" % (k, "v" * (k % 30)) for k in range(n // 100)), "POST http://ADDR/f\nContent-Type: application/x-www-form-urlencoded\n\na: " + text(n) + "\nb: 2"]
        large += [Run(check.bin(), program([t]), name="a", plan=answers(), files=[("large.dat", data(f))]) for t in tpls]
    validate_runs(check, large, "large contents, headers and paths", chunk=5)


CHECKS = {"C08": c08}
NOTES = {"C08": "Request lines, header lines, bodies, form fields and multipart parts (each alone, in pairs, random), addressed by names on default and other ports and by IPv4 address, with line ends, padding and placeholders varied and socket writes cut short; the bytes that reach the server named by the URL, and the record, are validated by TLC against the specified wire image. Quick samples the pairs, thorough takes all."}


# ---------------------------------------------------------------- C09
REASONS = ["OK", "", "Not Found", "I'm a teapot", "A very long reason phrase of many words: 42!", "\u00c9t\u00e9", "200 OK"]
STATUSES = [100, 199, 200, 201, 204, 206, 301, 304, 400, 404, 418, 429, 500, 503, 599, 999]
RHEADERS = ["Content-Type: application/json", "content-type: text/plain", "Set-Cookie: a=1", "Set-Cookie: b=2; Path=/", "set-cookie: c", "X-Empty:", "X-Empty: ", "X:tight", "X-Colon: 12:30:45", "X-Pad:    padded   ",
            "X-Uni: h\u00e9 \u4e16", "Content-Length: 3", "Transfer-Encoding: chunked", "Connection: close", "X-Long: " + "w" * 400, "X-Quote: \"a\", 'b'", "X-Tab: a\tb", "status: 7", "body: no", "json: x"]
RBODIES = ["", "ok", "plain text, two words", "line\nline\r\n\r\nline\n\n", "\n", "  ", "h\u00e9llo \u4e16\U0001f600", "HTTP/1.1 200 OK\r\n\r\nnested", "<html>\n</html>", "a: b\r\n\r\nc", "0\r\n\r\n", "\ttab", "}", "x" * 3000, "\u4e16" * 700, "`tick`", "{name} { 1 }"]


def rand_json(rng, depth=3):
    k = rng.random()
    if depth and k < 0.25:
        return [rand_json(rng, depth - 1) for _ in range(rng.randrange(0, 4))]
    if depth and k < 0.55:
        return {rng.choice(["a", "b", "k 2", "", "\u00e9", "status", "null", "x-y", "1"]): rand_json(rng, depth - 1) for _ in range(rng.randrange(0, 4))}
    return rng.choice([None, True, False, 0, 1, -1, 7, -42, 9223372036854775807, -9223372036854775807, 1.5, -0.25, 123456.789, 0.001, -1000000.5, "", "text", "two words", "h\u00e9 \u4e16", "null", "1", "{a}", "a/b"])


def json_text(rng, v):
    sep = rng.choice([(",", ":"), (", ", ": "), (" ,\n\t", " :\r\n ")])
    t = json.dumps(v, ensure_ascii=False, separators=sep)
    return t if rng.random() < 0.7 else " \n" + t + "\n"


def response(rng, body=None):
    st = "%s %d" % (rng.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2", "HTTP/2.0"]), rng.choice(STATUSES))
    reason = rng.choice(REASONS)
    head = [st + (" " + reason if reason or rng.random() < 0.5 else "")] + [rng.choice(RHEADERS) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
    b = body if body is not None else (json_text(rng, rand_json(rng)) if rng.random() < 0.5 else rng.choice(RBODIES))
    return ("\r\n".join(head) + "\r\n\r\n" + b).encode()


def cuts(rng, data, n, pause):
    at = sorted(rng.sample(range(1, len(data)), min(n, len(data) - 1)))
    return [(pause if a else 0, data[a:b]) for a, b in zip([0] + at, at + [len(data)])]


SHOWS = ["q()", "let r = q()", "[r.status, r.version, r.reason]", "r.headers", "r.body", "r.json", "length(r.body)", 'r.headers["Set-Cookie"]', "q().json"]


def read_sessions(check, plans, what, **kw):
    """REPL sessions: every plan answers q() once; the whole response and its parts are shown"""
    ses = []
    for part in [plans[i:i + 24] for i in range(0, len(plans), 24)]:
        def lines(at, n=len(part)):
            return ["request q `GET http://%s/r`" % at] + [l for k in range(n) for l in (["q()"] if k % 2 else ["let r = q()", "[r.status, r.version, r.reason]", "r.headers", "r.body", "r.json"])]
        ses.append({"lines": lines, "plan": part})
    from checks_lang import run_sessions
    run_sessions(check, ses, what, timeout=60, samples=1, **kw)


def read_runs(check, plans, what, per=12, show=True):
    """runs with records: iteration k gets the k-th answer of its part"""
    text = 'request q `GET http://ADDR/r`[status == 200, json.a == 1, headers["Set-Cookie"][0] == "a=1", length(body)]\ntest a { let r = q(); print("{s} {b}\n", r.status, r.body) }\n'
    text = text if show else text.replace('print("{s} {b}\n", r.status, r.body)', "r.status")
    validate_runs(check, [Run(check.bin(), text, name="a", number=len(part), plan=part) for part in [plans[i:i + per] for i in range(0, len(plans), per)]], what, chunk=40)


def c09(check):
    rng = check.rng
    m = 6 if check.thorough else 1
    check.model("MCJson")
    # every response part alone, then random ones
    rs = [("%s\r\n\r\nbody" % ("HTTP/1.1 %d %s" % (s, r)).rstrip()).encode() for s in STATUSES for r in (REASONS if check.thorough else [rng.choice(REASONS)])]
    rs += [("HTTP/1.1 200 %s\r\n\r\n" % r).encode() for r in REASONS]
    rs += [("HTTP/1.1 200 OK\r\n%s\r\n%s\r\n\r\n" % (a, b)).encode() for a, b in (itertools.product(RHEADERS, repeat=2) if check.thorough else [(a, rng.choice(RHEADERS)) for a in RHEADERS])]
    rs += [b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n" + b.encode() for b in RBODIES]
    # characters a reader might take away or read as something else, around and within each part
    for o in ("\ufeff", "\u00a0", "\u200b", "\u0085", "\u2028", "\x01", "\x08", "\x0b", "\x0c", "\x1a", "\x1b", "\x1f", "\x7f", "\t", "\r", "\x00", "\U000e0001", "\u202e", "e\u0301", '"', "'", "%41", "+", "&amp;", "=?utf-8?q?a?=", "\\u0041", "\\"):
        for b in rng.sample([o, o + "{}", "{}" + o, o + "ab", "ab" + o, "a" + o + "b", o + "[1]" + o, '"' + o + '"', o + o], 9 if check.thorough else 4):
            rs.append(b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n" + b.encode())
        if o not in ("\x00",):
            a, b = rng.sample([o + "v", "v" + o, "v" + o + "w", o], 2)
            rs.append(("HTTP/1.1 200 %s\r\nA: %s\r\nB: %s\r\nC%s: x\r\n\r\n{}" % (rng.choice(["OK", o + "K", "O" + o, "O " + o + " K"]), a, b, rng.choice(["", o]))).encode())
    rs += [response(rng) for _ in range(60 * m)]
    whole = [{"segments": [(0, r)], "end": "close"} for r in rs]
    read_sessions(check, whole, "responses, shown")
    read_runs(check, rng.sample(whole, len(whole) if check.thorough else 60), "responses, recorded")
    js = [response(rng, json_text(rng, rand_json(rng, 4))) for _ in range(150 * m)]
    read_sessions(check, [{"segments": [(0, r)], "end": "close"} for r in js], "JSON bodies")
    # segmentation: every cut of a response into two, byte by byte, and random cuts
    base = 'HTTP/1.1 201 All Good\r\nA: b\r\nSet-Cookie: a=1\r\nSet-Cookie: b\r\n\r\n{"a": 1, "b": ["h\u00e9 \u4e16", -2.5]}\r\n'.encode()
    pause = 0.012
    plans = [{"segments": [(0, base[:i]), (pause, base[i:])], "end": "close"} for i in range(1, len(base))]
    plans += [{"segments": [(0.002, base[i:i + 1]) for i in range(len(base))], "end": "close"} for _ in range(4)]
    plans += [{"segments": cuts(rng, base, n, pause), "end": "close"} for n in (2, 3, 5, 9) for _ in range(4 * m)]
    plans += [{"segments": cuts(rng, response(rng), n, pause), "end": "close"} for n in (1, 2, 3, 6) for _ in range(6 * m)]
    plans += [{"segments": [(0, base)], "end": "close", "hold": 0.1}, {"segments": [(0.3, base[:20]), (0.3, base[20:])], "end": "close"}]
    read_sessions(check, plans, "segmentation, shown")
    read_runs(check, plans if check.thorough else rng.sample(plans, 60), "segmentation, recorded")
    # long responses: larger than any buffer on the way
    longs = []
    for n in (1000, 8191, 8192, 8193, 16384, 20000, 65537, 180000) + ((65536, 131072, 600000, 1048577) if check.thorough else ()):
        body = "".join("x%05d" % k for k in range(n // 6 + 1))[:n]
        data = ("HTTP/1.1 200 OK\r\nA: b\r\n\r\n" + body).encode()
        longs += [{"segments": [(0, data)], "end": "close"}, {"segments": cuts(rng, data, 3, 0.02), "end": "close"}]
    data = ("HTTP/1.1 200 OK\r\n" + "".join("X-%d: %s\r\n" % (k, "v" * (k % 50)) for k in range(400)) + "\r\nend").encode()
    longs += [{"segments": [(0, data)], "end": "close"}, {"segments": cuts(rng, data, 5, 0.01), "end": "close"}]
    shift = [{"segments": [(0, ("HTTP/1.1 200 OK\r\nPad: " + "p" * k + "\r\n\r\n" + "\u4e16" * 3000).encode())], "end": "close"} for k in range(4)]   # a character across the buffer's end
    read_runs(check, longs + shift, "long responses", per=2, show=False)
    for f in known_findings("C09"):
        srv = Server([reply(f["input"]["body"])])
        lines = ["request q `GET http://127.0.0.1:%d/`" % srv.port, "q().json"]
        out, err, end = session(check.bin(), lines)
        case = {"lines": [cps(l) for l in lines], "out": cps(out), "end": end, "srv": [[cps("127.0.0.1"), srv.port]], "exch": recorded(srv.finish()), "files": []}
        path = os.path.join(scratch(), "known.json")
        dump_cases(path, [case])
        r = tlc("ReplTrace", env={"CASES": path})
        if any(v == "bad" for v, c, l in r.cases):
            check.known("%s: body %s" % (f["what"], f["input"]["body"]))


# ---------------------------------------------------------------- C10
FULL = b"HTTP/1.1 200 OK\r\nA: b\r\nserial: x\r\n\r\nbody \xc3\xa9\r\n"


def broken(kind, n=0):
    if kind == "cut":           # closed in order after n bytes
        return {"segments": [(0, FULL[:n])] if n else [], "end": "close"}
    if kind == "cutslow":
        return {"segments": [(0, FULL[:n // 2]), (0.02, FULL[n // 2:n])], "end": "close"}
    if kind == "reset":         # reset after n bytes (which have had time to arrive)
        return {"segments": [(0, FULL[:n])] if n else [], "end": "reset", "hold": 0.02 if n else 0}
    if kind == "now":           # reset at once, before the request is read
        return {"segments": [], "end": "reset", "when": "now"}
    if kind == "nowclose":      # closed at once without reading
        return {"segments": [], "end": "reset", "when": "now", "hold": 0.02}
    if kind == "bin":
        data = FULL[:n] + [b"\xff", b"\xc3", b"\xe4\xb8", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80"][n % 6] + FULL[n:]
        return {"segments": [(0, data)], "end": "close"}
    return {"segments": [(0, FULL)], "end": "close"}


FAILING = '''let n = 0;
request ok `GET http://ADDR/ok?n={n}`[status == 200]
request bad `%s`[%s]
test a { let n = n + 1; let before = ok(); let r = bad(); println("{s} {b} {h} {v}", r.status, r.body, r.headers.A, r.version); ok(); if (r.status == 0) { bad() } else { ok() } }
'''
OKAY = ["status == 0", "true", "body == \"\"", "status < 100, !headers.a", "", "1 == 1, status == 200", "json == json, status != 200"]


def c10(check):
    rng = check.rng
    m = 5 if check.thorough else 1
    body = "POST %s\nA: b\n\n" + "0123456789\n" * 30
    # the peer: every point of a response at which it may close, break or stop being text
    ns = list(range(0, len(FULL) + 1))
    kinds = [("cut", n) for n in ns] + [("reset", n) for n in ns] + [("bin", n) for n in ns] + [("cutslow", n) for n in ns[::3]] + [("now", 0)] * 6 + [("nowclose", 0)] * 4 + [("full", 0)]
    text = 'request q `POST http://ADDR/x\nA: b\n\nbody`[status == 200]\nrequest p `GET http://ADDR/y`[status != 1, body != "x"]\nlet n = 0;\ntest a { let n = n + 1; let r = if (n %% 2 == 0) { q() } else { p() }; println("{s} {b} {h}", r.status, r.body, r.headers.A) }\n'.replace("%%", "%")
    runs = [Run(check.bin(), text, name="a", number=len(part), plan=[broken(*k) for k in part], stat=rng.random() < 0.3)
            for part in [kinds[i:i + 14] for i in range(0, len(kinds), 14)]]
    validate_runs(check, runs, "closed, broken or not text at every byte", chunk=40)
    # the same in a REPL
    from checks_lang import run_sessions
    some = kinds if check.thorough else rng.sample(kinds, 60)
    ses = []
    for part in [some[i:i + 20] for i in range(0, len(some), 20)]:
        ses.append({"lines": lambda at, n=len(part): ["request q `GET http://%s/x`[status == 0]" % at, "let n = 0"] + ["let n = n + 1; q()", "n"] * n, "plan": [broken(*k) for k in part]})
    run_sessions(check, ses, "broken exchanges in a session", timeout=60, samples=1)
    run_sessions(check, [["request q `GET http://%s/x`" % h, "q()", "let r = q()", "r.status", "[r.body, r.json, r.headers, r.reason]", "1"] for h in ("127.0.0.1:1", "no.such.host.invalid", "256.1.1.1", "127.0.0.1:1:2", "a b", "")], "no connection in a session", samples=1)
    # where no exchange begins: the name does not resolve, nobody accepts; in every combination with assertions that hold of an empty response
    runs = []
    for tpl in ("GET http://nowhere.invalid/x", "GET http://127.0.0.1:1/x?n={n}", body % "http://nowhere.invalid:8080/y", "POST http://many.test/x\nContent-Type: multipart/form-data\n\na: b",
                "PUT http://127.0.0.1:1/\nContent-Type: application/x-www-form-urlencoded\n\na: {n}", "GET https://nowhere.invalid/", "GET https://127.0.0.1:1/", "GET http://empty.test/", "GET http://v6only.test/x"):
        for a in (OKAY if check.thorough else rng.sample(OKAY, 3)):
            t = FAILING % (tpl, a) if a else (FAILING % (tpl, "true")).replace("[true]", "")
            runs.append(Run(check.bin(), t, name="a", number=rng.choice([1, 2, 3]), plan=answers(), stat=rng.random() < 0.5, rec=rng.random() < 0.8,
                            conf=CONF + ["host many.test 0 198.18.2.1 fd00::2:1 198.18.2.2", "addr 198.18.2.1 80 0 refuse", "addr fd00::2:1 80 5 refuse", "addr 198.18.2.2 80 30 refuse", "host empty.test 0", "host v6only.test 0 fd00::2:1"]))
    validate_runs(check, runs, "no connection", chunk=40)
    # broken while sending: much to send, the peer resets at once or after a while
    big = "POST http://ADDR/big\nA: b\n\n" + ("0123456789" * 12 + "\n") * 150
    runs = []
    for end in ("now", "nowclose", "full"):
        for conf in ([], ["short socket - half"], ["short socket - some"]):
            runs.append(Run(check.bin(), 'request q `%s`[status != 7]\nrequest ok `GET http://ADDR/`\ntest a { q(); q(); ok() }\n' % big, name="a", plan=lambda i, e=end: broken(e if i < 2 else "full"), conf=conf))
    validate_runs(check, runs, "broken while sending", chunk=20)
    # whatever a complete answer says, it is no failure
    ends = [reply(b, status=st, headers=h) for st in ("100 Continue", "101 Switching", "200 OK", "204 No Content", "206 Part", "301 Moved", "304 Not Modified", "400 Bad", "401 No", "404 Not Found", "408 Timeout", "413 Large", "429 Many", "499 X", "500 Error", "502 Bad Gateway", "503 Busy", "504 Late", "599 Z", "600 ?", "999 end", "0 zero", "1 one", "65535 top", "65536 over", "abc no", "-1 minus", "")
            for b, h in rng.sample([("", ()), ("", (("Content-Length", "0"),)), ("", (("Content-Length", "5"),)), ("abc", (("Content-Length", "2"),)), ("abc", (("Content-Length", "x"),)), ("3\r\nabc\r\n0\r\n\r\n", (("Transfer-Encoding", "chunked"),)), ("error", (("Connection", "close"),)), ('{"error": "x"}', (("Content-Type", "application/json"),)), ("x", (("Content-Encoding", "gzip"),)), ("", (("Retry-After", "1"), ("Location", "http://127.0.0.1:1/")))], 10 if check.thorough else 3)]
    validate_runs(check, [Run(check.bin(), text.replace("status == 200", "status != 7"), name="a", number=len(part), plan=part) for part in [ends[i:i + 12] for i in range(0, len(ends), 12)]], "complete answers", chunk=40)
    # no bound on how long an answer may take
    slow = [{"segments": [(11 if not check.thorough else 61, FULL)], "end": "close"}, {"segments": [(0, FULL[:20]), (11, FULL[20:])], "end": "close"}, {"segments": [(31, FULL)], "end": "close"}, {"segments": [(0, FULL[:44]), (31, FULL[44:])], "end": "close"},
            {"segments": [(6, FULL[:5]), (6, FULL[5:30]), (6, FULL[30:])], "end": "close"}, {"segments": [(16, FULL[:30])], "end": "reset"}, {"segments": [(0, FULL)], "end": "close", "hold": 16}]
    validate_runs(check, [Run(check.bin(), text, name="a", number=1, plan=[p], timeout=120) for p in slow], "slow answers", chunk=40)
    # many threads and all tests, with faults anywhere
    from checks_run import random_run
    validate_runs(check, [random_run(check, rng, faults=0.7, fails=0.2) for _ in range(14 * m)] + [random_run(check, rng, named=False, faults=0.7, fails=0.2) for _ in range(10 * m)], "random programs with faults", chunk=40)


# ---------------------------------------------------------------- C11
ATOMS = ["status", "reason", "version", "body", "headers", "json", "json.a", "json.list", "json.list[0]", "json.list[5]", "json.deep.x", "headers.serial", "headers.serial[0]", 'headers["serial"][0]', "headers.none",
         "headers.none[0]", "length(body)", "length(json.list)", "length(status)", "n", "tag", "undefined_name", "0", "1", "200", "404", "-1", "1.5", "200.0", '"OK"', '"ok"', '""', '"200"', "true", "false", "[]", "[1, 2]", "{}",
         '{"a": 1}', "[status, 1]", "append(json.list, 9)", 'format("{a}", status)', "format(status)", "nosuch(1)", "[][0]", "{\"k\": status}.k", "if (status == 200) { 1 } else { 2 }", "(status)", "status / 0", "9223372036854775807 + status",
         "reason.x", "body[0]", "json.list[status]", "(let status = 5)", "q()", "status.a.b"]
UNS = ["!", "-", "!!", "- -"]
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">="]


def operand(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.5:
        return rng.choice(ATOMS)
    if k < 0.6:
        return rng.choice(UNS) + operand(rng, depth - 1)
    if k < 0.68:
        return "(%s)" % operand(rng, depth - 1)
    return "%s %s %s" % (operand(rng, depth - 1), rng.choice(BIN), operand(rng, depth - 1))


C11_ANSWERS = [dict(body='{"a": 1, "list": [200, "ok", 1.5], "deep": {"x": {"y": null}}}'), dict(body="ok"), dict(body="", status="404 Not Found"), dict(body="[1, 2]", status="500 Internal Server Error"),
               dict(body='{"a": "OK", "list": []}', status="200 fine"), dict(body="-5", version="HTTP/1.0"), dict(body="true", headers=[("X", "1"), ("X", "2")]), dict(body="two\nlines \u00e9")]


def assert_runs(check, rng, lists):
    runs = []
    for part in [lists[i:i + 7] for i in range(0, len(lists), 7)]:
        text = 'let n = 3; let tag = "ok"; let r = [];\n' + "".join("request q%d `GET http://ADDR/%d?n={n}&s={status}`%s\n" % (k, k, rng.choice(["[%s]", " [ %s ]", "\n[%s,]"]) % l) for k, l in enumerate(part))
        text += "test a { %s; println(\"{n} {t} {r}\", n, tag, r) }\n" % "; ".join("q%d()" % k for k in range(len(part)))
        first = rng.randrange(8)
        bodies = [C11_ANSWERS[(first + k) % 8] for k in range(len(part))]
        runs.append(Run(check.bin(), text, name="a", plan=answers(lambda i, rec, b=bodies: b[i % len(b)]), stat=rng.random() < 0.2))
    return runs


def c11(check):
    rng = check.rng
    m = 6 if check.thorough else 1
    cmp_ = ["==", "!=", "<", ">", "<=", ">="]
    lists = [a for a in ATOMS] + ["%s%s" % (u, a) for u in UNS[:2] for a in ATOMS]
    lists += ["%s %s %s" % (a, o, b) for a, o, b in (itertools.product(ATOMS, cmp_, ATOMS) if check.thorough else [(rng.choice(ATOMS), rng.choice(cmp_), rng.choice(ATOMS)) for _ in range(150)])]
    rng.shuffle(lists)
    if not check.thorough:
        lists = lists[:220]
    validate_runs(check, assert_runs(check, rng, lists), "single assertions", chunk=50)
    # the verdict: one failing assertion at every place among holding ones
    good, bad = ["status == status", "true", "1 < 2", "!json.none", "length(body) == length(body)"], ["status == 7", "false", "2 < 1", "json.none", "undefined == 1", "1 / 0", "1 / 0 == 1", "[][0]"]
    lists = []
    for n in range(1, 6):
        for at in range(n + 1):
            for _ in range(1 if not check.thorough else 8):
                l = [rng.choice(good) for _ in range(n)]
                if at < n:
                    l[at] = rng.choice(bad)
                lists.append(", ".join(l))
    lists += [", ".join(rng.choice(good + bad) for _ in range(rng.choice([2, 3, 8]))) for _ in range(15 * m)] + ["", ", ".join(["status == 200"] * 40), ", ".join(good * 8 + ["false"])]
    lists += [b + ", " + g for b in bad for g in good[:2]] + [g + ", " + b for b in bad for g in good[:2]]
    validate_runs(check, assert_runs(check, rng, lists), "lists of assertions", chunk=50)
    lists = [", ".join(operand(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2, 4]))) for _ in range(110 * m)]
    validate_runs(check, assert_runs(check, rng, lists), "random assertions", chunk=50)
    # what assertions leave behind: nothing but the response's own fields
    text = '''let status = "mine"; let n = 1; let json = [];
request q `GET http://ADDR/{n}?s={status}`[status == 200, n == 1, (let n = 5) == 5, n == 5, (let status = 9), status == 9, let x = n, json == "mine", tag]
test a { let tag = "t"; let r = q(); println("{a} {b} {c} {d} {e}", status, n, json, r.status, r.n); let n = n + 1; q(); println("{x}", x) }
'''
    validate_runs(check, [Run(check.bin(), text, name="a", number=k, threads=t, plan=answers()) for k, t in ((1, 1), (3, 1))], "scopes of assertions")


CHECKS.update({"C09": c09, "C10": c10, "C11": c11})
NOTES.update({
    "C09": "MCJson checks the JSON specification (RFC 8259) over 16k texts and against the language's grammar; responses over status x reason, header pairs, bodies, random JSON values, and long ones, cut at every byte into two segments, byte by byte and at random with pauses; what the REPL shows and what is recorded is validated by TLC. Known findings: escapes in strings, exponents, integers beyond 64 bits.",
    "C10": "A response closed, reset or made non-text at every byte, connections reset before or while the request is sent, names that do not resolve, addresses that refuse, combined with assertions that hold of an empty response; REPL answers, printed verdicts, records, statistics and the requests that follow are validated by TLC.",
    "C11": "Assertions from a pool of 54 operands (every one alone and negated, comparisons of pairs, random trees), lists with a failing one at every place, operands that fail or bind; the lines printed, the verdict, the recorded list and the script's variables afterwards are validated by TLC, which evaluates the assertions with the specified language."})


# ---------------------------------------------------------------- C12
class Race:
    """one session that calls a host of several addresses; outs: per address (in resolver order) ("ok"|"fail"|"never", delay ms)"""

    def __init__(self, binary, outs, fams, resolve=0):
        self.binary, self.outs, self.fams, self.resolve = binary, outs, fams, resolve

    def go(self):
        if STOP.is_set():
            raise Skipped()
        d = tempfile.mkdtemp(prefix="race-", dir=scratch())
        try:
            return self._go(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _go(self, d):
        names, servers, conf = [], {}, []
        for k, ((what, delay), six) in enumerate(zip(self.outs, self.fams)):
            a = "fd00::3:%x" % (k + 1) if six else "198.18.3.%d" % (k + 1)
            names.append(a)
            if what == "fail":
                conf.append("addr %s 80 %d refuse" % (a, delay))
            else:
                s = servers[a] = Server(lambda i, k=k: {"segments": [(0.4, http("from %d" % k))], "end": "close"})
                conf.append("addr %s 80 %d to %d" % (a, 10000000 if what == "never" else delay, s.port))
        conf.append("host race.test %d %s" % (self.resolve, " ".join(names)))
        with open(os.path.join(d, "conf"), "w") as f:
            f.write("\n".join(conf) + "\n")
        lines = ["request q `GET http://race.test/x`", "let r = q()", "r.body"]
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0", "LD_PRELOAD": shim(), "SHIM_CONF": os.path.join(d, "conf"), "SHIM_LOG": os.path.join(d, "log")}
        p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=d, preexec_fn=limit_memory)
        stuck = all(w != "ok" for w, _ in self.outs) and any(w == "never" for w, _ in self.outs)
        bound = 0.3 * len(self.outs) + max(t for w, t in self.outs) / 1000 + 2 if stuck else 15
        try:
            out, _ = p.communicate("".join(l + "\n" for l in lines).encode(), timeout=bound)
            end = "ok" if p.returncode == 0 else "exit %d" % p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            end = "timeout"
            if not stuck:
                STOP.set()
        t_end = time.monotonic()
        evs, t0 = [], None
        for l in open(os.path.join(d, "log")).read().splitlines():
            w = l.split()
            if w[0] == "resolve" and t0 is None:
                t0 = int(w[2])
            elif w[0] in ("start", "done"):
                evs.append((int(w[2]), "start" if w[0] == "start" else "ok" if w[6] == "ok" else "fail", w[3]))
        exch, others = [], []
        for a, s in servers.items():
            for r in s.finish():
                if r["wire"]:
                    exch.append((r, a))
                    evs.append((int((s.t0 + (r["t_head"] if r["t_head"] is not None else r["t_end"])) * 1e9), "use", a))
        evs.sort()
        t0 = t0 if t0 is not None else int(t_end * 1e9)
        ms = lambda t: (t - t0 + 500000) // 1000000
        events = [{"k": k, "a": cps(a), "t": max(0, ms(t))} for t, k, a in evs]
        events.append({"k": "alive" if end == "timeout" else "ended" if exch else "failed", "a": [], "t": max([ms(int(t_end * 1e9))] + [x["t"] for x in events])})
        case = {"addrs": [{"a": cps(a), "six": six} for a, six in zip(names, self.fams)], "t0": 0, "events": events, "others": [], "store": [{"a": cps(a), "k": what} for a, (what, _) in zip(names, self.outs)]}
        repl = {"lines": [cps(l) for l in lines], "out": cps(out), "end": end, "srv": [[cps("race.test"), 80]] if exch else [], "exch": recorded([r for r, a in exch]), "files": []}
        return {"race": case, "repl": repl, "run": self, "stuck": stuck, "text": "addresses %s | %s" % (
            " ".join("%s:%s@%d" % ((n,) + o) for n, o in zip(names, self.outs)), " ".join("%d:%s:%s" % (x["t"], x["k"], uncps(x["a"])) for x in events))}


def judge_races(check, got, cfg):
    path = os.path.join(scratch(), "races-%d.json" % time.monotonic_ns())
    dump_cases(path, [g["race"] for g in got])
    r = tlc("ConnectTrace", cfg, env={"CASES": path})
    if r.code != 0:
        raise ToolError(r.out[-3000:])
    check.states += r.distinct
    check.transitions += r.generated
    seen = {}
    for v, c, at in re.findall(r'<<\s*"CASE",\s*"([^"]*)",\s*(\d+),\s*(\d+)\s*>>', r.out):
        seen.setdefault(int(c) - 1, []).append((v, int(at)))
    return [None if any(v == "ok" for v, a in seen.get(i, [])) else max(a for v, a in seen[i]) for i in range(len(got))]


def races(check, runs, what, workers=20):
    """carries out the races, has TLC judge them; where only the measured times are off, again with less around"""
    from checks_lang import show
    todo, tries, done, slow = runs, 0, [], 0
    while todo:
        got = parallel(lambda r: r.go(), todo, workers)
        todo = []
        at = judge_races(check, got, "ConnectTrace")
        off = [(g, k) for g, k in zip(got, at) if k is not None]
        if off:
            loose = judge_races(check, [g for g, k in off], "ConnectTrace2")
            for (g, k), l in zip(off, loose):
                if l is not None or tries == 3:
                    k = k if l is None else l
                    return check.violation(what, {"module": "ConnectTrace", "case": g["race"], "explain": "not allowed after event %d: %s" % (k, g["text"])})
                todo.append(g["run"])
        done += [g for g, k in zip(got, at) if k is None]
        tries, workers = tries + 1, (8, 2, 1)[min(tries, 2)]
        slow += len(todo)
    check.validate("ReplTrace", [g["repl"] for g in done if not g["stuck"]], what + ", answers", describe=show, samples=0)
    check.traces += len(done)
    check.count("races:" + what, len(done))
    if slow:
        check.count("races repeated for their times", slow)
    for g in done[:3]:
        check.sample(g["text"])
    check.log("%s: %d races validated" % (what, len(done)))


OUTS = [("ok", 0), ("ok", 60), ("ok", 110), ("ok", 290), ("ok", 470), ("ok", 690), ("fail", 0), ("fail", 60), ("fail", 110), ("fail", 290), ("fail", 530), ("never", 0)]
FEW = [("ok", 0), ("ok", 110), ("ok", 330), ("fail", 0), ("fail", 60), ("fail", 290), ("never", 0)]


def c12(check):
    rng = check.rng
    check.model("MCConnect")
    b = check.bin()

    def race(outs, **kw):
        return Race(b, list(outs), [rng.random() < 0.5 for _ in outs], **kw)
    full = OUTS if check.thorough else FEW
    races(check, [race([o]) for o in OUTS if o[0] != "never"] + [race(p) for p in itertools.product(full, repeat=2)], "one or two addresses")
    # no bound on how long an address may take
    races(check, [race(o) for o in ([("ok", 2600)], [("ok", 6300)], [("ok", 11400)], [("fail", 0), ("ok", 5400)], [("never", 0), ("ok", 6300)], [("ok", 10800), ("fail", 60)], [("fail", 3300), ("fail", 5300)], [("ok", 5300)] * 3)], "slow addresses")
    three = list(itertools.product(FEW, repeat=3))
    races(check, [race(p) for p in (three if check.thorough else rng.sample(three, 110))], "three addresses")
    m = 10 if check.thorough else 1
    races(check, [race([rng.choice(OUTS) for _ in range(rng.choice([4, 4, 5, 6, 8]))], resolve=rng.choice([0, 0, 130])) for _ in range(90 * m)], "many addresses")
    # the accepting address comes last, behind every combination of failing and silent ones of both families
    last = [(o + (("ok", rng.choice([0, 60, 290])),), f) for n in (2, 3, 4) for o in itertools.product([("fail", 0), ("fail", 110), ("never", 0)], repeat=n) for f in itertools.product([False, True], repeat=n + 1)]
    races(check, [Race(b, list(o), list(f)) for o, f in (rng.sample(last, 600 if check.thorough else 70))], "the last address accepts")
    # all fail, in every order of their answers
    every = list(itertools.product([("fail", 0), ("fail", 60), ("fail", 290), ("fail", 530)], repeat=4))
    races(check, [race(o) for o in (every if check.thorough else rng.sample(every, 40))], "every address fails")


CHECKS["C12"] = c12
NOTES["C12"] = "MCConnect checks the race over all outcomes of up to 4 addresses (0,1,3,5 ticks with a race delay of 2, or silent) and the order over all lists of up to 6 addresses of two families. Real runs: 1-8 addresses, IPv6 and IPv4 mixed, that accept, refuse (after 0-690 ms) or never answer; every connect call, its outcome, the server that got the request and the end of the call are recorded with their times and validated by TLC as a behaviour of the race (race delay 150-250 ms, 150 ms slack; a recording off only in its times is made again up to three times, one off otherwise is a violation)."


# ---------------------------------------------------------------- C13
ANSWER = b'HTTP/1.1 200 OK\r\nA: b\r\nC: d\r\n\r\n{"a": [1, 2]}\n'


class Timed:
    """one exchange and where time goes by in it (milliseconds); read: [(bytes sent before, ms)], end: ms before the peer closes,
    addrs: outcomes of further addresses tried before: ("fail", ms) or ("never", 0)"""

    def __init__(self, resolve=0, connect=0, write=0, delay=0, read=(), end=0, addrs=(), data=ANSWER):
        self.__dict__.update(locals())
        self.read = sorted(read)

    def pause(self):
        return {"resolve": self.resolve, "write": self.write, "delay": self.delay, "read": sum(ms for _, ms in self.read) + self.end,
                "connect": self.connect + sum(200 if k == "never" else ms for k, ms in self.addrs)}

    def conf(self, k):
        at = ["198.18.%d.%d" % (5 + i, k + 1) for i in range(len(self.addrs) + 1)]
        return ["host t%d.test %d %s" % (k, self.resolve, " ".join(at))] + \
            ["addr %s 80 %d %s" % (a, 10000000 if o == "never" else ms, "refuse" if o == "fail" else "to PORT") for a, (o, ms) in zip(at, self.addrs)] + \
            ["addr %s 80 %d to PORT" % (at[-1], self.connect)]

    def segments(self):
        cut = [0] + [min(n, len(self.data)) for n, _ in self.read] + [len(self.data)]
        wait = [self.delay] + [ms for _, ms in self.read]
        return [(w / 1000, self.data[a:b]) for w, a, b in zip(wait, cut, cut[1:])]


def timed_run(check, ts, threads=1, slack=45, kind="GET http://%s/x", **kw):
    """the exchanges one after another in one test; with several threads each makes all of them, ts holds one"""
    def plan(i):
        t = ts[i] if threads == 1 else ts[0]
        k = i if threads == 1 else 0

        def segments(rec):
            rec["pause"], rec["addr"] = t.pause(), [cps("t%d.test" % k), 80]
            return t.segments()
        return {"segments": segments, "hold": t.end / 1000, "end": "close"}
    conf = [l for k, t in enumerate(ts) for l in t.conf(k)] + ["stall socket " + " ".join(str(t.write) for t in (ts if threads == 1 else ts * threads))]
    text = "".join("request q%d `%s`[status == 200]\n" % (k, kind % ("t%d.test" % k)) for k in range(len(ts))) + "test a { %s }\n" % "; ".join("q%d()" % k for k in range(len(ts)))
    r = Run(check.bin(), text, name="a", plan=plan, conf=conf, srv=[("t%d.test" % k, 80) for k in range(len(ts))], threads=threads, number=threads, **kw)
    r.slack = slack
    return r


def timed_runs(check, runs, what, workers=16):
    """as validate_runs, and the times are judged; where only the times are off, again with less around"""
    tries, todo, n, slow = 0, runs, 0, 0
    while todo:
        def one(r):
            c = r.go()
            return r, dict(c, slack=r.slack)
        got = parallel(one, todo, workers)
        todo = []
        r, verdicts = judge_runs([c for _, c in got])
        check.states += r.distinct
        check.transitions += r.generated
        off = [(run, c, v) for (run, c), v in zip(got, verdicts) if v != "ok"]
        if off:
            plain = [{k: v for k, v in c.items() if k != "slack"} for _, c, _ in off]
            r, again = judge_runs(plain)
            for (run, c, v), p in zip(off, again):
                if p != "ok" or tries == 3:
                    return check.violation(what, {"module": "RunTrace", "case": c, "explain": (v if p == "ok" else p) + " | pauses %r | " % [x.get("pause") for x in c["exch"]] + show_run(c)})
                todo.append(run)
        n += len(got) - len(todo)
        slow += len(todo)
        tries, workers = tries + 1, (6, 2, 1)[min(tries, 2)]
    check.traces += n
    check.count("runs:" + what, n)
    if slow:
        check.count("runs repeated for their times", slow)
    for run, c in got[:1]:
        check.sample(show_run(c))
    check.log("%s: %d runs validated" % (what, n))


def c13(check):
    rng = check.rng
    check.model("MCPhases")
    m = 8 if check.thorough else 1
    n = len(ANSWER)
    one = lambda: rng.choice([120, 150, 210, 260])
    # a pause in every combination of phases
    ts = []
    for on in itertools.product([0, 1], repeat=5):
        ts.append(Timed(*[120 + 30 * k if x else 0 for k, x in enumerate(on[:4])], read=[(rng.randrange(1, n), 240)] if on[4] else []))
    for _ in range(2 * m):
        rng.shuffle(ts)
        timed_runs(check, [timed_run(check, ts[i:i + 2]) for i in range(0, len(ts), 2)], "combinations of phases")
    # a pause before every byte of the answer, and before the end
    ts = [Timed(read=[(k, 130)]) if k else Timed(delay=130) for k in range(n)] + [Timed(end=150), Timed(read=[(n - 1, 120)], end=120)]
    ts += [Timed(delay=one(), read=[(rng.randrange(1, n), one()) for _ in range(rng.choice([1, 2, 3]))]) for _ in range(8 * m)]
    rng.shuffle(ts)
    timed_runs(check, [timed_run(check, ts[i:i + 3]) for i in range(0, len(ts), 3)], "pauses within the answer")
    # several addresses, any of which may cost time; sending much; unhurried exchanges after slow ones; several threads
    ts = [Timed(connect=c, addrs=a, resolve=r) for c in (0, 140) for r in (0, 120) for a in ([("fail", 0)], [("fail", 130)], [("never", 0)], [("fail", 60), ("never", 0)], [("never", 0), ("fail", 110)])]
    ts += [Timed(resolve=rng.choice([0, one()]), connect=rng.choice([0, one()]), write=rng.choice([0, one()]), delay=rng.choice([0, one()]), read=[(rng.randrange(1, n), one())] * rng.choice([0, 1]), end=rng.choice([0, 0, one()])) for _ in range(16 * m)]
    rng.shuffle(ts)
    timed_runs(check, [timed_run(check, ts[i:i + 4], kind=rng.choice(["GET http://%s/x", "POST http://%s/x\nA: b\n\nbody " + "0123456789" * 30, "POST http://%s/f\nContent-Type: application/x-www-form-urlencoded\n\na: 1"]), stat=rng.random() < 0.3) for i in range(0, len(ts), 4)], "addresses and mixtures")
    ts = [Timed(resolve=130), Timed(connect=140), Timed(write=150), Timed(delay=160), Timed(read=[(20, 170)]), Timed(120, 150, 180, 210, [(5, 240)])]
    timed_runs(check, [timed_run(check, [t], threads=k) for t in ts for k in (2, 5)], "several threads", workers=4)
    # answers of other sizes
    big = b"HTTP/1.1 200 OK\r\n\r\n" + b"x123456789" * 2000
    ts = [Timed(delay=140, data=b"HTTP/1.1 200 OK\r\n\r\n"), Timed(read=[(9000, 150)], data=big), Timed(delay=130, read=[(8192, 120), (16384, 120)], data=big), Timed(read=[(19, 140)], data=b"HTTP/1.1 200 OK\r\n\r\n")]
    timed_runs(check, [timed_run(check, [t]) for t in ts], "short and long answers")


CHECKS["C13"] = c13
NOTES["C13"] = "MCPhases checks over all placements of pauses that the times computed from the clocks' marks partition the exchange and attribute every pause to its phase. Real runs: pauses in every combination of name resolution, connecting (also by refused and silent addresses), sending, before the first byte and before every byte of the answer and before its end, over one and several threads and exchanges in sequence; the recorded times are validated by TLC: exact sum, start + total <= end, the total is the time printed, and every phase has its pauses and no other (45 ms slack; a recording off only in its times is made again up to three times)."


# ---------------------------------------------------------------- C14
CERTS = os.path.join(VERIF, "driver", "certs")
SAN = [(False, "alpha.test"), (False, "beta.test"), (False, "*.wild.test"), (True, "127.0.0.1"), (True, "127.0.0.2")]


def cert(key, signer, names=(), ca=False, years=(2020, 2120)):
    return {"key": key, "signer": signer, "ca": ca, "from": years[0], "until": years[1], "names": [{"ip": i, "text": cps(t)} for i, t in names]}


# what tools/certs.sh made: per file, the certificates in it
SHOWN = {
    "good": [cert("good", "root", SAN)], "expired": [cert("expired", "root", SAN, years=(2020, 2020))], "future": [cert("future", "root", SAN, years=(2110, 2120))],
    "other": [cert("other", "root", [(False, "other.test"), (False, "alpha.test.evil.test"), (False, "alpha.tes"), (True, "127.0.0.9")])],
    "subwild": [cert("subwild", "root", [(False, "*.alpha.test"), (False, "*.test.example")])], "nonames": [cert("nonames", "root")],
    "unknown": [cert("unknown", "rogue", SAN)], "self": [cert("self", "self", SAN)],
    "viainter": [cert("viainter", "inter", SAN), cert("inter", "root", ca=True)], "missing": [cert("viainter", "inter", SAN)],
    "viaold": [cert("viaold", "interold", SAN), cert("interold", "root", ca=True, years=(2020, 2020))],
    "viarogue": [cert("viarogue", "interrogue", SAN), cert("interrogue", "rogue", ca=True)],
    "wholerogue": [cert("viarogue", "interrogue", SAN), cert("interrogue", "rogue", ca=True), cert("rogue", "rogue", ca=True)],
    "vialeaf": [cert("vialeaf", "good", SAN), cert("good", "root", SAN)],
    "forged": [cert("forged", "rogue", SAN)], "forged2": [cert("forged", "rogue", SAN), cert("rogue", "rogue", ca=True)],
}
ROOTS = {"root": ["root"], "both": ["root", "rogue"], "none": []}
_contexts = {}


def tls_context(name, version=None):
    import ssl
    if (name, version) not in _contexts:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        if version:
            c.minimum_version = c.maximum_version = {2: ssl.TLSVersion.TLSv1_2, 3: ssl.TLSVersion.TLSv1_3}[version]
        c.load_cert_chain(os.path.join(CERTS, name + ".pem"), os.path.join(CERTS, name + ".key"))
        _contexts[name, version] = c
    return _contexts[name, version]


UNNAMED = ["-a.test", "a-.test", "a..test", ".test", "*.wild.test", "*", "alpha,test", "alpha.test;", "alpha.123", "1.2.3", "1.2.3.4.5", "alpha$.test", "\u00e9.test", "al%70ha.test", "user@alpha.test", "-", "alpha.-test", "alpha.test..", "..", "0x7f.1"]
HTTPS_HOSTS = ["alpha.test", "beta.test", "x.wild.test", "ALPHA.test", "wild.test", "a.b.wild.test", "gamma.test", "other.test", "test.example"]


class Peer:
    """what a connection meets: a certificate (and how the handshake goes), or no TLS"""

    def __init__(self, name=None, version=None, cut=None, held=None, noise=None, when="data", end="close", hold=0, answer=None):
        self.__dict__.update(locals())

    def plan(self, roots, until):
        tls = self.name is not None and self.cut is None and self.held is None
        p = {"who": {"peer": {"tls": tls, "certs": SHOWN[self.name] if self.name else []}, "roots": roots, "year": time.gmtime().tm_year}, "end": self.end, "hold": self.hold, "when": self.when}
        if self.name is None:
            p["noise"] = self.noise
            return p
        p["tls"] = tls_context(self.name, self.version)
        if self.cut is not None:
            p["cut"] = self.cut
        if self.held is not None:
            p["held"] = self.held
        p.update(self.answer or {"segments": [(0, http("served"))]})
        p["end"] = (self.answer or {}).get("end", self.end)
        p["until"] = until
        return p


PAD = "X-Pad: " + "0123456789" * 40
WANTS = [("GET https://%s/x\n" + PAD, rb"\r\n\r\n"), ("POST https://%s/x?secret=1\nA: b\n\n" + "secret " * 60 + "THEEND", b"THEEND"),
         ("PUT https://%s\nContent-Type: application/x-www-form-urlencoded\n\na: " + "secret" * 70 + "\nz: THEEND", b"THEEND"),
         ("POST https://%s/f\nContent-Type: multipart/form-data\n\na: " + "secret" * 70 + "\nf: @FILE0", rb"\r\n--[^\r\n]+--$")]


def https_run(check, peers, hosts, roots="root", ports=None, wants=None, rng=None, same=False, **kw):
    """one exchange per peer, each with a host of its own (same: with one host); FAIL and PASS, what was sent and recorded is judged"""
    rng = rng or check.rng
    n = len(peers)
    wants = wants or [rng.choice(WANTS) for _ in range(n)]
    ports = ports or [rng.choice([443, 443, 8443, 80]) for _ in range(n)]
    listed, lines = [], []
    for k in range(1 if same else n):
        listed.append((hosts[k], ports[k]))
    # one server per name and port: the k-th exchange with it meets the k-th of its peers
    order = {}
    for k in range(n):
        order.setdefault(listed[0 if same else k], []).append(k)
    keys = list(order)

    def plan(i):
        at, j = divmod(i, 1000)
        ks = order[keys[at - 1]]
        if j >= len(ks):
            return {"segments": [], "end": "close"}
        return peers[ks[j]].plan(ROOTS[roots], wants[ks[j]][1])
    text = "".join("request q%d `%s`[status == 200, body == \"served\"]\n" % (k, wants[k][0] % ("PEER%d" % keys.index(listed[0 if same else k]))) for k in range(n))
    for at, (h, p) in enumerate(keys):
        if p == 443 and rng.random() < 0.7:
            text = text.replace("PEER%d/" % at, h + "/").replace("PEER%d\n" % at, h + "\n")
    text += "test a { %s }\n" % "; ".join("q%d()" % k for k in range(n))
    env = {"SSL_CERT_FILE": os.path.join(CERTS, roots + ".pem")}
    return Run(check.bin(), text, name="a", plan=plan, peers=keys, files=[("part.txt", b"secret contents " * 30)], env=env, **kw)


def c14(check):
    rng = check.rng
    check.model("MCTls")
    m = 6 if check.thorough else 1
    # every certificate with every host and port
    pairs = [(c, h) for c in SHOWN for h in HTTPS_HOSTS]
    if not check.thorough:
        pairs = [(c, rng.choice(["alpha.test", "x.wild.test"])) for c in SHOWN] * 2 + rng.sample(pairs, 60)
    rng.shuffle(pairs)
    ps = lambda part: [Peer(c, rng.choice([None, 2, 3]), end=rng.choice(["close", "goodbye"])) for c, _ in part]
    validate_runs(check, [https_run(check, ps(part), [h for _, h in part], ports=[rng.choice([443, 8443, 80, 9000 + k]) for k in range(len(part))]) for part in [pairs[i:i + 6] for i in range(0, len(pairs), 6)]], "certificates and hosts", chunk=40)
    # addresses instead of names
    runs = []
    for c in SHOWN:
        for h in ("127.0.0.1", "127.0.0.2", "127.0.0.3", "127.0.0.9"):
            if check.thorough or rng.random() < 0.5 or c == "good":
                runs.append(https_run(check, [Peer(c)], [h]))
    validate_runs(check, runs, "certificates and addresses", chunk=60)
    # names that no certificate can have, among others
    odd = UNNAMED + ["%s.test" % ("x" * 64), "a." * 126 + "tt", "-%s.test" % rng.choice("abc"), "%s-.test" % rng.choice("abc")]
    runs = []
    for k in range(0, len(odd), 2):
        hs = odd[k:k + 2]
        peers = [Peer(rng.choice(["good", "good", "self", "other"]), rng.choice([2, 3])) if rng.random() < 0.5 else Peer(noise=[(0, http("served"))], when=rng.choice(["data", "now"])) for _ in hs] + [Peer("good")]
        part = list(zip(hs + ["alpha.test"], peers))
        rng.shuffle(part)
        runs.append(https_run(check, [p for _, p in part], [h for h, _ in part], odd=hs))
    hs = ["%s.test" % ("x" * 63), "a-b.wild.test", "a_b.wild.test", "_x.wild.test", "1.wild.test", "a--b.wild.test"]
    runs += [https_run(check, [Peer("good") for _ in hs], hs)]
    validate_runs(check, runs, "names no certificate can have", chunk=60)
    # who is trusted
    runs = []
    for roots in ("both", "none"):
        for c in SHOWN:
            if not c.startswith("forged") and (check.thorough or roots == "both" or c in ("good", "self", "viainter", "unknown")):
                runs.append(https_run(check, [Peer(c, rng.choice([2, 3]))], ["alpha.test"], roots=roots))
    validate_runs(check, runs, "other roots", chunk=60)
    # peers that do not speak TLS, or break off
    plain = http("served")
    noise = [[(0, plain)], [], [(0, b"\x16")], [(0, b"\x15\x03\x03\x00\x02\x02\x28")], [(0, b"\x15\x03\x03\x00\x02\x01\x00"), (0.02, plain)], [(0, b"\x16\x03\x03\x00\x05hello")], [(0, b"\x17\x03\x03\x00\x20" + b"x" * 32), (0.01, plain)],
             [(0, bytes(rng.randrange(256) for _ in range(200)))], [(0, b"\x14\x03\x03\x00\x01\x01") , (0.01, plain)], [(0, b"220 smtp ready\r\n")], [(0, b"\x16\x03\x01\xff\xff" + b"y" * 300)]]
    peers = [Peer(noise=x, when=w, end=e, hold=rng.choice([0, 0.05])) for x in noise for w in ("now", "data") for e in ("close", "reset")]
    peers += [Peer(noise=[], when="data", hold=1.0), Peer(noise=[(0.5, plain)], when="data", hold=0.3)]
    rng.shuffle(peers)
    hosts = lambda n: [rng.choice(["alpha.test", "beta.test", "h%d.wild.test" % k]) for k in range(n)]
    runs = [https_run(check, part, hosts(len(part)), ports=[443 if rng.random() < 0.5 else 7000 + k for k in range(len(part))]) for part in [peers[i:i + 4] for i in range(0, len(peers), 4)]]
    validate_runs(check, runs, "no TLS", chunk=60)
    # handshakes cut short, from both ends; the peer is otherwise a good one
    peers = [Peer("good", v, cut=n, end=e, hold=rng.choice([0, 0.03])) for v in (2, 3) for n in ([0, 1, 4, 5, 6, 11, 60, 100, 127, 128, 200, 400] + list(range(7, 600, 29)) * check.thorough) for e in ("close", "reset")]
    peers += [Peer("good", v, held=(f, k), end=e, hold=rng.choice([0, 0.03])) for v, f in ((2, 1), (2, 2), (3, 1)) for k in ([1, 2, 10, 30, 60] + list(range(3, 400, 37)) * check.thorough) for e in ("close", "reset")]
    rng.shuffle(peers)
    runs = [https_run(check, part, hosts(len(part)), ports=[443 if rng.random() < 0.5 else 7000 + k for k in range(len(part))]) for part in [peers[i:i + 5] for i in range(0, len(peers), 5)]]
    validate_runs(check, runs, "handshakes cut short", chunk=60)
    # the same host, now with one peer, now with another: nothing is remembered
    kinds = [lambda: Peer("good"), lambda: Peer("viainter"), lambda: Peer("unknown"), lambda: Peer("other"), lambda: Peer("expired"), lambda: Peer("self"), lambda: Peer(noise=[(0, plain)]), lambda: Peer("good", cut=100), lambda: Peer("vialeaf"), lambda: Peer("missing")]
    runs = [https_run(check, [Peer("good"), rng.choice(kinds)(), Peer("good"), rng.choice(kinds)(), rng.choice(kinds)()], ["alpha.test"], same=True) for _ in range(14 * m)]
    validate_runs(check, runs, "one host, different peers", chunk=60)
    # an authenticated peer: as over http, whatever it answers, and with or without a goodbye
    answers_ = [dict(segments=[(0, response(rng))], end=rng.choice(["close", "goodbye"])) for _ in range(24 * m)]
    answers_ += [dict(broken(*k)) for k in [("cut", n) for n in range(0, len(FULL), 5)] + [("reset", n) for n in range(0, len(FULL), 9)] + [("bin", n) for n in range(0, len(FULL), 9)] + [("cutslow", 30), ("full", 0)]]
    answers_ += [dict(segments=cuts(rng, response(rng), n, 0.01), end=rng.choice(["close", "goodbye"])) for n in (1, 3, 6) for _ in range(3 * m)]
    answers_ += [dict(segments=[(0, ("HTTP/1.1 200 OK\r\nA: b\r\n\r\n" + "x%05d" * 3000 % tuple(range(3000))).encode())], end=e) for e in ("close", "goodbye")]
    peers = [Peer("good", rng.choice([None, 2, 3]), answer=a) for a in answers_]
    runs = [https_run(check, part, hosts(len(part)), wants=[rng.choice(WANTS) for _ in part], ports=[443 if rng.random() < 0.5 else 7000 + k for k in range(len(part))], stat=rng.random() < 0.3) for part in [peers[i:i + 5] for i in range(0, len(peers), 5)]]
    validate_runs(check, runs, "authenticated peers", chunk=40)
    runs = [https_run(check, [Peer("good", v)], ["alpha.test"], wants=[w], conf=["short socket - %s" % k]) for v in (2, 3) for k in ("one", "half", "some", "intr") for w in (WANTS if check.thorough else [rng.choice(WANTS)])]
    validate_runs(check, runs, "short writes", chunk=40)


CHECKS["C14"] = c14
NOTES["C14"] = "MCTls checks over all peers of a small world (chains of up to two certificates, signers, validity, names, leaving at any moment) that only authenticated peers get a request. Real calls: 16 certificate chains (trusted, through an intermediate, expired, not yet valid, other names, wildcards, no names, unknown or missing issuer, self-signed, forged issuer, issued by a non-authority, expired intermediate) against names and addresses, three sets of roots, TLS 1.2 and 1.3; peers that speak no TLS; handshakes cut at many bytes; one host with changing peers; authenticated peers with arbitrary, cut and broken answers. What each peer received, raw and decrypted, and what is reported and recorded is validated by TLC, which decides from the certificates shown whether the peer is authenticated."
