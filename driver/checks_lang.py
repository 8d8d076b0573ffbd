"""C01-C07: the script language and the session, decided by ReplTrace.tla (and MCGrammar, MCNum, MCRepl)."""
import itertools, json, os, re
from common import *
from server import Server, recorded, reply, http

BIN = ["||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"]


def show(case, line=0):
    if not isinstance(case, dict):
        return str(case)
    lines = [uncps(l) for l in case["lines"]]
    at = lines[max(0, line - 1)] if line <= len(lines) and lines else ""
    return "session %s | at line %d: %r | output %r | end %s" % (
        json.dumps(lines if len(lines) < 8 else lines[max(0, line - 4):line + 1])[:500], line, at, uncps(case["out"])[-300:], case["end"])


def run_sessions(check, sessions, what, timeout=20, **kw):
    """runs REPL sessions and has TLC validate the recordings; a session is a list of lines or a dict
    {lines: function of the server's address -> lines, plan: what the server answers, files}"""
    binary = check.bin()

    def one(ses):
        if isinstance(ses, list):
            lines, srv = ses, None
        else:
            srv = Server(ses["plan"])
            lines = ses["lines"]("127.0.0.1:%d" % srv.port)
        out, err, end = session(binary, lines, timeout * 2 if srv else timeout, srv is None)
        case = {"lines": [cps(l) for l in lines], "out": cps(out), "end": end, "err": err.decode("utf-8", "replace")[-300:]}
        if srv:
            case.update(srv=[[cps("127.0.0.1"), srv.port]], exch=recorded(srv.finish()), files=[])
        return case
    cases = parallel(one, sessions)
    check.validate("ReplTrace", cases, what, describe=show, **kw)
    check.count("lines sent", sum(len(c["lines"]) for c in cases))
    return cases


def run_texts(check, texts, what, **kw):
    """each text in a process of its own: basjoofan eval TEXT"""
    binary = check.bin()

    def one(t):
        out, err, end = run_binary([binary, "eval", "--", t])
        return {"mode": "text", "lines": [cps(t)], "out": cps(out), "end": end, "err": err.decode("utf-8", "replace")[-300:]}
    check.validate("ReplTrace", parallel(one, texts), what, describe=show, **kw)


def chunks(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


# ---------------------------------------------------------------- random expressions
POOL = ["0", "1", "2", "3", "5", "7", "63", "64", "255", "4611686018427387904", "9223372036854775807", "0.5", "1.5", "0.1",
        "2.0", "true", "false", "\"a\"", "\"b\"", "\"\"", "[1, 2]", "{\"k\": 4}", "x", "y", "m.k", "a[1]", "length(a)", "[][0]"]
INTS = ["0", "1", "2", "3", "5", "7", "12", "x", "y", "a[0]", "m.k", "(4)", "length(\"abc\")"]


def rand_expr(rng, depth, pool):
    if depth == 0 or rng.random() < 0.12:
        return rng.choice(pool)
    k = rng.random()
    if k < 0.68:
        return "%s %s %s" % (rand_expr(rng, depth - 1, pool), rng.choice(BIN), rand_expr(rng, depth - 1, pool))
    if k < 0.82:
        return rng.choice("!-") + rand_expr(rng, depth - 1, pool)
    if k < 0.92:
        return "(" + rand_expr(rng, depth - 1, pool) + ")"
    if k < 0.95:
        return "[%s, %s][%s]" % (rand_expr(rng, depth - 1, pool), rand_expr(rng, depth - 1, pool), rng.choice("0122"))
    if k < 0.97:
        return "{\"p\": %s}.p" % rand_expr(rng, depth - 1, pool)
    return "if (%s) { %s } else { %s }" % tuple(rand_expr(rng, depth - 1, pool) for _ in range(3))


TOKEN = re.compile(r'"[^"]*"|[A-Za-z_][A-Za-z_0-9]*|[0-9.]+|\|\||&&|==|!=|<=|>=|<<|>>|\S')
OPS2 = {"||", "&&", "==", "!=", "<=", ">=", "<<", ">>"}


def relayout(rng, text):
    """the same tokens with other spacing"""
    toks = TOKEN.findall(text)
    out = ""
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            word = (p[-1].isalnum() or p[-1] in "_.") and (t[0].isalnum() or t[0] in "_.") and p[-1] != '"'
            glue = p + t
            joins = word or any(o in glue and o not in p and o not in t for o in OPS2)
            gap = rng.choice(["", " ", "  ", "\t", "\u00a0", "\u3000"])
            out += gap if gap or not joins else " "
        out += t
    return out


PRE = ["let x = 6", "let y = 0 - 9", "let m = {\"k\": 3, \"q\": [1]}", "let a = [8, 5, 2]"]


def c01(check):
    check.model("MCGrammar")
    r = tlc("GenOps")
    wit = re.findall(r'<<"WITNESS", "([^ ]+)", "([^ ]+)", <<(.*?)>>>>', r.out)
    wit = [(a, b, json.loads("[" + w + "]")) for a, b, w in wit]
    if len(wit) != 20 * 18:
        raise ToolError("GenOps gave %d pairs" % len(wit))
    check.states += r.distinct
    check.transitions += r.generated
    told = [w for w in wit if w[2]]
    check.note("operator pairs with operands that tell the grouping", len(told))
    check.note("operator pairs whose groupings never differ", len(wit) - len(told))
    lines = []
    for o1, o2, w in told:
        if o1.startswith("un"):
            u = o1[2]
            t = "%s%s %s %s" % (u, w[0], o2, w[1])
            lines += [t, "(%s%s) %s %s" % (u, w[0], o2, w[1]), "%s(%s %s %s)" % (u, w[0], o2, w[1]),
                      "%s %s %s%s" % (w[0], o2, u, w[1])]
        else:
            a, b, c = w
            t = "%s %s %s %s %s" % (a, o1, b, o2, c)
            lines += [t, "(%s %s %s) %s %s" % (a, o1, b, o2, c), "%s %s (%s %s %s)" % (a, o1, b, o2, c)]
        if o1[-1:] + o2[0] != "  ":
            lines.append(relayout(check.rng, t))
    # postfix against prefix and every level
    for u in ["-", "!", "--", "!!", "-!", "!-"]:
        lines += ["%sa[0]" % u, "%sm.k" % u, "%slength(a)" % u, "%sm.q[0]" % u, "%s{\"p\": [4]}.p[0]" % u]
    for o in BIN:
        for p in ["a[0]", "m.k", "length(a)", "m[\"k\"]", "append([1], 2)[1]", "{\"q\": [9]}.q[0]", "[[7]][0][0]"]:
            lines += ["x %s %s" % (o, p), "%s %s x" % (p, o), "-x %s -%s" % (o, p), "!x %s !%s" % (o, p)]
    lines = ["[%s]" % l for l in lines] + ["[%s,]" % l for l in lines[::7]] + ["%s;" % l for l in lines[::11]]
    run_sessions(check, [PRE + c for c in chunks(lines, 60)], "operator pairs")
    n = 60000 if check.thorough else 5000
    rnd = []
    for i in range(n):
        e = rand_expr(check.rng, check.rng.choice([2, 2, 3, 3, 4, 5]), POOL if check.rng.random() < 0.35 else INTS)
        if check.rng.random() < 0.5:
            e = relayout(check.rng, e)
        rnd.append(check.rng.choice(["[%s]", "[%s]", "[%s]", "%s", "%s;", "[%s,]", "[(%s)]"]) % e)
    run_sessions(check, [PRE + c for c in chunks(rnd, 60)], "random expressions")
    # the same in a text of several lines (eval): line breaks between tokens
    evs = []
    for i in range(400 if check.thorough else 80):
        e = rand_expr(check.rng, 3, INTS)
        toks = TOKEN.findall(e)
        evs.append("; ".join(PRE) + ";\n[" + "".join(t + check.rng.choice([" ", "\n", "\n\n\t", " \r\n"]) for t in toks) + "]")
    run_texts(check, evs, "texts of several lines")


# ---------------------------------------------------------------- C02
ALPHABET = ["x", "length", "7", "1.5", "true", '"s"', "`t`", "let", "if", "else", "request", "test", "=", "+", "-", "!", "||", "&",
            "==", "<", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]", "\u00a7", "1.2.3", "99999999999999999999", '"u', "`v"]
CORE = ["x", "7", '"s"', "let", "if", "else", "request", "`t`", "=", "-", "!", "&&", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]"]
VALID = ["let x = [1, 2, {\"k\": 3}]; x[2].k + 4", "if (x == 1) { let y = 2; y } else { !true }", "{\"a\": [1, 2.5, \"s\"], \"b\": {}}[\"a\"][0]",
         "request q `GET http://{x}/` [status == 200, json.a[0] > 1, !x]", "test t { let z = 1; q(); } 5", "print(\"{a} {b}\", 1, [2]); 3",
         "append([1], 2, 3)[1] * length(\"abc\") - (4 << 1) / 2 % 3", "true && false || 1 < 2 == !(3 >= 4) && 5 | 6 ^ 7 & 8 != 9 >> 1",
         "if (true) { 1 } 2 if (false) { 3 } else { if (0) { 4 } } request r `a` test u { } ; 6;", "-(-1.5) + - - 2 ; [ ] ; { } ; \"\" ; ``",
         "format(\"{x}{ y }\", {\"a\": 1}, (((2))))", "let a = let b = 3 + 4; a; b"]


def mutate(rng, text):
    toks = TOKEN.findall(text)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        i = rng.randrange(len(toks)) if toks else 0
        if k < 0.35 and toks:
            del toks[i]
        elif k < 0.6:
            toks.insert(i, rng.choice(ALPHABET))
        elif k < 0.8 and toks:
            toks[i] = rng.choice(ALPHABET)
        elif k < 0.9 and toks:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        else:
            toks = toks[:i]
    return " ".join(toks) if rng.random() < 0.6 else "".join(t + rng.choice(["", " "]) for t in toks)


CHARS = "abxyz_019.,;:+-*/%^|&<>=!(){}[]\"`'#@$?~\\ \t\u00e9\u4e2d\U0001F600\u00a0\u200b\x00\x07\x7f\u0301"


def rand_chars(rng):
    return "".join(rng.choice(CHARS) for _ in range(rng.randrange(1, 30)))


def usable(line):
    return line.strip() and line != "exit" and "\n" not in line and "\r" not in line


def nestings(n):
    return ["(" * n + "1" + ")" * n, "[" * n + "]" * n, "- " * n + "1", "!" * n + "1", "1" + " + 1" * n, "{\"a\": " * n + "1" + "}" * n,
            "if (true) { " * n + "1" + "}" * n, "let x = " * n + "1", "length(" * n + "\"a\"" + ")" * n, "false" + " || false" * n,
            "(" * n, "[" * n, "{" * n, "if (" * n, "!" * n, "f(" * n, ")" * n, "[1, " * n + "2" + "]" * n, "7" + " - 1 * 2" * (n // 2)]


def c02(check):
    lines = []
    for k in range(1, 4):
        lines += [" ".join(t) for t in itertools.product(ALPHABET, repeat=k) ]
    if check.thorough:
        lines += [" ".join(t) for t in itertools.product(CORE, repeat=4)]
    check.note("token strings", len(lines))
    run_sessions(check, [c + ["[40 + 2]"] for c in chunks(lines, 300)], "token strings", samples=1)
    m = 40000 if check.thorough else 4000
    lines = [mutate(check.rng, check.rng.choice(VALID)) for _ in range(m)] + VALID
    lines += [rand_chars(check.rng) for _ in range(m // 2)]
    lines += [" ".join(check.rng.choice(ALPHABET) for _ in range(check.rng.randrange(4, 14))) for _ in range(m // 2)]
    lines = [l for l in lines if usable(l)]
    run_sessions(check, [c + ["[40 + 2]"] for c in chunks(lines, 100)], "edited programs and random texts")
    k = 1500 if check.thorough else 200
    texts = [t.replace("\x00", " ") for t in [rand_chars(check.rng) if check.rng.random() < 0.3 else mutate(check.rng, check.rng.choice(VALID)).replace(" ", check.rng.choice([" ", "\n"]))
             for _ in range(k)]] + [VALID[0], "", " ", "\n\n"]
    run_texts(check, texts, "whole texts (eval)")
    # as a source file: basjoofan test NAME -p FILE where NAME is none of its tests
    binary = check.bin()

    def one(t):
        path = os.path.join(scratch(), "c02-%d.fan" % abs(hash(t)))
        with open(path, "w", newline="") as f:
            f.write(t)
        out, err, end = run_binary([binary, "test", "nosuch", "-p", path])
        os.remove(path)
        return {"lines": [cps(t + "\n")], "out": cps(out), "end": end, "mode": "file", "name": cps("nosuch")}
    check.validate("ReplTrace", parallel(one, sorted(set(texts))), "source files", describe=show)
    # as the body of a response
    bodies = [b for b in [mutate(check.rng, check.rng.choice(VALID[2:3] + VALID)) if check.rng.random() < 0.6 else rand_chars(check.rng)
              for _ in range(4000 if check.thorough else 500)]] + VALID + ["", " ", "[", "{", "\"", "`", "-", "!", "1 2", "nul", "[1,", "{\"a\":", "if"]
    bodies = [b for b in bodies + nestings(40) if not undecoded(b)]     # what C09's known findings are about
    ses = [{"lines": lambda at, n=len(c): ["request q `GET http://%s/`" % at] + ["q()"] * n + ["[40 + 2]"],
            "plan": [reply(b) for b in c]} for c in chunks(bodies, 50)]
    run_sessions(check, ses, "response bodies", samples=0)
    # errors about values and names whose text is long, with characters of one to four bytes at every offset
    run_sessions(check, [c + ["[40 + 2]"] for c in chunks(large(check.rng, 2000 if check.thorough else 130), 16)], "errors about long texts", samples=0)
    # nesting
    run_sessions(check, [[t, "[40 + 2]"] for n in (1, 2, 10, 40, 100) for t in nestings(n)], "nested texts", samples=0)
    for f in known_findings("C02"):
        t = f["input"].get("prefix", "") * f["input"]["times"] + f["input"].get("middle", "") + f["input"].get("suffix", "") * f["input"]["times"]
        if f["role"] == "line":
            out, err, end = session(binary, [t, "[40 + 2]"], 60)
        else:
            srv = Server([reply(t)])
            out, err, end = session(binary, ["request q `GET http://127.0.0.1:%d/`" % srv.port, "q()", "[40 + 2]"], 60)
            srv.finish()
        if end == "signal 6" and b"overflowed its stack" in err:
            check.known(f["what"])
        elif end != "ok":
            check.violation("deep nesting", {"input": f["input"], "end": end, "explain": "%s: %s" % (f["what"], end)})


WIDE = ["a", "\u00e9", "\u4e2d", "\U0001F600", "a\u0301", "\u00a0", "\u00df"]
MISUSES = ["v.k", "v[0]", "v[\"k\"]", "-v", "!v", "v(1)", "v + 1", "1 + v", "v - v", "v * 2", "v && nosuch", "v < 1", "v | v", "v << v", "length(v, v)", "length(1, v)",
           "append(v)", "append(v, v)", "format(v)", "format(v, v)", "format(v, 1, 2)", "print(v)", "println(v, v)", "[v].k", "{\"k\": v}(1)", "{v: 1}.k.k", "[v][0].k", "{\"k\": v}[0]",
           "[v] + 1", "{\"k\": v} - [v]", "v.k.k", "let w = v.k", "if (v.k) { 1 }", "if (v) { v.k } else { v[0] }", "(v)", "[v, {\"k\": v}]", "v[v]", "[v][v]", "nosuch(v)"]
MISREAD = ["@", "@(1)", "@.k", "-@", "1 @", "@ @", "(@", "[@", "@ = 1", "let @", "let @ =", "let @ = @", "request @", "request @ 1", "test @", "test @ 1", "@(", "@(1", "@[", "{@", "{@: 1", "if @",
           "if (@", "if (@) 1", "\"@", "`@", "\"@\" 1", "\"@\" =", "\"@\".k", "\"@\"(1)", "-\"@\"", "`@` 1", "request q `@` 1", "request q `@` [", "request q `@` [@", "{\"@\" 1", "[1, \"@\"", "1.@", "@: 1"]


def large(rng, count):
    """values and names of many bytes, used in every way that is an error; the text is cut nowhere"""
    lines = []
    for k in range(count):
        wide = WIDE[k % len(WIDE)]
        size = rng.choice([rng.randrange(5, 40), rng.randrange(40, 90), rng.randrange(90, 200)]) if k % 13 else rng.randrange(500, 1100)
        word = rng.choice("abc_") * rng.randrange(0, 5) + "".join(wide if rng.random() < 0.9 else rng.choice(WIDE) for _ in range(size))
        value = rng.choice(["\"%s\"", "\"%s\"", "\"%s\"", "[\"%s\"]", "{\"k\": \"%s\"}", "{\"%s\": 1}", "[[1, \"%s\"], 2.5]"]) % word
        name = "".join(c for c in word if c.isalnum())
        lines += ["let v = %s" % value] + ["[%s]" % m if not m.startswith("let") else m for m in rng.sample(MISUSES, 8)]
        lines += [m.replace("@", rng.choice([word, name, name]) ) for m in rng.sample(MISREAD, 3)]
    return [l for l in lines if usable(l)]


def undecoded(body):
    """JSON with an escape, an exponent or an integer beyond 64 bits: decoded wrongly, see the findings of C09"""
    try:
        json.loads(body)
    except ValueError:
        return False
    return "\\" in body or re.search(r"\d[eE]", body) is not None or re.search(r"\d{19}", body) is not None


# ---------------------------------------------------------------- C03
POOL3 = ["0", "1", "2", "3", "7", "8", "62", "63", "64", "65", "255", "1000003", "2147483647", "2147483648", "4294967296", "4611686018427387904",
         "9007199254740993", "9223372036854775807", "9223372036854775806", "0.0", "0.5", "1.0", "1.5", "2.0", "0.1", "0.2", "3.7", "1024.0",
         "9007199254740992.0", "9223372036854775808.0", "123456789012345678901234567890.0", "0.000001", "true", "false", "[][0]", "\"\"", "\"a\"", "\"b\"",
         "\"ab\"", "\"1\"", "\"A\"", "\"\u00e9\"", "[]", "[1]", "[1.0]", "[[1], \"a\"]", "{}", "{\"a\": 1}", "{\"a\": 1, \"b\": 2}", "{\"b\": 2, \"a\": 1}"]
SPECIAL3 = [("-1", "0 - 1"), ("-2", "0 - 2"), ("-7", "0 - 7"), ("-8", "0 - 8"), ("-64", "0-64"), ("min", "0 - 9223372036854775807 - 1"), ("min1", "0 - 9223372036854775807"),
            ("-2^62", "0 - 4611686018427387904"), ("-0.0", "0.0 * (0 - 1)"), ("-1.5", "0.0 - 1.5"), ("inf", "1.0 / 0.0"), ("-inf", "0.0 - 1.0 / 0.0"), ("nan", "0.0 / 0.0"),
            ("tiny", "1.0 / 9223372036854775807.0 / 9223372036854775807.0 / 9223372036854775807.0"), ("-0.1", "0.0 - 0.1"), ("third", "1.0 / 3.0")]


def c03(check):
    check.model("MCNum")
    vals = POOL3 + [e for _, e in SPECIAL3]
    pre = ["let v%d = %s" % (i, v) for i, v in enumerate(vals)]
    n = len(vals)
    lines = []
    for i in range(n):
        lines += ["[!v%d]" % i, "[-v%d]" % i, "[--v%d]" % i, "[!!v%d]" % i, "[v%d == v%d]" % (i, i), "[-v%d == v%d]" % (i, i), "[v%d]" % i]
    quick = not check.thorough
    hot = [i for i, v in enumerate(vals) if i < 32 or i >= len(POOL3)]
    for i in range(n):
        for j in range(n):
            both = i in hot and j in hot
            for o in BIN[2:]:
                p = 1.0 if check.thorough else (0.42 if both else 0.22)
                if check.rng.random() < p:
                    lines.append("[v%d %s v%d]" % (i, o, j))
    check.note("operand pool", n)
    check.note("operator applications", len(lines))
    run_sessions(check, [pre + c for c in chunks(lines, 200)], "operators on the pool")
    r = check.rng
    lines = []

    def num():
        k = r.random()
        if k < 0.75:
            b = r.choice([3, 8, 16, 31, 32, 33, 53, 62, 63, 63])
            v = r.getrandbits(b)
            return str(v) if r.random() < 0.6 else "(0 - %d)" % v
        return "%s%d.%d%s" % ("(0.0 - " if r.random() < 0.3 else "(", r.getrandbits(r.choice([4, 10, 20, 40])), r.getrandbits(r.choice([1, 4, 10, 30])), ")")
    for _ in range(30000 if check.thorough else 2500):
        o = r.choice(BIN[2:])
        a, b = num(), num()
        if o in ("<<", ">>") and r.random() < 0.9:
            b = str(r.randrange(0, 66))
        if o in ("==", "!=", "<=", ">=", "<", ">") and r.random() < 0.2:
            b = a
        lines.append("[%s %s %s]" % (a, o, b))
    for _ in range(3000 if check.thorough else 300):
        w = lambda: "".join(r.choice("abAB01 \u00e9\u4e2d") for _ in range(r.randrange(0, 4)))
        lines.append("[\"%s\" %s \"%s\"]" % (w(), r.choice(["+", "<", ">", "<=", ">=", "==", "!=", "-"]), w()))
    run_sessions(check, [c for c in chunks(lines, 60)], "random operands")


# ---------------------------------------------------------------- C04
CONDS = ["false", "[][0]", "true", "0", "0.0", "\"\"", "[]", "{}", "1", "m.k", "m.none"]
LEAVES4 = ["false", "[][0]", "0", "\"\"", "true", "nosuch", "nosuch(1)", "1 / 0", "(let b@ = false)", "(let b@ = @)", "print(\"p@\")",
           "(print(\"q@\") || @)", "if (print(\"r@\") || false) { 1 } else { let b@ = 2; @ }", "if (0) { print(\"t@\"); }", "if (false) { 9 }", "if (true) { }"]


def c04(check):
    r = check.rng
    lines = []
    num = itertools.count(1)

    def leaf(x=None):
        return (x if x is not None else r.choice(LEAVES4)).replace("@", str(next(num)))
    for a in LEAVES4:
        lines += ["!%s" % leaf(a), "[!!%s]" % leaf(a), "if (%s) { %s } else { %s }" % (leaf(a), leaf("print(\"y@\")"), leaf("print(\"n@\")")),
                  "if (%s) { %s }" % (leaf(a), leaf("(let b@ = @)"))]
        for b in LEAVES4:
            for o in ("||", "&&"):
                lines.append("[%s %s %s]" % (leaf(a), o, leaf(b)))
            lines.append("[if (%s) { %s } else { %s }]" % (leaf(a), leaf(b), leaf()))
            lines.append("[%s, %s %s %s]" % (leaf(), leaf(a), r.choice(BIN[2:]), leaf(b)))
    triples = list(itertools.product(LEAVES4[:12], repeat=3))
    if not check.thorough:
        triples = r.sample(triples, 900)
    for a, b, c in triples:
        o, p = r.choice(["||", "&&"]), r.choice(["||", "&&"])
        lines.append(r.choice(["[%s %s %s %s %s]", "[%s %s (%s %s %s)]", "[!%s %s !%s %s !%s]"]) % (leaf(a), o, leaf(b), p, leaf(c)))

    def tree(d):
        if d == 0 or r.random() < 0.15:
            return leaf()
        k = r.random()
        if k < 0.25:
            return "(%s || %s)" % (tree(d - 1), tree(d - 1))
        if k < 0.5:
            return "(%s && %s)" % (tree(d - 1), tree(d - 1))
        if k < 0.6:
            return "(!%s)" % tree(d - 1)
        if k < 0.85:
            return "if (%s) { %s } else { %s }" % (tree(d - 1), "; ".join(tree(d - 1) for _ in range(r.randrange(0, 3))), "; ".join(tree(d - 1) for _ in range(r.randrange(0, 3))))
        if k < 0.92:
            return "[%s, %s][%d]" % (tree(d - 1), tree(d - 1), r.randrange(2))
        return "{\"k\": %s, \"j\": %s}.%s" % (tree(d - 1), tree(d - 1), r.choice("kj"))
    for _ in range(20000 if check.thorough else 1500):
        lines.append("[%s]" % tree(r.choice([2, 3, 3, 4])))
    ses = []
    for c in chunks(lines, 25):
        names = sorted({int(x) for l in c for x in re.findall(r"let b(\d+)", l)})
        ses.append(["let m = {\"k\": false}"] + c + ["[b%d]" % i for i in names])
    run_sessions(check, ses, "conditions, operands and blocks")
    # requests in operands and blocks: the ones not needed are not sent
    ses = []
    for _ in range(400 if check.thorough else 60):
        ls = []
        for _ in range(6):
            def rq(d):
                k = r.random()
                if d == 0 or k < 0.3:
                    return r.choice(["q(%s)" % "", "q().json", "q().status == 200", "q().none", "false", "0", "nosuch", "q().json == 1", "[q(), q()][0].json"])
                if k < 0.55:
                    return "(%s || %s)" % (rq(d - 1), rq(d - 1))
                if k < 0.8:
                    return "(%s && %s)" % (rq(d - 1), rq(d - 1))
                return "if (%s) { %s } else { %s }" % (rq(d - 1), rq(d - 1), rq(d - 1))
            ls.append("[%s]" % rq(3))
        ses.append({"lines": lambda at, ls=ls: ["request q `GET http://%s/{n}`" % at] + ls,
                    "plan": lambda i, b=[r.choice(["0", "1", "false", "nul", "\"\"", "true"]) for _ in range(200)]: reply(b[i % 200])})
    run_sessions(check, ses, "requests in operands and blocks", samples=1)


# ---------------------------------------------------------------- C05
LINES5 = ["let a = 1", "let a = [a, 2]", "[a]", "let b = a; nosuch; let a = 5", "[b]", "let a = ", "a §", "request q `GET http://127.0.0.1:1/{a}`", "q().status",
          "request q `x` ]", "", "  \t", "let c = let b = 7", "(let a = 3) + nosuch", "{\"k\": let c = 4, \"j\": 1 / 0}", "[c]", "test t { let a = 9 }", "if (false) { let b = 1 }",
          "exit ", " exit", "print(\"{x}\", a)", "let q = 6", "[q]", "let length = 8; length(\"abc\") + length"]


def c05(check):
    check.model("MCRepl")
    r = check.rng
    ses = [list(s) for k in (1, 2) for s in itertools.product(LINES5, repeat=k)]
    trip = list(itertools.product(LINES5, repeat=3))
    ses += [list(s) for s in (trip if check.thorough else r.sample(trip, 1500))]
    ses = [s + ["[a]", "[b]"] for s in ses]
    ses += [["let a = 1", "exit", "[a]"], ["exit"], [], [""], [" exit", "exit ", "exit", "1"], ["let a = 1", "", "\u3000", "[a]"], ["1"] * 200]
    names = ["a", "b", "c", "q", "m", "length"]

    def stmt():
        k = r.random()
        n = r.choice(names)
        if k < 0.3:
            return "let %s = %s" % (n, r.choice(["%d" % r.randrange(100), r.choice(names), "[%s, %s]" % (r.choice(names), r.choice(names)), "\"s\"", "{\"k\": %s}" % r.choice(names)]))
        if k < 0.55:
            return "[%s]" % n
        if k < 0.65:
            return r.choice(["nosuch", "1 / 0", "(let %s = 4) - \"x\"" % n, "[let %s = 5, nosuch]" % n])
        if k < 0.75:
            return "if (%s) { let %s = %d }" % (r.choice(["true", "false", n]), r.choice(names), r.randrange(9))
        if k < 0.85:
            return "print(\"{v}\", %s)" % n
        if k < 0.9:
            return "append([%s], %s)[1]" % (n, r.choice(names))
        return "request %s `GET http://127.0.0.1:1/{%s}` [status == 0]" % (r.choice(["q", "r"]), n) if r.random() < 0.5 else r.choice(["q()", "r().status"])

    def line():
        if r.random() < 0.1:
            return mutate(r, "; ".join(stmt() for _ in range(2)))
        return "; ".join(stmt() for _ in range(r.choice([1, 1, 2, 3])))
    for _ in range(2000 if check.thorough else 250):
        ses.append([l for l in (line() for _ in range(r.randrange(5, 40))) if "\n" not in l])
    run_sessions(check, ses, "sessions", chunk=2500)
    # requests across lines: redefinition, later lines see what was fetched
    ses = []
    for _ in range(200 if check.thorough else 40):
        def lines(at, seed=r.random()):
            import random
            g = random.Random(seed)
            ls = ["request q `GET http://%s/0`" % at, "let r = q()"]
            for i in range(1, 12):
                ls.append(g.choice(["request q `GET http://%s/%d?{v}`" % (at, i), "let v = q().json", "[v]", "[r.json]", "let r = q()", "let v = %d" % i, "q(); nosuch; q()",
                                    "request q `GET http://%s/bad` [" % at, "let w = q().json; [w, v]", "request p `POST http://%s/p{v}` [let v = 5, v == json]" % at, "p().v", "let v = p()"]))
            return ls
        ses.append({"lines": lines, "plan": lambda i: reply(str(i))})
    run_sessions(check, ses, "sessions with requests", samples=1)
    # input that is not text, and input without a final line end
    binary = check.bin()
    for data, lines in [(b"let a = 1\n\xff\xfe\n[a]\n", ["let a = 1", "§", "[a]"]), (b"let a = 1\n[a]", ["let a = 1", "[a]"]), (b"[1]\r\n\r\n[2]\r\nexit\r\n[3]\n", ["[1]", "[2]"]),
                        (b"\xc3\n\xa9\n[2]\n", ["§", "§", "[2]"])]:
        out, err, end = run_binary([binary], data)
        check.validate("ReplTrace", [{"lines": [cps(l) for l in lines], "out": cps(out), "end": end}], "bytes that are no text", describe=show, samples=0)


# ---------------------------------------------------------------- C06
CONT = ["[]", "[5]", "[7, 8, 9]", "[[1, 2], [3]]", "[1, \"a\", null0, true, 2.5, {}]", "{}", "{\"a\": 1}", "{\"a\": [1], 1: \"one\", true: 2, 1.5: 3, \"\": 4}", "{\"k\": 1, \"k\": 2, \"k\": 3}",
        "{\"1\": \"s\", 1: \"i\"}", "\"\"", "\"abc\"", "\"\u00e9\u4e2d\U0001F600\"", "5", "2.5", "true", "null0", "{[1]: 2, [2]: 3}", "{null0: 1, {}: 2, {\"z\": 1}: 3}"]
IDX = ["0", "1", "2", "3", "5", "0 - 1", "9223372036854775807", "0 - 9223372036854775807 - 1", "4294967296", "1.0", "1.5", "\"a\"", "\"0\"", "\"1\"", "\"\"", "\"k\"", "true", "null0", "[1]", "[]", "{}", "{\"z\": 1}", "\"null\"", "\"true\"", "nosuch"]


def c06(check):
    r = check.rng
    pre = ["let null0 = [][0]"] + ["let c%d = %s" % (i, c) for i, c in enumerate(CONT)]
    lines = []
    for i, c in enumerate(CONT):
        lines += ["[length(c%d)]" % i, "[length(%s)]" % c, "[c%d.a]" % i, "[c%d.k]" % i, "[c%d.length]" % i, "[c%d]" % i, "[append(c%d)]" % i, "[length(c%d, c%d)]" % (i, i)]
        for x in IDX:
            lines += ["[c%d[%s]]" % (i, x), "[%s[%s]]" % (c, x), "[append(c%d, %s)]" % (i, x), "[length(append(c%d, %s, 1))]" % (i, x)]
        for j in range(len(CONT)):
            lines += ["[append(c%d, c%d)]" % (i, j), "[append(c%d, c%d, c%d)]" % (i, j, i), "[c%d[c%d]]" % (i, j), "[{c%d: c%d}]" % (i, j), "[[c%d, c%d] == [c%d, c%d]]" % (i, j, j, i)]
    lines += ["[length()]", "[append()]", "[append(1)]", "[append(\"a\", \"b\")]", "[format()]", "[print(1)]", "[println()]", "[format(1)]", "[format([])]", "[nosuch()]", "[length(nosuch)]"]
    run_sessions(check, [pre + c for c in chunks(lines, 100)], "containers and built-ins")
    ses = []
    for _ in range(1500 if check.thorough else 200):
        names = ["a", "b", "c", "d"]
        ls = ["let a = [1, [2, 3], {\"k\": 4}]", "let b = {\"x\": a, \"y\": \"s\"}", "let c = [a, b]", "let d = \"t\""]
        for _ in range(r.randrange(6, 22)):
            n, m, o = r.choice(names), r.choice(names), r.choice(names)
            ls.append(r.choice(["let %s = append(%s, %s)" % (n, m, o), "let %s = %s" % (n, m), "let %s = [%s, %s, length(%s)]" % (n, m, o, m), "let %s = {\"x\": %s, \"k\": %s, \"x\": %s}" % (n, m, o, n),
                                "let %s = %s[%d]" % (n, m, r.randrange(-1, 4)) if r.random() < 0.5 else "let %s = %s.x" % (n, m), "append(%s, 9)" % n, "append(append(%s, 1), 2)" % n,
                                "%s[0]" % n, "%s.x" % n, "[%s, %s]" % (n, m), "[%s == %s]" % (n, m), "let %s = %s + %s" % (n, m, o), "let %s = %s + \"u\"" % (n, m), "[let %s = append(%s, 0), %s]" % (n, m, m)]))
        ls = ls[:4] + [l for l in ls[4:]]
        out = []
        for i, l in enumerate(ls):
            out.append(l)
            if i % 4 == 3:
                out += ["[%s]" % r.choice(names)]
        ses.append(out + ["[length(%s)]" % x for x in names] + ["[%s]" % x for x in names])
    run_sessions(check, ses, "values bound elsewhere")


# ---------------------------------------------------------------- C07
PIECES = ["{a}", "{ b }", "{c}", "{  a}", "{\u00a0b\u00a0}", "{}", "{ }", "{1}", "{a b}", "{a.b}", "{{a}}", "{", "}", "{{", "}}", "{a", "a}", "x", " ", "%", "$", "\\", "{_}", "{a1_}", "{A}", "{a-b}", "{\u00e9}",
          "{none}", "\u4e2d", "{\ta\t}", "${a}", "{a}{b}", "{[]}", "{a,}", "{:?}", "{0}"]
ARGS7 = ["1", "\"s\"", "\"{a}\"", "\"{\"", "\"}\"", "\"\"", "[1, \"x\"]", "{\"k\": \"{b}\"}", "true", "[][0]", "2.5", "0 - 3", "\"$0 $1 \\\\1 ${a}\"", "\"\u4e2d{ a }\""]
HOLE = re.compile(r"\{\s*[a-zA-Z_][a-zA-Z0-9_]*\s*\}")


def c07(check):
    r = check.rng
    lines = []

    def template():
        return "".join(r.choice(PIECES) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])))
    singles = PIECES + [a + b for a in PIECES for b in PIECES]
    for t in (singles if check.thorough else PIECES + r.sample(singles, 500)) + [template() for _ in range(8000 if check.thorough else 900)]:
        n = len(HOLE.findall(t))
        k = max(0, n + r.choice([0, 0, 0, 0, 0, 1, -1]))
        args = "".join(", " + r.choice(ARGS7) for _ in range(k))
        f = r.choice(["[format(\"%s\"%s)]", "[format(\"%s\"%s)]", "print(\"%s\"%s)", "println(\"%s\"%s)", "format(\"%s\"%s)", "[length(format(\"%s\"%s))]"])
        lines.append(f % (t, args))
    lines += ["let a = \"bound\"; format(\"{a}\")", "let f = \"{x}-{y}\"; format(f, 1, 2)", "format(\"{a}\" + \"{b}\", 1, 2)", "[format(\"{a}\", format(\"{b}\", \"{c}\"))]"]
    # texts that begin or end with what a terminal or a reader of lines might take away
    for o in ("\r", " ", "\t", "  ", "\x0b", "\x0c", "\x07", "\x08", "\x1b[31m", "\x7f", "\u00a0", "\u0085", "\u2028", "\u200b", "\ufeff", "\x01", "%", "%s", "$a", "\\", "\\n", "'", ";", "e\u0301", "\U0001f600", "\u202e"):
        for f in ("print(\"%s\")", "println(\"%s\")", "print(\"{x}\", \"%s\")", "println(\"{x}\", \"%s\")", "format(\"%s\")", "[\"%s\"]", "length(\"%s\")"):
            lines += [f % t for t in (r.sample([o, o + "a", "a" + o, o + "a" + o, "a" + o + "b", o + o], 6 if check.thorough else 2))]
    lines = [l for l in lines if "\n" not in l]
    run_sessions(check, [c for c in chunks(lines, 60)], "format, print and println")
    # request templates: what arrives is the template with the values of the moment
    ses = []
    for _ in range(500 if check.thorough else 90):
        def lines(at, seed=r.random()):
            import random
            g = random.Random(seed)
            ls = []
            for i in range(4):
                for v in ("a", "b", "c", "_", "a1_"):
                    if g.random() < 0.5:
                        ls.append("let %s = %s" % (v, g.choice(ARGS7)))
                word = "".join(g.choice([p for p in PIECES if not re.search(r"\s", p.replace("{ b }", "").replace("{  a}", ""))]) for _ in range(g.randrange(0, 3)))
                word = word.replace("{ b }", "{b}").replace("{  a}", "{a}")
                text = lambda: "".join(g.choice(PIECES) for _ in range(g.randrange(1, 5)))
                url = g.choice(["http://%s/p" % at, "http://%s/%s" % (at, word), "http://%s/q?x=%s" % (at, word)])
                m = "%s %s" % (g.choice(["GET", "POST", "PUT"]), url)
                if g.random() < 0.8:
                    m += "\\nX-H: " + text() + "\\nY: {a}"
                if g.random() < 0.7:
                    m += "\\n\\n" + text() + g.choice(["", "\\n" + text() + "{b}"])
                ls.append(("request q `%s`" % m, True))
                ls.append("q().status")
                if g.random() < 0.4:
                    ls += ["let a = %s" % g.choice(ARGS7), "q().status"]
            return ls
        ses.append({"lines": lines, "plan": lambda i: reply("ok")})
    run_templates(check, ses, "request templates")


def run_templates(check, sessions, what):
    """programs whose request templates span several lines are run as one text (eval)"""
    binary = check.bin()

    def one(ses):
        srv = Server(ses["plan"])
        parts = ses["lines"]("127.0.0.1:%d" % srv.port)
        # definitions of a text come first whatever their place: one name each
        text, k = "", 0
        for p in parts:
            if isinstance(p, tuple):
                k += 1
                text += p[0].replace("request q ", "request q%d " % k).replace("\\n", "\n") + "\n"
            else:
                text += p.replace("q()", "q%d()" % k) + ";\n"
        out, err, end = run_binary([binary, "eval", text], timeout=40, again=False)
        return {"mode": "text", "lines": [cps(text)], "out": cps(out), "end": end, "srv": [[cps("127.0.0.1"), srv.port]], "exch": recorded(srv.finish()), "files": []}
    check.validate("ReplTrace", parallel(one, sessions), what, describe=show)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
