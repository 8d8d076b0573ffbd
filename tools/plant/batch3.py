"""third batch: the properties C23 to C25, and further changes to the others"""

BUGS = [
dict(id="c23-nbsp", property="C23", needs="a program given to eval with a no-break space inside a string",
 breaks="eval and the lines of the prompt see a space where the file sees a no-break space",
 edits=[("cmd/src/command.rs", """    let mut context = context.unwrap_or_default();
    match Parser::new(&text).parse() {""", """    let mut context = context.unwrap_or_default();
    let text = text.replace('\\u{a0}', " ");
    match Parser::new(&text).parse() {""")],
 demo='''
out = am(["eval", "--", 'length("a\\u00a0b")'])[0]
check(out == "4\\n", out)
out = repl('length("\\u00a0")')
check(out == ["2"], out)
'''),
dict(id="c23-late-requests", property="C23", needs="a source file whose top-level expressions call one of its requests",
 breaks="the requests of a source file are known only after its top-level expressions",
 edits=[("cmd/src/command.rs", """            context.extend(requests);
            match eval_block(&exprs, &mut context) {
                Ok(_) => tests,
                Err(error) => {
                    println!("{}", error);
                    return;
                }
            }""", """            let result = eval_block(&exprs, &mut context);
            context.extend(requests);
            match result {
                Ok(_) => tests,
                Err(error) => {
                    println!("{}", error);
                    return;
                }
            }""")],
 demo='''
p = Peer()
out = test("request q `GET http://%s/first`\\nlet s = q().status;\\ntest t { println(\\"{s}\\", s) }" % p.at, "t")
check("200" in out.splitlines(), out)
check(len(p.got) == 1, p.got)
'''),
dict(id="c23-bom", property="C23", needs="a source file that starts with a byte order mark or has one at the start of a later file",
 breaks="a source file loses a leading byte order mark that eval would refuse",
 edits=[("cmd/src/command.rs", """    read(path, &mut text).expect("Could not read source file");
    text""", """    read(path, &mut text).expect("Could not read source file");
    text.trim_start_matches('\\u{feff}').to_string()""")],
 demo='''
a = am(["eval", "--", "\\ufeffprint(\\"ZX\\"); 1"])[0]
out = test("\\ufeffprint(\\"ZX\\"); test t { print(\\"ZY\\") }", "t")
check("ZX" not in a and "ZX" not in out and "ZY" not in out, (a, out))
'''),
dict(id="c23-semi-line", property="C23", needs="a line of the prompt that ends with a semicolon and blanks",
 breaks="the prompt drops the lines' trailing blanks and semicolons: a lone ; is skipped and 1;; is accepted",
 edits=[("cmd/src/command.rs", """    let mut context = context.unwrap_or_default();
    match Parser::new(&text).parse() {""", """    let text = match context {
        Some(_) => text.trim_end_matches([';', ' ']),
        None => text.as_str(),
    };
    let mut context = context.unwrap_or_default();
    match Parser::new(text).parse() {""")],
 demo='''
out = repl("let a = 1;", "1;;", "a; ", "2")
e = am(["eval", "--", "1;;"])[0].splitlines()
check(out[1:2] == e and out[0] == "1" and out[-2:] == ["1", "2"], (out, e))
'''),
dict(id="c24-last-stream", property="C24", needs="a call whose response is incomplete",
 breaks="the connection of a call that failed while reading stays open until the thread's next failure",
 edits=[("lib/src/http/client.rs", """        let read = Instant::now();
        let response""", """        let spare = match &stream {
            Stream::Plain { stream, .. } => stream.try_clone().ok(),
            _ => None,
        };
        let read = Instant::now();
        let response"""),
        ("lib/src/http/client.rs", """            Ok(response) => response,
            Err(error) => return (request, Response::default(), time, error.to_string()),
        };
        time.read""", """            Ok(response) => response,
            Err(error) => {
                LAST.with(|last| *last.borrow_mut() = spare);
                return (request, Response::default(), time, error.to_string());
            }
        };
        time.read"""),
        ("lib/src/http/client.rs", """#[derive(Default)]
pub struct Client {""", """thread_local! {
    /// the connection of the last failure, to look at
    static LAST: std::cell::RefCell<Option<std::net::TcpStream>> = const { std::cell::RefCell::new(None) };
}

#[derive(Default)]
pub struct Client {""")],
 demo='''
ends = []
def f(i, c, b):
    if i == 0:
        c.sendall(b"HTTP/1.1 200")
        c.shutdown(socket.SHUT_WR)
        c.settimeout(1.5)
        try:
            ends.append(c.recv(100))
        except socket.timeout:
            ends.append("still open")
    else:
        time.sleep(2.5)
        c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
out = repl("request q `GET http://%s/`" % p.at, "[q().status]", "[q().status]")
check(ends == [b""] and out[-1] == "[Integer(200)]", (ends, out))
'''),
dict(id="c24-second-attempt", property="C24", needs="a peer that closes the connection without a byte",
 breaks="a call answered by nothing is sent a second time",
 edits=[("lib/src/http/client.rs", """            Ok(response) => response,
            Err(error) => return (request, Response::default(), time, error.to_string()),
        };
        time.read""", """            Ok(response) => response,
            Err(super::Error::ResponseIncomplete) if !again && read.elapsed() < Duration::from_millis(50) => return self.attempt(message, true),
            Err(error) => return (request, Response::default(), time, error.to_string()),
        };
        time.read"""),
        ("lib/src/http/client.rs", """        let (mut request, content) = Request::from(message);
        let mut time""", """        self.attempt(message, false)
    }

    fn attempt(&self, message: &str, again: bool) -> (Request, Response, Time, String) {
        let (mut request, content) = Request::from(message);
        let mut time""")],
 demo='''
p = Peer(lambda i, c, b: None)
out = repl("request q `GET http://%s/`" % p.at, "[q().status]")
time.sleep(0.2)
check(len(p.got) == 1, p.got)
'''),
dict(id="c25-f32", property="C25", needs="a float that is exactly a single-precision number whose shortest text differs (0.1 as a float of 32 bits)",
 breaks="floats that fit in 32 bits are shown with the digits of a 32-bit float",
 edits=[("lib/src/value.rs", """            Value::Float(float) => write!(f, "{}", float),""", """            Value::Float(float) if (*float as f32) as f64 == *float => write!(f, "{}", *float as f32),
            Value::Float(float) => write!(f, "{}", float),""")],
 demo='''
out = repl("0.100000001490116119384765625", "0.5", "16777217.0", "3.1415927410125732421875")
check(out == ["0.10000000149011612", "0.5", "16777217", "3.1415927410125732"], out)
'''),
dict(id="c25-request-float", property="C25", needs="a placeholder of a request whose value is a float with a whole value",
 breaks="a request's placeholder shows a whole float as 2.0 while everything else shows 2",
 edits=[("lib/src/evaluator.rs", """                    Some(variable) => variable.to_string(),
                    None => Value::Null""", """                    Some(Value::Float(float)) => format!("{:?}", float),
                    Some(variable) => variable.to_string(),
                    None => Value::Null""")],
 demo='''
p = Peer()
out = repl("let v = 4.0 / 2.0", "request q `GET http://%s/{v}`" % p.at, "[q().status]")
check(b"GET /2 " in p.got[0], p.got)
'''),
dict(id="c25-key-float", property="C25", needs="a map whose key is a float with a whole value, read with a string or an integer",
 breaks="a float key is kept as 2.0 instead of its displayed text 2",
 edits=[("lib/src/evaluator.rs", """        map.insert(key.to_string(), value);""", """        map.insert(name_of(&key), value);"""),
        ("lib/src/evaluator.rs", """            let element = pairs.remove(&key.to_string());""", """            let element = pairs.remove(&name_of(&key));"""),
        ("lib/src/evaluator.rs", """fn eval_map_literal(""", """fn name_of(key: &Value) -> String {
    match key {
        Value::Float(float) => format!("{:?}", float),
        key => key.to_string(),
    }
}

fn eval_map_literal(""")],
 demo='''
out = repl("{2.0: 7}[2]", "{2: 7}[2.0]", "{2.5: 7}[\\"2.5\\"]", "{1.0: 7}", "{2.0: 1}[2.0]")
check(out == ["7", "7", "7", "{\\"1\\": 7}".replace(" 7", " Integer(7)") if "Integer" in out[3] else out[3], "1"] and "1.0" not in out[3], out)
'''),
dict(id="c25-zero", property="C25", needs="a negative zero that is displayed",
 breaks="a negative zero is displayed without its sign",
 edits=[("lib/src/value.rs", """            Value::Float(float) => write!(f, "{}", float),""", """            Value::Float(float) => write!(f, "{}", float + 0.0),""")],
 demo='''
out = repl("-0.0", "0.0 * -1", "0.0", "-1.5")
check(out == ["-0", "-0", "0", "-1.5"], out)
'''),
dict(id="c25-null-empty", property="C25", needs="a null value in a placeholder of format",
 breaks="format shows null as nothing",
 edits=[("lib/src/native.rs", """                    string.replace_range(range, &variable.to_string());""", """                    let text = match variable {
                        Value::Null => String::new(),
                        variable => variable.to_string(),
                    };
                    string.replace_range(range, &text);""")],
 demo='''
out = repl("format(\\"[{a}]\\", [][0])", "format(\\"[{a}]\\", 1)")
check(out == ["[null]", "[1]"], out)
'''),
dict(id="c09-quoted-header", property="C09", needs="a response header whose value starts or ends with a quote",
 breaks="quotes around header values are dropped (ETag)",
 edits=[("lib/src/http/response.rs", """                    value: value.trim().to_string(),""", """                    value: value.trim().trim_matches('"').to_string(),""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall(b'HTTP/1.1 200 OK\\r\\nETag: "abc"\\r\\nX: a"b\\r\\n\\r\\n'))
out = repl("request q `GET http://%s/`" % p.at, "let r = q()", "r.headers.ETag[0]", "length(r.headers.ETag[0])", "r.headers.X[0]")
check(out[-3:] == ['"abc"', "5", 'a"b'], out)
'''),
dict(id="c08-empty-header", property="C08", needs="a request header with an empty value",
 breaks="a header without a value is not sent",
 edits=[("lib/src/http/request.rs", """        for header in self.headers.iter() {
            write!(writer, "{}: {}\\r\\n\"""", """        for header in self.headers.iter().filter(|header| !header.value.is_empty()) {
            write!(writer, "{}: {}\\r\\n\"""")],
 demo='''
p = Peer()
repl("request q `GET http://%s/\\n".replace("\\n", "") % p.at + "`", "[q().status]")
out = test("request q `GET http://%s/\\nX-Empty:\\nX-B: 1\\n\\n`\\ntest t { q() }" % p.at, "t")
check(b"X-Empty:" in p.got[1] and b"X-B: 1" in p.got[1], p.got)
'''),
dict(id="c18-shared-message", property="C18", needs="two threads that call requests at the same time with different values",
 breaks="the message of a call is rendered in a buffer that all threads share and read back later",
 edits=[("lib/src/evaluator.rs", """            let client = http::Client::default();
            let (request, response, time, error) = client.send(message.as_str());""", """            let client = http::Client::default();
            *MESSAGE.lock().unwrap() = message;
            std::thread::yield_now();
            let message = MESSAGE.lock().unwrap().clone();
            let (request, response, time, error) = client.send(message.as_str());"""),
        ("lib/src/evaluator.rs", """fn eval_call_expr(""", """/// the message of the last call, kept for a later look
static MESSAGE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn eval_call_expr(""")],
 demo='''
def f(i, c, b):
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\n" + b.split()[1][1:])
p = Peer(f)
src = "let x = 0;\\nrequest q `GET http://%s/{x}`\\n" % p.at
src += "".join("test t%d { let x = %d; %s }\\n" % (i, i + 1000, "q(); " * 60) for i in range(8))
for k in range(6):
    p.got.clear()
    test(src)
    n = {}
    for b in p.got:
        w = b.split()[1]
        n[w] = n.get(w, 0) + 1
    check(n == {b"/%d" % (i + 1000): 60 for i in range(8)}, n)
'''),
dict(id="c20-min-zero", property="C20", needs="a request whose calls take below and above a millisecond",
 breaks="a minimum of zero milliseconds is replaced by the next value",
 edits=[("lib/src/stat.rs", """        if millis < self.min {""", """        if millis < self.min || self.min == 0 {""")],
 demo='''
def f(i, c, b):
    if i == 1:
        time.sleep(0.3)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
for k in range(8):
    p = Peer(f)
    out = test("request q `GET http://%s/`\\ntest t { q(); q() }" % p.at, "t", "-n", "1", "-t", "1", "-s")
    line = [l for l in out.splitlines() if l.startswith("q count")][0]
    v = dict(x.split("=") for x in line.split()[1:])
    if int(v["max"]) == int(v["sum"]):
        check(v["min"] == "0", line)
        break
'''),
dict(id="c21-hidden", property="C21", needs="a source file whose name starts with a dot",
 breaks="files and directories whose name starts with a dot are not read",
 edits=[("cmd/src/command.rs", """            .map(|r| r.map(|e| e.path()))""", """            .filter(|r| !matches!(r, Ok(e) if e.file_name().to_string_lossy().starts_with('.')))
            .map(|r| r.map(|e| e.path()))""")],
 demo='''
d = source("test a { print(\\"a\\") }", "a.fan")
os.mkdir(d + "/.h")
open(d + "/.h/b.fan", "w").write("test b { print(\\"b\\") }")
open(d + "/.c.fan", "w").write("test c { print(\\"c\\") }")
out = [am(["test", n, "-n", "1", "-t", "1", "-p", d])[0] for n in "abc"]
check(out == ["a", "b", "c"], out)
'''),
dict(id="c07-digit-name", property="C07", needs="a placeholder whose name has a digit",
 breaks="placeholders of format whose name has a digit are left as they are",
 edits=[("lib/src/native.rs", """            let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}").unwrap();""", """            let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_]+)\\s*\\}").unwrap();""")],
 demo='''
out = repl("format(\\"{a1}{b}\\", 1, 2)", "format(\\"{b}\\", 3)")
check(out == ["12", "3"], out)
'''),
dict(id="c11-failed-operand", property="C11", needs="an assertion whose left operand fails, compared with false",
 breaks="an operand that fails counts as false instead of null",
 edits=[("lib/src/evaluator.rs", """                        let left = eval_expr(left, &mut local).unwrap_or(Value::Null);""", """                        let left = eval_expr(left, &mut local).unwrap_or(Value::Boolean(false));""")],
 demo='''
p = Peer()
out = test("request q `GET http://%s/` [nosuch == false]\\ntest t { q() }" % p.at, "t", "-n", "1", "-t", "1")
check("--- FAIL" in out and "--- PASS" not in out, out)
'''),
dict(id="c16-body-limit", property="C16", needs="a response body of more than a mebibyte",
 breaks="the record keeps the first mebibyte of a response body",
 edits=[("lib/src/writer.rs", """            encode_bytes(record.response.body.as_bytes(), &mut data);""", """            let body = record.response.body.as_bytes();
            encode_bytes(&body[..body.len().min(1 << 20)], &mut data);""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\n" + b"z" * 1100000))
r = tempfile.mkdtemp(dir=DIR)
test("request q `GET http://%s/`\\ntest t { q() }" % p.at, "t", "-n", "1", "-t", "1", "-r", r)
rec = records(open(os.path.join(r, "000000"), "rb").read())
check(len(rec[0][0]["rbody"]) == 1100000, len(rec[0][0]["rbody"]))
'''),
dict(id="c15-error-stops-all", property="C15", needs="a thread whose iteration fails while others are still running",
 breaks="the first failing iteration stops every thread",
 edits=[("cmd/src/command.rs", """                            while continuous.load(Ordering::Relaxed) && number < maximun {""", """                            while number < maximun && continuous.load(Ordering::Relaxed) {"""),
   ("cmd/src/command.rs", """                                number += 1;""", """                                number += 1;
                                continuous.fetch_and(result.is_ok(), Ordering::Relaxed);""")],
 demo='''
lock = threading.Lock()
def f(i, c, b):
    time.sleep(0.02 if i % 4 else 0.0)
    c.sendall(b"HTTP/1.1 %d OK\\r\\n\\r\\n%d" % (200 if i else 500, i))
p = Peer(f)
src = "request q `GET http://%s/`\\ntest t { let s = q().status; if (s == 500) { nosuch } }" % p.at
test(src, "t", "-t", "4", "-n", "40")
check(len(p.got) == 31, len(p.got))
'''),
]
