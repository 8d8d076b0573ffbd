"""fourth batch: C26, and further changes to the others"""

BUGS = [
dict(id="c26-report-batch", property="C26", needs="a test whose later iterations wait for their answers",
 breaks="the reports of a named test's iterations are collected and printed 4096 characters at a time or at the end",
 edits=[("cmd/src/command.rs", """                            let mut number = u32::default();
                            while""", """                            let mut number = u32::default();
                            let mut report = String::new();
                            while"""),
        ("cmd/src/command.rs", """                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)""", """                                let records = context.records();
                                records.iter().for_each(|record| report.push_str(&format!("{}\\n", record)));
                                if report.len() > 4096 || result.is_err() {
                                    print!("{}", report);
                                    report.clear();
                                }
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)"""),
        ("cmd/src/command.rs", """                                    break;
                                }
                            }
                        }));""", """                                    break;
                                }
                            }
                            print!("{}", report);
                        }));""")],
 demo='''
import select
go = threading.Event()
def f(i, c, b):
    if i == 1:
        go.wait(10)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
d = source("request q `GET http://%s/first`\\ntest t { q() }" % p.at)
r = subprocess.Popen([AM, "test", "t", "-n", "2", "-p", d], stdout=subprocess.PIPE)
out, end = b"", time.time() + 4
while time.time() < end and out.count(b"=== TEST") < 1:
    if select.select([r.stdout], [], [], 0.2)[0]:
        out += os.read(r.stdout.fileno(), 4096)
early = b"=== TEST" in out
go.set()
r.communicate()
check(early, out)
'''),
dict(id="c26-read-ahead", property="C26", needs="a session whose next line is written only after the answer to the last",
 breaks="after a line that defines a request the prompt waits for the next line before it evaluates it",
 edits=[("cmd/src/command.rs", """    let mut lines = stdin().lock().lines();
    let mut context = Context::new();""", """    let mut lines = stdin().lock().lines().peekable();
    let mut context = Context::new();"""),
        ("cmd/src/command.rs", """                context = eval(text, Some(context));""", """                // a template may be followed by its assertions
                if text.ends_with('`') {
                    lines.peek();
                }
                context = eval(text, Some(context));""")],
 demo='''
import select
r = subprocess.Popen([AM], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
def ask(line):
    r.stdin.write(line.encode() + b"\\n")
    r.stdin.flush()
    return os.read(r.stdout.fileno(), 4096) if select.select([r.stdout], [], [], 3)[0] else None
a, b, c = ask("1 + 1"), ask("request q `GET http://127.0.0.1:1/`"), ask("2")
r.stdin.close()
r.wait()
check(a == b"2\\n" and b and c == b"2\\n", (a, b, c))
'''),
dict(id="c26-serial-tests", property="C26", needs="two tests, the first of which waits for its answer",
 breaks="tests whose sources record nothing run one after the other",
 edits=[("cmd/src/command.rs", """            for (thread, (name, test)) in tests.into_iter().enumerate() {""", """            let turn = Arc::new(std::sync::Mutex::new(()));
            for (thread, (name, test)) in tests.into_iter().enumerate() {
                let turn = turn.to_owned();"""),
        ("cmd/src/command.rs", """                    match eval_block(test.as_ref(), &mut context) {
                        Ok(_) => {}""", """                    let turn = match writer {
                        None => turn.lock().ok(),
                        Some(_) => None,
                    };
                    let result = eval_block(test.as_ref(), &mut context);
                    std::mem::drop(turn);
                    match result {
                        Ok(_) => {}""")],
 demo='''
both = threading.Barrier(2)
met = []
def f(i, c, b):
    try:
        both.wait(3)
        met.append(i)
    except threading.BrokenBarrierError:
        pass
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
test("request q `GET http://%s/first`\\ntest s { q() }\\ntest t { q() }" % p.at)
check(len(met) == 2, met)
'''),
dict(id="c26-record-flush", property="C26", needs="a record file looked at while a later request waits",
 breaks="record files are written a kilobyte at a time",
 edits=[("cmd/src/command.rs", """fn writer(path: Option<&PathBuf>, thread: u32) -> Option<Writer<File>> {""", """fn writer(path: Option<&PathBuf>, thread: u32) -> Option<Writer<std::io::BufWriter<File>>> {"""),
        ("cmd/src/command.rs", """        Writer::new(file)
""", """        Writer::new(std::io::BufWriter::with_capacity(1024, file))
""")],
 demo='''
go = threading.Event()
def f(i, c, b):
    if i == 1:
        go.wait(10)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
d = source("request q `GET http://%s/first`\\ntest t { q() }" % p.at)
rec = tempfile.mkdtemp(dir=DIR)
r = subprocess.Popen([AM, "test", "t", "-n", "2", "-p", d, "-r", rec], stdout=subprocess.PIPE)
end = time.time() + 4
while time.time() < end and len(p.got) < 2:
    time.sleep(0.05)
time.sleep(0.3)
n = sum(len(b) for b in records(open(os.path.join(rec, "000000"), "rb").read()))
go.set()
r.communicate()
check(n == 1, n)
'''),
dict(id="c09-bom", property="C09", needs="a response whose body starts with a byte order mark",
 breaks="a byte order mark at the start of a response body is dropped",
 edits=[("lib/src/http/response.rs", """        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;
        Ok(Response {""", """        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;
        if body.starts_with('\\u{feff}') {
            body.remove(0);
        }
        Ok(Response {""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall("HTTP/1.1 200 OK\\r\\n\\r\\n\\ufeff{}".encode()))
out = repl("request q `GET http://%s/`" % p.at, "length(q().body)")
check(out[-1:] == ["5"], out)
'''),
dict(id="c09-same-header", property="C09", needs="a response with the same header three times, two of them with the same value",
 breaks="a repeated header value is kept once",
 edits=[("lib/src/http/response.rs", """                Some(Value::Array(array)) => array.push(Value::String(header.value.to_string())),""",
 """                Some(Value::Array(array)) => {
                    let value = Value::String(header.value.to_string());
                    if !array.contains(&value) {
                        array.push(value)
                    }
                }""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall(b"HTTP/1.1 200 OK\\r\\nA: b\\r\\nA: c\\r\\nA: b\\r\\n\\r\\n"))
out = repl("request q `GET http://%s/`" % p.at, "length(q().headers.A)")
check(out[-1:] == ["3"], out)
'''),
dict(id="c07-tab", property="C07", needs="a placeholder of a request with a line break between brace and name",
 breaks="placeholders of requests allow no line breaks",
 edits=[("lib/src/evaluator.rs", """            let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}").unwrap();""",
 """            let regex = regex::Regex::new(r"\\{[ \\t]*([a-zA-Z_][a-zA-Z0-9_]*)[ \\t]*\\}").unwrap();""")],
 demo='''
p = Peer()
am(["eval", "--", "request q `POST http://%s/\\n\\n<{\\na\\n}>`\\nlet a = 7; q()" % p.at])
time.sleep(0.3)
check(b"<7>" in p.got[0], p.got)
'''),
dict(id="c22-trim", property="C22", needs="a test named with blanks around, on the command line",
 breaks="blanks around the name on the command line are ignored",
 edits=[("cmd/src/command.rs", """            match tests.remove(&name) {""", """            match tests.remove(name.trim()) {""")],
 demo='''
out = test("test a { println(\\"ran\\") }", "a ")
check("ran" not in out.splitlines(), out)
'''),
dict(id="c19-u16", property="C19", needs="a response body of more than 65535 bytes",
 breaks="the length of long texts in record files is cut to 16 bits",
 edits=[("lib/src/writer.rs", """    encode_long(bytes.len() as i64, buffer);
    buffer""", """    encode_long(bytes.len() as u16 as i64, buffer);
    buffer""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\n" + b"x" * 70000))
rec = tempfile.mkdtemp(dir=DIR)
am(["test", "t", "-p", source("request q `GET http://%s/`\\ntest t { q() }" % p.at), "-r", rec])
try:
    n = [r["rbody"] for b in records(open(os.path.join(rec, "000000"), "rb").read()) for r in b]
except Exception as e:
    n = e
check(isinstance(n, list) and len(n[0]) == 70000, str(n)[:100])
'''),
dict(id="c12-slow", property="C12", needs="a single address that accepts after more than two seconds",
 breaks="a connection attempt is given up after two seconds",
 edits=[("lib/src/http/stream.rs", """            None => TcpStream::connect(addr),""", """            None => TcpStream::connect_timeout(addr, RACE * 10),""")],
 demo='''
# a listener whose queue is full until it accepts
s = socket.socket()
s.bind(("127.0.0.1", 0))
s.listen(0)
at = s.getsockname()
fill = [socket.socket() for _ in range(3)]
for x in fill:
    x.setblocking(False)
    x.connect_ex(at)
def later():
    time.sleep(3.5)
    while True:
        try:
            c, _ = s.accept()
        except OSError:
            return
        def one(c=c):
            try:
                c.settimeout(4)
                if head_of(c):
                    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
                c.close()
            except OSError:
                pass
        threading.Thread(target=one, daemon=True).start()
threading.Thread(target=later, daemon=True).start()
out = repl("request q `GET http://127.0.0.1:%d/`" % at[1], "q().status", timeout=25)
check(out[-1:] == ["200"], out)
'''),
dict(id="c13-write-in-delay", property="C13", needs="a request that takes long to send",
 breaks="the time spent sending is counted as delay",
 edits=[("lib/src/http/client.rs", """        if let Err(error) = request.write(&mut stream, content) {""", """        let read = Instant::now();
        if let Err(error) = request.write(&mut stream, content) {"""),
        ("lib/src/http/client.rs", """        };
        let read = Instant::now();
        let response""", """        };
        let response""")],
 demo='''
def f(i, c, b):
    time.sleep(1)
    n = len(b)
    while n < 30000000:
        d = c.recv(1 << 20)
        if not d:
            break
        n += len(d)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
rec = tempfile.mkdtemp(dir=DIR)
am(["test", "t", "-p", source("request q `POST http://%s/\\n\\n%s`\\ntest t { q() }" % (p.at, "x" * 30000000)), "-r", rec], timeout=60)
r = records(open(os.path.join(rec, "000000"), "rb").read())[0][0]
check(r["write"] > 500000000, (r["write"], r["delay"]))
'''),
dict(id="c21-case-sort", property="C21", needs="files whose names differ in the case of letters in a way that changes their order",
 breaks="source files are read in an order that ignores case",
 edits=[("cmd/src/command.rs", """        entries.sort();""", """        entries.sort_by_key(|entry| entry.to_string_lossy().to_lowercase());""")],
 demo='''
d = tempfile.mkdtemp(dir=DIR)
for n, t in (("B.fan", 'println("B");'), ("a.fan", 'println("a");\\ntest t { 1 }')):
    open(os.path.join(d, n), "w").write(t)
out = am(["test", "t", "-p", d])[0]
check(out.splitlines() == ["B", "a"], out)
'''),
dict(id="c20-millis", property="C20", needs="statistics of a request whose answers take fractions of milliseconds",
 breaks="times are rounded to the next millisecond in the statistics",
 edits=[("cmd/src/command.rs", """stats.add(&record.name, record.time.total.as_millis());""", """stats.add(&record.name, record.time.total.as_micros().div_ceil(1000));""")],
 demo='''
p = Peer()
rec = tempfile.mkdtemp(dir=DIR)
out = am(["test", "t", "-n", "20", "-s", "-p", source("request q `GET http://%s/`\\ntest t { q() }" % p.at), "-r", rec])[0]
ms = [r["total"] // 1000000 for b in records(open(os.path.join(rec, "000000"), "rb").read()) for r in b]
check(" sum=%d " % sum(ms) in out, (ms, out[-100:]))
'''),
dict(id="c11-null-equal", property="C11", needs="an assertion whose operands are both missing",
 breaks="an assertion that compares two missing values with == fails",
 edits=[("lib/src/evaluator.rs", """                        let right = eval_expr(right, &mut local).unwrap_or(Value::Null);""", """                        let right = eval_expr(right, &mut local).unwrap_or_else(Value::String);""")],
 demo='''
p = Peer()
out = test("request q `GET http://%s/`[json.x.y == nosuch]\\ntest t { q() }" % p.at, "t")
check("--- PASS" in out, out)
'''),
dict(id="c16-crlf", property="C16", needs="a printed line that ends with a carriage return",
 breaks="println drops trailing carriage returns",
 edits=[("lib/src/native.rs", """            println!("{}", value);
            Ok(Value::Null)""", """            println!("{}", value.to_string().trim_end_matches('\\r'));
            Ok(Value::Null)""")],
 demo='''
out = am(["eval", "--", 'println("a\\rb\\r")'])[0]
check(out == "a\\rb\\r\\n\\n" or out.startswith("a\\rb\\r\\n"), repr(out))
'''),
]
