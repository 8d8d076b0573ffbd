"""fifth batch"""

BUGS = [
dict(id="c05-redefine", property="C05", needs="a session that defines a request again after calling it",
 breaks="a request that is defined again keeps its first definition",
 edits=[("lib/src/context.rs", """        self.requests.extend(requests);""", """        for (name, request) in requests {
            self.requests.entry(name).or_insert(request);
        }""")],
 demo='''
p = Peer()
repl("request q `GET http://%s/one`" % p.at, "q()", "request q `GET http://%s/two`" % p.at, "q()")
check([b.split()[1] for b in p.got] == [b"/one", b"/two"], p.got)
'''),
dict(id="c08-form-colon", property="C08", needs="a form field whose value contains a colon",
 breaks="form fields are split at their last colon",
 edits=[("lib/src/http/request.rs", """                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().split_once(':') {
                            serializer""", """                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().rsplit_once(':') {
                            serializer""")],
 demo='''
p = Peer()
am(["eval", "--", "request q `POST http://%s/\\nContent-Type: application/x-www-form-urlencoded\\n\\nu: http://h`; q()" % p.at])
time.sleep(0.4)
check(p.got[0].endswith(b"u=http%3A%2F%2Fh"), p.got)
'''),
dict(id="c08-query-space", property="C08", needs="a request line with more than three words",
 breaks="a URL with blanks is taken up to the last word of the request line",
 edits=[("lib/src/http/request.rs", """            let version = Version::from(splits.next());""", """            let version = Version::from(splits.last());""")],
 demo='''
p = Peer()
am(["eval", "--", "request q `GET http://%s/ HTTP/1.0 more`; q()" % p.at])
time.sleep(0.3)
check(p.got[0].split(b"\\r\\n")[0] == b"GET / HTTP/1.0", p.got)
'''),
dict(id="c09-content-length", property="C09", needs="a response with a Content-Length smaller than its body",
 breaks="a body longer than its Content-Length is cut",
 edits=[("lib/src/http/response.rs", """        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;
        Ok(Response {""", """        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;
        let length = headers
            .iter()
            .find(|header| header.name.eq_ignore_ascii_case("content-length"))
            .and_then(|header| header.value.parse::<usize>().ok());
        if let Some(length) = length.filter(|length| body.is_char_boundary(*length)) {
            body.truncate(length);
        }
        Ok(Response {""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: 2\\r\\n\\r\\nabcd"))
out = repl("request q `GET http://%s/`" % p.at, "length(q().body)")
check(out[-1:] == ["4"], out)
'''),
dict(id="c20-case", property="C20", needs="two requests whose names differ in the case of letters only",
 breaks="the statistics put requests together whose names differ in case",
 edits=[("lib/src/stat.rs", """        match self.stats.get_mut(name) {""", """        let known = self.stats.keys().find(|known| known.eq_ignore_ascii_case(name)).cloned();
        match self.stats.get_mut(known.as_ref().unwrap_or(name)) {""")],
 demo='''
p = Peer()
out = test("request q `GET http://%s/`\\nrequest Q `GET http://%s/`\\ntest t { q(); Q() }" % (p.at, p.at), "t", "-s")
check(out.count("count=1 ") == 2, out)
'''),
dict(id="c06-null-value", property="C06", needs="a map literal with a null value whose length is taken",
 breaks="a map literal leaves out entries whose value is null",
 edits=[("lib/src/evaluator.rs", """        map.insert(key.to_string(), value);
    }""", """        match value {
            Value::Null => map.remove(&key.to_string()),
            value => map.insert(key.to_string(), value),
        };
    }""")],
 demo='''
out = am(["eval", "--", "length({1: [][0]})"])[0]
check(out == "1\\n", out)
'''),
dict(id="c10-server-error", property="C10", needs="a complete response of status 5xx without a body",
 breaks="a complete response of status 5xx without a body is recorded with an error",
 edits=[("lib/src/http/client.rs", """        (request, response, time, String::default())""", """        let error = match response.status {
            500.. if response.body.is_empty() => response.reason.to_string(),
            _ => String::default(),
        };
        (request, response, time, error)""")],
 demo='''
p = Peer(lambda i, c, b: c.sendall(b"HTTP/1.1 503 Busy\\r\\n\\r\\n"))
out = test("request q `GET http://%s/`[status == 503]\\ntest t { q() }" % p.at, "t")
check("--- PASS" in out, out)
'''),
dict(id="c15-first-done", property="C15", needs="two threads one of which is done long before the other",
 breaks="a thread that has done its iterations stops the others",
 edits=[("cmd/src/command.rs", """                                number += 1;
""", """                                number += 1;
                                if number == maximun {
                                    continuous.store(false, Ordering::Relaxed);
                                }
""")],
 demo='''
first = []
def f(i, c, b):
    if b"me=0" in b:
        pass
    if i == 0:
        time.sleep(1)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
test("request q `GET http://%s/`\\ntest t { q() }" % p.at, "t", "-t", "2", "-n", "6")
check(len(p.got) == 6, len(p.got))
'''),
dict(id="c19-no-requests", property="C19", needs="an iteration without requests before one with requests",
 breaks="an iteration without requests leaves no block in the record file",
 edits=[("lib/src/writer.rs", """        let mut data = Vec::new();
        for (order""", """        if records.is_empty() {
            return;
        }
        let mut data = Vec::new();
        for (order""")],
 demo='''
rec = tempfile.mkdtemp(dir=DIR)
am(["test", "t", "-n", "3", "-p", source("test t { 1 }"), "-r", rec])
n = len(records(open(os.path.join(rec, "000000"), "rb").read()))
check(n == 3, n)
'''),
dict(id="c04-or-error", property="C04", needs="a failing left operand of ||",
 breaks="|| takes a failing left operand as null",
 edits=[("lib/src/evaluator.rs", """        Kind::Lo => match eval_expr(left, context)? {""", """        Kind::Lo => match eval_expr(left, context).unwrap_or(Value::Null) {""")],
 demo='''
out = am(["eval", "--", "nosuch || 5"])[0]
check(out != "5\\n", out)
'''),
dict(id="c21-crlf", property="C21", needs="a source file with CRLF line ends within a string or template",
 breaks="CRLF becomes LF in source files, also within strings",
 edits=[("cmd/src/command.rs", """        text.push_str(&std::fs::read_to_string(path)?);""", """        text.push_str(&std::fs::read_to_string(path)?.replace("\\r\\n", "\\n"));""")],
 demo='''
out = test('println("{n}", length("a\\r\\nb"));\\ntest t { 1 }', "t")
check(out.splitlines()[0] == "4", out)
'''),
dict(id="c21-two-dots", property="C21", needs="a source file whose name has a further dot",
 breaks="files with two dots in their names are not read",
 edits=[("cmd/src/command.rs", """    } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {""",
 """    } else if path.is_file()
        && path.extension() == Some(std::ffi::OsStr::new("fan"))
        && path.file_stem().map(std::path::Path::new).is_some_and(|stem| stem.extension().is_none())
    {""")],
 demo='''
d = source('println("read");\\ntest t { 1 }', "a.b.fan")
out = am(["test", "t", "-p", d])[0]
check("read" in out.splitlines(), out)
'''),
dict(id="c17-stop-between", property="C17", needs="a second test run of the tool's duration that ends while the last iteration waits",
 breaks="an iteration that ends after the duration is neither reported nor recorded",
 edits=[("cmd/src/command.rs", """                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)""", """                                let records = context.records();
                                if number > 0 && !continuous.load(Ordering::Relaxed) {
                                    break;
                                }
                                records.iter().for_each(|record| println!("{}", record));
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)""")],
 demo='''
def f(i, c, b):
    time.sleep(0.7)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
out = test("request q `GET http://%s/`\\ntest t { q() }" % p.at, "t", "-n", "9", "-d", "1s")
check(out.count("=== TEST") == len(p.got) == 2, (len(p.got), out))
'''),
dict(id="c18-requests-only", property="C18", needs="a test that redefines a top-level value other tests read",
 breaks="tests of a run of all tests that come later see the bindings of the first",
 edits=[("cmd/src/command.rs", """            for (thread, (name, test)) in tests.into_iter().enumerate() {
                let sender = sender.to_owned();
                let mut writer = writer(record.as_ref(), thread as u32);
                let mut context = context.to_owned();""", """            let shared = Arc::new(std::sync::Mutex::new(context));
            for (thread, (name, test)) in tests.into_iter().enumerate() {
                let sender = sender.to_owned();
                let mut writer = writer(record.as_ref(), thread as u32);
                let shared = shared.to_owned();
                let mut context = shared.lock().unwrap().to_owned();"""),
        ("cmd/src/command.rs", """                    let records = context.records();
                    records.iter().for_each(|record| println!("{}", record));
                    if let Some(ref mut writer) = writer {
                        writer.write(&records, &name, thread as u32, u32::default())
                    }
""", """                    let records = context.records();
                    records.iter().for_each(|record| println!("{}", record));
                    if let Some(ref mut writer) = writer {
                        writer.write(&records, &name, thread as u32, u32::default())
                    }
                    *shared.lock().unwrap() = context;
""")],
 demo='''
tests = "".join("test t%d { if (n != 0) { println(\\"leak\\") }; let n = 1 }\\n" % k for k in range(40))
out = "".join(test("let n = 0;\\n" + tests) for _ in range(5))
check("leak" not in out.splitlines(), out[:200])
'''),
]
