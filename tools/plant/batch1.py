BUGS = [
dict(id="c04-and-null", property="C04", needs="a && whose left operand is null, its value looked at (not only its truth)",
 breaks="null && x yields false instead of null",
 edits=[("lib/src/evaluator.rs", "left @ (Value::Boolean(false) | Value::Null) => Ok(left),", "Value::Boolean(false) | Value::Null => Ok(Value::Boolean(false)),")],
 demo='''
out = repl("[[][0] && 5]", "[false && 5]", "[1 && [][0]]")
check(out == ["[Null]", "[Boolean(false)]", "[Null]"], out)
'''),
dict(id="c06-index-wrap", property="C06", needs="an index of 2^32 or more",
 breaks="an index is cut to 32 bits, so items are found outside 0..length-1",
 edits=[("lib/src/evaluator.rs", "let index = index as usize;", "let index = index as u32 as usize;")],
 demo='''
out = repl("[[7, 8][4294967297]]", "[[7, 8][1]]", "[[7, 8][0 - 1]]", "[[7, 8][0 - 4294967296]]")
check(out == ["[Null]", "[Integer(8)]", "[Null]", "[Null]"], out)
'''),
dict(id="c07-value-rescanned", property="C07", needs="a variable whose value contains a placeholder of a request template",
 breaks="placeholders in the value of a replaced placeholder are replaced again",
 edits=[("lib/src/evaluator.rs", """            let matches = regex.find_iter(message);
            let mut ranges = Vec::new();
            matches.for_each(|m| ranges.push((m.as_str()[1..m.as_str().len() - 1].trim(), m.range())));
            ranges.reverse();
            let mut message = message.to_string();
            for (variable, range) in ranges.into_iter() {
                let variable = match context.get(variable) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                message.replace_range(range, variable.as_str());
            }
""", """            let mut message = message.to_string();
            let mut from = 0;
            while let Some(found) = regex.find_at(&message, from) {
                let range = found.range();
                let variable = match context.get(message[range.start + 1..range.end - 1].trim()) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                from = range.start;
                if variable == found.as_str() {
                    from = range.end;
                }
                message.replace_range(range, variable.as_str());
            }
""")],
 demo='''
p = Peer()
out = repl("let b = 5", 'let a = "x{ b }y{c}"', "request q `GET http://%s/{a}/{ b }?n={none}`" % p.at, "q().status")
check(p.got[0].startswith(b"GET /x{ b }y{c}/5?n=null ") or p.got[0].startswith(b"GET /x{ "), p.got)
'''),
dict(id="c09-chunk-utf8", property="C09", needs="a body longer than one read with a multi-byte character across the boundary",
 breaks="the body is converted piece by piece, so a character across two reads becomes replacement characters",
 edits=[("lib/src/http/response.rs", "        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;\n", """        let mut chunk = [0; 4096];
        loop {
            let count = reader.read(&mut chunk).map_err(Error::ReadFailed)?;
            if count == 0 {
                break;
            }
            match std::str::from_utf8(&chunk[..count]) {
                Ok(text) => body.push_str(text),
                Err(error) if body.is_empty() && error.error_len().is_some() => {
                    return Err(Error::ReadFailed(std::io::Error::from(std::io::ErrorKind::InvalidData)))
                }
                Err(_) => body.push_str(&String::from_utf8_lossy(&chunk[..count])),
            }
        }
""")],
 demo='''
data = "HTTP/1.1 200 OK\\r\\n\\r\\n" + "\\u4e16" * 3
import time
def f(i, c, b):
    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    d = data.encode()
    c.sendall(d[:-2]); time.sleep(0.2); c.sendall(d[-2:])
p = Peer(f)
out = repl("request q `GET http://%s/`" % p.at, "q().body")
check(out[-1] == "\\u4e16" * 3, out)
'''),
dict(id="c10-reset-body", property="C10", needs="a connection reset while the body is being received",
 breaks="a reset within the body counts as the end of the body, the exchange passes",
 edits=[("lib/src/http/response.rs", "        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;\n", """        match reader.read_to_string(&mut body) {
            // some servers do not close the connection cleanly
            Err(error) if error.kind() == std::io::ErrorKind::ConnectionReset => 0,
            result => result.map_err(Error::ReadFailed)?,
        };
""")],
 demo='''
def f(i, c, b):
    c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: 100\\r\\n\\r\\npart")
    time.sleep(0.2)
    reset(c)
p = Peer(f)
out = test("request q `GET http://%s/`[status != 7]\\ntest a { q() }\\n" % p.at, "a")
check("--- FAIL  q (0ns)" in out, out)
'''),
dict(id="c15-empty-iterations", property="C15", needs="iterations that make no request (a condition in the test)",
 breaks="iterations without a request are not counted, so more than N iterations run",
 edits=[("cmd/src/command.rs", """                                stat.then(|| sender.send(records));
                                number += 1;
""", """                                number += u32::from(!records.is_empty());
                                stat.then(|| sender.send(records));
""")],
 demo='''
p = Peer()
out = test("let n = 0; request q `GET http://%s/`\\ntest a { let n = n + 1; println(\\"it {n}\\", n); if (n > 2) { q() } }\\n" % p.at, "a", "-n", "4")
check(out.count("it ") == 4, out)
'''),
dict(id="c16-split-line", property="C16", needs="two threads whose reports are printed at the same time",
 breaks="the verdict line and its line end are written apart, so reports of two threads interleave",
 edits=[("cmd/src/command.rs", """                                    println!("{}", error);
                                }
                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));
""", """                                    println!("{}", error);
                                }
                                let records = context.records();
                                for line in records.iter().map(|record| record.to_string()).collect::<Vec<String>>().iter().flat_map(|text| text.lines()) {
                                    println!("{}", line);
                                }
""")],
 demo='''
import threading
p = Peer()
src = "request q `GET http://%s/`[%s]\\ntest a { %s }\\n" % (p.at, ", ".join(["status == 200"] * 12), "q(); " * 6)
for k in range(12):
    out = test(src, "a", "-t", "6", "-n", "12").splitlines()
    i = 0
    while i < len(out):
        check(out[i] == "=== TEST  q" and all(l == "status == 200 => 200 == 200 => true" for l in out[i + 1:i + 13]) and out[i + 13].startswith("--- PASS  q ("), out[i:i + 14])
        i += 14
'''),
dict(id="c17-second-interrupt", property="C17", needs="two interrupts while the iterations in flight finish",
 breaks="a second interrupt lets the threads begin new iterations again",
 edits=[("cmd/src/command.rs", """    let _ = ctrlc::set_handler(move || {
        continuous.store(false, Ordering::Relaxed);
""", """    let _ = ctrlc::set_handler(move || {
        continuous.fetch_xor(true, Ordering::Relaxed);
""")],
 demo='''
gate = threading.Event()
def f(i, c, b):
    gate.wait(20)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
p = Peer(f)
r = subprocess.Popen([AM, "test", "a", "-n", "3", "-p", source("request q `GET http://%s/`\\ntest a { q() }\\n" % p.at)], stdout=subprocess.PIPE)
while not p.got or not p.got[0]:
    time.sleep(0.01)
time.sleep(0.3)
r.send_signal(signal.SIGINT); time.sleep(0.3)
r.send_signal(signal.SIGINT); time.sleep(0.3)
gate.set()
out = r.communicate(timeout=20)[0].decode()
check(len(p.got) == 1 and out.count("--- PASS") == 1 and r.returncode == 0, (len(p.got), out))
'''),
dict(id="c18-reset-bindings", property="C18", needs="a test whose iteration uses a binding made by an earlier iteration",
 breaks="every iteration starts again from the bindings of the top level",
 edits=[("cmd/src/command.rs", """                            while continuous.load(Ordering::Relaxed) && number < maximun {
""", """                            let initial = context.clone();
                            while continuous.load(Ordering::Relaxed) && number < maximun {
                                context = initial.clone();
""")],
 demo='''
p = Peer()
out = test("let n = 0; request q `GET http://%s/`\\ntest a { let n = n + 1; println(\\"it {n}\\", n) }\\n" % p.at, "a", "-n", "3")
check(out.split() == "it 1 it 2 it 3".split(), out)
'''),
dict(id="c19-keep-old-file", property="C19", needs="a record file of an earlier, longer run in the same directory",
 breaks="an existing record file is overwritten in place, its tail remains behind the new blocks",
 edits=[("cmd/src/command.rs", "let file = match File::create(&file) {", "let file = match File::options().write(true).create(true).truncate(false).open(&file) {")],
 demo='''
p = Peer()
src = source("request q `GET http://%s/`\\ntest a { q() }\\n" % p.at)
rec = tempfile.mkdtemp(dir=DIR)
for n in (5, 2):
    am(["test", "a", "-n", str(n), "-p", src, "-r", rec])
    b = records(open(os.path.join(rec, "000000"), "rb").read())
    check([len(x) for x in b] == [1] * n, b)
'''),
dict(id="c20-rounded-avg", property="C20", needs="three or more exchanges whose times do not divide evenly",
 breaks="the average is carried along from the rounded average of the exchanges before",
 edits=[("lib/src/stat.rs", """        self.count += 1;
        self.sum += millis;
        self.avg = self.sum / self.count;
""", """        self.sum += millis;
        self.avg = (self.avg * self.count + millis) / (self.count + 1);
        self.count += 1;
""")],
 demo='''
def f(i, c, b):
    time.sleep((i % 5) * 0.013)
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
for k in range(6):
    out = test("request q `GET http://%s/`\\ntest a { q() }\\n" % Peer(f).at, "a", "-n", "15", "-s")
    m = re.search(r"q count=(\\d+)  sum=(\\d+)  avg=(\\d+)", out)
    count, total, avg = map(int, m.groups())
    check(avg == total // count, m.group(0))
'''),
dict(id="c21-files-first", property="C21", needs="a subdirectory whose name sorts before a file's and definitions that replace one another",
 breaks="the files of a directory are read before its subdirectories",
 edits=[("cmd/src/command.rs", "        entries.sort();\n", "        entries.sort_by_key(|entry| (entry.is_dir(), entry.to_owned()));\n")],
 demo='''
d = tempfile.mkdtemp(dir=DIR)
os.mkdir(os.path.join(d, "m"))
open(os.path.join(d, "m", "x.fan"), "w").write("let v = 1;")
open(os.path.join(d, "z.fan"), "w").write("let v = 2; test a { println(\\"v {v}\\", v) }")
out = am(["test", "a", "-p", d])[0]
check(out == "v 2\\n", out)
'''),
dict(id="c22-limited-tests", property="C22", needs="more tests than eight, one of them waiting for another",
 breaks="at most eight tests run at a time, so a test waits for others",
 edits=[("cmd/src/command.rs", """            for (thread, (name, test)) in tests.into_iter().enumerate() {
                let sender = sender.to_owned();
""", """            for (thread, (name, test)) in tests.into_iter().enumerate() {
                if thread % 8 == 0 {
                    handles.drain(..).for_each(|handle: std::thread::JoinHandle<()>| drop(handle.join()));
                }
                let sender = sender.to_owned();
""")],
 demo='''
n = 12
barrier = threading.Barrier(n)
def f(i, c, b):
    try:
        barrier.wait(5)
        c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nok")
    except threading.BrokenBarrierError:
        pass
p = Peer(f)
out = test("request q `GET http://%s/`[status == 200]\\n" % p.at + "".join("test t%d { q() }\\n" % k for k in range(n)))
check(out.count("--- PASS") == n, out)
'''),
dict(id="c05-undo-failed", property="C05", needs="a line that binds and then fails while evaluating",
 breaks="the bindings a line made before it failed are undone",
 edits=[("cmd/src/command.rs", """            context.extend(requests);
            match eval_block(&exprs, &mut context) {
                Ok(value) => {
                    println!("{}", value);
                }
                Err(error) => println!("{}", error),
            }
        }
        Err(error) => println!("{}", error),
    }
    context
""", """            let mut attempt = context.clone();
            attempt.extend(requests.clone());
            match eval_block(&exprs, &mut attempt) {
                Ok(value) => {
                    println!("{}", value);
                    context.extend(requests);
                    context = attempt;
                }
                Err(error) => println!("{}", error),
            }
        }
        Err(error) => println!("{}", error),
    }
    context
""")],
 demo='''
out = repl("let a = 1", "let a = 2; nothing", "a", "let b = 3; 1 / 0", "b")
check(out == ["1", "ident:nothing not found", "2", out[3], "3"], out)
'''),
dict(id="c12-first-failure", property="C12", needs="an address that fails later than the race delay while another is still to accept",
 breaks="after all attempts were started the first answer decides, even a failure",
 edits=[("lib/src/http/stream.rs", """        for (addr, result) in receiver.iter() {
            if let Some(stream) = handle_result(addr, result) {
                return Ok(stream);
            }
        }

        // debug!("could not""", """        if let Ok((addr, result)) = receiver.recv() {
            if let Some(stream) = handle_result(addr, result) {
                return Ok(stream);
            }
        }

        // debug!("could not""")],
 demo='''
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netdb.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
/* many.test has the addresses 198.18.0.1 (fails after 0.5 s) and 198.18.0.2 (accepts after 1 s, at port $PORT) */
int getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) {
    int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo");
    if (!n || strcmp(n, "many.test")) return real(n, s, h, r);
    struct addrinfo *a, *b;
    struct addrinfo hints = *h;
    hints.ai_flags |= AI_NUMERICHOST;
    if (real("198.18.0.1", s, &hints, &a) || real("198.18.0.2", s, &hints, &b)) return EAI_FAIL;
    struct addrinfo *l = a;
    while (l->ai_next) l = l->ai_next;
    l->ai_next = b;
    *r = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { (void)a; }
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    int (*real)(int, const struct sockaddr *, socklen_t) = dlsym(RTLD_NEXT, "connect");
    const struct sockaddr_in *i = (const void *)a;
    char t[32] = "";
    if (a->sa_family == AF_INET) inet_ntop(AF_INET, &i->sin_addr, t, sizeof t);
    if (!strcmp(t, "198.18.0.1")) { usleep(500000); errno = ECONNREFUSED; return -1; }
    if (!strcmp(t, "198.18.0.2")) {
        usleep(1000000);
        struct sockaddr_in to = *i;
        to.sin_port = htons(atoi(getenv("PORT")));
        inet_pton(AF_INET, "127.0.0.1", &to.sin_addr);
        return real(fd, (void *)&to, sizeof to);
    }
    return real(fd, a, n);
}
"""
open(DIR + "/s.c", "w").write(SHIM)
subprocess.run(["gcc", "-shared", "-fPIC", "-o", DIR + "/s.so", DIR + "/s.c", "-ldl"], check=True)
p = Peer()
out = test("request q `GET http://many.test:8080/`[status == 200]\\ntest a { q() }\\n", "a", env={"LD_PRELOAD": DIR + "/s.so", "PORT": str(p.port)})
check("--- PASS" in out and len(p.got) == 1, out)
'''),
]
