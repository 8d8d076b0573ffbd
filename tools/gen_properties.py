#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Operators group by precedence and associativity in every expression",
  "The value of an expression is the one given by the language's grouping, for every combination and nesting of operators: || binds loosest, then &&, |, ^, &, equality (== !=), ordering (< > <= >=), shifts, + and -, then * / %, then the prefixes ! and -, and calls, [index] and .field bind tightest; operators of one level group to the left. Parentheses override the grouping, and neither spaces nor line breaks between tokens nor a trailing comma or semicolon change the result.",
  ["programs", "inputs"], "All expressions built from the 18 binary operators, the two prefixes, calls, indexing, field access, parentheses and literals, in any layout.",
  "The unit tests sample about 35 expressions; 18x18 operator pairs in two shapes, prefixes against every level and layouts are a product no sample covers.",
  ["lib/src/parser.rs", "lib/src/token.rs", "lib/src/lexer.rs"],
  [("precedence table", "lib/src/token.rs Token::precedence"), ("Pratt loop", "lib/src/parser.rs Parser::parse_expr"), ("tokenizer", "lib/src/lexer.rs segment")],
  observe=["basjoofan eval / REPL output"])
p("C02", "Every input text is answered with a value or an error, never a crash or hang",
  "Any text given as a program, a REPL line, a source file or received as a response body is dealt with in bounded time: it yields a value or an error message. The tool never panics, aborts or loops on it, it accepts exactly the texts the grammar derives (an unknown symbol, an unbalanced bracket or a missing operand is an error, never silently a value), and it goes on answering the lines that follow.",
  ["inputs", "programs"], "All token strings and character strings (within the stated nesting bound), alone or following any other line.",
  "Tests only feed texts that parse and evaluate; the inputs that hang or crash a parser or evaluator are exactly the ones nobody writes down.",
  ["lib/src/lexer.rs", "lib/src/parser.rs", "lib/src/evaluator.rs", "lib/src/value.rs", "lib/src/http/response.rs"],
  [("error propagation", "lib/src/parser.rs peek_token_expect / parse_expr"), ("Result-valued evaluation", "lib/src/evaluator.rs eval_expr")],
  observe=["process exit status", "REPL output per line", "wall time"])
p("C03", "Operators on values are exact for their types or rejected",
  "On two integers +, -, *, /, %, &, |, ^, << and >> give the exact 64-bit two's-complement result, and an error when there is none (overflow, zero divisor, shift count outside 0..63); with at least one float + - * / % give the float result, and two strings concatenate with +. Ordering compares numbers by value (an integer against a float is converted to float first) and strings lexicographically and is false between other types; == is true only for the same type and the same value; !i is the bitwise complement of an integer; every other combination of types is an error, never a value.",
  ["inputs"], "All operators on all pairs of operand types, with integers over the whole 64-bit range including every boundary.",
  "Unit tests use small positive integers and never an overflow, a zero divisor, a large shift or mixed operand types.",
  ["lib/src/value.rs", "lib/src/evaluator.rs"],
  [("typed operator implementations", "lib/src/value.rs Add/Sub/Mul/Div/Rem/BitXor/BitOr/BitAnd/Shl/Shr/PartialOrd"), ("unary operators", "lib/src/evaluator.rs eval_unary_expr")],
  observe=["basjoofan eval / REPL output"])
p("C04", "Only false and null are falsy; the branch not taken is never evaluated",
  "In if, ||, && and !, false and null count as false and every other value (0, \"\", [] and {} included) as true. a || b yields a if a is true and otherwise b, a && b yields a if a is false and otherwise b, and an if yields the last value of the chosen block, or null when that block is empty or absent. The operand or block that is not needed is not evaluated: it binds nothing, prints nothing, sends nothing and cannot fail; everything else is evaluated exactly once, from left to right, and a failing expression stops the program there.",
  ["programs"], "All nestings of if, ||, &&, ! with operands that print, bind, fail or send requests.",
  "Tests look only at the resulting value of side-effect-free operands; double or skipped evaluation is invisible to them.",
  ["lib/src/evaluator.rs"],
  [("short circuit", "lib/src/evaluator.rs eval_binary_expr Kind::Lo/La"), ("branching", "lib/src/evaluator.rs eval_if_expr"), ("sequencing", "lib/src/evaluator.rs eval_block / eval_list")],
  observe=["stdout of print/println in order", "bindings seen by later lines"])
p("C05", "A REPL session answers each line from exactly the lines before it",
  "Every non-blank REPL line gets exactly one answer, in order; it sees every binding and request made by earlier lines, the latest one winning, and nothing else. A line that does not parse changes nothing; a line that fails while evaluating keeps the bindings made before the failure and undoes none of the earlier ones; reading an unbound name is an error. The session ends at the line exit or at end of input.",
  ["histories"], "All sequences of REPL lines (bindings, rebindings, reads, requests, failing and unparsable lines, blank lines, exit, end of input).",
  "The one REPL test sends a single line followed by exit; no history of several lines, no failing line and no end of input is tested.",
  ["cmd/src/command.rs", "lib/src/context.rs", "lib/src/evaluator.rs"],
  [("session loop", "cmd/src/command.rs repl / eval"), ("environment", "lib/src/context.rs Context::get/set/extend")],
  state=[("context", "bindings and requests of the session", "lib/src/context.rs Context")], observe=["REPL stdout per line", "process termination"])
p("C06", "Arrays, maps and strings behave as immutable values",
  "Indexing an array yields the item at that zero-based position and null outside 0..length-1; indexing a map or reading a field yields the value stored under the displayed text of the key and null when absent, and a map literal keeps the last value given for a key. append yields a new array with all the given items after the old ones in order, length counts items, entries or UTF-8 bytes, and no operation on a value changes a value bound elsewhere. Indexing or length on any other type, and wrong arguments to a built-in, are errors.",
  ["inputs", "histories"], "All array, map and string values (nested, shared between bindings) and all index, key and argument values of every type.",
  "Tests index small literals only; sharing between bindings, negative and huge indices, non-string keys and wrong argument types are not sampled.",
  ["lib/src/evaluator.rs", "lib/src/native.rs", "lib/src/value.rs"],
  [("index and field", "lib/src/evaluator.rs eval_index_expr / eval_field_expr"), ("literals", "lib/src/evaluator.rs eval_array_literal / eval_map_literal"), ("built-ins", "lib/src/native.rs length / append")],
  observe=["basjoofan eval / REPL output"])
p("C07", "Placeholders are replaced once, in place, and nothing else is touched",
  "In a request template every {name} (spaces inside the braces allowed) is replaced by the displayed current value of that variable at the time of the call, or by null if unbound; in format, print and println the n-th placeholder is replaced by the n-th argument, and a differing number of arguments is an error. All text outside placeholders is kept byte for byte, including braces that do not enclose a name, and replaced text is never scanned again.",
  ["inputs", "histories"], "All templates, values (including values that contain braces, newlines or non-ASCII text) and bindings at the time of the call.",
  "Three format examples are tested, none with a value containing braces or multi-byte text, and no request template is tested offline.",
  ["lib/src/evaluator.rs", "lib/src/native.rs"],
  [("template substitution", "lib/src/evaluator.rs eval_call_expr"), ("format", "lib/src/native.rs format")],
  observe=["bytes received by the server", "stdout"])
p("C08", "The request on the wire is exactly the one the template describes",
  "The server named by host (a name or IPv4 address) and port of the URL (default port 80 for http) receives exactly one request per call: the method (GET if not a known one), the path with query as written (/ if none), the version (HTTP/1.1 if none), then every header line name: value once and in the written order, an empty line, and the body. The body is the template's text after the first blank line, line by line as written; for Content-Type application/x-www-form-urlencoded it is the URL-encoded name/value pairs in order, and for multipart/form-data exactly one part per field (text fields in order, then files) under the boundary that the Content-Type header declares, an @path field carrying that file's name and bytes; nothing follows it.",
  ["inputs"], "All templates: methods, URLs (with ports, queries, fragments, embedded ://), versions, header lists, the four kinds of body, of any size.",
  "The only offline request test checks that the method is GET; nothing written to a connection is ever compared.",
  ["lib/src/http/request.rs", "lib/src/http/url.rs", "lib/src/http/content.rs", "lib/src/http/header.rs", "lib/src/http/mod.rs", "lib/src/http/client.rs"],
  [("template parsing", "lib/src/http/request.rs Request::from"), ("serialisation", "lib/src/http/request.rs Request::write, content.rs Content::write"), ("URL", "lib/src/http/url.rs Url::from")],
  observe=["bytes received by a loopback server", "record file request_* fields"])
p("C09", "A response reaches the script exactly as sent, however it is segmented",
  "For every complete response the called request yields a map with the version, the status as integer, the whole reason phrase, all headers (each name mapped to the list of its values in order), and the body, which is all the (UTF-8) text after the empty line up to the close; the same values go into the record. If the body is JSON, json is the decoded value (objects, arrays, strings, integers and decimals of either sign, booleans, null). None of this depends on how the bytes are cut into TCP segments or on pauses between them.",
  ["inputs", "schedules"], "All responses (status lines, header lists with repeated names, bodies of any size and content, JSON documents) and all segmentations.",
  "One in-memory response is parsed in one piece; no segmentation, repeated header, multi-word reason, large body or JSON beyond one string field is tried.",
  ["lib/src/http/response.rs", "lib/src/http/stream.rs", "lib/src/http/header.rs", "lib/src/syntax.rs", "lib/src/lexer.rs", "lib/src/parser.rs"],
  [("response parsing", "lib/src/http/response.rs Response::from"), ("script view", "lib/src/http/response.rs Response::to_map"), ("JSON view", "lib/src/syntax.rs Expr::eval")],
  observe=["value of the call in the script", "record file response_* fields"])
p("C10", "A failed exchange is recorded as failed and never passes or stops the run",
  "If the name does not resolve, no connection can be made, the connection breaks while sending or receiving, or the peer closes before the response head is complete, or the response is not text, the call is recorded with a non-empty error and reported as FAIL whatever its assertions say. The script goes on with an empty response of status 0, the run continues with the next request and iteration, and the record keeps the request that was attempted. A complete exchange is recorded with an empty error.",
  ["fault_sequences"], "Every point of the exchange at which resolution, connection, sending or receiving can fail, in any position of a sequence of requests.",
  "Without a network the tests never get past connecting, and no test closes, resets or garbles a connection at a chosen point.",
  ["lib/src/http/client.rs", "lib/src/http/response.rs", "lib/src/http/stream.rs", "lib/src/http/error.rs", "lib/src/context.rs", "lib/src/evaluator.rs"],
  [("error paths", "lib/src/http/client.rs Client::send"), ("error carried in the record", "lib/src/evaluator.rs eval_call_expr"), ("verdict", "lib/src/context.rs Display for Record")],
  observe=["stdout verdict", "record file error field", "later statements of the script"])
p("C11", "The verdict of a request is the conjunction of all its assertions",
  "A request is reported PASS exactly when it was exchanged without error and every assertion written for it holds for that response; otherwise FAIL. Each assertion is reported once, in written order, with its source text, the values both sides had and its own result (a condition that is not a comparison is reported as its truth == true), and the same list is recorded. An operand that cannot be evaluated counts as null, and assertions see the response only (its fields, json and the built-ins), not the script's variables.",
  ["inputs", "programs"], "All assertion lists (any comparison, any operand expression, non-comparison conditions) against all responses.",
  "Assertions are only evaluated in tests that need the internet, and those use a single true assertion.",
  ["lib/src/evaluator.rs", "lib/src/context.rs", "lib/src/syntax.rs"],
  [("assertion evaluation", "lib/src/evaluator.rs eval_call_expr"), ("verdict and report", "lib/src/context.rs Display for Record / Assert"), ("source text of an assertion", "lib/src/syntax.rs Display for Expr")],
  observe=["stdout report", "record file asserts"])
p("C12", "Connecting succeeds whenever any resolved address accepts",
  "When a host name resolves to several addresses the tool tries them alternating between IPv6 and IPv4, IPv6 first and otherwise in resolver order, moving on as soon as an attempt fails or has not answered within a short delay (about 200 ms), and uses the first connection established. The call fails only if every address fails, each address is tried at most once, none is tried after a connection was obtained, and an address that never answers neither blocks nor fails the call if another accepts.",
  ["schedules", "fault_sequences"], "All address lists of either family and all outcomes and timings (accept, refuse, never answer, late) of the individual attempts.",
  "Only the interleaving helper is unit-tested; the race between attempts, delays and failures is never executed.",
  ["lib/src/http/stream.rs"],
  [("happy eyeballs race", "lib/src/http/stream.rs Stream::connect_happy"), ("family interleaving", "lib/src/http/stream.rs rotate")],
  state=[("sender/receiver", "results of the racing attempts", "lib/src/http/stream.rs connect_happy")], observe=["connect attempts seen by the C library", "which listener got the request"])
p("C13", "The recorded times partition each exchange and measure the right phase",
  "For every completed exchange total = resolve + connect + write + delay + read exactly, and start plus total does not exceed end. A pause during name resolution, connecting, before the first byte of the response, or within the response shows up in resolve, connect, delay or read respectively and in no other phase. The time printed with the verdict is the recorded total.",
  ["schedules", "fault_sequences"], "All placements and lengths of pauses in the phases of an exchange.",
  "The tests of the sum need the internet, and no test controls where time is spent.",
  ["lib/src/http/client.rs", "lib/src/http/time.rs", "lib/src/http/response.rs", "lib/src/http/stream.rs", "lib/src/writer.rs", "lib/src/context.rs"],
  [("phase clocks", "lib/src/http/client.rs Client::send"), ("first-byte callback", "lib/src/http/response.rs Response::from"), ("resolve clock", "lib/src/http/stream.rs connect_tcp")],
  observe=["record file time_* fields", "stdout duration"])
p("C14", "https never sends a request to an unauthenticated peer",
  "For an https URL (default port 443) no byte of the request is sent unless the peer has completed a TLS handshake with a certificate that chains to a trusted root, is currently valid and names the host of the URL; otherwise the call is recorded as failed. With an authenticated peer request and response are the same as over http, also when the peer closes without a TLS goodbye.",
  ["configurations", "fault_sequences"], "All peers: trusted, untrusted, expired, wrong-name or self-signed certificates, plain-text or silent peers, handshakes cut at any point.",
  "No TLS connection is made in any test that can run offline, and the online ones only meet good certificates.",
  ["lib/src/http/stream.rs", "lib/src/http/url.rs", "lib/src/http/client.rs"],
  [("certificate verification", "lib/src/http/stream.rs Stream::connect_tls"), ("scheme selection", "lib/src/http/stream.rs Stream::connect")],
  observe=["plaintext and decrypted bytes seen by the peer", "record error"])
p("C15", "A named test runs exactly the requested number of times, numbered per thread",
  "basjoofan test NAME -n N -t T runs the test exactly N times in total on T threads, no thread running more than one iteration more than another, unless an iteration fails to evaluate, which ends that thread alone. A thread's iterations are numbered 0, 1, 2, ... without gap in the record file of that thread, and the requests within an iteration are numbered in the order they were made. Without -n and -t it runs once.",
  ["configurations", "schedules"], "All N and T, any relative speed of the threads, errors in any iteration of any thread.",
  "The only test of the command needs the internet and uses one thread and one iteration.",
  ["cmd/src/command.rs", "cmd/src/main.rs"],
  [("quota per thread", "cmd/src/command.rs test"), ("iteration counter", "cmd/src/command.rs test")],
  state=[("number", "iterations done by a thread", "cmd/src/command.rs")], observe=["requests seen by the server", "record files"])
p("C16", "Every exchange made is reported exactly once, whole and in order",
  "Every request a test makes, including those of an iteration or test that later fails to evaluate, appears exactly once in the output, exactly once in the record file of its thread when recording, and counts once in the statistics. The reports of one thread appear in the order the requests were made, after they were made, and the lines of one report are never interleaved with those of another thread. Requests made by top-level statements before the tests are not attributed to a test twice.",
  ["schedules", "histories"], "All interleavings of the threads' exchanges, reports, writes and errors.",
  "Loss, duplication and interleaving need several threads with controlled schedules; no test has more than one thread or counts anything.",
  ["cmd/src/command.rs", "lib/src/context.rs", "lib/src/writer.rs", "lib/src/evaluator.rs"],
  [("record buffer drained per iteration", "lib/src/context.rs Context::records"), ("report loop", "cmd/src/command.rs test")],
  state=[("records", "exchanges of the current iteration", "lib/src/context.rs Context")], observe=["stdout", "record files", "requests seen by the server"])
p("C17", "Interrupt and duration end a run after the iterations in flight",
  "Once a run of a named test is interrupted (SIGINT) or the given duration has elapsed, no thread begins another iteration; the iterations in flight finish, are reported, recorded and counted like any other, the statistics are printed, and the process exits normally. With a duration the run does not end before it has elapsed (unless every thread failed), regardless of -n; a run whose iterations are all done ends without waiting for the duration.",
  ["schedules", "crash_points"], "The stop arriving at any point of any thread's iteration, for any number of threads.",
  "No test interrupts a run or uses a duration.",
  ["cmd/src/command.rs", "cmd/src/main.rs"],
  [("stop flag", "cmd/src/command.rs test / handle_interrupt")],
  state=[("continuous", "run may begin further iterations", "cmd/src/command.rs")], observe=["requests seen by the server after the stop", "stdout, record files and exit status"])
p("C18", "Threads and tests never see each other's state",
  "Each thread of a run, and each test when all are run, starts from exactly the bindings and requests the top-level program established and from then on sees only its own: no variable set, changed or fetched in one thread or test is ever visible in another. Within a thread the bindings made by one iteration are visible to the next, and assertion evaluation does not alter the script's variables.",
  ["schedules", "histories"], "All interleavings of threads and tests that bind, rebind and send shared variable names.",
  "No test runs two threads or two tests that use the same name.",
  ["cmd/src/command.rs", "lib/src/context.rs", "lib/src/evaluator.rs"],
  [("copied environment per thread", "lib/src/context.rs Clone for Context"), ("separate environment for assertions", "lib/src/evaluator.rs eval_call_expr")],
  observe=["variable values sent to the server and printed"])
p("C19", "Record files are valid, faithful Avro at every moment",
  "With -r DIR each thread writes DIR/<POD><six-digit thread number>, an Avro object container whose declared schema decodes it completely: header, then one block per iteration whose declared record count and byte size are right, closed by the file's sync marker. Decoded, each record equals what was exchanged: test name, thread, iteration, order, times, request (name, method, URL, version, headers, body), response (version, status, reason, headers, body), assertions and error. At any moment, also after a kill, or when the system writes fewer bytes than asked, the file is a prefix of that stream with every finished iteration's block complete.",
  ["inputs", "crash_points", "fault_sequences"], "All record contents (any number of headers and assertions, any string length, any integer), kills between any two iterations and short or interrupted writes.",
  "The only encoding test decodes one record without headers or assertions, whose array encodings are the trivial ones.",
  ["lib/src/writer.rs", "cmd/src/command.rs", "lib/src/http/url.rs"],
  [("Avro encoder", "lib/src/writer.rs Writer::write / header / encode_*"), ("file naming", "cmd/src/command.rs writer")],
  observe=["bytes of the record files"])
p("C20", "Statistics equal the aggregate of the recorded exchanges",
  "With -s the run prints, once and after everything else, one line per request name that was exchanged, with count, sum, avg, max and min of the total times in whole milliseconds over all threads, iterations and tests of the run: count is the number of such records, sum their sum, avg the sum divided by the count rounded down, max and min their extremes. The numbers do not depend on how the threads interleaved; without -s nothing is printed.",
  ["schedules", "inputs"], "All multisets of exchanges over any number of names, threads and tests, in any order of arrival.",
  "Nothing tests the statistics at all.",
  ["lib/src/stat.rs", "cmd/src/command.rs"],
  [("collector thread", "cmd/src/command.rs test"), ("aggregation", "lib/src/stat.rs Stat::add / Stats::add")],
  state=[("stats", "aggregate per request name", "lib/src/stat.rs")], observe=["stdout", "record files"])
p("C21", "A source directory is read as one program in a fixed order",
  "Given a directory, basjoofan test reads exactly the files below it, at any depth, whose extension is .fan, visiting the entries of each directory in byte order of their names and descending into a subdirectory where its name comes, and treats their concatenation as one program: definitions in one file are usable in all, a later definition of the same variable, request or test replaces an earlier one, and file ends separate tokens. Given a file it reads that file if it has that extension; without a path it uses the current directory. Nothing runs if the program does not parse or its top-level statements fail.",
  ["inputs", "configurations"], "All directory trees and file names, all distributions of definitions over files.",
  "The one test has a single file and needs the internet.",
  ["cmd/src/command.rs", "lib/src/parser.rs", "lib/src/context.rs"],
  [("recursive sorted read", "cmd/src/command.rs read"), ("definitions collected", "lib/src/parser.rs Parser::parse")],
  observe=["stdout of top-level statements", "which tests run"])
p("C22", "Exactly the selected tests run",
  "basjoofan test NAME runs only the test of that name, and prints Test not found: NAME and runs nothing if there is none; basjoofan test runs every test of the program exactly once, each on its own thread so that no test waits for another, and a test that fails does not keep the others from completing. The top-level statements are evaluated exactly once, before any test. An unusable number, duration or thread count is rejected with a message before anything runs.",
  ["configurations", "schedules"], "All sets of tests and names, all command lines, any test failing or waiting at any point.",
  "The command test runs one test and one unknown name, and needs the internet to pass.",
  ["cmd/src/command.rs", "cmd/src/main.rs"],
  [("selection", "cmd/src/command.rs test"), ("argument parsing", "cmd/src/main.rs Interface / parse_duration")],
  observe=["requests seen by the server", "stdout", "exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
