From f82c7f8d68f68cd7cf694b448856ccb7564385ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 01/22] fix: parser loops forever on an operand followed by '!'

---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..38944e7 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => break,
             };
         }
         Ok(left)
-- 
2.43.0


From c5882078ccd789b56a3dbc4d900bcc37f91c9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 02/22] fix: integer overflow, zero divisor and shift count
 crash the process

---
 lib/src/evaluator.rs |  5 ++++-
 lib/src/value.rs     | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..72e4734 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(integer) => Ok(Value::Integer(integer)),
+            None => Err(format!("integer overflow: -{}", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..6bde0f3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -42,7 +42,10 @@ impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_add(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} + {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +59,10 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_sub(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} - {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +75,10 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_mul(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} * {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +91,10 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_div(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow or division by zero: {} / {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +107,10 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(right)) => match right {
+                0 => Err(format!("division by zero: {} % {}", left, right)),
+                _ => Ok(Value::Integer(left.wrapping_rem(right))),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +153,10 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shl(right)) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} << {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +166,10 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shr(right)) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} >> {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From de0ed265f46e895f4a9f2b5c673d8f73ce80dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 03/22] fix: arrays in record files lack the terminating block

---
 lib/src/writer.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..5771784 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -87,24 +87,28 @@ impl<W: Write> Writer<W> {
             encode_bytes(record.request.method.as_ref(), &mut data);
             encode_bytes(record.request.url.to_string().as_bytes(), &mut data);
             encode_bytes(record.request.version.as_ref(), &mut data);
-            encode_long(record.request.headers.len() as i64, &mut data);
+            encode_count(record.request.headers.len(), &mut data);
             for header in record.request.headers.iter() {
-                encode_long(2, &mut data);
+                encode_count(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
             encode_bytes(record.response.reason.as_bytes(), &mut data);
-            encode_long(record.response.headers.len() as i64, &mut data);
+            encode_count(record.response.headers.len(), &mut data);
             for header in record.response.headers.iter() {
-                encode_long(2, &mut data);
+                encode_count(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.response.body.as_bytes(), &mut data);
-            encode_long(record.asserts.len() as i64, &mut data);
+            encode_count(record.asserts.len(), &mut data);
             for assert in record.asserts.iter() {
                 encode_bytes(assert.expr.as_bytes(), &mut data);
                 encode_bytes(assert.left.as_bytes(), &mut data);
@@ -112,6 +116,7 @@ impl<W: Write> Writer<W> {
                 encode_bytes(assert.right.as_bytes(), &mut data);
                 encode_bool(assert.result, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
@@ -150,6 +155,13 @@ fn encode_long(i: i64, buffer: &mut Vec<u8>) {
     encode_variable(((i << 1) ^ (i >> 63)) as u64, buffer)
 }
 
+/// The item count of an array block, the caller ends the array with a zero count.
+fn encode_count(count: usize, buffer: &mut Vec<u8>) {
+    if count > 0 {
+        encode_long(count as i64, buffer)
+    }
+}
+
 fn encode_variable(mut z: u64, buffer: &mut Vec<u8>) {
     loop {
         if z <= 0x7F {
-- 
2.43.0


From d9bb9c33e3dbe7425a468898b6ebd5246fd653ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 04/22] fix: a short write truncates a block of the record file

---
 lib/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 5771784..b9cdba9 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        let _ = w.write_all(&header());
         Writer { w }
     }
 
@@ -124,7 +124,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        let _ = self.w.write_all(&buffer);
     }
 }
 
-- 
2.43.0


From ee5d774564954d597c196a1faf98cf7b9ac13b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 05/22] fix: repl spins forever at end of input

---
 cmd/src/command.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..788fd0e 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -17,14 +17,18 @@ pub fn repl() {
     let mut lines = stdin().lock().lines();
     let mut context = Context::new();
     loop {
-        if let Some(Ok(text)) = lines.next() {
-            if text == "exit" {
-                break;
-            }
-            if text.trim().is_empty() {
-                continue;
+        match lines.next() {
+            Some(Ok(text)) => {
+                if text == "exit" {
+                    break;
+                }
+                if text.trim().is_empty() {
+                    continue;
+                }
+                context = eval(text, Some(context));
             }
-            context = eval(text, Some(context));
+            Some(Err(error)) if error.kind() == std::io::ErrorKind::InvalidData => println!("{}", error),
+            _ => break,
         }
     }
 }
-- 
2.43.0


From c38845806919f5bd50c05c51a4a89bb34e8ac66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 06/22] fix: reason phrase of a response is cut at its first
 space

---
 lib/src/http/response.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..fe991ae 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -37,7 +37,14 @@ impl Response {
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = parse::<String>(splits.next());
+        let reason = match line.trim().split_once(char::is_whitespace) {
+            Some((_, line)) => line
+                .trim_start()
+                .split_once(char::is_whitespace)
+                .map(|(_, reason)| reason.trim_start()),
+            None => None,
+        };
+        let reason = parse::<String>(reason);
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From 0edb11b15d1501a82a427f29fa5468cf597db223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 07/22] fix: a connection closed before the response head is
 complete is no error

---
 lib/src/http/error.rs    | 1 +
 lib/src/http/response.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/lib/src/http/error.rs b/lib/src/http/error.rs
index 2f38076..3203b4c 100644
--- a/lib/src/http/error.rs
+++ b/lib/src/http/error.rs
@@ -34,4 +34,5 @@ http_error! {
     TlsHandshakeFailed => "tls handshake failed",
     WriteFlushFailed => "write flush failed",
     SetReadTimeoutFailed => "set read timeout failed",
+    ResponseIncomplete => "response incomplete",
 }
diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index fe991ae..17e5ded 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -34,6 +34,9 @@ impl Response {
         }
         let mut line = String::from_utf8(buf).unwrap_or_default();
         reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+        if !line.ends_with('\n') {
+            return Err(Error::ResponseIncomplete);
+        }
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
@@ -50,6 +53,9 @@ impl Response {
         loop {
             let mut line = String::new();
             reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+            if !line.ends_with('\n') {
+                return Err(Error::ResponseIncomplete);
+            }
             if line.trim().is_empty() {
                 break;
             } else if let Some((name, value)) = line.split_once(':') {
-- 
2.43.0


From 29f65858d617c21438ee5b218390a9b9087b9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 08/22] fix: a url is cut at a second '://' in its path or
 query

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..3919aec 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,7 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From 478a919be3e904fc6e134cd8b1fc0c05425da8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 09/22] fix: recorded request url lacks the port

---
 lib/src/http/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3919aec..ede096a 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -60,7 +60,10 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        match (&self.scheme, self.port) {
+            (Scheme::Http, 80) | (Scheme::Https, 443) => write!(f, "{}://{}{}", self.scheme, self.host, self.path),
+            _ => write!(f, "{}://{}:{}{}", self.scheme, self.host, self.port, self.path),
+        }
     }
 }
 
-- 
2.43.0


From 7dad4aabc3681e1339d98d09557ba1f3186afc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 10/22] fix: a request that could not be exchanged is reported
 as passed

---
 lib/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/context.rs b/lib/src/context.rs
index 7059e40..4833d9a 100644
--- a/lib/src/context.rs
+++ b/lib/src/context.rs
@@ -101,7 +101,7 @@ impl Display for Assert {
 impl Display for Record {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         writeln!(f, "=== TEST  {}", self.name)?;
-        let mut flag = true;
+        let mut flag = self.error.is_empty();
         for assert in self.asserts.iter() {
             flag &= assert.result;
             writeln!(
-- 
2.43.0


From 6f6692314c2a2d81b96079f35f26a3750358df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 11/22] fix: test iterations that do not divide by the threads
 are dropped

---
 cmd/src/command.rs | 2 +-
 cmd/src/main.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 788fd0e..8588227 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -86,8 +86,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
                     for thread in 0..threads {
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 05b06c5..706fc65 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -23,7 +23,7 @@ enum Commands {
         #[command()]
         name: Option<String>,
         /// Threads
-        #[arg(short, long, default_value_t = 1)]
+        #[arg(short, long, default_value_t = 1, value_parser = clap::value_parser!(u32).range(1..))]
         threads: u32,
         /// Duration
         #[arg(short, long, value_parser = parse_duration)]
-- 
2.43.0


From 3e86fdc7b767cb6b73d0570b370879d9ae33f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 12/22] fix: requests of an iteration that fails to evaluate
 are not reported

---
 cmd/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 8588227..d5cf2a9 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -97,12 +97,9 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
-                                    Err(error) => {
-                                        println!("{}", error);
-                                        break;
-                                    }
+                                let result = eval_block(test.as_ref(), &mut context);
+                                if let Err(error) = &result {
+                                    println!("{}", error);
                                 }
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
@@ -111,6 +108,9 @@ pub fn test(
                                 }
                                 stat.then(|| sender.send(records));
                                 number += 1;
+                                if result.is_err() {
+                                    break;
+                                }
                             }
                         }));
                     }
-- 
2.43.0


From 82edc72a885112b01a59c44a439c5c1362df6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 13/22] fix: statistics are empty when all tests are run

---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index d5cf2a9..4f48376 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -129,6 +129,7 @@ pub fn test(
         }
         None => {
             for (thread, (name, test)) in tests.into_iter().enumerate() {
+                let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
@@ -143,6 +144,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From e37e1cfebeff054e8cab6574e8c923753bae6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 14/22] fix: the last token of a source file merges with the
 first of the next

---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 4f48376..8717c42 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -182,7 +182,8 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
             read(entry, text)?;
         }
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
-        text.push_str(&std::fs::read_to_string(path)?)
+        text.push_str(&std::fs::read_to_string(path)?);
+        text.push('\n')
     }
     Ok(())
 }
-- 
2.43.0


From 6c1aabca46798e52f92063d01032f393c3b17a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 15/22] fix: a long duration overflows

---
 cmd/src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 706fc65..cf5f268 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -77,12 +77,12 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
         Ok(value) => value,
         Err(_) => return Err(format!("Invalid number: {}", chars.as_str())),
     };
-    let duration = match last {
-        Some('s') => Duration::from_secs(value),
-        Some('m') => Duration::from_secs(value * 60),
-        Some('h') => Duration::from_secs(value * 3600),
+    let seconds = match last {
+        Some('s') => Some(value),
+        Some('m') => value.checked_mul(60),
+        Some('h') => value.checked_mul(3600),
         Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
         None => return Err("Time unit needed, for example 1s or 2m".to_string()),
     };
-    Ok(duration)
+    seconds.map(Duration::from_secs).ok_or_else(|| format!("Duration too long: {}", s))
 }
-- 
2.43.0


From 2dc6fa0c04426e3804b242eda94665ab1f8afe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 16/22] fix: assertions other than comparisons are dropped

---
 lib/src/evaluator.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index 72e4734..d1845bd 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -188,29 +188,41 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
             let mut local = Context::from(map);
             let asserts = asserts
                 .iter()
-                .filter_map(|assert| match assert {
-                    Expr::Binary(token, left, right) => {
+                .map(|assert| match assert {
+                    Expr::Binary(token, left, right)
+                        if matches!(token.kind, Kind::Lt | Kind::Gt | Kind::Le | Kind::Ge | Kind::Eq | Kind::Ne) =>
+                    {
                         let expr = format!("{} {} {}", left, token, right);
                         let left = eval_expr(left, &mut local).unwrap_or(Value::Null);
                         let right = eval_expr(right, &mut local).unwrap_or(Value::Null);
-                        match token.kind {
-                            Kind::Lt => Some(left < right),
-                            Kind::Gt => Some(left > right),
-                            Kind::Le => Some(left <= right),
-                            Kind::Ge => Some(left >= right),
-                            Kind::Eq => Some(left == right),
-                            Kind::Ne => Some(left != right),
-                            _ => None,
-                        }
-                        .map(|result| Assert {
+                        let result = match token.kind {
+                            Kind::Lt => left < right,
+                            Kind::Gt => left > right,
+                            Kind::Le => left <= right,
+                            Kind::Ge => left >= right,
+                            Kind::Eq => left == right,
+                            _ => left != right,
+                        };
+                        Assert {
                             expr,
                             left: left.to_string(),
                             compare: token.to_string(),
                             right: right.to_string(),
                             result,
-                        })
+                        }
+                    }
+                    // any other condition holds unless it is false, null or fails
+                    _ => {
+                        let value = eval_expr(assert, &mut local).unwrap_or(Value::Null);
+                        let result = !matches!(value, Value::Boolean(false) | Value::Null);
+                        Assert {
+                            expr: assert.to_string(),
+                            left: result.to_string(),
+                            compare: String::from("=="),
+                            right: true.to_string(),
+                            result,
+                        }
                     }
-                    _ => None,
                 })
                 .collect::<Vec<Assert>>();
             context.push(Record {
-- 
2.43.0


From 6f75adefb9bf964a1d455d51f148a38692105ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 17/22] fix: negative numbers in a json body decode to null

---
 lib/src/syntax.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..70af266 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,11 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
+                Value::Integer(integer) => Value::Integer(-integer),
+                Value::Float(float) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0


From abe170c159d4f75d02e058b70942131c3e8e44e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 18/22] fix: lines of a request body are glued together

---
 lib/src/http/request.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..9ea56bf 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -47,7 +47,7 @@ impl Request {
                     }
                 }
             }
-            let mut body = String::default();
+            let body = lines.clone().collect::<Vec<&str>>().join("\n");
             let content: Content;
             match content_type {
                 Some("application/x-www-form-urlencoded") => {
@@ -55,7 +55,6 @@ impl Request {
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
                             serializer.append_pair(name, value);
-                            body.push_str(line);
                         }
                     }
                     content = Content::Byte(serializer.finish().into_bytes());
@@ -70,7 +69,6 @@ impl Request {
                             } else {
                                 parts.add_text(name, value);
                             }
-                            body.push_str(line);
                         }
                     }
                     match parts.prepare() {
@@ -79,7 +77,6 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From b6e7470a721a1f77505330e57ca9df50599f1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 19/22] fix: form fields carry the space around their name and
 value

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 9ea56bf..57dc03d 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                         }
                     }
                     content = Content::Byte(serializer.finish().into_bytes());
-- 
2.43.0


From 3b2c7ff3b696b03172e60402a572b27ba59af42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 20/22] fix: multipart requests do not declare their boundary

---
 lib/src/http/header.rs  |  5 +++++
 lib/src/http/request.rs | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/header.rs b/lib/src/http/header.rs
index d57bbf6..1d76611 100644
--- a/lib/src/http/header.rs
+++ b/lib/src/http/header.rs
@@ -1,4 +1,5 @@
 use std::slice::Iter;
+use std::slice::IterMut;
 use std::vec::IntoIter;
 
 #[derive(Default)]
@@ -20,6 +21,10 @@ impl Headers {
         self.inner.iter()
     }
 
+    pub fn iter_mut(&mut self) -> IterMut<'_, Header> {
+        self.inner.iter_mut()
+    }
+
     pub fn is_empty(&self) -> bool {
         self.inner.is_empty()
     }
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 57dc03d..ed055cd 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -72,7 +72,15 @@ impl Request {
                         }
                     }
                     match parts.prepare() {
-                        Ok(parts) => content = Content::Multipart(parts),
+                        Ok(parts) => {
+                            // without any field there is neither a boundary nor a content
+                            if parts.content_len() != Some(0) {
+                                if let Some(header) = headers.iter_mut().find(|header| header.name.to_lowercase() == "content-type") {
+                                    header.value = format!("{}; boundary={}", header.value, parts.boundary());
+                                }
+                            }
+                            content = Content::Multipart(parts)
+                        }
                         Err(_) => content = Content::Empty,
                     }
                 }
-- 
2.43.0


From 8fe7b54f4379446cc9af2feaf3d47cfd36c4f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 21/22] fix: a let operand swallows the semicolon that ends its
 statement

---
 lib/src/parser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 38944e7..c17c425 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -190,9 +190,6 @@ impl Parser {
         self.peek_token_expect(Kind::Assign)?;
         self.next_token();
         let value = self.parse_expr(u8::MIN)?;
-        if self.peek_token_is(Kind::Semi) {
-            self.next_token();
-        }
         Ok(Expr::Let(name, Box::new(value)))
     }
 
-- 
2.43.0


From ad8b18dda94d59cf20027aa0488ab95c25d10f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 22/22] fix: a query without a path is taken for a part of the
 host

---
 lib/src/http/url.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index ede096a..9eeb63a 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -13,17 +13,17 @@ impl std::convert::From<&str> for Url {
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-                let (host, path) = if let Some(i) = str.find('/') {
-                    (&str[..i], &str[i..])
-                } else {
-                    (str, "/")
+                let (host, path) = match str.find(['/', '?', '#']) {
+                    Some(i) if str[i..].starts_with('/') => (&str[..i], str[i..].to_string()),
+                    Some(i) => (&str[..i], format!("/{}", &str[i..])),
+                    None => (str, "/".to_string()),
                 };
                 let (host, port) = if let Some(j) = host.find(':') {
                     (&host[..j], host[j + 1..].parse::<u16>().ok())
                 } else {
                     (host, None)
                 };
-                (host.to_string(), port, path.to_string())
+                (host.to_string(), port, path)
             }
             None => ("localhost".to_string(), None, "/".to_string()),
         };
-- 
2.43.0

