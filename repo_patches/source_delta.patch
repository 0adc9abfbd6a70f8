From 83062fe85e7d8ccd8bf9ac7e26b4cf89279dc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 01/14] fix: escape a dot at the very beginning of the message

A message starting with a dot was sent unescaped, so the server lost the
dot or, with ".\r\n", saw the end of the message there and executed the
rest of it as commands.
---
 src/codec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..9f3752a 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,7 +6,7 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
@@ -14,7 +14,8 @@ pub struct ClientCodec {
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-        ClientCodec::default()
+        // The message starts at the beginning of a line.
+        ClientCodec { escape_count: 2 }
     }
 }
 
-- 
2.43.0


From e0e0e1266ea10902d00570a9e5b9f2ebcf2435bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 02/14] fix: escape a dot after CR CR LF

The second CR also starts a line ending, but the codec forgot it, so the
dot of "\r\r\n.\r\n" ended the message and the rest of it was executed
as commands.
---
 src/codec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 9f3752a..8140259 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -40,7 +40,15 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = if *byte == b'\n' {
+                                2
+                            } else if *byte == b'\r' {
+                                1
+                            } else {
+                                0
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From fa315d75d3e55774416a975075f5acf828871d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 03/14] fix: terminate an empty message only once

The codec takes an empty frame for the end of the message, so an empty
message was followed by a second terminator. The server answered it with
two errors which were then taken for the replies to the next commands.
---
 src/stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..43a700d 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,7 +108,10 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
+            // An empty frame stands for the end of the message, which is written below.
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
             self.inner.write_all(b"\r\n.\r\n").await?;
             self.inner.flush().await?;
             Ok(())
-- 
2.43.0


From 5aa205ee9678880868f7f575c7c3a271621d1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 04/14] fix: accept replies without text

RFC 5321 section 4.2 allows a last reply line to consist of the code alone
("250\r\n"); such a reply was reported as a parsing error.
---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..2f09566 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    // The text is optional, and so is the space in front of it.
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0


From b2d329abe63919af77cd6183805584fd32c0c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 05/14] fix: encode control characters in xtext with two digits

RFC 3461 has exactly two hexadecimal digits after "+", but characters below
0x10 got one, so "\tB" was rendered like the character 0x9B. DEL, which is
not an xchar either, was not encoded at all.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..27ba38e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,13 +11,13 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7f') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0


From 6d32e227b9bb211cd47dde84a23ee632302b43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 06/14] fix: recognize EHLO keywords regardless of case

RFC 5321 section 4.1.1.1 requires it. STARTTLS, AUTH and the other
extensions of a server that writes them in lower case were ignored.
---
 src/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..5597987 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -149,7 +149,9 @@ impl ServerInfo {
             }
 
             let split: Vec<&str> = line.split_whitespace().collect();
-            match split.first().copied() {
+            // Keywords are case-insensitive, RFC 5321 section 4.1.1.1.
+            let keyword = split.first().map(|keyword| keyword.to_ascii_uppercase());
+            match keyword.as_deref() {
                 Some("PIPELINING") => {
                     features.insert(Extension::Pipelining);
                 }
-- 
2.43.0


From 335d48d95c0f4ad2fc8b6bbfd9716393fe2f5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 07/14] fix: do not take the server name for an extension

The first line of the EHLO reply is the name of the server and its greeting,
but its first word was also looked up as an extension keyword.
---
 src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 5597987..cee6a80 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,7 +143,8 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line only contains the name of the server.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
-- 
2.43.0


From f18d7b60662bfe64b82a0af6c9f4650f932d6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 08/14] fix: report success if the server accepts the tenth
 response

auth() failed whenever ten challenges were answered, even if the server then
accepted the authentication.
---
 src/smtp_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..ebc1ec0 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -187,7 +187,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 .await?;
         }
 
-        if challenges == 0 {
+        if response.has_code(334) {
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             Ok(response)
-- 
2.43.0


From 65189301d3bbf85a25d532616d674d27cd71cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 09/14] fix: refuse to reuse a connection that is out of step
 with the server

After an I/O error, an unparsable reply, a failure of the message source or
a dropped future (timeout), the server may be in the middle of a command or
message, or may still send a reply. The next operation completed the
half-sent command or message with its own text or took the late reply for
its own, and could even report a message as sent that the server rejected.
---
 src/stream.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 43a700d..4f2aa7c 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -22,12 +22,20 @@ use tokio::io::{
 pub struct SmtpStream<S: BufRead + Write + Unpin> {
     /// Inner stream.
     inner: S,
+    /// Set while a command, a message or a reply is transferred.
+    ///
+    /// If it stays set because of an error or because the future was dropped,
+    /// it is unknown what the server expects or is going to send next.
+    out_of_step: bool,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     /// Creates new SMTP stream.
     pub fn new(stream: S) -> Self {
-        Self { inner: stream }
+        Self {
+            inner: stream,
+            out_of_step: false,
+        }
     }
 
     /// Returns inner stream.
@@ -35,6 +43,15 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         self.inner
     }
 
+    /// Starts a transfer, unless an earlier one was not completed.
+    fn start_transfer(&mut self) -> Result<(), Error> {
+        if self.out_of_step {
+            return Err(Error::Client("connection is out of step with the server"));
+        }
+        self.out_of_step = true;
+        Ok(())
+    }
+
     /// Sends EHLO command and returns server response.
     pub async fn ehlo(&mut self, client_id: ClientId) -> SmtpResult {
         // Extended Hello
@@ -56,8 +73,10 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Writes the given data to the server.
     async fn write(&mut self, string: &[u8]) -> Result<(), Error> {
+        self.start_transfer()?;
         self.inner.write_all(string).await?;
         self.inner.flush().await?;
+        self.out_of_step = false;
 
         debug!(
             ">> {}",
@@ -68,6 +87,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Read an SMTP response from the wire.
     pub async fn read_response(&mut self) -> SmtpResult {
+        self.start_transfer()?;
         let reader = &mut self.inner;
         let mut buffer = String::with_capacity(100);
 
@@ -79,6 +99,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
             debug!("<< {}", escape_crlf(&buffer));
             match parse_response(&buffer) {
                 Ok((_remaining, response)) => {
+                    self.out_of_step = false;
                     if response.is_positive() {
                         return Ok(response);
                     }
@@ -100,6 +121,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Sends the message content.
     pub(crate) async fn message<T: Read + Unpin>(&mut self, message: T) -> SmtpResult {
+        self.start_transfer()?;
         let mut codec = ClientCodec::new();
 
         let mut message_reader = BufReader::new(message);
@@ -118,6 +140,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         }
         .await;
         res?;
+        self.out_of_step = false;
 
         self.read_response().await
     }
-- 
2.43.0


From 69aeaf1517837f64a8b98208efbd8893f387886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 10/14] fix: read the replies to all pipelined commands

When a pipelined command was rejected, send() returned without reading the
replies to the commands after it, so that they were taken for replies to the
next commands. If the server had accepted DATA nevertheless, the next email
was transmitted as the message of the failed one: it was delivered to its
remaining recipients and reported as sent.
---
 src/smtp_client.rs | 21 ++++++++++++++++++---
 src/stream.rs      |  5 +++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index ebc1ec0..5b40d68 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -194,6 +194,16 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         }
     }
 
+    /// Reads responses to the given number of pipelined commands and returns the first error.
+    async fn read_responses(&mut self, count: usize) -> Result<(), Error> {
+        let mut result = Ok(());
+        for _ in 0..count {
+            let response = self.stream.read_response().await;
+            result = result.and(response.map(|_| ()));
+        }
+        result
+    }
+
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
         // Mail
@@ -229,11 +239,16 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
             // Data
             self.stream.send_command(DataCommand).await?;
-            sent_commands += 1;
 
-            for _ in 0..sent_commands {
-                self.stream.read_response().await?;
+            // Read all the responses before returning the first error, otherwise the remaining ones
+            // would be taken for responses to the next commands.
+            let envelope = self.read_responses(sent_commands).await;
+            let data = self.stream.read_response().await;
+            if envelope.is_err() && data.is_ok() {
+                // The server waits for the message now, and there is no way to cancel that.
+                self.stream.abandon();
             }
+            envelope.and(data)?;
         } else {
             self.stream
                 .command(MailCommand::new(
diff --git a/src/stream.rs b/src/stream.rs
index 4f2aa7c..4975ca1 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -43,6 +43,11 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         self.inner
     }
 
+    /// Makes all further operations fail.
+    pub fn abandon(&mut self) {
+        self.out_of_step = true;
+    }
+
     /// Starts a transfer, unless an earlier one was not completed.
     fn start_transfer(&mut self) -> Result<(), Error> {
         if self.out_of_step {
-- 
2.43.0


From b0ac1f96c97e752ef0d97b3fa8db4c65bad9a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 11/14] fix: reset the mail transaction after a rejected
 recipient or DATA

Otherwise the MAIL command of the next email is issued inside the open
transaction, which RFC 5321 section 4.1.4 forbids and servers reject, so a
single rejected recipient made every later send() fail.
---
 src/smtp_client.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 5b40d68..69461e6 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -204,8 +204,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         result
     }
 
-    /// Sends an email.
-    pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+    /// Sends the commands that precede the message.
+    async fn send_envelope(&mut self, email: &SendableEmail) -> Result<(), Error> {
         // Mail
         let mut mail_options = vec![];
 
@@ -270,6 +270,17 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.command(DataCommand).await?;
         }
 
+        Ok(())
+    }
+
+    /// Sends an email.
+    pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        if let Err(err) = self.send_envelope(&email).await {
+            // Abort the transaction, a new one must not be started while it is open.
+            let _ = self.stream.command(RsetCommand).await;
+            return Err(err);
+        }
+
         let res = self.stream.message(email.message()).await;
 
         // Message content
-- 
2.43.0


From b6d60ea63622d1a925ad3efe80d8f66270320b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 12/14] fix: cancel the authentication if a challenge cannot be
 answered

The server was left waiting for a response and took the next command, e.g.
an attempt with another mechanism or QUIT, for it.
---
 src/smtp_client.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 69461e6..439b774 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -177,23 +177,31 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         while challenges > 0 && response.has_code(334) {
             challenges -= 1;
-            response = self
-                .stream
-                .command(AuthCommand::new_from_response(
-                    mechanism,
-                    credentials.clone(),
-                    &response,
-                )?)
-                .await?;
+            let command =
+                match AuthCommand::new_from_response(mechanism, credentials.clone(), &response) {
+                    Ok(command) => command,
+                    Err(err) => {
+                        self.cancel_auth().await;
+                        return Err(err);
+                    }
+                };
+            response = self.stream.command(command).await?;
         }
 
         if response.has_code(334) {
+            self.cancel_auth().await;
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             Ok(response)
         }
     }
 
+    /// Cancels an authentication exchange in which the server waits for a response.
+    async fn cancel_auth(&mut self) {
+        // The server rejects the exchange, it does not matter how.
+        let _ = self.stream.command("*\r\n").await;
+    }
+
     /// Reads responses to the given number of pipelined commands and returns the first error.
     async fn read_responses(&mut self, count: usize) -> Result<(), Error> {
         let mut result = Ok(());
-- 
2.43.0


From eccc86094d7ae4a4eda9ad877d6f5982ad6eafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 13/14] fix: limit the size of a group of pipelined commands

All recipients were written before reading any response. With enough of them
the server blocks on its unread responses, stops reading, and client and
server wait for each other forever. RFC 2920 section 3.1 therefore requires
each group to fit into the TCP window, usually 4K octets.
---
 src/smtp_client.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 439b774..0d1bfcd 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -14,6 +14,13 @@ use async_std::io::{BufRead, Write};
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncBufRead as BufRead, AsyncWrite as Write};
 
+/// Maximum size of a group of commands sent without reading the responses.
+///
+/// The group must fit into the TCP window: if the server stops reading commands
+/// because nobody reads its responses, writing more commands than that never completes.
+/// See RFC 2920, section 3.1.
+const MAX_PIPELINED_GROUP_LEN: usize = 4096;
+
 /// Contains client configuration
 #[derive(Debug)]
 pub struct SmtpClient {
@@ -229,23 +236,30 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
         if pipelining {
-            self.stream
-                .send_command(MailCommand::new(
-                    email.envelope().from().cloned(),
-                    mail_options,
-                ))
-                .await?;
+            let command =
+                MailCommand::new(email.envelope().from().cloned(), mail_options).to_string();
+            let mut group_len = command.len();
+            self.stream.send_command(command).await?;
             let mut sent_commands = 1;
 
             // Recipient
             for to_address in email.envelope().to() {
-                self.stream
-                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
-                    .await?;
+                let command = RcptCommand::new(to_address.clone(), vec![]).to_string();
+                if group_len + command.len() > MAX_PIPELINED_GROUP_LEN {
+                    self.read_responses(sent_commands).await?;
+                    sent_commands = 0;
+                    group_len = 0;
+                }
+                group_len += command.len();
+                self.stream.send_command(command).await?;
                 sent_commands += 1;
             }
 
             // Data
+            if group_len + DataCommand.to_string().len() > MAX_PIPELINED_GROUP_LEN {
+                self.read_responses(sent_commands).await?;
+                sent_commands = 0;
+            }
             self.stream.send_command(DataCommand).await?;
 
             // Read all the responses before returning the first error, otherwise the remaining ones
-- 
2.43.0


From fbf468733a2c1a094061371acb6b5dbde6d3f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 14/14] fix: do not panic if the stream fails within a reply
 (async-std)

---
 src/stream.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 4975ca1..a408e54 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -95,12 +95,18 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         self.start_transfer()?;
         let reader = &mut self.inner;
         let mut buffer = String::with_capacity(100);
+        let mut line = Vec::with_capacity(100);
 
         loop {
-            let read = reader.read_line(&mut buffer).await?;
+            // read_line() of async-std may panic if the stream fails within a line.
+            line.clear();
+            let read = reader.read_until(b'\n', &mut line).await?;
             if read == 0 {
                 break;
             }
+            let line = std::str::from_utf8(&line)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
+            buffer.push_str(line);
             debug!("<< {}", escape_crlf(&buffer));
             match parse_response(&buffer) {
                 Ok((_remaining, response)) => {
-- 
2.43.0

