From 730301c46b7206a3ebd678b88094ce50e98863f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:34 +0000
Subject: [PATCH 01/40] fix: return a syntax error for out of order lines
 instead of panicking

The PO parser unwrapped the lookup of the next state, so a second msgid
before msgstr, a continuation line with nothing to continue or a msgstr
without msgid aborted the caller.
---
 rust/src/poparser.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..0f9fada 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -153,8 +153,25 @@ impl POFileParser {
         symbol: &Symbol,
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
-        let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+        let (action, next_state) = match TRANSITIONS
+            .get(&next_transition)
+        {
+            Some(transition) => *transition,
+            None => {
+                return Err(SyntaxError::Custom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        message: format!(
+                            "unexpected line of type {:?} found after {:?}",
+                            symbol, self.current_state,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    });
+            }
+        };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
-- 
2.43.0


From d4eac64559045b253d706b057a2b7594037d3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:56 +0000
Subject: [PATCH 02/40] fix: reject strings without both quotes in the PO
 parser

A lone double quote, a string without opening quote and a plural msgstr
without a properly quoted value panicked or silently lost characters.
They are reported as syntax errors now.
---
 rust/src/poparser.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 0f9fada..ecc61dd 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -365,6 +365,20 @@ impl POFileParser {
                 }
             };
 
+            let value_start =
+                self.current_token.find(']').unwrap_or(0) + 1;
+            let value =
+                self.current_token[value_start..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                self.current_token.chars().count()
+                    - value.chars().count()
+                    + 1,
+            )?;
+            self.current_token = value.to_string();
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
@@ -621,9 +635,7 @@ fn handle_ms(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_mx(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let value =
-        &parser.current_token[parser.current_token.find('"').unwrap()
-            + 1
-            ..parser.current_token.len() - 1];
+        &parser.current_token[1..parser.current_token.len() - 1];
     let msgstr_plural_length =
         parser.current_entry.msgstr_plural.len();
     if parser.msgstr_index + 1 > msgstr_plural_length {
@@ -750,20 +762,34 @@ fn maybe_raise_unescaped_double_quote_found_error(
     path_or_content: &str,
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
-    // Check if last character is not a double quote
-    // to prevent slicing out of bounds
+    // Check if last character is not a double quote, or is
+    // the opening one, to prevent slicing out of bounds
     let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text_chars.last().unwrap_or('\0') != '"' || text == "\"" {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
+    if !text.starts_with('"') {
+        return Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                path_or_content,
+                path_or_content_is_path,
+            ),
+            line: linenum,
+            index: index_offset.saturating_sub(1),
+            message: format!(
+                "string without opening quote '{}'",
+                text
+            ),
+        });
+    }
 
     let text_str = text.to_string();
     let unescaped_double_quote_i = find_unescaped_double_quote_index(
-- 
2.43.0


From 12996971c4fc499e7ba6748f657d1fab10147c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:02 +0000
Subject: [PATCH 03/40] fix: parse previous message lines like other string
 lines

Continuation lines of previous messages kept the '#|' marker as part of
the text, more than one blank after the marker shifted the text, and
quotes were not checked, so some lines panicked.
---
 rust/src/poparser.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index ecc61dd..543c694 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -413,8 +413,18 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            let previous = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    previous,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    line.chars().count() - previous.chars().count()
+                        + 1,
+                )?;
+                self.current_token = previous.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -447,10 +457,15 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            let value = previous[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                line.chars().count() - value.chars().count() + 1,
+            )?;
+            self.current_token = value.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From 3a444a33ea054d2b1a908ad3c99d1ac427569aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:26 +0000
Subject: [PATCH 04/40] fix: do not mix continuation lines of previous and
 current messages

A '#| "..."' line after msgid was appended to the current msgid, and a
plain continuation line after '#| msgid' to the previous msgid.
---
 rust/src/poparser.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 543c694..7d92d22 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -182,6 +182,26 @@ impl POFileParser {
         Ok(())
     }
 
+    fn process_continuation(
+        &mut self,
+        previous: bool,
+    ) -> Result<(), SyntaxError> {
+        let after_previous =
+            [St::PC, St::PM, St::PP].contains(&self.current_state);
+        if previous != after_previous {
+            return Err(SyntaxError::Custom {
+                maybe_filename: MaybeFilename::new(
+                    &self.file.options.path_or_content,
+                    self.content_is_path,
+                ),
+                message: "invalid continuation line".to_string(),
+                line: self.current_line,
+                index: 0,
+            });
+        }
+        self.process(&St::MC)
+    }
+
     pub fn parse(&mut self) -> Result<(), SyntaxError> {
         if self.content_is_path {
             self.parse_file()?;
@@ -330,7 +350,7 @@ impl POFileParser {
                 &self.file.options.path_or_content,
                 1,
             )?;
-            self.process(&St::MC)?;
+            self.process_continuation(false)?;
         } else if self.current_token.starts_with("msgstr[") {
             // msgstr plural
             let index = self
@@ -425,7 +445,7 @@ impl POFileParser {
                         + 1,
                 )?;
                 self.current_token = previous.to_string();
-                self.process(&St::MC)?;
+                self.process_continuation(true)?;
                 return Ok(());
             }
 
-- 
2.43.0


From 384c2d3525b64222fce15311dcfd57359da8b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:52 +0000
Subject: [PATCH 05/40] fix: reject huge msgstr plural indexes

Plural forms are stored by index filling the gaps with empty strings, so
'msgstr[4000000000]' exhausted the memory and the maximum index
overflowed.
---
 rust/src/poparser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 7d92d22..2276d40 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -11,6 +11,10 @@ use crate::entry::POEntry;
 use crate::errors::{MaybeFilename, SyntaxError};
 use crate::file::{pofile::POFile, FileOptions};
 
+// Greater plural indexes are rejected because plural forms
+// are stored by index, so they would exhaust the memory
+const MAX_MSGSTR_PLURAL_INDEX: usize = 999;
+
 #[derive(Hash, Eq, PartialEq, Clone, Copy, Debug)]
 
 pub enum St {
@@ -363,10 +367,10 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index <= MAX_MSGSTR_PLURAL_INDEX => {
                     self.msgstr_index = index;
                 }
-                Err(_) => {
+                _ => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
                             &self.file.options.path_or_content,
-- 
2.43.0


From cbde361a803a9992a4d6624df042b5c4f7aeb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:58 +0000
Subject: [PATCH 06/40] fix: take the metadata only from the entry without
 context

An entry with a context and an empty msgid was taken as the metadata of
the file and lost, and a metadata entry without msgstr panicked.
---
 rust/src/poparser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 2276d40..9ff954d 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -254,15 +254,18 @@ impl POFileParser {
             self.add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
-        if let Some(metadata_entry) = metadata_entry {
+        let metadata_entry_index =
+            self.file.entries.iter().position(|e| {
+                e.msgid.is_empty() && e.msgctxt.is_none()
+            });
+        if let Some(index) = metadata_entry_index {
             // Remove header from entries and store it in metadata hashmap
+            let metadata_entry = self.file.entries.remove(index);
             self.file.metadata_is_fuzzy =
                 !metadata_entry.flags.is_empty();
-            self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From ac95ebacfb25f960c0585ef8f815b7bc7270ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:04 +0000
Subject: [PATCH 07/40] fix: mark the metadata as fuzzy only for the fuzzy flag

Any other flag in the metadata entry marked it as fuzzy.
---
 rust/src/poparser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 9ff954d..23ab7fc 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -261,8 +261,7 @@ impl POFileParser {
         if let Some(index) = metadata_entry_index {
             // Remove header from entries and store it in metadata hashmap
             let metadata_entry = self.file.entries.remove(index);
-            self.file.metadata_is_fuzzy =
-                !metadata_entry.flags.is_empty();
+            self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
 
             for metadata_line in
                 metadata_entry.msgstr.unwrap_or_default().split('\n')
-- 
2.43.0


From 4aa3636246c52f9da680f3baf357c343b720a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:10 +0000
Subject: [PATCH 08/40] fix: keep metadata items without a space after the
 colon

Items like 'Language:', usual when editors strip trailing spaces, were
lost reading PO files while MO files keep them.
---
 rust/src/poparser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 23ab7fc..6f7417c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -266,11 +266,11 @@ impl POFileParser {
             for metadata_line in
                 metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
-                let (key, value) =
-                    match metadata_line.split_once(": ") {
-                        Some((key, value)) => (key, value),
-                        None => continue,
-                    };
+                let (key, value) = match metadata_line.split_once(':')
+                {
+                    Some((key, value)) => (key, value),
+                    None => continue,
+                };
                 if !self.file.metadata.contains_key(key) {
                     self.file.metadata.insert(
                         key.to_string(),
-- 
2.43.0


From 7c84877c0d7965716ea88320b95666f7bbd592c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:16 +0000
Subject: [PATCH 09/40] fix: keep the last entry of a file when its msgid is
 empty

The last entry was lost if its msgid and msgstr were empty, so the fuzzy
flag of a file with only metadata and a last entry with context and empty
msgid disappeared.
---
 rust/src/poparser.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 6f7417c..3a2128f 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -243,14 +243,9 @@ impl POFileParser {
             self.parse_line(&line)?;
         }
 
-        if self.current_entry.msgid.is_empty() {
-            // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
-            }
-        } else {
+        if [St::MS, St::MX].contains(&self.current_state)
+            || !self.current_entry.msgid.is_empty()
+        {
             self.add_current_entry()?;
         }
 
-- 
2.43.0


From b3485514867f72b377d8f0f9db84cea1064ea990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:36 +0000
Subject: [PATCH 10/40] fix: do not lose a msgid without msgstr followed by a
 comment

The next msgid replaced the unfinished one silently. It is a syntax error
now, as it already was without the comment between them.
---
 rust/src/poparser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 3a2128f..22cc818 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -646,6 +646,21 @@ fn handle_ct(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_mi(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
+    if !parser.current_entry.msgid.is_empty() {
+        // The previous msgid would be lost
+        return Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                &parser.file.options.path_or_content,
+                parser.content_is_path,
+            ),
+            message: format!(
+                "missing msgstr for msgid '{}'",
+                parser.current_entry.msgid
+            ),
+            line: parser.current_line,
+            index: 0,
+        });
+    }
     parser.current_entry.obsolete = parser.entry_obsolete;
     parser.current_entry.msgid = parser.current_token
         [1..parser.current_token.len() - 1]
-- 
2.43.0


From 5398c7e61d396925a6cf57c2a1bc65371c8251e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:01 +0000
Subject: [PATCH 11/40] fix: set the line number of the first entry of a PO
 file

It was always 0 while the other entries have the number of the line at
which they start.
---
 rust/src/poparser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 22cc818..7428aa7 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -177,6 +177,13 @@ impl POFileParser {
             }
         };
 
+        if [St::ST, St::HE].contains(&self.current_state)
+            && action != St::HE
+        {
+            // the first entry starts here
+            self.current_entry.linenum = self.current_line;
+        }
+
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
             // if not in a message continuation line, change the state
-- 
2.43.0


From 6ee168069f53d686a573201367bd20f28cddd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:08 +0000
Subject: [PATCH 12/40] fix: report unreadable lines of PO files instead of
 stopping silently

The parser took a line that can not be read, such as one that is not
valid UTF-8, as the end of the file, losing the rest of the entries, and
panicked if the file can not be opened.
---
 rust/src/poparser.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 7428aa7..061c095 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -80,14 +80,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = Result<String, std::io::Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -222,10 +218,22 @@ impl POFileParser {
         Ok(())
     }
 
+    fn read_error(&self, error: &std::io::Error) -> SyntaxError {
+        SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            message: error.to_string(),
+            line: self.current_line + 1,
+            index: 0,
+        }
+    }
+
     fn parse_file(&mut self) -> Result<(), SyntaxError> {
-        let mut buf = BufReader::new(
-            File::open(&self.file.options.path_or_content).unwrap(),
-        );
+        let file = File::open(&self.file.options.path_or_content)
+            .map_err(|e| self.read_error(&e))?;
+        let mut buf = BufReader::new(file);
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
@@ -243,11 +251,15 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
-        self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
-
-        for line in handler.by_ref() {
-            self.parse_line(&line)?;
+        let mut is_first_line = true;
+        for maybe_line in handler.by_ref() {
+            let line = maybe_line.map_err(|e| self.read_error(&e))?;
+            if is_first_line {
+                self.parse_line(maybe_lstrip_utf8_bom(&line))?;
+                is_first_line = false;
+            } else {
+                self.parse_line(&line)?;
+            }
         }
 
         if [St::MS, St::MX].contains(&self.current_state)
-- 
2.43.0


From e9872a05ef9754fe3d7a0b06327a9f2c37aac7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:28 +0000
Subject: [PATCH 13/40] fix: read PO files from bytes

The content passed as bytes to pofile() was ignored and an empty file
was returned.
---
 rust/src/poparser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 061c095..320d829 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -240,8 +240,13 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let content = match &self.file.options.byte_content {
+            Some(bytes) => bytes.clone(),
+            None => {
+                self.file.options.path_or_content.clone().into_bytes()
+            }
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From 248607ed43aea84ee660ab800f78d8425eceb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:34 +0000
Subject: [PATCH 14/40] fix: keep the content as bytes creating file options
 from others

FileOptions::from(&options) dropped the content, so mofile(&options)
panicked.
---
 rust/src/file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..5c8e7e1 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -111,7 +111,7 @@ impl From<&FileOptions> for FileOptions {
         Self {
             path_or_content: options.path_or_content.clone(),
             wrapwidth: options.wrapwidth,
-            ..Default::default()
+            byte_content: options.byte_content.clone(),
         }
     }
 }
-- 
2.43.0


From bea612b65dd0555070fa1cfec5e0e38681818ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:40 +0000
Subject: [PATCH 15/40] fix: return an error opening a MO file that does not
 exist

mofile() panicked if the path does not exist and there is no content.
---
 rust/src/moparser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..1a2a1f0 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,7 +70,7 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
@@ -80,7 +80,7 @@ impl MOFileParser<'_> {
                 File::open(&file.options.path_or_content).unwrap(),
             ),
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 0e191ce938b40c022c5199205d260f232d7224a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 16/40] fix: do not swap msgctxt and msgid reading MO files

The context is stored before the EOT byte and the msgid after it.
---
 rust/src/moparser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 1a2a1f0..ebe4d5e 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -49,12 +49,11 @@ fn maybe_extract_plurals_from_msgid_msgstr<'a>(
 fn maybe_extract_msgctxt_from_msgid(
     msgid: &str,
 ) -> (Cow<'_, str>, Option<String>) {
-    let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
-
-    if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
-    } else {
-        (msgid.into(), None)
+    match msgid.split_once('\x04') {
+        Some((msgctxt, msgid)) => {
+            (msgid.into(), Some(msgctxt.to_string()))
+        }
+        None => (msgid.into(), None),
     }
 }
 
-- 
2.43.0


From b13bac7b9743e00b708a01baaf130512fb3577ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:11 +0000
Subject: [PATCH 17/40] fix: report MO strings that are not inside the data

Errors reading the strings were ignored, so truncated files produced
messages filled with NUL characters, and the lengths of the tables were
trusted to reserve memory.
---
 rust/src/moparser.rs | 45 ++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index ebe4d5e..48394d9 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, ErrorKind, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -116,8 +116,24 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
+    }
+
+    fn parse_bytes(
+        &mut self,
+        offset: u32,
+        length: u32,
+    ) -> Result<Vec<u8>, std::io::Error> {
+        self.fhandle.seek(SeekFrom::Start(offset as u64))?;
+        // Do not trust in the length to reserve the memory
+        let mut buffer = vec![];
+        let read = (&mut self.fhandle)
+            .take(length as u64)
+            .read_to_end(&mut buffer)?;
+        if read < length as usize {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
+        Ok(buffer)
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -263,25 +279,25 @@ impl MOFileParser<'_> {
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self
+                .parse_bytes(msgid_offset, msgid_length)
+                .map_err(|_e| IOError::CorruptedMOData {
+                    context: format!("parsing msgid at index {}", i),
+                })?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self
+                .parse_bytes(msgstr_offset, msgstr_length)
+                .map_err(|_e| IOError::CorruptedMOData {
+                    context: format!("parsing msgstr at index {}", i),
+                })?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -322,6 +338,7 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From bd7c4af8fdc98c9ebb28783412a4c9002c33dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:30 +0000
Subject: [PATCH 18/40] fix: return an error opening a MO file that can not be
 read

mofile() panicked for existing files that the user can not open.
---
 rust/src/moparser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 48394d9..41ca033 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -75,9 +75,11 @@ impl MOFileParser<'_> {
         )
         .is_file()
         {
-            true => Box::new(
-                File::open(&file.options.path_or_content).unwrap(),
-            ),
+            true => match File::open(&file.options.path_or_content) {
+                Ok(fhandle) => Box::new(fhandle),
+                // Fails reading the magic number
+                Err(_e) => Box::new(Cursor::new(vec![])),
+            },
             false => Box::new(Cursor::new(
                 file.options.byte_content.clone().unwrap_or_default(),
             )),
-- 
2.43.0


From 7110d415443c41dd384a14afadf90096e3764b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:54 +0000
Subject: [PATCH 19/40] fix: create empty MO files from Python

MOFile() is documented as creating an empty file, but it failed because
there was not a file to read.
---
 python/src/pymofile.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/pymofile.rs b/python/src/pymofile.rs
index 723438a..63e77fd 100644
--- a/python/src/pymofile.rs
+++ b/python/src/pymofile.rs
@@ -54,8 +54,11 @@ impl PyMOFile {
         path_or_content: &str,
         wrapwidth: usize,
     ) -> PyResult<Self> {
-        let result =
-            mofile(FileOptions::from((path_or_content, wrapwidth)));
+        let options = FileOptions::from((path_or_content, wrapwidth));
+        if path_or_content.is_empty() {
+            return Ok(PyMOFile(MOFile::new(options)));
+        }
+        let result = mofile(options);
         match result {
             Ok(mofile) => Ok(PyMOFile(mofile)),
             Err(e) => Err(PyErr::new::<exceptions::IOError, _>(
-- 
2.43.0


From acba7cecadb2ecffa0f1d07cdcbd47bcda7266fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:00 +0000
Subject: [PATCH 20/40] fix: render the previous msgid_plural with its own
 keyword

It was written as a previous msgid followed by an empty line, so it
replaced the previous msgid when the file was read again.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..3649d1a 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -209,7 +209,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -217,7 +217,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From 63a0c5bb717f71d986be2bf734e3867fee992d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:07 +0000
Subject: [PATCH 21/40] fix: write the comment marker in all the lines of
 wrapped comments

The lines of comments longer than the wrap width were written without
marker, so the rendered file was not valid, and the width underflowed for
values lower than 2.
---
 rust/src/entry/poentry.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 3649d1a..be49078 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -95,13 +95,20 @@ impl POEntry {
         target: &mut String,
     ) {
         for line in comment.lines() {
-            if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+            if UnicodeWidthStr::width(line) + prefix.len() > wrapwidth
+            {
+                let max_width =
+                    wrapwidth.saturating_sub(prefix.len());
+                for wrapped_line in wrap(line, max_width) {
+                    target.push_str(prefix);
+                    target.push_str(&wrapped_line);
+                    target.push('\n');
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From 9801226048b821c5f77c2ddec735683b5a1350d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:13 +0000
Subject: [PATCH 22/40] fix: write each occurrence once when they do not fit in
 a line

The occurrences of a full line were repeated in the next ones and the one
that did not fit was lost.
---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index be49078..3799e3b 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -158,11 +158,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From a9ad9ad27e61503c2719a75b7d7b24fdeecef15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:40 +0000
Subject: [PATCH 23/40] fix: keep trailing whitespaces of msgstr rendering
 entries

Translations ending in newlines or blanks lost them saving the file,
unlike the other string fields.
---
 rust/src/entry/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..8f7e712 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -73,14 +73,8 @@ fn default_mo_entry_msgstr_formatter(
     delflag: &str,
     wrapwidth: usize,
 ) -> String {
-    POStringField::new(
-        "msgstr",
-        delflag,
-        msgstr.trim_end(),
-        "",
-        wrapwidth,
-    )
-    .to_string()
+    POStringField::new("msgstr", delflag, msgstr, "", wrapwidth)
+        .to_string()
 }
 
 fn mo_entry_to_string_with_msgstr_formatter(
-- 
2.43.0


From ad83e41d7347216384a2f0a4bd9fc12d5b8a1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:46 +0000
Subject: [PATCH 24/40] fix: use the wrap width of the file options rendering
 files

The entries were always wrapped at 78 columns, regardless of the wrap
width passed opening the file.
---
 rust/src/file/mofile.rs | 5 ++++-
 rust/src/file/pofile.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..779e23b 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -399,11 +399,13 @@ impl fmt::Display for POFile {
         let mut entries_ret = String::new();
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
+            let entry_repr = entry
+                .to_string_with_wrapwidth(self.options.wrapwidth);
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(&entry_repr);
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(&entry_repr);
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From a3d464d1b1c902e0698a995de9c82e9b3dc146e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:22 +0000
Subject: [PATCH 25/40] fix: measure the width of lines with multibyte
 characters once

The accumulated width was used as the byte index from which to continue,
so multibyte characters were counted several times and their lines
were wrapped too early.
---
 rust/src/twrapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index de8913a..d962033 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -20,14 +20,16 @@ fn get_linebreaks(
     let mut accum_char_bindex = 0;
     let mut accum_char_width = 0; // bindex, width
     let mut last_break_width = 0;
+    let mut last_lb = 0;
 
     for (lbi, (lb, _)) in linebreaks.iter().enumerate() {
-        let range = accum_char_width..*lb;
+        let range = last_lb..*lb;
         for bindex in range {
             accum_char_width +=
                 char_indices_widths.get(&bindex).unwrap_or(&0);
             accum_char_bindex = bindex;
         }
+        last_lb = *lb;
         if lbi == linebreaks.len() - 1 {
             continue;
         }
-- 
2.43.0


From 7103b4e72abbd57e6279c5d4f7b40eb7971d5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:28 +0000
Subject: [PATCH 26/40] fix: do not break lines inside of escape sequences

Escaped backslashes could be split between two lines, which other tools
can not read.
---
 rust/src/twrapper.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index d962033..5de21b7 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -51,13 +51,26 @@ fn get_linebreaks(
     ret
 }
 
+/// Returns if breaking the text at a byte index would separate
+/// a backslash from the character that it escapes
+fn splits_escape_sequence(text: &str, index: usize) -> bool {
+    let backslashes = text[..index]
+        .bytes()
+        .rev()
+        .take_while(|byte| *byte == b'\\')
+        .count();
+    index < text.len() && backslashes % 2 == 1
+}
+
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
     let linebreaks = get_linebreaks(
-        &unicode_linebreaks(text).collect(),
+        &unicode_linebreaks(text)
+            .filter(|(lb, _)| !splits_escape_sequence(text, *lb))
+            .collect(),
         text,
         wrapwidth,
     );
-- 
2.43.0


From 738aecbf2290154f827a73453d4a44c2228272d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:34 +0000
Subject: [PATCH 27/40] fix: do not ignore errors writing files

An incomplete file was left without notice, for example with the disk
full, while errors creating the file already panic.
---
 rust/src/file/mod.rs    | 2 +-
 rust/src/file/mofile.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 5c8e7e1..0496a4c 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -32,7 +32,7 @@ pub trait SaveAsPOFile {
         Self: fmt::Display,
     {
         let mut file = File::create(path).unwrap();
-        file.write_all(self.to_string().as_bytes()).ok();
+        file.write_all(self.to_string().as_bytes()).unwrap();
     }
 }
 
diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index aa63090..3cc52b5 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -362,7 +362,7 @@ impl Save for MOFile {
     /// Save the MOFile to a file at the given path
     fn save(&self, path: &str) {
         let mut file = File::create(path).unwrap();
-        file.write_all(&self.as_bytes()).ok();
+        file.write_all(&self.as_bytes()).unwrap();
     }
 }
 
-- 
2.43.0


From 781a248ed350ce5785bce53a2cd5583fe29a33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:13 +0000
Subject: [PATCH 28/40] fix: identify messages by msgid and msgctxt merging PO
 files

A message without context was not added if there was another with the
same msgid and a context, and messages whose context is not in the
reference were not marked as obsolete.
---
 rust/src/file/pofile.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 779e23b..f17db15 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -62,6 +62,10 @@ fn by_previous_msgctxt_predicate(
         == value
 }
 
+fn same_message_predicate(entry: &POEntry, other: &POEntry) -> bool {
+    entry.msgid == other.msgid && entry.msgctxt == other.msgctxt
+}
+
 /// PO files factory function.
 ///
 /// It takes an argument that could be either:
@@ -450,13 +454,11 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry: Option<POEntry> = self
+                .entries
+                .iter()
+                .find(|e| same_message_predicate(e, other_entry))
+                .cloned();
 
             if let Some(e) = entry {
                 let mut entry = e;
@@ -470,7 +472,11 @@ impl Merge for POFile {
 
         let self_entries: &mut Vec<POEntry> = self.entries.as_mut();
         for entry in self_entries {
-            if other.find_by_msgid(&entry.msgid).is_none() {
+            if !other
+                .entries
+                .iter()
+                .any(|e| same_message_predicate(e, entry))
+            {
                 entry.obsolete = true;
             }
         }
-- 
2.43.0


From 12016128638291eac254e7702806c7158a061d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:19 +0000
Subject: [PATCH 29/40] fix: write metadata fields always in the same order

Fields which names differ only in whitespaces were written in the random
order of the map.
---
 rust/src/file/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 0496a4c..2ffa2d5 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,9 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From 8f5b390cf56c47b0ec2369e91d243569249a2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:26 +0000
Subject: [PATCH 30/40] fix: show the numbers in the incorrect magic number
 error

The names of the fields were shown instead of their values.
---
 rust/src/errors.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rust/src/errors.rs b/rust/src/errors.rs
index b89bda8..d7a9cf1 100644
--- a/rust/src/errors.rs
+++ b/rust/src/errors.rs
@@ -132,13 +132,7 @@ pub enum IOError {
     /// Usually this happens because the buffer offset reading the
     /// file is not correct or the file has been saved with an
     /// incorrect magic number.
-    #[snafu(display(
-        concat!(
-            "Invalid mo file, magic number is incorrect",
-            " ({{magic_number_le}} read as le, {{magic_number_be}}",
-            " read as be)",
-        )
-    ))]
+    #[snafu(display("Invalid mo file, magic number is incorrect ({magic_number_le} read as le, {magic_number_be} read as be)"))]
     IncorrectMagicNumber {
         magic_number_le: u32,
         magic_number_be: u32,
-- 
2.43.0


From 0eacfa65dadc4f6d0391dfb45650b68c2a7b9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:09 +0000
Subject: [PATCH 31/40] fix: do not change the header of PO files each time
 that they are saved

The empty lines at the beginning of the header were lost reading the
file, and those at the end were removed one by one in each save. Keep the
first ones and remove all of the last ones.
---
 rust/src/file/pofile.rs |  3 ++-
 rust/src/poparser.rs    | 10 +++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index f17db15..ed0e3bd 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -373,11 +373,12 @@ impl fmt::Display for POFile {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut ret: String = match self.header {
             Some(ref header) => {
+                let header = header.trim_end_matches('\n');
                 if header.is_empty() {
                     "#\n".to_string()
                 } else {
                     let mut header_repr = String::new();
-                    for line in header.lines() {
+                    for line in header.split('\n') {
                         if line.is_empty() {
                             header_repr.push_str("#\n");
                         } else {
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 320d829..a0727ea 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -528,13 +528,9 @@ impl POFileParser {
 
 fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let mut newheader = match parser.file.header {
-        Some(ref header) => header,
-        None => "",
-    }
-    .to_string();
-    if !newheader.is_empty() {
-        newheader.push('\n');
-    }
+        Some(ref header) => format!("{}\n", header),
+        None => String::new(),
+    };
     if parser.current_token.len() > 2 {
         newheader.push_str(&parser.current_token[2..]);
     }
-- 
2.43.0


From 20af11e82fc5efa318391c4e76a2ac9a1a615810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:59 +0000
Subject: [PATCH 32/40] fix: reject msgid_plural and msgstr without msgid after
 a comment

They created an entry with an empty msgid, which could even replace the
metadata of the file.
---
 rust/src/poparser.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index a0727ea..dc87897 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -105,6 +105,8 @@ pub(crate) struct POFileParser {
     msgstr_index: usize,
     /// Whether the current entry is obsolete
     entry_obsolete: bool,
+    /// Whether the msgid of the current entry has been found
+    msgid_found: bool,
 }
 
 impl POFileParser {
@@ -121,6 +123,7 @@ impl POFileParser {
             current_entry: POEntry::new(0),
             msgstr_index: 0,
             entry_obsolete: false,
+            msgid_found: false,
         }
     }
 
@@ -138,6 +141,7 @@ impl POFileParser {
         self.file.entries.push(unescaped_entry.unwrap());
         self.current_entry = POEntry::new(self.current_line);
         self.msgstr_index = 0;
+        self.msgid_found = false;
         Ok(())
     }
 
@@ -148,6 +152,21 @@ impl POFileParser {
         Ok(())
     }
 
+    fn raise_if_msgid_not_found(&self) -> Result<(), SyntaxError> {
+        if self.msgid_found {
+            return Ok(());
+        }
+        Err(SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            message: "missing msgid".to_string(),
+            line: self.current_line,
+            index: 0,
+        })
+    }
+
     fn process(
         &mut self,
         symbol: &Symbol,
@@ -666,7 +685,7 @@ fn handle_ct(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_mi(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
-    if !parser.current_entry.msgid.is_empty() {
+    if parser.msgid_found {
         // The previous msgid would be lost
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
@@ -681,6 +700,7 @@ fn handle_mi(parser: &mut POFileParser) -> Result<(), SyntaxError> {
             index: 0,
         });
     }
+    parser.msgid_found = true;
     parser.current_entry.obsolete = parser.entry_obsolete;
     parser.current_entry.msgid = parser.current_token
         [1..parser.current_token.len() - 1]
@@ -689,6 +709,7 @@ fn handle_mi(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 }
 
 fn handle_mp(parser: &mut POFileParser) -> Result<(), SyntaxError> {
+    parser.raise_if_msgid_not_found()?;
     parser.current_entry.msgid_plural = Some(
         parser.current_token[1..parser.current_token.len() - 1]
             .to_string(),
@@ -697,6 +718,7 @@ fn handle_mp(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 }
 
 fn handle_ms(parser: &mut POFileParser) -> Result<(), SyntaxError> {
+    parser.raise_if_msgid_not_found()?;
     parser.current_entry.msgstr = Some(
         parser.current_token[1..parser.current_token.len() - 1]
             .to_string(),
@@ -705,6 +727,7 @@ fn handle_ms(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 }
 
 fn handle_mx(parser: &mut POFileParser) -> Result<(), SyntaxError> {
+    parser.raise_if_msgid_not_found()?;
     let value =
         &parser.current_token[1..parser.current_token.len() - 1];
     let msgstr_plural_length =
-- 
2.43.0


From 36f7d497648632ce75b353e2484e366efc51f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 33/40] fix: find MO entries without context using an empty one

MOFile::find_by_msgid_msgctxt did not find them, unlike MOFile::find,
MOFile::remove_by_msgid_msgctxt and the same method of PO files.
---
 rust/src/file/mofile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 3cc52b5..1b68498 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -166,7 +166,8 @@ impl MOFile {
         msgctxt: &str,
     ) -> Option<&MOEntry> {
         self.entries.iter().find(|e| {
-            e.msgid == msgid && e.msgctxt == Some(msgctxt.to_string())
+            by_msgid_predicate(e, msgid)
+                && msgctxt_predicate(e, msgctxt)
         })
     }
 
-- 
2.43.0


From 8a8266c7e6df8f7e10403f41ffe6db4a34c6881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:57 +0000
Subject: [PATCH 34/40] fix: reject strings whose closing quote is escaped

They were joined with the next continuation line, so a text like
"foo\\" followed by "nbar" was read as an escaped line feed.
---
 rust/src/poparser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index dc87897..c02cd4a 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -849,6 +849,12 @@ fn find_unescaped_double_quote_index(line: &str) -> Option<usize> {
     None
 }
 
+fn ends_with_escaped_character(text: &str) -> bool {
+    let backslashes =
+        text.chars().rev().skip(1).take_while(|c| *c == '\\');
+    backslashes.count() % 2 == 1
+}
+
 fn maybe_raise_unescaped_double_quote_found_error(
     text: &str,
     linenum: usize,
@@ -857,9 +863,13 @@ fn maybe_raise_unescaped_double_quote_found_error(
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
     // Check if last character is not a double quote, or is
-    // the opening one, to prevent slicing out of bounds
+    // the opening one, to prevent slicing out of bounds,
+    // or is escaped
     let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' || text == "\"" {
+    if text_chars.last().unwrap_or('\0') != '"'
+        || text == "\""
+        || ends_with_escaped_character(text)
+    {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
-- 
2.43.0


From 838efeeb07091eeb0fd4ab1e060f5c8960db5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:28 +0000
Subject: [PATCH 35/40] fix: keep blank lines of comments rendering entries

---
 rust/src/entry/poentry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 3799e3b..a26fbc5 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -94,7 +94,11 @@ impl POEntry {
         wrapwidth: usize,
         target: &mut String,
     ) {
-        for line in comment.lines() {
+        if comment.is_empty() {
+            return;
+        }
+
+        for line in comment.split('\n') {
             if UnicodeWidthStr::width(line) + prefix.len() > wrapwidth
             {
                 let max_width =
-- 
2.43.0


From 672b7352438fbca2510ef5cdf8b1554eab6e8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:52 +0000
Subject: [PATCH 36/40] fix: do not leave trailing whitespaces in wrapped
 comments

---
 rust/src/entry/poentry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a26fbc5..455be9e 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -98,14 +98,19 @@ impl POEntry {
             return;
         }
 
-        for line in comment.split('\n') {
+        // trailing whitespaces are not read back
+        for line in comment.split('\n').map(str::trim_end) {
             if UnicodeWidthStr::width(line) + prefix.len() > wrapwidth
             {
                 let max_width =
                     wrapwidth.saturating_sub(prefix.len());
                 for wrapped_line in wrap(line, max_width) {
+                    let wrapped_line = wrapped_line.trim_end();
+                    if wrapped_line.is_empty() {
+                        continue;
+                    }
                     target.push_str(prefix);
-                    target.push_str(&wrapped_line);
+                    target.push_str(wrapped_line);
                     target.push('\n');
                 }
             } else {
-- 
2.43.0


From 5b64b9517537e54aac8cb6bfb94da78a6e172c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:48 +0000
Subject: [PATCH 37/40] fix: keep blank lines of extracted comments parsing PO
 files

---
 rust/src/poparser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index c02cd4a..8d114c7 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -457,9 +457,6 @@ impl POFileParser {
             // translator comment
             self.process(&St::TC)?;
         } else if tokens[0] == "#." {
-            if nb_tokens < 2 {
-                return Ok(());
-            }
             // generated comment
             self.process(&St::GC)?;
         } else if tokens[0] == "#|" {
-- 
2.43.0


From 7a8c425c0fa11e8a7047965e47cff65718bd73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:37 +0000
Subject: [PATCH 38/40] fix: keep the colon at the end of references without
 line

---
 rust/src/poparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 8d114c7..62a12dc 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -609,7 +609,7 @@ fn handle_oc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
         if !occ.is_empty() {
             let (mut fil, mut line) =
                 occ.split_once(':').unwrap_or((occ, ""));
-            let mut line_isdigit = true;
+            let mut line_isdigit = !line.is_empty();
             for c in line.chars() {
                 if !c.is_ascii_digit() {
                     line_isdigit = false;
-- 
2.43.0


From 9be9a1e50af6c6ab9b113e40947d2b0c3a74036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:16 +0000
Subject: [PATCH 39/40] fix: MO entries with empty plural forms are not
 translated, like PO ones

---
 rust/src/entry/moentry.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/entry/moentry.rs b/rust/src/entry/moentry.rs
index 8740897..5d7fe39 100644
--- a/rust/src/entry/moentry.rs
+++ b/rust/src/entry/moentry.rs
@@ -174,13 +174,13 @@ impl Translated for MOEntry {
             return false;
         } else {
             for msgstr_plural in &self.msgstr_plural {
-                if !msgstr_plural.is_empty() {
-                    return true;
+                if msgstr_plural.is_empty() {
+                    return false;
                 }
             }
         }
 
-        false
+        true
     }
 }
 
-- 
2.43.0


From a0367720b3bfe0f22914425257297f9e4a6594fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:42 +0000
Subject: [PATCH 40/40] fix: decide by the plural forms if plural entries read
 from MO files are translated

---
 rust/src/entry/moentry.rs | 9 ++++-----
 rust/src/entry/poentry.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/rust/src/entry/moentry.rs b/rust/src/entry/moentry.rs
index 5d7fe39..db299f9 100644
--- a/rust/src/entry/moentry.rs
+++ b/rust/src/entry/moentry.rs
@@ -166,12 +166,11 @@ impl Translated for MOEntry {
     /// with the PO implementation and to be used
     /// when manipulating MOEntry directly.
     fn translated(&self) -> bool {
-        if let Some(msgstr) = &self.msgstr {
-            return !msgstr.is_empty();
-        }
-
         if self.msgstr_plural.is_empty() {
-            return false;
+            return match &self.msgstr {
+                Some(msgstr) => !msgstr.is_empty(),
+                None => false,
+            };
         } else {
             for msgstr_plural in &self.msgstr_plural {
                 if msgstr_plural.is_empty() {
diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 455be9e..6053284 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -420,12 +420,11 @@ impl Translated for POEntry {
             return false;
         }
 
-        if let Some(msgstr) = &self.msgstr {
-            return !msgstr.is_empty();
-        }
-
         if self.msgstr_plural.is_empty() {
-            return false;
+            return match &self.msgstr {
+                Some(msgstr) => !msgstr.is_empty(),
+                None => false,
+            };
         }
         for msgstr in &self.msgstr_plural {
             if msgstr.is_empty() {
-- 
2.43.0

