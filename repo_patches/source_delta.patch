From 5dbccf7d69c36aadbe14666d7c6b3c8d02ff610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 01/18] fix: do not panic on headings with an unterminated or
 inner {# label

---
 gfm/src/lexer.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..91540fd 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -218,15 +218,10 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		if let Some((_heading, label)) = line.split_once("{#") {
+			if let Some(title) = label.strip_suffix("}") {
+				line = title;
+			}
 		}
 		let line_without_optional_trailing_hash_sequence =
 			match line.trim_end().rsplit_once(' ') {
-- 
2.43.0


From 99020fc8edfede74785d0c8ed4714b29a1295054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 02/18] fix: stop looking for a closing details tag at the end
 of the input

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 91540fd..80076ed 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -884,7 +884,7 @@ impl<'a> Lexer<'a> {
 		if remaining_text.contains("<details>") {
 			let mut opens = remaining_text.matches("<details>").count();
 			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
+			while opens == closes && self.iter.peek().is_some() {
 				self.iter.consume_until_tail_is("</details>").unwrap_or("");
 				remaining_text = self
 					.iter
-- 
2.43.0


From 061f2574185867a1d59046cf7b064c3cbaed6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:09 +0000
Subject: [PATCH 03/18] fix: escape plain text that surrounds a footnote
 reference

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..3471f78 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -175,7 +175,7 @@ impl Parser {
 								);
 								count += 1;
 							} else {
-								s.push_str(tok)
+								s.push_str(&Self::sanitize_display_text(tok))
 							}
 						}
 						html.push_str(&s);
-- 
2.43.0


From c94ad87fa743b43bcf5635b8494c8b11654c31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:29 +0000
Subject: [PATCH 04/18] fix: emit a well-formed anchor with an escaped title
 for links with hover text

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 3471f78..ce1a374 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -290,10 +290,10 @@ impl Parser {
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
-							"<a href=>\"{link}\" title=\"{hover}\">{text}</a>",
+							"<a href=\"{link}\" title=\"{hover}\">{text}</a>",
 							link = l,
 							text = Self::sanitize_display_text(t),
-							hover = ht
+							hover = Self::sanitize_display_text(ht)
 						)
 						.as_str(),
 					),
-- 
2.43.0


From 243814ace12846125eaf5dbf889f8499d01e4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:30 +0000
Subject: [PATCH 05/18] fix: percent-encode quotes and angle brackets in link
 destinations

---
 gfm/src/token.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 731992e..3987302 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -164,6 +164,9 @@ pub(crate) fn percent_encode(source: &str) -> String {
 		.replace('*', "%2A")
 		.replace(' ', "%20")
 		.replace('\\', "%5C")
+		.replace('"', "%22")
+		.replace('<', "%3C")
+		.replace('>', "%3E")
 }
 
 /// Holds the possible states of a taskbox in a task list
-- 
2.43.0


From bbd0b83e1b6ab4083d611d51b26a7f953aad124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:32 +0000
Subject: [PATCH 06/18] fix: escape markup in the displayed text of autolinks

---
 gfm/src/token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 3987302..f830ebf 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -100,7 +100,12 @@ pub struct ValidURL<'a> {
 
 impl ValidURL<'_> {
 	pub(crate) fn fmt_unsafe(&self) -> String {
-		let amp_replace_content = self.content.replace('&', "&amp;");
+		let amp_replace_content = self
+			.content
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;")
+			.replace('"', "&quot;");
 		match &self.scheme {
 			None => format!("http:{}", amp_replace_content),
 			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
-- 
2.43.0


From 0119474493101b5cd4727c9406c6fe73991f4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 07/18] fix: keep the scheme of image sources and encode them
 like link destinations

---
 gfm/src/lexer.rs | 7 ++++++-
 gfm/src/lib.rs   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 80076ed..33155c8 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -7,6 +7,7 @@ use log::{
 
 use crate::{
 	token::{
+		percent_encode,
 		validate_link,
 		Alignment,
 	},
@@ -800,7 +801,11 @@ impl<'a> Lexer<'a> {
 				})
 			}
 			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.content.to_string(), title))
+				let source = match link.scheme {
+					Some(_) => link.to_string(),
+					None => percent_encode(link.content).replace('&', "&amp;"),
+				};
+				return Ok(Token::Image(source, title));
 			}
 			_ => {
 				return Err(ParseError {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index ce1a374..9c51d74 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -271,7 +271,7 @@ impl Parser {
 					),
 					(l, None) => html.push_str(
 						format!(
-							"<p><img src=\"{link}\"> \
+							"<p><img src=\"{link}\" \
 							 referrerpolicy=\"no-referrer\"></p>",
 							link = l
 						)
-- 
2.43.0


From 305c4acc375f2ae34138c45c762b629574e17ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:54 +0000
Subject: [PATCH 08/18] fix: keep everything after the scheme of links that
 contain an @

---
 gfm/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index f830ebf..2c62a84 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -247,7 +247,7 @@ pub(crate) fn validate_link(
 		if source_scheme.is_some() {
 			return Ok(ValidURL {
 				scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-				content: &source.split(":").last().unwrap(),
+				content: source.split_once(":").map_or("", |(_, path)| path),
 			});
 		}
 		return Ok(ValidURL {
-- 
2.43.0


From 9d283a0f2896fbeffa18d27ea9edc0f99a5d7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:56 +0000
Subject: [PATCH 09/18] fix: reject control characters in link destinations

---
 gfm/src/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 2c62a84..20e63e3 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -202,7 +202,10 @@ impl fmt::Display for Alignment {
 pub(crate) fn validate_link(
 	source: &str,
 ) -> Result<ValidURL, SanitizationError> {
-	if !source.is_ascii() || source.contains(char::is_whitespace) {
+	if !source.is_ascii() ||
+		source.contains(char::is_whitespace) ||
+		source.contains(char::is_control)
+	{
 		// https://www.rfc-editor.org/rfc/rfc3986#section-2
 		return Err(SanitizationError { content: source });
 	}
-- 
2.43.0


From 15e6c04407a7c552a90fcbd8142421c297a83de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 10/18] fix: do not print parser diagnostics as document text

---
 gfm/src/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 33155c8..65b903d 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -364,7 +364,7 @@ impl<'a> Lexer<'a> {
 			));
 		}
 
-		Err(ParseError { content: "EOF" })
+		Err(ParseError { content: "\\" })
 	}
 
 	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -809,7 +809,10 @@ impl<'a> Lexer<'a> {
 			}
 			_ => {
 				return Err(ParseError {
-					content: "Non link token returned from lex_links",
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
 				})
 			}
 		}
-- 
2.43.0


From 39c0974d5c85ac415ce9393a2a94389a204cd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:13 +0000
Subject: [PATCH 11/18] fix: remove the stray backslash and line break from the
 details template

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 9c51d74..322f447 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -330,8 +330,8 @@ impl Parser {
 					let inner_html = Self::parse(inner_tokens);
 					html.push_str(
 						format!(
-							"<details>\n<summary>{sum}</summary>\n{in_html}\\
-							 n</details>",
+							"<details>\n<summary>{sum}</summary>\n{in_html}\n</\
+							 details>",
 							sum = Self::sanitize_display_text(summary),
 							in_html = inner_html
 						)
-- 
2.43.0


From 9195dc56ae1350a82e085c1e53029b1f30ed7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:31 +0000
Subject: [PATCH 12/18] fix: escape block quote text once instead of twice

---
 gfm/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 322f447..8161e2f 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -381,10 +381,8 @@ impl Parser {
 					}
 					if !t.is_empty() {
 						html.push_str(
-							&Self::render(&Self::sanitize_display_text(
-								t.trim_start_matches(" "),
-							))
-							.replace("\t", "  "),
+							&Self::render(t.trim_start_matches(" "))
+								.replace("\t", "  "),
 						);
 					}
 				}
-- 
2.43.0


From 7827ef9dc4f1f6fa2a7e0fd8a6cd9f16fcbee37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 13/18] fix: close both open lists when a document ends inside
 them

---
 gfm/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 8161e2f..28d51a0 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -525,7 +525,10 @@ impl Parser {
 				html.push_str("</blockquote>\n");
 			}
 		}
-		if in_task_list | in_unordered_list {
+		if in_task_list {
+			html.push_str("</ul>");
+		}
+		if in_unordered_list {
 			html.push_str("</ul>");
 		}
 		if in_ordered_list {
-- 
2.43.0


From 0baddb23dd35e949b21dbaf0aa9b222f0f69002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:34 +0000
Subject: [PATCH 14/18] fix: write whole files instead of reporting a short
 write as success

---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From dcd9f5f26c6b5da7073c2f1c7d093f174eed1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:07 +0000
Subject: [PATCH 15/18] fix: refuse to overwrite the input file with its own
 output

---
 smd/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..b425fd6 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -9,9 +9,13 @@ use smd_core::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
+use std::path::Path;
 
 pub mod args;
 pub mod logger;
@@ -19,6 +23,17 @@ pub mod logger;
 const HTML_FILE_ENDING: &str = "html";
 const PDF_FILE_ENDING: &str = "pdf";
 
+/// Refuses to overwrite the source document with its own output.
+fn ensure_distinct(input: &Path, output: &Path) -> Result<()> {
+	if input == output {
+		return Err(Error::CustomError(format!(
+			"`{}` would be overwritten by its own output",
+			input.display()
+		)));
+	}
+	Ok(())
+}
+
 /// Runs `smd`.
 pub fn run(cli: Cli) -> Result<()> {
 	if Commands::Initialize == cli.commands {
@@ -39,6 +54,7 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			if args.output.eq(&args::OutputFileFormat::Html) {
 				out_path.set_extension(HTML_FILE_ENDING);
+				ensure_distinct(&args.input, &out_path)?;
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -47,6 +63,7 @@ pub fn run(cli: Cli) -> Result<()> {
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
 					out_path.set_extension(PDF_FILE_ENDING);
+					ensure_distinct(&args.input, &out_path)?;
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From 6b2a3b2f2f24d6c4513f4763bfbb44350edbca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 16/18] fix: always remove the temporary file of a PDF
 conversion and never reuse an existing one

---
 smd-core/src/convert.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..2f3689a 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -30,11 +30,18 @@ impl Convert for PDFConverter {
 		let browser = BrowserSession::initialize()?;
 
 		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
-
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
-		fs::remove_file(tmpfile)?;
+		let mut tmpfile = current_dir.join("tmp.html");
+		let mut attempt: u64 = 0;
+		while tmpfile.exists() {
+			attempt += 1;
+			tmpfile = current_dir.join(format!("tmp-{attempt}.html"));
+		}
+
+		let opened = write_to_file(&tmpfile, html)
+			.and_then(|_| browser.open_file(&tmpfile));
+		let removed = fs::remove_file(tmpfile);
+		let tab_id = opened?;
+		removed?;
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
-- 
2.43.0


From 465c0ab1e02172b3da242de9094c41b844a2b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:51 +0000
Subject: [PATCH 17/18] fix: keep the white space between the words of a
 paragraph

---
 gfm/src/lib.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 28d51a0..69307d6 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -58,6 +58,7 @@ impl Parser {
 		let mut in_ordered_list = false;
 		let mut in_unordered_list = false;
 		let mut in_code = false;
+		let mut gap = String::new();
 		let mut references = Vec::new();
 		let mut token_iter = tokens.iter().peekable();
 
@@ -67,7 +68,13 @@ impl Parser {
 
 			debug!("Processing token: {:?}", token);
 			match token {
-				Token::Plaintext(t) if t.trim().is_empty() => {} // ignore
+				Token::Plaintext(t) if t.trim().is_empty() => {
+					// only kept if more text of the same paragraph follows
+					if in_paragraph {
+						gap.push_str(t);
+					}
+					continue;
+				}
 				Token::Tab | Token::DoubleTab => {}
 				Token::OrderedListEntry(_) |
 				Token::UnorderedListEntry(_) |
@@ -138,12 +145,24 @@ impl Parser {
 				_ => {}
 			}
 
+			match token {
+				Token::Plaintext(_) |
+				Token::Italic(_) |
+				Token::Bold(_) |
+				Token::BoldItalic(_) |
+				Token::Strikethrough(_) |
+				Token::Link(_, _, _)
+					if in_paragraph =>
+				{
+					html.push_str(&gap)
+				}
+				_ => {}
+			}
+			gap.clear();
+
 			match token {
 				Token::Plaintext(t) => {
 					let mut t: String = t.to_string();
-					if t.trim().is_empty() {
-						continue;
-					}
 
 					t.rfind('\n').map(|n| {
 						let (_before, after) = t.split_at(n);
-- 
2.43.0


From 9807643f69195fb013a5d815db1c7841e2155564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:55 +0000
Subject: [PATCH 18/18] fix: number footnote references without overflowing an
 i32

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 69307d6..2a091f6 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -174,7 +174,7 @@ impl Parser {
 					if t.contains("[^") && t.contains("]") {
 						let plaintext_tokens = t.split("[^");
 						let mut s = String::new();
-						let mut count = 1;
+						let mut count: usize = 1;
 						for tok in plaintext_tokens {
 							if tok.trim_end().ends_with("]") {
 								let tok = tok.trim_end().trim_end_matches(']');
-- 
2.43.0

