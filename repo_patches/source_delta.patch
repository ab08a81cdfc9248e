From 12993c0daa955ab142ce290b66442357dd49fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:59 +0000
Subject: [PATCH 01/21] fix: stop looking for </details> at the end of the
 input

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..cd5e513 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -889,7 +889,7 @@ impl<'a> Lexer<'a> {
 		if remaining_text.contains("<details>") {
 			let mut opens = remaining_text.matches("<details>").count();
 			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
+			while opens >= closes && self.iter.peek().is_some() {
 				self.iter.consume_until_tail_is("</details>").unwrap_or("");
 				remaining_text = self
 					.iter
-- 
2.43.0


From 0d3992d61a8882b0336e91a30f5cd114a44dc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:26 +0000
Subject: [PATCH 02/21] fix: heading labels no longer panic or replace the
 heading text

---
 gfm/src/lexer.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index cd5e513..8845e82 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -218,15 +218,11 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		let mut label = None;
+		if line.contains("{#") && line.ends_with('}') {
+			let (heading, id) = line.split_once("{#").unwrap_or((line, ""));
+			label = Some(id.trim_end_matches('}').to_string());
+			line = heading;
 		}
 		let line_without_optional_trailing_hash_sequence =
 			match line.trim_end().rsplit_once(' ') {
@@ -237,7 +233,7 @@ impl<'a> Lexer<'a> {
 				None => line,
 			};
 		if line.chars().all(|c| c == '#') {
-			return Ok(Token::Header(hashes.len(), "".to_string(), None));
+			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
 		let parsed_line = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
@@ -251,7 +247,7 @@ impl<'a> Lexer<'a> {
 		.trim()
 		.to_string();
 
-		Ok(Token::Header(hashes.len(), parsed_line, None))
+		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From 7e9fbf4af2a095ae87ae3076806566aef2a89a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:27 +0000
Subject: [PATCH 03/21] fix: keep the text of headings that do not render as
 one paragraph

---
 gfm/src/lexer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 8845e82..b56a3f4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -235,17 +235,17 @@ impl<'a> Lexer<'a> {
 		if line.chars().all(|c| c == '#') {
 			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
-		let parsed_line = Parser::render_ignore(
+		let rendered = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
 				.trim_end_matches([' ', '\t']),
 			&['#'],
-		)
-		.strip_prefix("<p>")
-		.unwrap_or("")
-		.strip_suffix("</p>\n")
-		.unwrap_or("")
-		.trim()
-		.to_string();
+		);
+		let parsed_line = rendered
+			.strip_prefix("<p>")
+			.and_then(|r| r.strip_suffix("</p>\n"))
+			.unwrap_or(&rendered)
+			.trim()
+			.to_string();
 
 		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
-- 
2.43.0


From 20b38d26c81ad2a800c2a8d1560716688773c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:29 +0000
Subject: [PATCH 04/21] fix: escape the hover text of links and close the href
 attribute

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..0122061 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -290,10 +290,10 @@ impl Parser {
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
-							"<a href=>\"{link}\" title=\"{hover}\">{text}</a>",
+							"<a href=\"{link}\" title=\"{hover}\">{text}</a>",
 							link = l,
 							text = Self::sanitize_display_text(t),
-							hover = ht
+							hover = Self::sanitize_display_text(ht)
 						)
 						.as_str(),
 					),
-- 
2.43.0


From 412a9a635b64e2dae58ada102e8c8293db490fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 05/21] fix: escape the text around footnote references

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 0122061..ce1a374 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -175,7 +175,7 @@ impl Parser {
 								);
 								count += 1;
 							} else {
-								s.push_str(tok)
+								s.push_str(&Self::sanitize_display_text(tok))
 							}
 						}
 						html.push_str(&s);
-- 
2.43.0


From 9b39e4f7a13f299baaeb842cff2fb95bb853b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:32 +0000
Subject: [PATCH 06/21] fix: encode quotes and angle brackets in URLs

---
 gfm/src/token.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 731992e..f830ebf 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -100,7 +100,12 @@ pub struct ValidURL<'a> {
 
 impl ValidURL<'_> {
 	pub(crate) fn fmt_unsafe(&self) -> String {
-		let amp_replace_content = self.content.replace('&', "&amp;");
+		let amp_replace_content = self
+			.content
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;")
+			.replace('"', "&quot;");
 		match &self.scheme {
 			None => format!("http:{}", amp_replace_content),
 			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
@@ -164,6 +169,9 @@ pub(crate) fn percent_encode(source: &str) -> String {
 		.replace('*', "%2A")
 		.replace(' ', "%20")
 		.replace('\\', "%5C")
+		.replace('"', "%22")
+		.replace('<', "%3C")
+		.replace('>', "%3E")
 }
 
 /// Holds the possible states of a taskbox in a task list
-- 
2.43.0


From a4578f0979809927fce38059555231e47ee0d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:55 +0000
Subject: [PATCH 07/21] fix: image addresses keep their scheme and are encoded

---
 gfm/src/lexer.rs | 2 +-
 gfm/src/lib.rs   | 2 +-
 gfm/src/token.rs | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index b56a3f4..85a045b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -801,7 +801,7 @@ impl<'a> Lexer<'a> {
 				})
 			}
 			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.content.to_string(), title))
+				return Ok(Token::Image(link.fmt_src(), title))
 			}
 			_ => {
 				return Err(ParseError {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index ce1a374..9c51d74 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -271,7 +271,7 @@ impl Parser {
 					),
 					(l, None) => html.push_str(
 						format!(
-							"<p><img src=\"{link}\"> \
+							"<p><img src=\"{link}\" \
 							 referrerpolicy=\"no-referrer\"></p>",
 							link = l
 						)
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index f830ebf..f0d58ea 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -112,6 +112,14 @@ impl ValidURL<'_> {
 			Some(s) => format!("{}:{}", s, amp_replace_content),
 		}
 	}
+
+	/// The address of an image: scheme included, relative paths kept relative.
+	pub(crate) fn fmt_src(&self) -> String {
+		if self.scheme.is_none() && !self.content.contains(':') {
+			return percent_encode(self.content).replace('&', "&amp;");
+		}
+		self.to_string()
+	}
 }
 
 impl fmt::Display for ValidURL<'_> {
-- 
2.43.0


From f1f361a35702b42139a0d8a6eb17a685f71ec496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:57 +0000
Subject: [PATCH 08/21] fix: escape block quote text once

---
 gfm/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 9c51d74..f13f054 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -381,10 +381,8 @@ impl Parser {
 					}
 					if !t.is_empty() {
 						html.push_str(
-							&Self::render(&Self::sanitize_display_text(
-								t.trim_start_matches(" "),
-							))
-							.replace("\t", "  "),
+							&Self::render(t.trim_start_matches(" "))
+								.replace("\t", "  "),
 						);
 					}
 				}
-- 
2.43.0


From bca380f6b112531e700939864e7230fea30120d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:58 +0000
Subject: [PATCH 09/21] fix: render lists and other blocks nested in list items

---
 gfm/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f13f054..efafe82 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -253,7 +253,9 @@ impl Parser {
 										);
 								html.push_str(text);
 							}
-							_ => {}
+							_ => html.push_str(&Self::parse(
+								std::slice::from_ref(token),
+							)),
 						}
 					}
 					html.push_str("</li>\n".to_string().as_str());
-- 
2.43.0


From 130b94f802cec3fc74884d7ce2f702c9aaeedbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:00 +0000
Subject: [PATCH 10/21] fix: render fenced code blocks and hard line breaks

---
 gfm/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index efafe82..ab45ce8 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -508,6 +508,16 @@ impl Parser {
 				Token::Code(t) => html.push_str(
 					format!("{}", Self::sanitize_display_text(t)).as_str(),
 				),
+				Token::CodeBlock(t, lang) => html.push_str(
+					format!(
+						"<pre><code class=\"language-{lang}\">{text}</code></\
+						 pre>\n",
+						lang = Self::sanitize_display_text(lang),
+						text = Self::sanitize_display_text(t)
+					)
+					.as_str(),
+				),
+				Token::LineBreak => html.push_str("<br />\n"),
 				Token::HorizontalRule => html.push_str("<hr />\n"),
 				Token::Newline => {}
 				Token::Tab => html.push('\t'),
-- 
2.43.0


From c232f330822d7ef504332fde8e584ab582898736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:02 +0000
Subject: [PATCH 11/21] fix: render tables with missing cells and render each
 cell token once

---
 gfm/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index ab45ce8..f6de4da 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -416,9 +416,6 @@ impl Parser {
 					}
 				}
 				Token::Table(headings, rows) => {
-					if headings.len() != rows[0].len() {
-						continue;
-					}
 					html.push_str(
 						"<table class=\"table \
 						 table-bordered\">\n\t<thead>\n\t<tr>\n",
@@ -480,8 +477,9 @@ impl Parser {
 											)
 											.as_str(),
 										),
-									_ => row_string
-										.push_str(&Self::parse(&elem.1)),
+									_ => row_string.push_str(&Self::parse(
+										std::slice::from_ref(token),
+									)),
 								}
 							}
 							html.push_str(
-- 
2.43.0


From 7966410c949fbced70f2a395873f48e9e6f577f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 12/21] fix: keep every construct of a table cell

---
 gfm/src/lexer.rs |  4 +---
 gfm/src/token.rs | 14 --------------
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 85a045b..5598f1e 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -960,9 +960,7 @@ impl<'a> Lexer<'a> {
 				.collect();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &[]);
-				inner_tokens.retain(|token| token.is_usable_in_table());
-				r.push(inner_tokens);
+				r.push(Parser::lex(&e, &[]));
 			}
 			rows.push(
 				alignments.clone().into_iter().zip(r.into_iter()).collect(),
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index f0d58ea..bad91d5 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -78,20 +78,6 @@ impl fmt::Display for Token<'_> {
 	}
 }
 
-impl Token<'_> {
-	pub(crate) fn is_usable_in_table(&self) -> bool {
-		match self {
-			Token::Code(_) => true,
-			Token::Link(_, _, _) => true,
-			Token::Bold(_) => true,
-			Token::Italic(_) => true,
-			Token::BoldItalic(_) => true,
-			Token::Plaintext(_) => true,
-			_ => false,
-		}
-	}
-}
-
 #[derive(Debug, PartialEq, Eq)]
 pub struct ValidURL<'a> {
 	pub(crate) content: &'a str,
-- 
2.43.0


From 4fe0ebbeeb3f9a40335e92781d13fab3be2bbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:30 +0000
Subject: [PATCH 13/21] fix: write the whole content before reporting success

---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From f53d0f08742d0dcdf108df0dcfff8d9ed51d27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:32 +0000
Subject: [PATCH 14/21] fix: the temporary file of a PDF conversion never
 replaces a user's file and is always removed

---
 smd-core/src/convert.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..c7d2c34 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -1,6 +1,7 @@
 use std::{
 	env,
 	fs,
+	process,
 };
 
 use headless_chrome::types::PrintToPdfOptions;
@@ -30,11 +31,14 @@ impl Convert for PDFConverter {
 		let browser = BrowserSession::initialize()?;
 
 		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
+		let tmpfile = current_dir.join(format!(".smd-{}.html", process::id()));
 
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
+		// Never reuse a file that is already there.
+		fs::File::create_new(&tmpfile)?;
+		let opened = write_to_file(&tmpfile, html)
+			.and_then(|_| browser.open_file(&tmpfile));
 		fs::remove_file(tmpfile)?;
+		let tab_id = opened?;
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
-- 
2.43.0


From df7b8ab85a5bbfe7c30ac11b14e703e26b66592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:33 +0000
Subject: [PATCH 15/21] fix: indented lines no longer swallow the line before
 them

---
 gfm/src/lexer.rs | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 5598f1e..0bf3929 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -306,21 +306,6 @@ impl<'a> Lexer<'a> {
 			_ => {}
 		}
 
-		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens) {
-				Ok(Token::CodeBlock(_content, _lang)) => {
-					return Ok(Token::CodeBlock(
-						self.iter
-							.get_substring_from(start_index)
-							.unwrap_or("")
-							.to_string(),
-						"".to_string(),
-					))
-				}
-				Err(e) => return Err(e),
-				Ok(_) => return Err(ParseError { content: "" }),
-			}
-		}
 		Err(ParseError {
 			content: self.iter.get_substring_from(start_index).unwrap_or(""),
 		})
-- 
2.43.0


From 8c8bbec96bccea96b9545bd47eadddb154efbab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:01 +0000
Subject: [PATCH 16/21] fix: close both kinds of unordered list at the end of
 the document

---
 gfm/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f6de4da..b133519 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -535,7 +535,10 @@ impl Parser {
 				html.push_str("</blockquote>\n");
 			}
 		}
-		if in_task_list | in_unordered_list {
+		if in_task_list {
+			html.push_str("</ul>");
+		}
+		if in_unordered_list {
 			html.push_str("</ul>");
 		}
 		if in_ordered_list {
-- 
2.43.0


From 8a92d244050129427fdbae8302ca327e6bfb39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:02 +0000
Subject: [PATCH 17/21] fix: never overwrite the input document with the output

---
 smd/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..f7b7bdb 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -3,13 +3,17 @@ use args::{
 	Commands,
 };
 use log::info;
+use std::path::Path;
 use smd_core::{
 	config::Config,
 	convert::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
 
@@ -19,6 +23,17 @@ pub mod logger;
 const HTML_FILE_ENDING: &str = "html";
 const PDF_FILE_ENDING: &str = "pdf";
 
+/// Refuses an output path that would replace the document being converted.
+fn ensure_not_input(input: &Path, output: &Path) -> Result<()> {
+	if input == output {
+		return Err(Error::CustomError(format!(
+			"refusing to overwrite the input file {}",
+			input.display()
+		)));
+	}
+	Ok(())
+}
+
 /// Runs `smd`.
 pub fn run(cli: Cli) -> Result<()> {
 	if Commands::Initialize == cli.commands {
@@ -39,6 +54,7 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			if args.output.eq(&args::OutputFileFormat::Html) {
 				out_path.set_extension(HTML_FILE_ENDING);
+				ensure_not_input(&args.input, &out_path)?;
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -47,6 +63,7 @@ pub fn run(cli: Cli) -> Result<()> {
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
 					out_path.set_extension(PDF_FILE_ENDING);
+					ensure_not_input(&args.input, &out_path)?;
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From 502cfc8a00602edb8ad250eb0b7fb962d8e696ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:04 +0000
Subject: [PATCH 18/21] fix: constructs that are not recognised show their
 whole source text

---
 gfm/src/lexer.rs | 60 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 0bf3929..d948e63 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -336,6 +336,7 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_escaped_character(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+		let start_index = self.iter.get_index();
 		self.iter.next();
 		if self.iter.peek() == Some("#") {
 			let hashes = self
@@ -349,7 +350,9 @@ impl<'a> Lexer<'a> {
 			));
 		}
 
-		Err(ParseError { content: "EOF" })
+		Err(ParseError {
+			content: self.iter.get_substring_from(start_index).unwrap_or(""),
+		})
 	}
 
 	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -485,9 +488,7 @@ impl<'a> Lexer<'a> {
 			}
 			1 => {}
 			_ => {
-				return Err(ParseError {
-					content: "string length error",
-				})
+				return Err(ParseError { content: s })
 			}
 		}
 		let line_index = self.iter.get_index();
@@ -544,9 +545,7 @@ impl<'a> Lexer<'a> {
 			match self.iter.consume_while_case_holds(&|s| s == "~") {
 				Some(s) => s,
 				None => {
-					return Err(ParseError {
-						content: "Failure to parse ~",
-					})
+					return Err(ParseError { content: "" })
 				}
 			};
 		match lead_tildes.len() {
@@ -737,9 +736,12 @@ impl<'a> Lexer<'a> {
 				Ok(vl) => {
 					return Ok(Token::Link(vl, Some(title.to_string()), None))
 				}
-				Err(se) => {
+				Err(_se) => {
 					return Err(ParseError {
-						content: &se.content,
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
 					})
 				}
 			}
@@ -760,9 +762,12 @@ impl<'a> Lexer<'a> {
 						Some(hover.to_string()),
 					))
 				}
-				Err(se) => {
+				Err(_se) => {
 					return Err(ParseError {
-						content: &se.content,
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
 					})
 				}
 			}
@@ -790,7 +795,10 @@ impl<'a> Lexer<'a> {
 			}
 			_ => {
 				return Err(ParseError {
-					content: "Non link token returned from lex_links",
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
 				})
 			}
 		}
@@ -811,9 +819,14 @@ impl<'a> Lexer<'a> {
 			("details", Some(">")) => {
 				self.iter.next_if_eq(&"\r");
 				if !self.iter.next_if_eq(&"\n").is_some() {
-					return Err(ParseError { content: s });
+					return Err(ParseError {
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
+					});
 				}
-				return self.parse_details();
+				return self.parse_details(start_index);
 			}
 			(_, Some(">")) if s.len() >= 1 => {
 				if s.contains(char::is_whitespace) {
@@ -841,11 +854,21 @@ impl<'a> Lexer<'a> {
 			(_, Some(">")) if s.len() == 0 => {
 				return Err(ParseError { content: "<>" })
 			}
-			(_, _) => return Err(ParseError { content: s }),
+			(_, _) => {
+				return Err(ParseError {
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
+				})
+			}
 		}
 	}
 
-	fn parse_details(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn parse_details(
+		&mut self,
+		start_index: usize,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let mut summary_line = self
 			.iter
 			.consume_while_case_holds(&|c| c != "\n" && c != "\r")
@@ -856,7 +879,10 @@ impl<'a> Lexer<'a> {
 			!summary_line.len() >= 20
 		{
 			return Err(ParseError {
-				content: summary_line,
+				content: self
+					.iter
+					.get_substring_from(start_index)
+					.unwrap_or(""),
 			});
 		}
 		summary_line = summary_line
-- 
2.43.0


From c243ee378eec1072164473507ce6154cbf502a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:14 +0000
Subject: [PATCH 19/21] fix: keep the text that follows a link with a title

---
 gfm/src/lexer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d948e63..3ef7e3c 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -752,8 +752,7 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| c != ")")
 				.unwrap_or("");
 
-			self.iter.skip_while_true(|c| c != "\n");
-			self.iter.next();
+			self.iter.next_if_eq(")");
 			match validate_link(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(
-- 
2.43.0


From 40b7dcc8b5fb6a18089714c5bf33c90dded940f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 20/21] fix: keep the whole address of links that contain '@'

---
 gfm/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index bad91d5..3586a1d 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -241,7 +241,7 @@ pub(crate) fn validate_link(
 		if source_scheme.is_some() {
 			return Ok(ValidURL {
 				scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-				content: &source.split(":").last().unwrap(),
+				content: path.strip_prefix(':').unwrap_or(path),
 			});
 		}
 		return Ok(ValidURL {
-- 
2.43.0


From fdebba2f2d69f9baf919dd2a9cf6bb7a4b2cb66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:23 +0000
Subject: [PATCH 21/21] fix: refuse an output path that is a link to the input
 document

---
 smd/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index f7b7bdb..f9c0b28 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -25,7 +25,13 @@ const PDF_FILE_ENDING: &str = "pdf";
 
 /// Refuses an output path that would replace the document being converted.
 fn ensure_not_input(input: &Path, output: &Path) -> Result<()> {
-	if input == output {
+	// The output may also be a link to the input.
+	let linked = match (input.canonicalize(), output.canonicalize()) {
+		(Ok(input), Ok(output)) => input == output,
+		_ => false,
+	};
+
+	if linked || input == output {
 		return Err(Error::CustomError(format!(
 			"refusing to overwrite the input file {}",
 			input.display()
-- 
2.43.0

