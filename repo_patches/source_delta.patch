From 130cffabb2bbb291f4174cbc0a15748e3291c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 01/40] fix: convert positions on a last line without line
 break exactly

The last character of a file that does not end in a line break was left out
when converting positions to bytes and back: position (0, 3) of "abc" gave
byte 2, and a multi-byte last character made the whole line unreachable.
---
 crates/analyzer-core/src/lsp_file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..61532c9 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -68,6 +68,16 @@ impl LspFile {
 	// used to get a valid lsp position for the current file
 	fn lsp_to_lsp(&self, lsp_pos: &Position) -> Position { self.byte_to_lsp(self.lsp_to_byte(lsp_pos)) }
 
+	// byte position one past the last character of a line, its line break excluded
+	fn line_end(&self, line: usize) -> usize {
+		let last_byte = self.ranges[line];
+		if self.file.as_bytes()[last_byte] == b'\n' {
+			last_byte
+		} else {
+			last_byte + 1 // the last line doesn't need to end in a line break
+		}
+	}
+
 	pub fn line_char(&self, line: usize) -> usize {
 		// a useful case to expect
 		if line >= self.ranges.len() {
@@ -95,7 +105,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.file.slice(start_byte..self.line_end(lsp_pos.line)).unwrap_or("").chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -128,7 +138,7 @@ impl LspFile {
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.file.slice(byte_count..self.line_end(line)).unwrap_or("").chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
-- 
2.43.0


From 181ccc5cb11acd5f54229060fab56733c316f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 02/40] fix: memoize rules that examine no token

---
 crates/analyzer-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..c010469 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -220,7 +220,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -232,7 +232,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From 97a7b94c13cf5fd8fe3a151dc18fb3cb04cd30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 03/40] fix: edits outside the memoized columns do not panic

---
 crates/analyzer-core/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index c010469..ad26018 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -100,7 +100,11 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
 		// adjust the memo table: replace the affected range with empty entries
-		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
+		// (the table only has columns up to the last position where a rule was tried)
+		if range.start < self.memo_table.len() {
+			let affected = range.start..range.end.min(self.memo_table.len());
+			self.memo_table.splice(affected, std::iter::repeat(Default::default()).take(r.len()));
+		}
 
 		// invalidate overlapping entries
 		for pos in 0..range.start {
-- 
2.43.0


From 68f3b09f5e550e24a3b27fe607e5060455b7f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 04/40] fix: complete a FutureCompletionSource at most once

Two producers that both found the source incomplete each stored a result and
were both told that theirs was accepted. Look again once the lock is held.
---
 crates/analyzer-abstractions/src/futures_extensions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..1e6001b 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -113,6 +113,10 @@ where
 		// awaiting to resolve their 'Future'.
 		let mut writer = self.state.value.write().unwrap();
 
+		if writer.is_some() {
+			return Err(FutureCompletionSourceError::Invalid); // Another producer has just completed it.
+		}
+
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 1dd54eb4fbca5eeaa70047af8138de0e1df458c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 05/40] fix: do not miss the completion of a
 FutureCompletionSource

A completion between the first look at the state and the registration of the
listener was not received, and the future never resolved.
---
 .../analyzer-abstractions/src/futures_extensions.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index 1e6001b..9078475 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -73,8 +73,15 @@ where
 			return value;
 		}
 
-		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		// Otherwise, await for an on-completed event before returning the set result. The state is looked at again once
+		// listening, as an event that was notified before then is not received.
+		let on_completed = self.state.on_completed.listen();
+
+		if let Poll::Ready(value) = self.state() {
+			return value;
+		}
+
+		on_completed.await; // Asynchronously wait for the on-completed event.
 
 		if let Poll::Ready(value) = self.state() {
 			return value;
-- 
2.43.0


From f7316cc92034f639c3705524afbd2cf80122ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 06/40] fix: do not allocate what Content-Length announces
 before it is received

---
 crates/analyzer-host/src/json_rpc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..0c2d259 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -4,7 +4,7 @@ use message::*;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::{
 	fmt::{self, Display},
-	io::{self, BufRead, Write},
+	io::{self, BufRead, Read, Write},
 };
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -115,8 +115,11 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
 	let mut buf = buf.into_bytes();
-	buf.resize(size, 0);
-	inp.read_exact(&mut buf)?;
+	buf.clear();
+	// `size` is not to be trusted with an allocation before that much data has been received.
+	if inp.take(size as u64).read_to_end(&mut buf)? < size {
+		return Err(io::ErrorKind::UnexpectedEof.into());
+	}
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
 	// log::debug!("< {}", buf);?
 	Ok(Some(buf))
-- 
2.43.0


From a8d9b80544d25a62873989bfc313fb77b5ea2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:33 +0000
Subject: [PATCH 07/40] fix: waking or spawning work on a stopped AsyncPool
 must not panic

---
 .../src/futures_extensions/async_extensions.rs              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..dea61e3 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -33,7 +33,8 @@ impl ArcWake for AsyncWork {
 		}
 		let cloned = arc_self.clone();
 
-		arc_self.sender.send_blocking(cloned).unwrap();
+		// Fails only if the pool has been stopped in the meantime.
+		let _ = arc_self.sender.send_blocking(cloned);
 	}
 }
 
@@ -86,6 +87,7 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
-		sender.send_blocking(work).unwrap();
+		// Fails only if the pool has been stopped, in which case the work is dropped.
+		let _ = sender.send_blocking(work);
 	}
 }
-- 
2.43.0


From f5501d67e41b2040b35d9d5a29c27628eadee71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 08/40] fix: shift the left operand of >> in #if conditions

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..f145319 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -498,7 +498,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
 					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
+					PreprocessorBinOp::BitwiseShiftRight => l >> r,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From 25ccce1ed899580f509e13ee6869aa4c8f261049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 09/40] fix: #if conditions that overflow or divide by zero
 have no value

---
 crates/analyzer-core/src/preprocessor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index f145319..abc3621 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -484,11 +484,11 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::Or => l | r,
 					PreprocessorBinOp::Xor => l ^ r,
 					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
+					PreprocessorBinOp::Plus => l.checked_add(r)?,
+					PreprocessorBinOp::Minus => l.checked_sub(r)?,
+					PreprocessorBinOp::Times => l.checked_mul(r)?,
+					PreprocessorBinOp::Divide => l.checked_div(r)?,
+					PreprocessorBinOp::Modulo => l.checked_rem(r)?,
 					PreprocessorBinOp::Equals => (l == r) as i64,
 					PreprocessorBinOp::NotEquals => (l != r) as i64,
 					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
@@ -497,8 +497,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => l >> r,
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(u32::try_from(r).ok()?)?,
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(u32::try_from(r).ok()?)?,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From 60119d253bcb75323b9dbb576a3b629639af3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 10/40] fix: macros that refer to themselves do not overflow
 the stack of #if conditions

---
 crates/analyzer-core/src/preprocessor.rs | 32 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index abc3621..2c33a4f 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -458,27 +458,38 @@ impl<'a> PreprocessorState<'a> {
 
 	/// Interpret a [PreprocessorExpression] and cast it to a boolean.
 	fn interpret_condition(&self, cond: &PreprocessorExpression) -> bool {
-		match self.interpret_pp_expr(cond) {
-			None => false,
-			Some(n) => n != 0,
-		}
+		matches!(self.interpret_pp_expr(cond), Some(n) if n != 0)
 	}
 
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.interpret_expansion(cond, &mut vec![])
+	}
+
+	/// `expanding` are the macros whose expansion contains `cond`. As in C, they aren't expanded again.
+	fn interpret_expansion(
+		&self,
+		cond: &PreprocessorExpression,
+		expanding: &mut Vec<String>,
+	) -> Option<PreprocessorValue> {
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
 			PreprocessorExpression::Identifier(name) => {
-				if let Some(rhs) = self.definitions.get(name) {
+				if expanding.contains(name) {
+					None
+				} else if let Some(rhs) = self.definitions.get(name) {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
+					expanding.push(name.clone());
+					let value = self.interpret_expansion(&expr, expanding);
+					expanding.pop();
+					value
 				} else {
 					None
 				}
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
-				let r = self.interpret_pp_expr(rhs)?;
+				let l = self.interpret_expansion(lhs, expanding)?;
+				let r = self.interpret_expansion(rhs, expanding)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
@@ -501,7 +512,10 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(u32::try_from(r).ok()?)?,
 				})
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
+			PreprocessorExpression::Not(inner) => {
+				let truth = matches!(self.interpret_expansion(inner, expanding), Some(n) if n != 0);
+				Some(!truth as i64)
+			}
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From 3dbd979924b430e04b3f9b6be7faeee5499175b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 11/40] fix: keep the order of the tokens of included files

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 2c33a4f..2e2cbb5 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -301,6 +301,7 @@ impl<'a> PreprocessorState<'a> {
 								.iter()
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
+								.rev()
 								.for_each(|x| input.push_front(x));
 						} else {
 							self.error(id, span, not_found_err);
-- 
2.43.0


From f29e214dcd611e0d936c8ffe96fb1e99b32e00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 12/40] fix: ignore #pragma instead of panicking

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 2e2cbb5..5a8d78b 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -355,7 +355,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					PreprocessorDirective::Pragma(_) => (),
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From d072b00ad15adc8f69b47cf0dc0f33d4fa0754b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 13/40] fix: parse <= and >= in #if conditions

---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 5a8d78b..18aba4d 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -120,7 +120,8 @@ mod parser {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
-		for (sym, op) in variants {
+		// the symbols that come first are tried first
+		for (sym, op) in variants.iter().rev() {
 			let sym: &'static str = sym;
 			let op = op.clone();
 			f = Rc::new(move |s| {
-- 
2.43.0


From c227d4535d86e2cd1ef36b035a43756db8b868ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 14/40] fix: allow blanks between defined and ( in #if
 conditions

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 18aba4d..b36d7c7 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -107,7 +107,7 @@ mod parser {
 
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
-			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace0, tag("("))), ws(identifier), tag(")")),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
-- 
2.43.0


From 91fa9817c5d16fb550cc2cb8e4e06660f761b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 15/40] fix: report a file that includes itself instead of
 including it once more

---
 crates/analyzer-core/src/preprocessor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index b36d7c7..b3223f2 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -279,6 +279,11 @@ impl<'a> PreprocessorState<'a> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
 		let mut previous_file = None;
 
+		// the file being preprocessed must not include itself
+		if let Some((id, _, _)) = input.front() {
+			self.state.insert(*id, VertexState::Open);
+		}
+
 		while let Some((id, tk, span)) = input.pop_front() {
 			if let Some(file) = previous_file {
 				if file != id {
-- 
2.43.0


From 84feba0e5fc5ccf4060d7db01b506ff8fa326eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:50 +0000
Subject: [PATCH 16/40] fix: request ids are unique among the copies of a
 RequestManager

---
 crates/analyzer-host/src/lsp/request.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..77f58cf 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>,
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -210,7 +210,7 @@ impl Clone for RequestManager {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(), // awaiting requests are shared, so their ids must be too
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From fe4c1faead7b5d72df837e40d0d3b4b1c50f1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:53 +0000
Subject: [PATCH 17/40] fix: answer requests whose parameters cannot be read

A request whose params failed to deserialize made process_message return an error, which the host only logs: the
client never got a response. It is answered with InvalidParams now.
---
 .../analyzer-host/src/lsp/dispatch_target.rs   | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..6af5752 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,23 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(_) => {
+						error!(method = method, "Received invalid parameters for request '{}'.", method);
+
+						// A request is always responded to.
+						return Ok((
+							Some(Message::Response(Response::new_error(
+								request.id.clone(),
+								ErrorCode::InvalidParams as i32,
+								"Invalid parameters.",
+							))),
+							current_state,
+						));
+					}
+				};
+
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From b92872710706206b1cfe71f765bbba36e110d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 18/40] fix: a failed background load leaves an open document
 alone

A document that was opened while its file was being looked for on the disk had its parsed unit replaced by an index
error, so that no completions were available for it.
---
 crates/analyzer-host/src/lsp_impl/state.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..fc09501 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -223,7 +223,14 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
-							None => file.set_index_error(IndexError::NotFound), // The file was not found
+							None => {
+								// The file was not found, which does not matter if it has been opened in the IDE meanwhile.
+								if file.is_open_in_ide() {
+									return;
+								}
+
+								file.set_index_error(IndexError::NotFound)
+							}
 						}
 
 						info!(file_uri = file_url.as_str(), "Finished background analyzing.");
-- 
2.43.0


From 573be2e0c084523b4a393920fbdcaa5ee79a8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 19/40] fix: load a file that is created after it was not found

The notification that a file was created was only logged when the file had been looked for before.
---
 .../src/lsp_impl/active_initialized.rs        | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..91196ad 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -239,17 +239,18 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	match file.get_parsed_unit().await {
-		Ok(file_id) => {
-			let lock = state.write().await;
-			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
-			lock.analyzer.unwrap().update(file_id, &content);
-			info!("{} file updated from file system", uri.path());
-		}
-		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
-		}
+	// Wait for a load of the file that is already under way. It may not have found the file.
+	if let Err(err) = file.get_parsed_unit().await {
+		info!(uri = uri.as_str(), "File was not loaded before. Index error: {}", err);
 	}
+
+	let lock = state.write().await;
+	let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
+	let mut analyzer = lock.analyzer.unwrap();
+	let file_id = analyzer.file_id(uri.as_str());
+	analyzer.update(file_id, &content);
+	file.set_parsed_unit(file_id, None);
+	info!("{} file updated from file system", uri.path());
 }
 
 async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
-- 
2.43.0


From c36802e3c01e39be8afc0263551dabd6e72466ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 20/40] fix: process diagnostics after a document is saved

Saving a document unknown to the analyzer stopped the server.
---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 91196ad..a485bf8 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -213,10 +213,10 @@ async fn on_text_document_did_save(
 
 		info!("Syncing buffer on save.");
 		let file_id = analyzer.file_id(params.text_document.uri.as_str());
-		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
-		// TODO: report diagnostics, and process *after* the update below!
 		analyzer.update(file_id, &text);
 		file.open_or_update(file_id);
+		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
+		// TODO: report diagnostics
 	}
 
 	Ok(())
-- 
2.43.0


From 8533c4304f4fb8c40e8c5ef4b3bad5430126f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 21/40] fix: an unknown type of file event does not stop the
 server

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a485bf8..6e58868 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -276,7 +276,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(uri = event.uri.as_str(), "Type not supported in 1.17 specification"),
 		}
 	}
 
-- 
2.43.0


From 5825ea05ba4b715c2a87060d8c649851c5e24ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 22/40] fix: an include that cannot be resolved does not stop
 the server

Paths like '//[' cannot be joined to a URL, and neither can any path to that of an untitled document.
---
 crates/analyzer-core/src/lib.rs            | 3 ++-
 crates/analyzer-host/src/lsp_impl/state.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..d9e19a4 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -49,7 +49,8 @@ pub trait Db: salsa::DbWithJar<Jar> {
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
 	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+		// A path that cannot be resolved is kept as it is: no file is known under it.
+		(self.resolver_fn)(&file_id.path(self), path).unwrap_or_else(|_| path.to_string())
 	}
 }
 
diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index fc09501..7dc314a 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -50,7 +50,12 @@ impl AnalyzerWrapper {
 				}
 			}
 		};
-		let require = move |file_path: &str| background_queue.enqueue(Url::parse(file_path).unwrap());
+		let require = move |file_path: &str| {
+			// A path that could not be resolved cannot be loaded.
+			if let Ok(file_url) = Url::parse(file_path) {
+				background_queue.enqueue(file_url);
+			}
+		};
 
 		Self {
 			inner: RefCell::new(analyzer_core::Analyzer::new(resolve_path, require)),
-- 
2.43.0


From 9c796d08a879231074e3dac3cfb836cb9bce71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 23/40] fix: files outside of every workspace folder

They belong to the catch-all workspace, as the documentation has it; opening one stopped the server.
---
 crates/analyzer-host/src/lsp/workspace.rs | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..f8fc68a 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -15,7 +15,7 @@ use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem,
 	futures_extensions::FutureCompletionSource,
 	lsp_types::{TextDocumentIdentifier, Url, WorkspaceFolder},
-	tracing::{error, info},
+	tracing::info,
 };
 use thiserror::Error;
 
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// The (never indexed) workspace of the files that are not in any of the workspace folders.
+	catch_all: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -51,13 +54,17 @@ impl WorkspaceManager {
 			)
 		}
 
-		let (has_workspaces, workspace_folders) = workspace_folders.map_or_else(
-			|| (false, vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]),
-			|folders| (true, folders),
-		);
+		fn catch_all_folder() -> WorkspaceFolder {
+			WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }
+		}
+
+		let (has_workspaces, workspace_folders) =
+			workspace_folders.map_or_else(|| (false, vec![catch_all_folder()]), |folders| (true, folders));
+		let (_, catch_all) = to_workspace(file_system.clone(), catch_all_folder(), background_load.clone());
 
 		Self {
 			has_workspaces,
+			catch_all,
 			workspaces: workspace_folders
 				.into_iter()
 				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
@@ -85,14 +92,11 @@ impl WorkspaceManager {
 			false
 		}
 
-		// If not initialized with any workspace folders, then the path should always be a descendant of the
+		// A file that is not a descendant of any workspace folder (e.g., an untitled or an external file) belongs to the
 		// 'catch-all' workspace.
 		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
 			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
-			}
+			None => self.catch_all.get_file(uri),
 		}
 	}
 
-- 
2.43.0


From 2b608d22eae65d622face7181e9eadfdd3b4c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 24/40] fix: a refused initialize sets nothing up

An initialize request that followed had a second background loader running, with the workspaces of the first one:
files it loaded replaced the text of open documents.
---
 .../src/lsp_impl/active_uninitialized.rs      | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..a706a90 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -49,6 +49,17 @@ async fn on_initialize(
 	params: InitializeParams,
 	state: Arc<AsyncRwLock<State>>,
 ) -> HandlerResult<InitializeResult> {
+	// In a workspace context, the P4 Analyzer depends on the LSP client to notify it of external file changes.
+	// If the client does not support that capability, then nothing is set up as the client may initialize again.
+	let supports_watched_files =
+		params.capabilities.workspace.map_or(false, |value| value.did_change_watched_files.is_some());
+
+	if params.workspace_folders.is_some() && !supports_watched_files {
+		return Err(
+			HandlerError::new(
+				"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."));
+	}
+
 	initialize_client_dependant_state(state.clone(), params.workspace_folders, params.capabilities.window).await;
 
 	let state = state.read().await;
@@ -59,21 +70,7 @@ async fn on_initialize(
 	}
 
 	// If the server has been started without any workspace context, then simply return our 'default' capability.
-	if !state.has_workspaces() {
-		return Ok(create_initialize_result(false));
-	}
-
-	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
-	// If the client supports that capability, then start indexing
-	match params.capabilities.workspace {
-		Some(capabilities)
-			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),
-		_ => {
-			Err(
-				HandlerError::new(
-					"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
-		}
-	}
+	Ok(create_initialize_result(state.has_workspaces()))
 }
 
 /// Responds to an 'exit' notification from the LSP client.
-- 
2.43.0


From 0d3559d608433c88c51fc1e64ec77e5a3732880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 25/40] fix: workspaces are indexed when the client refuses to
 show the progress

---
 crates/analyzer-host/src/lsp/workspace.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index f8fc68a..99ef5ea 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -108,15 +108,20 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// The client may not accept to be shown the progress, in which case the workspaces are indexed silently.
+		let progress = progress.begin("Indexing").await.ok();
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				progress.report(&format!("{}", workspace)).await.ok();
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			progress.end(None).await.ok();
+		}
 	}
 }
 
-- 
2.43.0


From e63c629ae2f3312d63eb5bcfe0cdcf39e6a4b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:52 +0000
Subject: [PATCH 26/40] fix: indexing keeps the files that are known already

A file of one workspace that a file of another one includes may be known, and being loaded, before its workspace is
indexed. Its replacement could be opened while that load, which looked at the replaced file, overwrote its text.
---
 crates/analyzer-host/src/lsp/workspace.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 99ef5ea..b16ac1f 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -186,10 +186,14 @@ impl Workspace {
 			let mut files = workspace.files.write().unwrap();
 
 			for document_identifier in document_identifiers.into_iter() {
-				files.insert(document_identifier.uri.clone(), Arc::new(File::new(document_identifier.clone())));
-
-				// Background load the file now that its known to the Workspace.
-				workspace.background_load.load(document_identifier.uri.clone());
+				// A file that is known already (e.g., since a file of another workspace includes it) is being loaded, and
+				// those loading it rely on its state.
+				if let Entry::Vacant(entry) = files.entry(document_identifier.uri.clone()) {
+					entry.insert(Arc::new(File::new(document_identifier.clone())));
+
+					// Background load the file now that its known to the Workspace.
+					workspace.background_load.load(document_identifier.uri.clone());
+				}
 			}
 		}
 
-- 
2.43.0


From fae4f62b7bc351a26645337c46928f592b642ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 27/40] fix: files are below the workspace folders their paths
 begin with

---
 crates/analyzer-host/src/lsp/workspace.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index b16ac1f..33be21b 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -85,11 +85,10 @@ impl WorkspaceManager {
 	/// inform its final state.
 	pub fn get_file(&self, uri: Url) -> Arc<File> {
 		fn is_descendant_path(base: &Url, target: &Url) -> bool {
-			if let Some(relative) = base.make_relative(target) {
-				return !relative.starts_with("..");
-			}
+			// The URL of a workspace folder may or may not end with a slash.
+			let folder = base.as_str().trim_end_matches('/');
 
-			false
+			target.as_str().strip_prefix(folder).map_or(false, |path| path.starts_with('/'))
 		}
 
 		// A file that is not a descendant of any workspace folder (e.g., an untitled or an external file) belongs to the
-- 
2.43.0


From 6e3f72ec9ec9f4a9d2811d1d0c8792a783fc6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 28/40] fix: the protocol machine uses the file system the host
 was given or made

---
 crates/analyzer-host/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..c1ab372 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,7 +65,7 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system.clone(),
 		));
 
 		match join_all(
-- 
2.43.0


From 67eb3f8e1c48862c7e4fe6a1c80850d87a565c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 29/40] fix: a client that leaves does not make the host panic

---
 crates/analyzer-host/src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index c1ab372..1554b8c 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -99,10 +99,17 @@ impl AnalyzerHost {
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
-				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
-				},
+				Ok(message) => {
+					let sent = match message {
+						Message::Response(_) => responses_sender.send(message).await,
+						_ => requests_sender.send(message).await,
+					};
+
+					// The channel may have been closed meanwhile, since the protocol machine was stopped.
+					if sent.is_err() {
+						break;
+					}
+				}
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
 					break;
@@ -144,7 +151,9 @@ impl AnalyzerHost {
 						{
 							Ok(response_message) => {
 								if let Some(Message::Response(_)) = &response_message {
-									self.sender.send(response_message.unwrap()).await.unwrap();
+									if let Err(err) = self.sender.send(response_message.unwrap()).await {
+										error!("Unexpected error sending response: {:?}", err);
+									}
 								}
 							}
 							Err(err) => {
-- 
2.43.0


From c06393381b1ba578a9d0effcfebf4cea1696edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 30/40] fix: the protocol machine ends when no more messages
 can arrive

---
 crates/analyzer-host/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 1554b8c..21cccdb 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -166,6 +166,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
-- 
2.43.0


From 4e4c742f72038d0274d72cd2d08c43ef2483c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 31/40] fix: only a canceled host reports that it was canceled

---
 crates/analyzer-host/src/lib.rs         | 6 +++++-
 crates/analyzer-host/src/lsp/request.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 21cccdb..33116d2 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -120,7 +120,11 @@ impl AnalyzerHost {
 		requests_sender.close();
 		responses_sender.close();
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	async fn run_protocol_machine(
diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index 77f58cf..c5a654e 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,7 +88,11 @@ impl RequestManager {
 			}
 		}
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	/// Sends a typed notification to the LSP client.
-- 
2.43.0


From e3071addbe2684c9964248ec63948ad1f311b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 32/40] fix: requests fail when no more responses can arrive

---
 crates/analyzer-host/src/lsp/request.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index c5a654e..5b0ec37 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,6 +88,15 @@ impl RequestManager {
 			}
 		}
 
+		// No more responses can arrive, so fail the requests that are still awaiting one.
+		self.responses.close();
+
+		for (_, active_request) in self.awaiting_requests.write().await.drain() {
+			if let Err(_) = active_request.set_err(LspProtocolError::TransportError) {
+				error!("Failed to resolve a Request that can no longer receive a Response.");
+			}
+		}
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -184,6 +193,13 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
+		// Don't send a request if its response could not be received.
+		if self.responses.is_closed() {
+			self.take_awaiting_request(&id).await;
+
+			return Err(LspProtocolError::TransportError);
+		}
+
 		if let Err(_) = self.requests.send(Message::Request(request)).await {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
-- 
2.43.0


From 3dd9391945eed347d4476e3a6a41b17bcef05322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:54 +0000
Subject: [PATCH 33/40] fix: waking the work of a stopped pool does not drop it

---
 .../src/futures_extensions/async_extensions.rs         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index dea61e3..4f95ca8 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -28,13 +28,13 @@ impl AsyncWork {
 
 impl ArcWake for AsyncWork {
 	fn wake_by_ref(arc_self: &Arc<Self>) {
-		if arc_self.sender.is_closed() {
-			return;
-		}
 		let cloned = arc_self.clone();
 
-		// Fails only if the pool has been stopped in the meantime.
-		let _ = arc_self.sender.send_blocking(cloned);
+		// Fails only if the pool has been stopped. The work is then leaked rather than dropped, since it may be woken while
+		// locks are held that dropping it would take again.
+		if let Err(err) = arc_self.sender.send_blocking(cloned) {
+			std::mem::forget(err.into_inner());
+		}
 	}
 }
 
-- 
2.43.0


From eea2b91b891f53d13b31b3fab0899c48883d3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 34/40] fix: a line comment may end with the text

---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..b7c26a2 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -45,7 +45,7 @@ pub enum Token {
 	#[token(",")]
 	Comma,
 
-	#[regex("//[^\n]*\n")]
+	#[regex("//[^\n]*\n?")]
 	#[regex("/\\*", |lex| Lexer(lex).read_comment())]
 	Comment,
 
-- 
2.43.0


From bec257608fafc6b7c9e33067df40115b7ab398a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 35/40] fix: a macro has the whole of its logical line as its
 text, whatever was escaped there

---
 crates/analyzer-core/src/lexer.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index b7c26a2..aa978be 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -285,21 +285,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			iter.next();
 		}
 
-		let mut escape = false;
-		let mut rhs = String::new();
-		loop {
-			let ch = iter.next();
-
-			// FIXME: these escapes do not work for string literals
-			match (escape, ch) {
-				(true, Some(ch)) => rhs.push(ch),
-				(_, Some('\\')) => escape = true,
-				(_, Some('\n')) => break,
-				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
-				(false, None) => break,
-			}
-		}
+		// the escapes were processed when the line was read
+		let rhs = iter.collect();
 
 		Some((symbol, rhs))
 	}
-- 
2.43.0


From 899e9e53a379ca7f0b05a9463de5f79608f76ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 36/40] fix: a #define without a name is an error

---
 crates/analyzer-core/src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index aa978be..09ce747 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -260,8 +260,9 @@ impl<'a, 'b> Lexer<'a, 'b> {
 		let iter = buf.chars().skip_while(|ch| ch.is_ascii_whitespace());
 
 		let mut iter = iter.peekable();
-		if let Some(n) = iter.peek() {
-			if !n.is_ascii_alphabetic() && *n != '_' {
+		match iter.peek() {
+			Some(n) if n.is_ascii_alphabetic() || *n == '_' => (),
+			_ => {
 				self.report(Severity::Error, "the name of a macro must start with a letter or an underscore ('_')");
 				return None;
 			}
-- 
2.43.0


From d83a3b6b0fb5d871285e207b1e1698c53327ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 37/40] fix: underscores in integer literals have no meaning

---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 09ce747..28aa9c1 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -160,7 +160,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			})
 			.unwrap_or(str);
 
-		lit.value = match i64::from_str_radix(str, lit.base as u32).ok() {
+		lit.value = match i64::from_str_radix(&str.replace('_', ""), lit.base as u32).ok() {
 			Some(i) => i,
 			None => {
 				self.report(Severity::Error, "malformed integer literal");
-- 
2.43.0


From b6051fffb8893c3d2c4f6b0ca8d00e231f2ddbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 38/40] fix: the width and the base of an integer literal stand
 in front of its digits

---
 crates/analyzer-core/src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 28aa9c1..b8ebc5a 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -345,7 +345,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
-		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
+		static ref BASE: Regex = Regex::new("^0([bBdDoOxX])").unwrap();
 	}
 
 	BASE.captures(str).map(|caps| {
@@ -363,7 +363,7 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 
 fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 	lazy_static! {
-		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
+		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
 
 	WIDTH.captures(str).map(|caps| {
-- 
2.43.0


From 392e151978b910006912aa685709c97d44815b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 39/40] fix: an integer literal whose width is too large is
 malformed

---
 crates/analyzer-core/src/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index b8ebc5a..ef9a239 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -366,16 +366,16 @@ fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
 
-	WIDTH.captures(str).map(|caps| {
+	WIDTH.captures(str).and_then(|caps| {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		let width = width.as_str().parse().ok()?;
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
 			_ => unreachable!(),
 		};
-		((width, signed), &str[sign.end()..])
+		Some(((width, signed), &str[sign.end()..]))
 	})
 }
-- 
2.43.0


From 0c51e828157096b1b3471dbbec39c8cb567a968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:48 +0000
Subject: [PATCH 40/40] fix: an escaped line end may be a carriage return and a
 line feed

---
 crates/analyzer-core/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index ef9a239..1a118c1 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -325,7 +325,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				Some('\n') if !escape => break,
 				Some(char) => {
 					buf.push(char);
-					escape = false
+					// a line may end with "\r\n"
+					escape = escape && char == '\r'
 				}
 				None => break,
 			}
-- 
2.43.0

