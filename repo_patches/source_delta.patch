From 81c4920f4ff330d242c7ca9e731913d9f1f7417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 01/32] fix: reject non-integer literals and non-expression
 bodies instead of panicking

---
 core/src/parse/pallet.rs  | 15 +++++++++------
 core/src/parse/storage.rs |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..3a01d4c 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -272,7 +272,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err(format!("Skipped fn: {} does not contain an expression", name)),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
@@ -307,7 +307,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -427,7 +427,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -523,10 +523,13 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) => i
+			.base10_digits()
+			.parse()
+			.map_err(|e| format!("Invalid integer literal {}: {:?}", i, e)),
+		l => Err(format!("Expected integer literal but got: {}", l.into_token_stream())),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From e80cb50d98a221ffd21a2e23c1f62413d5100a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 02/32] fix: saturate instead of overflowing when evaluating a
 term

---
 core/src/term.rs   | 16 +++++-----------
 core/src/traits.rs |  2 +-
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..ccb32b2 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -137,8 +137,8 @@ impl SimpleTerm {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => Ok(x.eval(ctx)?.saturating_add(y.eval(ctx)?)),
+			Self::Mul(x, y) => Ok(x.eval(ctx)?.saturating_mul(y.eval(ctx)?)),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
@@ -371,17 +371,11 @@ impl ChromaticTerm {
 			Self::Add(x, y) => {
 				let (a, b) = x.eval(ctx)?.into();
 				let (m, n) = y.eval(ctx)?.into();
-				Ok((a + m, b + n).into())
+				Ok((a.saturating_add(m), b.saturating_add(n)).into())
 			},
 			Self::Mul(x, y) => match (x.as_ref(), y.as_ref()) {
-				(Self::Scalar(x), y) => {
-					let (a, b) = y.eval(ctx)?.into();
-					Ok((*x * a, *x * b).into())
-				},
-				(x, Self::Scalar(y)) => {
-					let (a, b) = x.eval(ctx)?.into();
-					Ok((*y * a, *y * b).into())
-				},
+				(Self::Scalar(x), y) => Ok(y.eval(ctx)?.mul_scalar(*x)),
+				(x, Self::Scalar(y)) => Ok(x.eval(ctx)?.mul_scalar(*y)),
 				(Self::Var(x), y) => match ctx.get(x) {
 					Some(Self::Scalar(x)) => Ok(y.eval(ctx)?.mul_scalar(x)),
 					Some(_) => Err(format!("Variable '{}' is not a scalar", x.deref())),
diff --git a/core/src/traits.rs b/core/src/traits.rs
index e9af584..eae7e7f 100644
--- a/core/src/traits.rs
+++ b/core/src/traits.rs
@@ -80,6 +80,6 @@ impl core::fmt::Display for Weight {
 
 impl Weight {
 	pub fn mul_scalar(&self, other: u128) -> Self {
-		Self { time: self.time * other, proof: self.proof * other }
+		Self { time: self.time.saturating_mul(other), proof: self.proof.saturating_mul(other) }
 	}
 }
-- 
2.43.0


From 845ce2f9f2b3acbb7b8655fde05f88cc4ead4c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 03/32] fix: the relative change between two zero weights is 0,
 not NaN

---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..e80d6c6 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -832,6 +832,10 @@ impl RelativeChange {
 }
 
 pub fn percent(old: u128, new: u128) -> Percent {
+	// Also avoids the NaN in case that both are zero.
+	if old == new {
+		return 0.0
+	}
 	100.0 * (new as f64 / old as f64) - 100.0
 }
 
-- 
2.43.0


From 2459a61ac7364ba702fd4f01abc13d5a4a0e052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/32] fix: compare failed diffs as equal so that sorting uses
 a total order

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index e80d6c6..9eacaf8 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -770,6 +770,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From ee780774b0ebb7b792516b4cb8309f73f79b9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 05/32] fix: visit components in a fixed order so that errors
 are deterministic

---
 core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 9eacaf8..af84020 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -9,7 +9,7 @@ use lazy_static::lazy_static;
 
 use std::{
 	cmp::Ordering,
-	collections::{BTreeSet, HashMap, HashSet},
+	collections::{BTreeSet, HashMap},
 	path::{Path, PathBuf},
 	process::Command,
 };
@@ -577,7 +577,7 @@ pub(crate) fn extend_scoped_components(
 ) -> Result<Vec<SimpleScope>, String> {
 	let free_a = a.map(|e| e.term.free_vars(scope)).unwrap_or_default();
 	let free_b = b.map(|e| e.term.free_vars(scope)).unwrap_or_default();
-	let frees = free_a.union(&free_b).cloned().collect::<HashSet<_>>();
+	let frees = free_a.union(&free_b).cloned().collect::<BTreeSet<_>>();
 
 	let ra = a.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
 	let rb = b.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
-- 
2.43.0


From 02a7557b0eee8514d7dd2fb549a422199932b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 06/32] fix: display products with a zero factor and brackets
 of shortened sums correctly

---
 core/src/term.rs | 55 ++++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index ccb32b2..9a18c53 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -256,56 +256,43 @@ where
 		}
 	}
 
-	fn fmt_with_bracket(&self, has_bracket: bool) -> String {
-		self.maybe_fmt_with_bracket(has_bracket).unwrap_or("0".to_string())
+	/// Whether the term is a sum or product that is always zero and therefore not displayed.
+	fn is_omitted(&self) -> bool {
+		match self {
+			Self::Mul(l, r) => l.is_omitted() || r.is_omitted(),
+			Self::Add(l, r) => l.is_omitted() && r.is_omitted(),
+			t => t.is_const_zero(),
+		}
 	}
 
-	fn maybe_fmt_with_bracket(&self, has_bracket: bool) -> Option<String> {
+	fn fmt_with_bracket(&self, has_bracket: bool) -> String {
 		match self {
+			Self::Mul(..) | Self::Add(..) if self.is_omitted() => "0".to_string(),
 			Self::Mul(l, r) => {
 				// Omit `1 *` and `* 1`.
 				if l.is_const_one() {
-					r.maybe_fmt_with_bracket(has_bracket)
+					r.fmt_with_bracket(has_bracket)
 				} else if r.is_const_one() {
-					l.maybe_fmt_with_bracket(has_bracket)
-				} else if r.is_const_zero() || l.is_const_zero() {
-					None
+					l.fmt_with_bracket(has_bracket)
 				} else {
-					match (l.maybe_fmt_with_bracket(false), r.maybe_fmt_with_bracket(false)) {
-						(Some(l), Some(r)) => Some(format!("{} * {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
-					}
+					format!("{} * {}", l.fmt_with_bracket(false), r.fmt_with_bracket(false))
 				}
 			},
 			Self::Add(l, r) => {
 				// Omit `0 +` and `+ 0`.
-				if l.is_const_zero() && r.is_const_zero() {
-					None
-				} else if l.is_const_zero() {
-					r.maybe_fmt_with_bracket(has_bracket)
-				} else if r.is_const_zero() {
-					l.maybe_fmt_with_bracket(has_bracket)
+				if l.is_omitted() {
+					r.fmt_with_bracket(has_bracket)
+				} else if r.is_omitted() {
+					l.fmt_with_bracket(has_bracket)
 				} else if has_bracket {
-					match (l.maybe_fmt_with_bracket(true), r.maybe_fmt_with_bracket(true)) {
-						(Some(l), Some(r)) => Some(format!("{} + {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
-					}
+					format!("{} + {}", l.fmt_with_bracket(true), r.fmt_with_bracket(true))
 				} else {
-					match (l.maybe_fmt_with_bracket(true), r.maybe_fmt_with_bracket(true)) {
-						(Some(l), Some(r)) => Some(format!("({} + {})", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
-					}
+					format!("({} + {})", l.fmt_with_bracket(true), r.fmt_with_bracket(true))
 				}
 			},
-			Self::Value(val) => Some(val.format_scalar()),
-			Self::Scalar(val) => Some(crate::Dimension::fmt_scalar(*val)),
-			Self::Var(var) => Some(var.clone().into()),
+			Self::Value(val) => val.format_scalar(),
+			Self::Scalar(val) => crate::Dimension::fmt_scalar(*val),
+			Self::Var(var) => var.clone().into(),
 		}
 	}
 
-- 
2.43.0


From 6a6ad40e0c881bddf3789efbd20479eb1ae4979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 07/32] fix: do not let component variables leak into the other
 weight dimension

---
 core/src/parse/pallet.rs | 11 +++++++++--
 core/src/term.rs         | 19 +++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 3a01d4c..e016c23 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -290,8 +290,15 @@ fn handle_method(
 pub(crate) fn parse_expression(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
 		Expr::Paren(expr) => parse_expression(&expr.expr),
-		// TODO check cast
-		Expr::Cast(cast) => parse_expression(&cast.expr),
+		Expr::Cast(cast) => {
+			// Casting to `Weight` is only possible in V1 syntax where it is one dimensional.
+			if let Type::Path(p) = cast.ty.as_ref() {
+				if p.path.segments.last().map_or(false, |s| s.ident == "Weight") {
+					return Err("Unexpected cast to Weight".into())
+				}
+			}
+			parse_expression(&cast.expr)
+		},
 		Expr::MethodCall(call) => parse_method_call(call),
 		//Expr::Lit(lit) => Ok(ChromaticTerm::Value(lit_to_value(&lit.lit))),
 		Expr::Path(p) => {
diff --git a/core/src/term.rs b/core/src/term.rs
index 9a18c53..6c6d37f 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -156,11 +156,22 @@ impl SimpleTerm {
 				Box::new(x.into_chromatic(unit)),
 				Box::new(y.into_chromatic(unit)),
 			),
-			Self::Mul(x, y) => ChromaticTerm::Mul(
-				Box::new(x.into_chromatic(unit)),
-				Box::new(y.into_chromatic(unit)),
+			// A factor has no dimension as long as the other one has it.
+			Self::Mul(x, y) => match (*x, *y) {
+				(x, Self::Var(y)) =>
+					ChromaticTerm::Mul(Box::new(x.into_chromatic(unit)), Box::new(Term::Var(y))),
+				(Self::Var(x), y) =>
+					ChromaticTerm::Mul(Box::new(Term::Var(x)), Box::new(y.into_chromatic(unit))),
+				(x, y) => ChromaticTerm::Mul(
+					Box::new(x.into_chromatic(unit)),
+					Box::new(y.into_chromatic(unit)),
+				),
+			},
+			// Ensure that the variable does not contribute to the other dimension.
+			Self::Var(x) => ChromaticTerm::Mul(
+				Box::new(ChromaticTerm::Value(Self::scalar_into_term(1, unit))),
+				Box::new(ChromaticTerm::Var(x)),
 			),
-			Self::Var(x) => ChromaticTerm::Var(x),
 		}
 	}
 
-- 
2.43.0


From 5444f2b3082ab013394f20f5bf960b98f40bf1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 08/32] fix: recognize the number of reads and writes in all
 syntax versions

---
 core/src/parse/pallet.rs | 11 +++++------
 core/src/term.rs         |  9 ++++++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index e016c23..e6415ea 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -433,12 +433,11 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 }
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
-	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
-		expr => {
-			// Substrates Reads/Writes only consider ref time.
-			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
-		},
+	match parse_scalar_expression(expr)? {
+		// Also covers `5 as u64` or `(5)`.
+		Term::Scalar(count) => Ok(ChromaticTerm::Scalar(count)),
+		// Substrates Reads/Writes only consider ref time.
+		term => Ok(term.into_chromatic(crate::Dimension::Time)),
 	}
 }
 
diff --git a/core/src/term.rs b/core/src/term.rs
index 6c6d37f..8b29311 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -6,7 +6,10 @@ use serde::{Deserialize, Serialize};
 use std::{collections::BTreeSet as Set, fmt};
 use syn::{BinOp, ExprBinary};
 
-use crate::{scope::Scope, traits::*};
+use crate::{
+	scope::{Scope, STORAGE_READ_VAR, STORAGE_WRITE_VAR},
+	traits::*,
+};
 
 /// A symbolic term that can be used to express simple arithmetic.
 ///
@@ -158,6 +161,10 @@ impl SimpleTerm {
 			),
 			// A factor has no dimension as long as the other one has it.
 			Self::Mul(x, y) => match (*x, *y) {
+				// Keep the number of reads and writes.
+				(Self::Scalar(x), Self::Var(y))
+					if *y == STORAGE_READ_VAR || *y == STORAGE_WRITE_VAR =>
+					ChromaticTerm::Mul(Box::new(Term::Scalar(x)), Box::new(Term::Var(y))),
 				(x, Self::Var(y)) =>
 					ChromaticTerm::Mul(Box::new(x.into_chromatic(unit)), Box::new(Term::Var(y))),
 				(Self::Var(x), y) =>
-- 
2.43.0


From 74c3539c729d95bc6682b234993e44a30e18030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 09/32] fix: report the number of parsed files, not of their
 extrinsics

---
 cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..3e9dafc 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -222,8 +222,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 		},
 		SubCommand::Parse(ParseCmd::Files(ParseFilesCmd { files })) => {
 			print(format!("Trying to parse {} files...", files.len()), cmd.verbose);
-			let parsed = parse_files(&files)?;
-			print(format!("Parsed {} files successfully", parsed.len()), cmd.verbose);
+			parse_files(&files)?;
+			print(format!("Parsed {} files successfully", files.len()), cmd.verbose);
 		},
 	}
 
-- 
2.43.0


From a224149cf1d3a6fb3a8f7f3b1921cba19661087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 10/32] fix: return an error for an invalid --strip-path-prefix
 instead of panicking

---
 cli/src/main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 3e9dafc..1e68208 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -126,12 +126,12 @@ pub struct FormatParams {
 }
 
 impl FormatParams {
-	pub fn filter_path(&self, path: String) -> String {
+	pub fn filter_path(&self, path: String) -> Result<String, Box<dyn std::error::Error>> {
 		if let Some(prefix) = self.strip_path_prefix.as_ref() {
-			let re = fancy_regex::Regex::new(prefix).expect("Invalid regex");
-			re.replace_all(&path, "").to_string()
+			let re = fancy_regex::Regex::new(prefix)?;
+			Ok(re.try_replacen(&path, 0, "")?.to_string())
 		} else {
-			path
+			Ok(path)
 		}
 	}
 }
@@ -236,6 +236,9 @@ fn print_changes(
 	format: FormatParams,
 	unit: Dimension,
 ) -> Result<(), Box<dyn std::error::Error>> {
+	// Reject an invalid prefix before printing anything.
+	format.filter_path(String::new())?;
+
 	let output = match format.format {
 		OutputFormat::Human => print_changes_human(per_extrinsic, verbose, format, unit, false),
 		OutputFormat::Markdown => print_changes_human(per_extrinsic, verbose, format, unit, true),
@@ -323,7 +326,7 @@ fn print_changes_human(
 	// Print all errors
 	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
 		let row = vec![
-			format.filter_path(info.file.clone()),
+			format.filter_path(info.file.clone())?,
 			info.name.clone(),
 			"-".into(),
 			"-".into(),
@@ -334,7 +337,7 @@ fn print_changes_human(
 
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = vec![
-			format.filter_path(info.file.clone()),
+			format.filter_path(info.file.clone())?,
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From 89812273fa746143179dbd9987507f1ca8469f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 11/32] fix: keep the CSV columns aligned with their header

---
 cli/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 1e68208..ca117a2 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -273,7 +273,7 @@ fn print_changes_csv(
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-			info.file.clone(),
+			csv_field(info.file.clone()),
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
@@ -283,7 +283,7 @@ fn print_changes_csv(
 		if format.print_terms {
 			write!(
 				row,
-				"{},",
+				",{},",
 				change.old.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
 			write!(
@@ -300,6 +300,15 @@ fn print_changes_csv(
 	Ok(output)
 }
 
+/// Quotes a CSV field if necessary (RFC 4180).
+fn csv_field(field: String) -> String {
+	if field.contains([',', '"', '\n', '\r']) {
+		format!("\"{}\"", field.replace('"', "\"\""))
+	} else {
+		field
+	}
+}
+
 fn print_changes_human(
 	per_extrinsic: TotalDiff,
 	verbose: bool,
-- 
2.43.0


From 551cce5d547976096bb1896d9cb601587a68ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 12/32] fix: apply --strip-path-prefix to the CSV output too

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index ca117a2..43892f2 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -273,7 +273,7 @@ fn print_changes_csv(
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-			csv_field(info.file.clone()),
+			csv_field(format.filter_path(info.file.clone())?),
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From eab2047a8cff29f44ee25f82374f02742136080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 13/32] fix: resolve both revisions to commits before checking
 anything out

Revisions could be taken for git options, refspecs or paths, HEAD-relative ones
changed their meaning in between, stale local branches were used after a fetch and
forced checkouts moved the current branch.
---
 core/src/lib.rs | 143 ++++++++++++++++++++++++++++--------------------
 1 file changed, 83 insertions(+), 60 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index af84020..0a1a57e 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,10 +181,12 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// Resolve both first, since checking out the old one can change what the new one denotes.
+	let old_commit = git_resolve(repo, old, params.should_pull(), params.git_force)?;
+	let new_commit = git_resolve(repo, new, params.should_pull(), params.git_force)?;
+
 	// Parse the old files.
-	if let Err(err) = git_checkout(repo, old, params.should_pull(), params.git_force) {
-		return Err(format!("{:?}", err).into())
-	}
+	git_checkout_commit(repo, old, &old_commit, params.git_force)?;
 	let paths = list_files(repo, path_pattern, max_files)?;
 	// Ignore any parsing errors.
 	let olds = if params.ignore_errors {
@@ -195,9 +197,7 @@ pub fn compare_commits(
 	};
 
 	// Parse the new files.
-	if let Err(err) = git_checkout(repo, new, params.should_pull(), params.git_force) {
-		return Err(format!("{:?}", err).into())
-	}
+	git_checkout_commit(repo, new, &new_commit, params.git_force)?;
 	let paths = list_files(repo, path_pattern, max_files)?;
 	// Ignore any parsing errors.
 	let news = if params.ignore_errors {
@@ -215,41 +215,32 @@ pub fn git_checkout(
 	should_pull: bool,
 	force: bool,
 ) -> Result<(), String> {
-	if force {
-		return git_reset(path, refname, should_pull)
-	}
-
-	log::info!("Checking out {}", refname);
-	if should_pull {
-		git_pull(path, refname)?;
-	} else {
-		log::debug!("Not fetching branch {} (should_fetch={})", refname, should_pull);
-	}
-
-	let output = Command::new("git")
-		.arg("checkout")
-		.arg(refname)
-		.current_dir(path)
-		.output()
-		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-
-	if !output.status.success() {
-		return Err(format!(
-			"Failed to checkout branch: {}",
-			String::from_utf8_lossy(&output.stderr),
-		))
-	}
+	let commit = git_resolve(path, refname, should_pull, force)?;
+	git_checkout_commit(path, refname, &commit, force)
+}
 
-	Ok(())
+pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
+	git_checkout(path, refname, pull, true)
 }
 
 pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 	log::info!("Fetching branch {}", refname);
 
-	let output = Command::new("git")
-		.arg("fetch")
-		.arg("origin")
+	// Do not let the name be taken for an option or a refspec.
+	let valid = Command::new("git")
+		.args(["check-ref-format", "--allow-onelevel"])
 		.arg(refname)
+		.output()
+		.map_err(|e| format!("Failed to fetch branch: {:?}", &e))?
+		.status
+		.success();
+	if !valid || refname.starts_with('-') {
+		return Err(format!("Failed to fetch branch: Invalid name '{}'", refname))
+	}
+
+	let output = Command::new("git")
+		.args(["fetch", "--", "origin"])
+		.arg(format!("+{}", refname))
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to fetch branch: {:?}", &e))?;
@@ -261,43 +252,75 @@ pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 	Ok(())
 }
 
-pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
-	if pull {
+/// Returns the hash of the commit that a revision currently denotes.
+fn git_resolve(
+	path: &Path,
+	refname: &str,
+	should_pull: bool,
+	force: bool,
+) -> Result<String, String> {
+	let local = refname.to_string();
+	let remote = format!("origin/{}", refname);
+	let candidates = if should_pull {
 		git_pull(path, refname)?;
+		vec!["FETCH_HEAD".to_string()]
+	} else if force {
+		vec![remote, local]
 	} else {
-		log::debug!("Not fetching branch {} (should_fetch={})", refname, pull);
+		vec![format!("refs/heads/{}", refname), local, remote]
+	};
+
+	for candidate in candidates {
+		if let Some(commit) = git_rev_parse(path, &candidate)? {
+			log::info!("Resolved {} to {} via {}", refname, commit, candidate);
+			return Ok(commit)
+		}
 	}
-	// try to reset with remote...
-	log::info!("Resetting to origin/{}", refname);
+	Err(format!("Failed to checkout branch: '{}' is not a commit", refname))
+}
+
+/// Returns the commit hash of `rev` or `None` if it does not denote a commit.
+fn git_rev_parse(path: &Path, rev: &str) -> Result<Option<String>, String> {
 	let output = Command::new("git")
-		.arg("reset")
-		.arg("--hard")
-		.arg(format!("origin/{}", refname))
+		.args(["rev-parse", "--verify", "--quiet", "--end-of-options"])
+		.arg(format!("{}^{{commit}}", rev))
 		.current_dir(path)
-		.output();
-	// Ignore any errors and try again without `origin/` prefix.
-	match output {
-		Err(err) => log::info!("Failed to reset to origin/{}: {}", refname, err),
-		Ok(output) =>
-			if !output.status.success() {
-				log::warn!("Failed to reset to: origin/{}", String::from_utf8_lossy(&output.stderr))
-			} else {
-				return Ok(())
-			},
-	}
-	// Try resetting without remote.
-	log::info!("Fallback: Resetting to {}", refname);
+		.output()
+		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
+
+	let hash = String::from_utf8_lossy(&output.stdout).trim().to_string();
+	let valid = !hash.is_empty() && hash.chars().all(|c| c.is_ascii_hexdigit());
+	Ok((output.status.success() && valid).then_some(hash))
+}
+
+/// Checks out `commit`, which `refname` was resolved to.
+fn git_checkout_commit(
+	path: &Path,
+	refname: &str,
+	commit: &str,
+	force: bool,
+) -> Result<(), String> {
+	log::info!("Checking out {} ({})", refname, commit);
+
+	// Only use the name if it is a local branch, to stay on it.
+	let branch = git_rev_parse(path, &format!("refs/heads/{}", refname))?;
+	let is_branch = branch.as_deref() == Some(commit) && !refname.starts_with('-');
 	let output = Command::new("git")
-		.arg("reset")
-		.arg("--hard")
-		.arg(refname)
+		.arg("checkout")
+		.args(force.then_some("--force"))
+		.arg(if is_branch { refname } else { commit })
+		.arg("--")
 		.current_dir(path)
 		.output()
-		.map_err(|e| format!("Failed to reset branch: {:?}", e))?;
+		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
 
 	if !output.status.success() {
-		return Err(format!("Failed to reset branch: {}", String::from_utf8_lossy(&output.stderr)))
+		return Err(format!(
+			"Failed to checkout branch: {}",
+			String::from_utf8_lossy(&output.stderr),
+		))
 	}
+
 	Ok(())
 }
 
-- 
2.43.0


From e5710d9d32815406bdb06e52e6448e7127c882e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 14/32] fix: do not treat the repository path as a glob pattern

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 0a1a57e..64c9a50 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -330,10 +330,12 @@ fn list_files(
 	max_files: usize,
 ) -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 	let regex = regex.split(',');
+	// The path of the repository itself is not a pattern.
+	let base_path = glob::Pattern::escape(&base_path.display().to_string());
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		let regex = format!("{}/{}", base_path, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0


From 5373982d83d5cc8ff06e58551c71496982347f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 15/32] fix: do not try to parse directories that match the
 path pattern

---
 core/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 64c9a50..094610e 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -341,7 +341,11 @@ fn list_files(
 		let files = files
 			.collect::<Result<Vec<_>, _>>()
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
-		let files: Vec<_> = files.iter().filter(|f| !f.ends_with("mod.rs")).cloned().collect();
+		let files: Vec<_> = files
+			.iter()
+			.filter(|f| f.is_file() && !f.ends_with("mod.rs"))
+			.cloned()
+			.collect();
 		paths.extend(files);
 		if paths.len() > max_files {
 			return Err(
-- 
2.43.0


From 1682afa7f819e2a0988129de6630babca9ab9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 16/32] fix: do not look for weight files in the git directory

---
 core/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 094610e..c116865 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -331,11 +331,12 @@ fn list_files(
 ) -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 	let regex = regex.split(',');
 	// The path of the repository itself is not a pattern.
-	let base_path = glob::Pattern::escape(&base_path.display().to_string());
+	let base_pattern = glob::Pattern::escape(&base_path.display().to_string());
+	let in_git_dir = |f: &Path| f.strip_prefix(base_path).unwrap_or(f).starts_with(".git");
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path, regex);
+		let regex = format!("{}/{}", base_pattern, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
@@ -343,7 +344,7 @@ fn list_files(
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
 		let files: Vec<_> = files
 			.iter()
-			.filter(|f| f.is_file() && !f.ends_with("mod.rs"))
+			.filter(|f| f.is_file() && !f.ends_with("mod.rs") && !in_git_dir(f))
 			.cloned()
 			.collect();
 		paths.extend(files);
-- 
2.43.0


From deed361e0a195d74e53615e2b75ec8cae51627aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 17/32] fix: escape everything that comes from queries and
 repositories in the web pages

---
 web/src/html.rs                   |  3 ++-
 web/src/main.rs                   |  6 +++++-
 web/templates/compare.stpl        | 14 +++++++-------
 web/templates/merge_requests.stpl |  2 +-
 4 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 364064d..e801840 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -94,7 +94,8 @@ pub(crate) fn readme_link(name: &str) -> String {
 }
 
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
-	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, rev, file, name)
+	let url = format!("https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}", &org, &repo_name, rev, file, name);
+	format!("<a href=\"{}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", html_escape::encode_safe(&url))
 }
 
 pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
diff --git a/web/src/main.rs b/web/src/main.rs
index 28b9420..02d47f8 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -348,7 +348,11 @@ async fn version(web::Query(args): web::Query<VersionArgs>) -> HttpResponse {
 		if current == version || current.replace('+', " ") == version {
 			http_200("Version check passed")
 		} else {
-			http_500(format!("Version check failed: '{}' vs '{}'", current, version))
+			http_500(format!(
+				"Version check failed: '{}' vs '{}'",
+				current,
+				html_escape::encode_safe(&version)
+			))
 		}
 	} else {
 		HttpResponse::Ok()
diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index 1f02044..560d467 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -32,7 +32,7 @@
 				<td>
 					<select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= repo %> <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
+							<option value="<%= repo %>" <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
 						<% } %>
 					</select>
 				</td>
@@ -114,7 +114,7 @@
 		<div class="collapse" id="collapseErrors">
 			<div class="card card-body text-dark bg-light">
 				<% for err in errors { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -129,7 +129,7 @@
 		<div class="collapse" id="collapseWarns">
 			<div class="card card-body text-dark bg-light">
 				<% for err in warnings { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -153,7 +153,7 @@
 	</thead>
 	<tbody>
 		<% for (info, change) in diff.iter().filter_map(|c| c.term().map(|t| (c, t))) { %>
-			<tr id=<%- format!("\"{}.{}\"", &info.file, &info.name) %>>
+			<tr id="<%= info.file %>.<%= info.name %>">
 				<td>
 					<%= info.file %>
 				</td>
@@ -164,7 +164,7 @@
 				<% } %>
 					<%= info.name %>
 					<sup>
-						<a href=<%- format!("\"#{}.{}\"", &info.file, &info.name) %>>🔗</a>
+						<a href="#<%= info.file %>.<%= info.name %>">🔗</a>
 					</sup>
 				</td>
 
@@ -182,10 +182,10 @@
 				</td>
 
 				<td>
-					<%- change.old.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.old), t)).unwrap_or_else(|| "-".into()) %>
+					<%- change.old.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.old), html_escape::encode_safe(&t.to_string()))).unwrap_or_else(|| "-".into()) %>
 				</td>
 				<td>
-					<%- change.new.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.new), t)).unwrap_or_else(|| "-".into()) %>
+					<%- change.new.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.new), html_escape::encode_safe(&t.to_string()))).unwrap_or_else(|| "-".into()) %>
 				</td>
 				<td>
 					<%= format!("{}", &change.scope) %>
diff --git a/web/templates/merge_requests.stpl b/web/templates/merge_requests.stpl
index 9e14d9a..39176a4 100644
--- a/web/templates/merge_requests.stpl
+++ b/web/templates/merge_requests.stpl
@@ -48,7 +48,7 @@
 				<div class="col">
 					Repo: <select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= format!("{}:{}", &repo.organization, &repo.name) %>><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
+							<option value="<%= format!("{}:{}", &repo.organization, &repo.name) %>"><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
 						<% } %>
 					</select>
 				</div>
-- 
2.43.0


From a7fbaa3beea20e17ab3db271c6df367c8574fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 18/32] fix: offer the repositories under their configured name
 on the start page

---
 web/templates/root.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index b28a510..e95058e 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -43,7 +43,7 @@
 										<p>Please select a repository. There are <var><%= repos.len() %></var> available.</p>
 										<select class="form-control js-example-basic-single" id="repoSelect" style="width: 100%;">
 											<% for repo in repos { %>
-												<option value="<%= repo.to_lowercase() %>"><%= repo %></option>
+												<option value="<%= repo %>"><%= repo %></option>
 											<% } %>
 										</select>
 									</div>
-- 
2.43.0


From c0a26c84686dd6209b89f446f8c7012208940a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 19/32] fix: do not overflow when rendering the absolute change
 of huge weights

---
 web/src/html.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index e801840..679d644 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -119,11 +119,12 @@ pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
 pub(crate) fn html_color_abs(change: &TermChange, unit: Dimension) -> String {
 	match change.change {
 		RelativeChange::Changed => {
-			let diff = change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128;
-			if diff < 0 {
-				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff.unsigned_abs()))
-			} else if diff > 0 {
-				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff.unsigned_abs()))
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = new.abs_diff(old);
+			if new < old {
+				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff))
+			} else if new > old {
+				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff))
 			} else {
 				// 0 or NaN
 				format!("{:.0?}", diff)
@@ -154,7 +155,15 @@ fn order_percent(change: &TermChange) -> i128 {
 
 fn order_abs(change: &TermChange) -> i128 {
 	match change.change {
-		RelativeChange::Changed => change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128,
+		RelativeChange::Changed => {
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = i128::try_from(new.abs_diff(old)).unwrap_or(i128::MAX);
+			if new < old {
+				-diff
+			} else {
+				diff
+			}
+		},
 		RelativeChange::Unchanged => 0,
 		RelativeChange::Added => i128::MAX,
 		RelativeChange::Removed => i128::MIN,
-- 
2.43.0


From 517899f70aa92e5f69f0adeb872a0f660336305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 20/32] fix: list branches under their full name

---
 web/src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 02d47f8..8dbfae6 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -267,13 +267,13 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.lines()
 		// Some tags contain weird stuff like {} or ^, let's filter those out.
 		.filter(|l| !l.contains('{') && !l.contains('^'))
-		.map(|l| l.replace("refs/heads/", ""))
-		.map(|l| l.replace("refs/tags/", ""))
-		// Split at whitespace and use the first part as the branch name
-		// and the second as commit hash.
-		.map(|l| {
-			let splits = l.split_whitespace().collect::<Vec<&str>>();
-			(splits[1].to_string(), splits[0][..12].to_string())
+		// Split at the tab and use the first part as commit hash
+		// and the second as the branch name.
+		.filter_map(|l| l.split_once('\t'))
+		.map(|(hash, name)| {
+			let branch = name.strip_prefix("refs/heads/");
+			let name = branch.or_else(|| name.strip_prefix("refs/tags/")).unwrap_or(name);
+			(name.to_string(), hash[..12].to_string())
 		})
 		.collect::<Vec<(String, String)>>();
 
-- 
2.43.0


From 74bf5091d762c53b9358276cb4414567ed148add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 21/32] fix: only accept github.com itself as origin

---
 web/src/git.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/git.rs b/web/src/git.rs
index 7e6e839..2fcb750 100644
--- a/web/src/git.rs
+++ b/web/src/git.rs
@@ -15,7 +15,7 @@ pub fn get_origin_org(repo: &Path) -> Result<String, String> {
 	if !output.status.success() {
 		return Err(format!("Failed to get origin url: {}", String::from_utf8_lossy(&output.stderr)))
 	}
-	let regex = Regex::new(r"^https://github.com/([^/]+)/").unwrap();
+	let regex = Regex::new(r"^https://github\.com/([^/]+)/").unwrap();
 	regex
 		.captures(&String::from_utf8_lossy(&output.stdout))
 		.map_err(|e| format!("Failed to parse origin url: {}", e))?
-- 
2.43.0


From b3a10687a15eccbdfd781a0359d36a00d1361e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 22/32] fix: make the files of 'parse files' a plain positional
 argument

The long name was never accepted; in debug builds it made every 'parse files' panic.
---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 43892f2..48620c6 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -97,7 +97,7 @@ struct CompareCommitsCmd {
 #[derive(Debug, Parser)]
 struct ParseFilesCmd {
 	/// The files to parse.
-	#[clap(long, index = 1, required(true), num_args = 0..1000)]
+	#[clap(index = 1, required(true), num_args = 0..1000)]
 	pub files: Vec<PathBuf>,
 }
 
-- 
2.43.0


From 1c651183ead1a5f5a48a59063fdc74e8353ffb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 23/32] fix: do not take HEAD for the one of the remote

---
 core/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index c116865..cdbed4a 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -261,9 +261,15 @@ fn git_resolve(
 ) -> Result<String, String> {
 	let local = refname.to_string();
 	let remote = format!("origin/{}", refname);
+	// `HEAD~1` means the one that is checked out and not `origin/HEAD~1`.
+	let is_head = refname
+		.strip_prefix("HEAD")
+		.map_or(false, |s| s.is_empty() || s.starts_with(['~', '^', '@', ':']));
 	let candidates = if should_pull {
 		git_pull(path, refname)?;
 		vec!["FETCH_HEAD".to_string()]
+	} else if is_head {
+		vec![local]
 	} else if force {
 		vec![remote, local]
 	} else {
-- 
2.43.0


From b28003d777c6d30a4ad134daddd717e38d2f072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 24/32] fix: do not let path patterns like '.*' match files
 outside of the repository

---
 core/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index cdbed4a..6b4bbaf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -330,6 +330,18 @@ fn git_checkout_commit(
 	Ok(())
 }
 
+/// Rewrites a glob pattern so that none of its components matches the `..` entry of a directory.
+///
+/// Components like `.*` would do so. It only happens if they start with a literal dot.
+fn without_dot_entries(pattern: &str) -> String {
+	let components = pattern.split('/').map(|component| match component.strip_prefix('.') {
+		Some(rest) if glob::Pattern::new(component).map_or(false, |p| p.matches("..")) =>
+			format!("[.]{}", rest),
+		_ => component.to_string(),
+	});
+	components.collect::<Vec<_>>().join("/")
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
@@ -342,7 +354,7 @@ fn list_files(
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_pattern, regex);
+		let regex = format!("{}/{}", base_pattern, without_dot_entries(regex));
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0


From 3ea29662713bf884ffe87a232c1354e00c5fbb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 25/32] fix: name pallets relative to the repository when its
 path starts with './'

---
 core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 6b4bbaf..2831780 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,6 +181,11 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// The listed paths do not start with `./`, so the repository should not either.
+	let repo = match repo.strip_prefix(".").unwrap_or(repo) {
+		rest if rest == Path::new("") => Path::new("."),
+		rest => rest,
+	};
 	// Resolve both first, since checking out the old one can change what the new one denotes.
 	let old_commit = git_resolve(repo, old, params.should_pull(), params.git_force)?;
 	let new_commit = git_resolve(repo, new, params.should_pull(), params.git_force)?;
-- 
2.43.0


From e600ac69d67e270d27d21ec77fff8181f9f0f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 26/32] fix: encode revisions and files in code links

---
 web/src/html.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 679d644..b691e7e 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -93,8 +93,14 @@ pub(crate) fn readme_link(name: &str) -> String {
 	format!("{} <a href=\"https://github.com/ggwpez/substrate-weight-compare/#{}\" target=\"_blank\"><sup><small>HELP</small></sup></a>", name, anchor)
 }
 
+/// Encodes the characters that have a meaning in the path of a URL.
+fn encode_url_path(path: &str) -> String {
+	path.replace('%', "%25").replace('#', "%23").replace('?', "%3F").replace('\\', "%5C")
+}
+
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
-	let url = format!("https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}", &org, &repo_name, rev, file, name);
+	let path = encode_url_path(&format!("{}/{}/tree/{}/{}", &org, &repo_name, rev, file));
+	let url = format!("https://github.com/{}#:~:text=fn {}", path, name);
 	format!("<a href=\"{}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", html_escape::encode_safe(&url))
 }
 
-- 
2.43.0


From 6849c0ec005b5ac0af46613392e94034c6e9111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 27/32] fix: ignore spaces around revisions and the path
 pattern in links and the form too

---
 web/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 8dbfae6..5af9da2 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -294,9 +294,9 @@ async fn compare(req: HttpRequest) -> HttpResponse {
 	}
 	let mut args = args.unwrap().into_inner();
 	// HTML decode the new and old branch names. TODO clean this up
-	args.new = html_escape::decode_html_entities(&args.new).to_string();
-	args.old = html_escape::decode_html_entities(&args.old).to_string();
-	args.path_pattern = html_escape::decode_html_entities(&args.path_pattern).to_string();
+	args.new = html_escape::decode_html_entities(&args.new).trim().to_string();
+	args.old = html_escape::decode_html_entities(&args.old).trim().to_string();
+	args.path_pattern = html_escape::decode_html_entities(&args.path_pattern).trim().to_string();
 
 	let repos = REPOS.iter().map(|r| r.key().clone()).collect();
 	// TODO dont do two lookups here…
-- 
2.43.0


From 78773692c701d71b7c5403ad9a97df9e7e61cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 28/32] fix: refuse revisions like 'HEAD@{0}~9' that do not
 exist

---
 core/src/lib.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 2831780..df108eb 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -292,16 +292,24 @@ fn git_resolve(
 
 /// Returns the commit hash of `rev` or `None` if it does not denote a commit.
 fn git_rev_parse(path: &Path, rev: &str) -> Result<Option<String>, String> {
-	let output = Command::new("git")
-		.args(["rev-parse", "--verify", "--quiet", "--end-of-options"])
-		.arg(format!("{}^{{commit}}", rev))
-		.current_dir(path)
-		.output()
-		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-
-	let hash = String::from_utf8_lossy(&output.stdout).trim().to_string();
-	let valid = !hash.is_empty() && hash.chars().all(|c| c.is_ascii_hexdigit());
-	Ok((output.status.success() && valid).then_some(hash))
+	let rev_parse = |rev: &str| -> Result<Option<String>, String> {
+		let output = Command::new("git")
+			.args(["-c", "core.disambiguate=committish"])
+			.args(["rev-parse", "--verify", "--quiet", "--end-of-options"])
+			.arg(rev)
+			.current_dir(path)
+			.output()
+			.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
+
+		let hash = String::from_utf8_lossy(&output.stdout).trim().to_string();
+		let valid = !hash.is_empty() && hash.chars().all(|c| c.is_ascii_hexdigit());
+		Ok((output.status.success() && valid).then_some(hash))
+	};
+	// Git reads `HEAD@{0}~9^{commit}` as a date if there is no `HEAD@{0}~9`. Therefore two steps.
+	match rev_parse(rev)? {
+		Some(object) => rev_parse(&format!("{}^{{commit}}", object)),
+		None => Ok(None),
+	}
 }
 
 /// Checks out `commit`, which `refname` was resolved to.
-- 
2.43.0


From ebbb99df7a7d455a02631813e426e45836f2d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 29/32] fix: do not answer 408 to requests that wait for their
 worker

The handlers block their worker while they compare. Another connection of
the same worker that is open already was answered with '408 Request Timeout'
when that took more than five seconds, without ever being read.
---
 web/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 5af9da2..046e66e 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -19,6 +19,7 @@ use serde::{Deserialize, Serialize};
 use std::{
 	path::{Path, PathBuf},
 	process::Command,
+	time::Duration,
 };
 
 use subweight_core::{
@@ -157,7 +158,10 @@ async fn main() -> std::io::Result<()> {
 			.service(compare_mrs)
 			.service(compare_commit)
 	})
-	.workers(4);
+	.workers(4)
+	// A request can have to wait for the comparisons that its worker is busy with. That is no fault
+	// of the client, so the default of five seconds would be far too short.
+	.client_request_timeout(Duration::from_secs(600));
 
 	let bound_server = if let Some(cert) = cmd.cert {
 		let mut builder = SslAcceptor::mozilla_intermediate(SslMethod::tls()).unwrap();
-- 
2.43.0


From 74c25640509e5b563c75a246d3928720aad29651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:00 +0000
Subject: [PATCH 30/32] fix: keep the chosen branches when the branches are
 fetched again

The list has pairs of a name and a hash, so that no name was ever found in it.
The choice was replaced by 'master', or by nothing if there is no such branch.
---
 web/static/root.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index 01b4834..99d19a8 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -40,7 +40,7 @@ function populate_branches(branches) {
 
     // Load the selected branch from local storage or master.
     var selected_first = localStorage.getItem(lsk_selected_first);
-    if (selected_first != null && branches.includes(selected_first)) {
+    if (selected_first != null && branches.some(([name]) => name === selected_first)) {
         console.debug("Setting first branch to " + selected_first);
         $('#firstSelect').val(selected_first).trigger('change');
     } else {
@@ -49,7 +49,7 @@ function populate_branches(branches) {
     }
 
     var selected_second = localStorage.getItem(lsk_selected_second);
-    if (selected_second != null && branches.includes(selected_second)) {
+    if (selected_second != null && branches.some(([name]) => name === selected_second)) {
         console.debug("Setting second branch to " + selected_second);
         $('#secondSelect').val(selected_second).trigger('change');
     } else {
-- 
2.43.0


From de3d847bca9f9b0e35c14e7a4c945fca2803c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:56 +0000
Subject: [PATCH 31/32] fix: encode the values of comparison links of the web
 forms

Branches like 'fix#12', 'a&b' or 'a+b' led to a comparison of something else.
---
 web/static/merge_requests.js |  4 +++-
 web/static/root.js           | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 46f21f1..4a61604 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -90,7 +90,9 @@ $(document).ready(function () {
 				$(row).dblclick(function() {
 					loading(true);
 					let params = new URLSearchParams(default_params(repo));
-					let url = "/compare?" + params.toString() + `&old=${mr.base.ref}&new=${mr.head.ref}`;
+					params.set("old", mr.base.ref);
+					params.set("new", mr.head.ref);
+					let url = "/compare?" + params.toString();
 					console.log("Opening: " + url);
 					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
 						loading(false);
diff --git a/web/static/root.js b/web/static/root.js
index 99d19a8..eab14f8 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -63,7 +63,7 @@ function load_branches(repo, fetch) {
     if (!(repo in branches) || fetch) {
         loading(true);
         console.log("Loading branches for " + repo);
-        $.getJSON("/branches?repo=" + repo + "&fetch=" + (fetch ? "true" : "false"), function (d) {
+        $.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=" + (fetch ? "true" : "false"), function (d) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
@@ -148,12 +148,12 @@ $(document).ready(function () {
         const repo = $('#repoSelect').val();
 
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
-        url += "&repo=" + repo;
-        url += "&old=" + $('#firstSelect').val();
-        url += "&new=" + $('#secondSelect').val();
+        url += "&repo=" + encodeURIComponent(repo);
+        url += "&old=" + encodeURIComponent($('#firstSelect').val());
+        url += "&new=" + encodeURIComponent($('#secondSelect').val());
 
         if (repo in path_pattern_presets) {
-            url += "&path_pattern=" + path_pattern_presets[repo];
+            url += "&path_pattern=" + encodeURIComponent(path_pattern_presets[repo]);
         } else {
             // Show an alert
             alert("No path pattern for '" + repo + "'");
-- 
2.43.0


From f26a7cfc2bef71746880cb6fcba93c0a2407920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 32/32] fix: list merge requests of deleted forks

GitHub reports no repository for them, which stopped the list there.
---
 web/static/merge_requests.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 4a61604..2dbaefd 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -109,10 +109,12 @@ $(document).ready(function () {
 			let disable = (function (mr) {
 				// Disable the row.
 				$(row).css('color', 'gray');
-				$(row).attr('title', 'Forks are unsupported. Remote: ' + mr['head']['repo']['owner']['login'] + ' != ' + owner);
+				$(row).attr('title', 'Forks are unsupported. Remote: ' + remote + ' != ' + owner);
 			});
 
-			if (mr['head']['repo']['owner']['login'] != owner) {
+			// There is no repository anymore if the fork was deleted.
+			let remote = mr['head']['repo']?.['owner']['login'];
+			if (remote != owner) {
 				$(row).css('color', 'gray');
 				disable(mr);
 			} else {
-- 
2.43.0

