//! C18, C19: the command line program.

use super::{
	compare::*,
	parse::{no_filter, params, Tmp},
};
use crate::{ensure, ensure_eq, lang::*, run::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{
	collections::BTreeMap,
	io::Read,
	path::{Path, PathBuf},
	process::{Command, Stdio},
	time::{Duration, Instant},
};
use subweight_core::{
	parse::pallet::ChromaticExtrinsic,
	compare_files, filter_changes, sort_changes, CompareMethod, Dimension, ExtrinsicDiff,
	FilterParams, RelativeChange, TotalDiff,
};

pub fn bin(name: &str) -> PathBuf {
	PathBuf::from(std::env::var("VERIF_BIN").unwrap_or("/verif/.build/bins/debug".into())).join(name)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Out {
	pub code: Option<i32>,
	pub stdout: String,
	pub stderr: String,
}

impl Out {
	pub fn ok(&self) -> bool {
		self.code == Some(0)
	}
	/// A clean refusal: an error status with a message and neither a panic nor a report.
	pub fn refused(&self, what: &str) -> Check {
		self.no_panic(what)?;
		ensure!(!self.ok(), "{what}: exit status 0, stdout {:?}", self.stdout);
		ensure!(self.code.is_some(), "{what}: killed by a signal");
		ensure!(!self.stderr.trim().is_empty(), "{what}: no error message");
		ensure!(self.stdout.trim().is_empty(), "{what}: stdout is {:?}", self.stdout);
		Ok(())
	}
	pub fn no_panic(&self, what: &str) -> Check {
		ensure!(
			self.code != Some(101) && !self.stderr.contains("panicked at"),
			"{what}: panic: {}",
			self.stderr
		);
		Ok(())
	}
}

/// Runs a command to its end; not ending is not judged.
pub fn run_cmd(cmd: &mut Command) -> Result<Out, Fail> {
	cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
	cmd.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
	let mut c = harness(cmd.spawn(), "spawn")?;
	let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
	let to = std::thread::spawn(move || {
		let mut b = vec![];
		let _ = o.read_to_end(&mut b);
		b
	});
	let te = std::thread::spawn(move || {
		let mut b = vec![];
		let _ = e.read_to_end(&mut b);
		b
	});
	let end = Instant::now() + Duration::from_secs(120);
	let mut nap = 200;
	let status = loop {
		if let Some(s) = harness(c.try_wait(), "wait")? {
			break s
		}
		if Instant::now() > end {
			let _ = c.kill();
			return Err(Fail::Harness(format!("{cmd:?} did not end in time")))
		}
		std::thread::sleep(Duration::from_micros(nap));
		nap = (nap * 3 / 2).min(5000);
	};
	let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
	Ok(Out { code: status.code(), stdout: s(to.join().unwrap()), stderr: s(te.join().unwrap()) })
}

pub fn subweight(args: &[String], cwd: &Path) -> Result<Out, Fail> {
	run_cmd(Command::new(bin("subweight")).args(args).current_dir(cwd))
}

/// As a user who may not read everything; `None` where this cannot be done.
fn subweight_as_nobody(args: &[String], cwd: &Path) -> Result<Option<Out>, Fail> {
	use std::{os::unix::process::CommandExt, sync::OnceLock};
	static CAN: OnceLock<bool> = OnceLock::new();
	let nobody = || {
		let mut c = Command::new(bin("subweight"));
		c.uid(65534).gid(65534);
		c
	};
	if !*CAN.get_or_init(|| run_cmd(nobody().arg("--help").current_dir("/")).is_ok_and(|o| o.ok())) {
		return Ok(None)
	}
	run_cmd(nobody().args(args).current_dir(cwd)).map(Some)
}

pub fn method_name(m: CompareMethod) -> &'static str {
	match m {
		CompareMethod::Base => "base",
		CompareMethod::GuessWorst => "guess-worst",
		CompareMethod::ExactWorst => "exact-worst",
		CompareMethod::Asymptotic => "asymptotic",
		CompareMethod::ExactAsymptotic => "exact-asymptotic",
	}
}

pub fn unit_name(u: Dimension) -> &'static str {
	match u {
		Dimension::Time => "time",
		Dimension::Proof => "proof",
	}
}

pub fn change_name(c: RelativeChange) -> &'static str {
	match c {
		RelativeChange::Unchanged => "unchanged",
		RelativeChange::Added => "added",
		RelativeChange::Removed => "removed",
		RelativeChange::Changed => "changed",
	}
}

pub const CHANGES: [RelativeChange; 4] = [
	RelativeChange::Unchanged,
	RelativeChange::Added,
	RelativeChange::Removed,
	RelativeChange::Changed,
];

// ---------------------------------------------------------------------------- Parsing of output

/// Removes the colour codes.
pub fn plain(s: &str) -> String {
	let mut out = String::new();
	let mut it = s.chars().peekable();
	while let Some(c) = it.next() {
		if c == '\x1b' && it.peek() == Some(&'[') {
			it.next();
			for c in it.by_ref() {
				if c.is_ascii_alphabetic() {
					break
				}
			}
		} else {
			out.push(c);
		}
	}
	out
}

type Rows = Vec<Vec<String>>;

/// The coloured pieces with their colours.
fn painted(s: &str) -> Vec<(&str, &str)> {
	s.split("\x1b[").skip(1).filter_map(|p| p.split_once('m')).filter(|p| p.0 != "0").map(|(c, t)| (c, t.trim())).collect()
}

/// The rows of an ASCII table, the header first.
pub fn parse_table(s: &str) -> Rows {
	s.lines()
		.filter(|l| l.starts_with('|') && l.ends_with('|') && l.len() > 1)
		.filter(|l| l.chars().any(|c| !matches!(c, '|' | '-' | '+' | '=' | ' ')) || l.contains(' '))
		.map(|l| l[1..l.len() - 1].split('|').map(|c| c.trim().to_string()).collect())
		.collect()
}

/// RFC 4180.
pub fn parse_csv(s: &str) -> Result<Rows, String> {
	let mut rows = vec![];
	let mut row = vec![];
	let mut cell = String::new();
	let mut it = s.chars().peekable();
	let mut quoted = false;
	while let Some(c) = it.next() {
		match c {
			'"' if quoted && it.peek() == Some(&'"') => {
				it.next();
				cell.push('"');
			},
			'"' if quoted => quoted = false,
			'"' if cell.is_empty() => quoted = true,
			',' if !quoted => row.push(std::mem::take(&mut cell)),
			'\r' if !quoted && it.peek() == Some(&'\n') => {},
			'\n' if !quoted => {
				row.push(std::mem::take(&mut cell));
				rows.push(std::mem::take(&mut row));
			},
			c => cell.push(c),
		}
	}
	if quoted {
		return Err("unterminated quote".into())
	}
	if !cell.is_empty() || !row.is_empty() {
		row.push(cell);
		rows.push(row);
	}
	rows.retain(|r| r.len() > 1 || !r[0].trim().is_empty());
	for r in &mut rows {
		for c in r.iter_mut() {
			*c = c.trim().to_string();
		}
	}
	Ok(rows)
}

/// The variables named in a cell.
pub fn parse_vars(cell: &str) -> BTreeMap<String, String> {
	let mut out = BTreeMap::new();
	let mut last = String::new();
	let mut word = String::new();
	for c in cell.chars().chain(" ".chars()) {
		if c.is_alphanumeric() || c == '_' || c == ':' && word.chars().any(|c| c.is_alphabetic()) {
			word.push(c);
			continue
		}
		let w = std::mem::take(&mut word);
		let w = w.trim_end_matches(':');
		if w.is_empty() || ["Scope", "vars", "Scalar", "Value"].contains(&w) {
			continue
		}
		if w.chars().all(|c| c.is_ascii_digit()) {
			out.insert(last.clone(), w.to_string());
		} else {
			last = w.to_string();
		}
	}
	out
}

// ------------------------------------------------------------------------------------------ C18

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) enum Prefix {
	Lit(String),
	Anchored(String),
	/// Everything up to the last of these.
	Upto(char),
	All,
}

impl Prefix {
	fn src(&self) -> String {
		match self {
			Prefix::Lit(s) => s.clone(),
			Prefix::Anchored(s) => format!("^{s}"),
			Prefix::Upto(c) => format!(".*{c}"),
			Prefix::All => "^.*$".into(),
		}
	}
	fn apply(&self, s: &str) -> String {
		match self {
			Prefix::Lit(p) => s.replace(p.as_str(), ""),
			Prefix::Anchored(p) => s.strip_prefix(p.as_str()).unwrap_or(s).to_string(),
			Prefix::Upto(c) => s.rsplit(*c).next().unwrap().to_string(),
			Prefix::All => String::new(),
		}
	}
}

pub(super) const FILES: [&str; 12] = [
	"pallet_balances.rs", "pallet_staking.rs", "frame_system.rs", "a.rs", "b.rs", "weights.rs",
	"with space.rs", "x,y.rs", "q\"uote.rs", "uni_ünï.rs", "UPPER.RS", "no_suffix",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) struct Options {
	method: u8,
	unit: u8,
	/// In percent; `true`: exactly the change of that row.
	threshold: (bool, f64),
	change: Option<Vec<u8>>,
	extrinsic: Option<Re>,
	pallet: Option<Re>,
	print_terms: bool,
	verbose: bool,
	prefix: Option<Prefix>,
}

impl Options {
	pub fn plain() -> Self {
		Options {
			method: 0,
			unit: 0,
			threshold: (false, 0.0),
			change: None,
			extrinsic: None,
			pallet: None,
			print_terms: false,
			verbose: false,
			prefix: None,
		}
	}
}

fn options() -> BoxedStrategy<Options> {
	(
		0u8..5,
		0u8..2,
		prop_oneof![
			4 => Just((false, 0.0)),
			2 => (0u32..100).prop_map(|t| (false, t as f64)),
			1 => (0.0f64..50.0).prop_map(|t| (false, t)),
			2 => (0u32..20).prop_map(|i| (true, i as f64)),
		],
		prop_oneof![4 => Just(None), 3 => vec(0u8..4, 1..6).prop_map(Some), 1 => Just(Some(vec![]))],
		(
			prop_oneof![3 => Just(None), 1 => re(vec!["transfer", "t", "_", "x", "all", "burn", ""]).prop_map(Some)],
			prop_oneof![3 => Just(None), 1 => re(vec!["pallet", ".rs", "a", "frame", "pallet_balances.rs", ""]).prop_map(Some)],
		),
		any::<bool>(),
		prop_oneof![4 => Just(false), 1 => Just(true)],
		prop_oneof![
			3 => Just(None),
			1 => select(vec!["pallet", "a", ".rs", "s", "_"]).prop_map(|s| Some(if s == ".rs" { Prefix::Anchored("pallet_".into()) } else { Prefix::Lit(s.into()) })),
			1 => select(vec!["pallet_", "frame", "x", "b"]).prop_map(|s| Some(Prefix::Anchored(s.into()))),
			1 => select(vec!['_', 'a', 'l']).prop_map(|c| Some(Prefix::Upto(c))),
			1 => Just(Some(Prefix::All)),
		],
	)
		.prop_map(|(method, unit, threshold, change, (extrinsic, pallet), print_terms, verbose, prefix)| Options {
			method, unit, threshold, change, extrinsic, pallet, print_terms, verbose, prefix,
		})
		.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ReportCase {
	calls: Calls,
	opts: Options,
	order: Vec<u8>,
}

fn report_case() -> BoxedStrategy<ReportCase> {
	let body = prop_oneof![6 => any_body(), 1 => affine(letters(20), 19)].boxed();
	(calls_in(FILES.to_vec(), pair(body, false), 10), options(), vec(any::<u8>(), 24))
		.prop_map(|(calls, opts, order)| ReportCase { calls, opts, order })
		.boxed()
}

/// Writes the files of one side and returns their paths in the generated order.
pub(super) fn place(tmp: &Tmp, calls: &Calls, new: bool, order: &[u8]) -> Result<Vec<String>, Fail> {
	let mut out = vec![];
	for (i, (name, f)) in calls.files(new).iter().enumerate() {
		let dir = order.get(i).copied().unwrap_or(0) % 3;
		let p = tmp.write(&format!("{}/{dir}/{name}", if new { "new" } else { "old" }), f.src())?;
		out.push((order.get(i + 12).copied().unwrap_or(0), p.display().to_string()));
	}
	out.sort();
	Ok(out.into_iter().map(|p| p.1).collect())
}

fn rank(c: RelativeChange) -> u8 {
	match c {
		RelativeChange::Unchanged => 0,
		RelativeChange::Added => 1,
		RelativeChange::Removed => 2,
		RelativeChange::Changed => 3,
	}
}

/// What a row of the report must show.
fn expected(row: &ExtrinsicDiff, o: &Options, unit: Dimension) -> Option<(Vec<String>, (u8, f64))> {
	let file = o.prefix.as_ref().map_or(row.file.clone(), |p| p.apply(&row.file));
	let t = row.term()?;
	let v = |v: Option<u128>| v.map(|v| unit.fmt_value(v)).unwrap_or_default();
	let change = match t.change {
		RelativeChange::Changed => format!("{:+.2}", t.percent),
		RelativeChange::Unchanged => "Unchanged".into(),
		RelativeChange::Added => "Added".into(),
		RelativeChange::Removed => "Removed".into(),
	};
	let mut cells = vec![file.trim().to_string(), row.name.clone(), v(t.old_v), v(t.new_v), change];
	if o.print_terms {
		let term = |t: &Option<subweight_core::term::SimpleTerm>| {
			t.as_ref().map(|t| t.to_string()).unwrap_or("-".into())
		};
		cells.extend([term(&t.old), term(&t.new), format!("{:?}", parse_vars(&format!("{:?}", t.scope)))]);
	}
	Some((cells, (rank(t.change), t.percent)))
}

pub(super) fn check_rows_shown(rows: Rows, diff: &TotalDiff, o: &Options, unit: Dimension, csv: bool, what: &str) -> Check {
	let mut header = vec!["File", "Extrinsic", "Old", "New"];
	let terms = ["Old Weight Term", "New Weight Term", "Used variables"];
	ensure!(!rows.is_empty(), "{what}: no header");
	let n = if o.print_terms { 8 } else { 5 };
	header.push(&rows[0].get(4).map(|s| s.as_str()).unwrap_or(""));
	if o.print_terms {
		header.extend(terms);
	}
	ensure_eq!(rows[0].iter().map(|s| s.as_str()).collect::<Vec<_>>(), header, "{what}: header");
	ensure_eq!(rows[0][4], if csv { "Change Percent" } else { "Change [%]" }, "{what}: header of the change");

	let mut got = vec![];
	let mut errors = vec![];
	for r in &rows[1..] {
		ensure!(r.len() == n, "{what}: row with {} columns instead of {n}: {r:?}", r.len());
		let mut r = r.clone();
		if r[4] == "ERROR" {
			errors.push(r[..2].to_vec());
			continue
		}
		for c in [2, 3] {
			if r[c] == "-" {
				r[c].clear();
			}
		}
		if o.print_terms {
			r[7] = format!("{:?}", parse_vars(&r[7]));
		}
		got.push(r);
	}
	let mut want: Vec<_> = diff.iter().filter_map(|r| expected(r, o, unit)).collect();
	// Worst first; the order of equal ones is not fixed.
	want.sort_by(|a, b| {
		(b.1 .0.cmp(&a.1 .0)).then(b.1 .1.partial_cmp(&a.1 .1).unwrap_or(std::cmp::Ordering::Equal))
	});
	ensure_eq!(got.len(), want.len(), "{what}: number of rows, {:?}", got);
	let key = |p: f64| (p * 1000.0) as i128;
	let mut left: Vec<Option<&(Vec<String>, (u8, f64))>> = want.iter().map(Some).collect();
	for (i, g) in got.iter().enumerate() {
		// Only a row of the same rank may be at this place.
		let at = &want[i].1;
		let hit = left.iter_mut().find(|w| {
			w.is_some_and(|w| &w.0 == g && w.1 .0 == at.0 && (key(w.1 .1) - key(at.1)).abs() <= 1)
		});
		match hit {
			Some(h) => *h = None,
			None => return Err(Fail::Violation(format!("{what}: row {i} is {g:?}, expected {:?}", want[i].0))),
		}
	}
	let mut failed: Vec<Vec<String>> = diff
		.iter()
		.filter(|r| r.error().is_some())
		.map(|r| {
			let file = o.prefix.as_ref().map_or(r.file.clone(), |p| p.apply(&r.file));
			vec![file.trim().to_string(), r.name.clone()]
		})
		.collect();
	failed.sort();
	errors.sort();
	if !csv || !errors.is_empty() {
		ensure_eq!(errors, failed, "{what}: failed rows");
	}
	Ok(())
}

/// What the program has to report.
pub(super) struct Plan {
	pub diff: TotalDiff,
	pub filter: FilterParams,
	pub method: CompareMethod,
	pub unit: Dimension,
}

pub(super) fn plan(old: Vec<ChromaticExtrinsic>, new: Vec<ChromaticExtrinsic>, o: &Options) -> Result<Plan, Fail> {
	let (method, unit) = (METHODS[o.method as usize % 5], UNITS[o.unit as usize % 2]);
	let mut filter = FilterParams {
		threshold: 0.0,
		change: o.change.as_ref().map(|c| c.iter().map(|i| CHANGES[*i as usize % 4]).collect()),
		extrinsic: o.extrinsic.as_ref().map(|r| r.src()),
		pallet: o.pallet.as_ref().map(|r| r.src()),
	};
	let all = compare_files(old, new, &params(method, unit), &filter)
		.map_err(|e| format!("comparison failed: {e}"))?;
	filter.threshold = match o.threshold {
		(true, i) => all
			.iter()
			.filter_map(|r| r.term())
			.map(|t| t.percent.abs())
			.filter(|p| p.is_finite())
			.nth(i as usize % all.len().max(1))
			.unwrap_or(0.0),
		(false, t) => t,
	};
	// Below a millionth of a percent there is no difference to zero.
	if filter.threshold < 1e-6 {
		filter.threshold = 0.0;
	}
	let mut diff = filter_changes(all, &filter);
	sort_changes(&mut diff);
	Ok(Plan { diff, filter, method, unit })
}

/// The options after the subcommand.
pub(super) fn option_args(plan: &Plan, o: &Options) -> Vec<String> {
	let mut base: Vec<String> = ["--method", method_name(plan.method), "--unit", unit_name(plan.unit)]
		.iter()
		.map(|s| s.to_string())
		.collect();
	let filter = &plan.filter;
	base.push(format!("--threshold={}", filter.threshold));
	for (flag, re) in [("extrinsic", &filter.extrinsic), ("pallet", &filter.pallet)] {
		base.extend(re.as_ref().map(|r| format!("--{flag}={r}")));
	}
	if let Some(cs) = &filter.change {
		base.push("--change".into());
		base.extend(cs.iter().map(|c| change_name(*c).to_string()));
	}
	if o.print_terms {
		base.push("--print-terms".into());
	}
	if o.verbose {
		base.push("--verbose".into());
	}
	base.extend(o.prefix.as_ref().map(|p| format!("--strip-path-prefix={}", p.src())));
	base
}

const FORMATS: [&str; 3] = ["human", "csv", "markdown"];

/// Runs the program with `args`, which start with two subcommands, in the given formats with and
/// without colour.
pub(super) fn judge(args: &[String], plan: &Plan, o: &Options, formats: &[&str], cwd: &Path, ctx: &mut Ctx) -> Check {
	let diff = &plan.diff;
	for format in formats {
		let mut texts = vec![];
		for color in [false, true] {
			let mut args = args.to_vec();
			args.insert(2, format!("--format={format}"));
			if !color {
				args.insert(2, "--no-color".into());
			}
			let out = subweight(&args, cwd)?;
			out.no_panic("report")?;
			let what = format!("{format} report of {args:?}");
			ensure!(out.ok(), "{what}: {}", out.stderr);
			if !color {
				ensure!(!out.stdout.contains('\x1b'), "{what}: escape codes in {:?}", out.stdout);
			}
			if color {
				let mut n = 0;
				for (code, text) in painted(&out.stdout) {
					let fits = match code {
						"31" => text == "Added" || text.starts_with('+'),
						"32" => text == "Removed" || text.starts_with('-'),
						"37" => text == "+0.00",
						_ => false,
					};
					ensure!(fits, "{what}: {text:?} has colour {code}");
					n += 1;
				}
				let want = diff.iter().filter_map(|r| r.term()).filter(|t| t.change != RelativeChange::Unchanged).count();
				ensure_eq!(n, want, "{what}: number of coloured changes");
			}
			let text = plain(&out.stdout);
			let rows = if *format == "csv" {
				parse_csv(&text).map_err(|e| format!("{what}: {e}"))?
			} else {
				parse_table(&text)
			};
			if diff.is_empty() {
				// Nothing but a note, which does not go to stdout when logging.
				ensure!(
					rows.is_empty() || rows.len() == 1 && *format == "csv",
					"{what}: rows although there is nothing to report: {rows:?}"
				);
				ctx.label("nothing to report");
			} else {
				check_rows_shown(rows.clone(), diff, o, plan.unit, *format == "csv", &what)?;
			}
			texts.push(rows);
			ctx.evals(1);
		}
		ensure_eq!(texts[0], texts[1], "{format}: cells without and with colour");
	}
	for r in diff {
		ctx.label(match r.term() {
			None => "failed rows".to_string(),
			Some(t) => format!("{:?} rows", t.change),
		});
	}
	if diff.len() > 1 {
		ctx.nontrivial();
	}
	Ok(())
}

fn file_args(old: Vec<String>, new: Vec<String>) -> Vec<String> {
	let mut a = vec!["--old".to_string()];
	a.extend(old);
	a.push("--new".into());
	a.extend(new);
	a
}

fn check_report(c: &ReportCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c18")?;
	let old = place(&tmp, &c.calls, false, &c.order)?;
	let new = place(&tmp, &c.calls, true, &c.order)?;
	let plan = plan(c.calls.side(false)?, c.calls.side(true)?, &c.opts)?;
	let mut args = vec!["compare".to_string(), "files".into()];
	args.extend(option_args(&plan, &c.opts));
	args.extend(file_args(old, new));
	judge(&args, &plan, &c.opts, &FORMATS, &tmp.0, ctx)
}

// ------------------------------------------------------------- The same for two commits (C18, C20)

const TREE: [&str; 10] = [
	"pallet_a.rs", "weights/pallet_a.rs", "weights/pallet_b.rs", "weights/deep/pallet_b.rs", "runtime/x/src/weights/pallet_c.rs",
	"runtime/y/src/weights/pallet_c.rs", "runtime/y/src/weights/frame_system.rs", "with space/x,y.rs", "a/q\"uote.rs", "uni/ünï.rs",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) struct CommitReport {
	calls: Calls,
	opts: Options,
	pattern: u8,
	/// Files without a weight implementation, on either side.
	junk: Vec<(u8, bool, u8)>,
	format: u8,
	names: (u8, u8),
}

const TREE_PATTERNS: [&str; 5] = ["**/*.rs", "weights/**/*.rs,runtime/**/*.rs", "**/pallet_?.rs", "*/*.rs,*.rs", "runtime/*/src/weights/*.rs"];

pub(super) fn commit_report() -> BoxedStrategy<CommitReport> {
	let junk = prop_oneof![2 => Just(vec![]), 1 => vec((0u8..4, any::<bool>(), any::<u8>()), 1..3)];
	(calls_in(TREE.to_vec(), pair(any_body(), false), 10), options(), prop_oneof![2 => Just(0u8), 1 => 0u8..5], junk, 0u8..3, (0u8..3, 0u8..3))
		.prop_map(|(calls, opts, pattern, junk, format, names)| CommitReport { calls, opts, pattern, junk, format, names })
		.boxed()
}

pub(super) fn check_commit_report(c: &CommitReport, ctx: &mut Ctx) -> Check {
	use crate::git::*;
	let tmp = Tmp::new("c20r")?;
	let pattern = TREE_PATTERNS[c.pattern as usize % TREE_PATTERNS.len()];
	let mut h = History::default();
	let mut sides = vec![];
	for new in [false, true] {
		let mut tree: Tree = c.calls.files(new).into_iter().map(|(p, f)| (p, f.src())).collect();
		let mut parsed = vec![];
		for p in select_files(pattern, tree.keys()) {
			parsed.extend(
				subweight_core::parse::pallet::parse_content(p.clone(), tree[p].clone())
					.map_err(|e| Fail::Violation(format!("template file rejected: {e}")))?,
			);
		}
		sides.push(parsed);
		for (what, side, at) in &c.junk {
			if *side == new {
				let text = ["", "not rust {", "pub fn x() {}\n", "impl WeightInfo for () { fn a() -> Weight { b - c } }\n"][*what as usize % 4];
				let path = ["lib.rs", "weights/lib.rs", "runtime/x/src/weights/pallet_z.rs"][*at as usize % 3];
				tree.insert(path.into(), text.into());
			}
		}
		tree.insert("README.md".into(), format!("{new}"));
		h.commits.push(Commit { parents: if new { vec![0] } else { vec![] }, tree, hash: String::new() });
	}
	h.branches.insert("main".into(), 1);
	h.branches.insert("old-branch".into(), 0);
	h.tags.insert("v1".into(), (0, true));
	h.tags.insert("v2".into(), (1, false));
	let dir = local(&tmp, "repo", &mut h, ["main", "old-branch"][c.pattern as usize / 2 % 2])?;
	let old = ["old-branch", "v1", &h.commits[0].hash][c.names.0 as usize % 3].to_string();
	let new = ["main", "v2", &h.commits[1].hash][c.names.1 as usize % 3].to_string();

	let mut sides = sides.into_iter();
	let plan = plan(sides.next().unwrap(), sides.next().unwrap(), &c.opts)?;
	let mut args = vec!["compare".to_string(), "commits".into(), old, new];
	args.push(format!("--repo={}", dir.display()));
	args.push(format!("--path-pattern={pattern}"));
	if !c.junk.is_empty() {
		args.push("--ignore-errors".into());
	}
	args.extend(option_args(&plan, &c.opts));
	judge(&args, &plan, &c.opts, &FORMATS[c.format as usize % 3..][..1], &tmp.0, ctx)
}

pub(super) fn commit_reports(quick: u64, thorough: u64) -> Box<dyn Rel> {
	rel_slow(
		"reports of commits",
		"generated weight files as two commits of a repository, and files that are none, with every option and one format; non-trivial: at least two rows",
		quick,
		thorough,
		100,
		commit_report,
		check_commit_report,
	)
}

// ------------------------------------------------------- Order and filters, for files and commits

/// Names that are the same for files and in a repository.
const FLAT: [&str; 6] = ["pallet_balances.rs", "frame_system.rs", "a.rs", "with space.rs", "x,y.rs", "uni_ünï.rs"];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) struct Shown {
	calls: Calls,
	opts: Options,
	format: u8,
}

pub(super) fn shown(filters: bool) -> BoxedStrategy<Shown> {
	let p = prop_oneof![3 => pair(any_body(), false), 1 => pair(affine(letters(3), 3), false)];
	(calls_in(FLAT.to_vec(), p.boxed(), 12), options(), 0u8..3)
		.prop_map(move |(calls, o, format)| {
			let mut opts = Options { method: o.method, unit: o.unit, print_terms: o.print_terms, ..Options::plain() };
			if filters {
				opts.threshold = o.threshold;
				opts.change = o.change.filter(|c| !c.is_empty());
			}
			Shown { calls, opts, format }
		})
		.boxed()
}

/// What the program shows of files and of commits, row by row, along with the library's rows: all
/// of the comparison, with the threshold and the types asked for. Errors are left out in CSV.
pub(super) struct Seen {
	pub what: String,
	pub all: TotalDiff,
	pub filter: FilterParams,
	pub rows: Vec<ExtrinsicDiff>,
	pub csv: bool,
}

pub(super) fn seen(c: &Shown) -> Result<Vec<Seen>, Fail> {
	use crate::git::*;
	let tmp = Tmp::new("c15")?;
	let format = FORMATS[c.format as usize % 3];
	let mut out = vec![];
	for commits in [false, true] {
		let plan = plan(c.calls.side(false)?, c.calls.side(true)?, &c.opts)?;
		let all = compare_files(c.calls.side(false)?, c.calls.side(true)?, &params(plan.method, plan.unit), &no_filter())
			.map_err(|e| format!("comparison failed: {e}"))?;
		let mut args: Vec<String> = vec!["compare".into()];
		if commits {
			let mut h = History::default();
			for new in [false, true] {
				let mut tree: Tree = c.calls.files(new).into_iter().map(|(p, f)| (p, f.src())).collect();
				tree.insert("README.md".into(), format!("{new}"));
				h.commits.push(Commit { parents: if new { vec![0] } else { vec![] }, tree, hash: String::new() });
			}
			h.branches.insert("main".into(), 1);
			h.branches.insert("old".into(), 0);
			let dir = local(&tmp, "repo", &mut h, "main")?;
			args.extend(["commits", "old", "main", "--path-pattern=**/*.rs"].map(String::from));
			args.push(format!("--repo={}", dir.display()));
			args.extend(option_args(&plan, &c.opts));
		} else {
			args.push("files".into());
			args.extend(option_args(&plan, &c.opts));
			args.extend(file_args(place(&tmp, &c.calls, false, &[])?, place(&tmp, &c.calls, true, &[])?));
		}
		args.insert(2, "--no-color".into());
		args.insert(2, format!("--format={format}"));
		let o = subweight(&args, &tmp.0)?;
		let what = format!("{args:?}");
		o.no_panic(&what)?;
		ensure!(o.ok(), "{what}: {}", o.stderr);
		let cells = if format == "csv" { parse_csv(&o.stdout)? } else { parse_table(&o.stdout) };
		let mut rows = vec![];
		for r in cells.iter().skip(1) {
			ensure!(r.len() >= 5, "{what}: row {r:?}");
			match all.iter().find(|d| d.file == r[0] && d.name == r[1]) {
				Some(d) => rows.push(d.clone()),
				None => return Err(Fail::Violation(format!("{what}: row {r:?} for no call of the comparison"))),
			}
		}
		out.push(Seen { what, all, filter: plan.filter, rows, csv: format == "csv" });
	}
	Ok(out)
}

pub fn c18() -> Prop {
	Prop {
		id: "C18",
		rels: vec![rel_slow(
			"reports",
			"generated old and new weight files with every option, run in all three formats with and without colour; non-trivial: at least two rows",
			2_000,
			60_000,
			150,
			report_case,
			check_report,
		), commit_reports(600, 12_000)],
		assumptions: vec!["the library's comparison is the reference for the program's report", "file names without vertical bars and line breaks"],
	}
}

// ------------------------------------------------------------------------------------------ C19

#[derive(Debug, Clone, Serialize, Deserialize)]
enum InFile {
	Good(WFile),
	Empty,
	Text(String),
	NoImpl,
	Missing,
	/// A weight file with bytes at some place where any text would be allowed.
	NotUtf8(WFile, u8),
	Directory,
	Storage,
	/// One function that is no weight.
	Foreign(WFile),
	Truncated(WFile, u8),
	/// A link to a weight file.
	Link(WFile),
	/// A link to nothing, to itself, to a directory or to no regular file.
	BadLink(u8),
	/// A weight file that only its owner may read; the program runs as somebody else.
	Unreadable(WFile),
}

impl InFile {
	fn good(&self) -> bool {
		matches!(self, InFile::Good(_) | InFile::Link(_))
	}
	fn place(&self, tmp: &Tmp, rel: &str) -> Result<String, Fail> {
		let p = match self {
			InFile::Good(f) => tmp.write(rel, f.src())?,
			InFile::Empty => tmp.write(rel, "")?,
			InFile::Text(s) => tmp.write(rel, s)?,
			InFile::NoImpl => tmp.write(rel, "pub struct WeightInfo;\nimpl Foo { fn a() -> Weight { Weight::zero() } }\n")?,
			InFile::Missing => tmp.0.join(rel),
			InFile::NotUtf8(f, n) => {
				const BAD: [&[u8]; 5] = [b"\xff\xfe", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"caf\xe9"];
				let bad = BAD[*n as usize / 4 % 5];
				let src = f.src().into_bytes();
				let b = match n % 4 {
					0 => [&src, &b"\n// "[..], bad, b"\n"].concat(),
					1 => [&b"// "[..], bad, b"\n", &src].concat(),
					2 => [&src, &b"\nconst X: &str = \""[..], bad, b"\";\n"].concat(),
					_ => [&b"/* "[..], bad, b" */\n", &src].concat(),
				};
				tmp.write(rel, b)?
			},
			InFile::Directory => {
				let p = tmp.0.join(rel);
				harness(std::fs::create_dir_all(&p), "scratch directory")?;
				p
			},
			InFile::Storage => tmp.write(
				rel,
				"pub mod constants { parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 20_000 * constants::WEIGHT_PER_NANOS, write: 90_000 * constants::WEIGHT_PER_NANOS, }; } }\n",
			)?,
			InFile::Foreign(f) => {
				let s = f.src();
				let i = s.rfind('}').unwrap();
				tmp.write(rel, format!("{}\tfn foreign() -> Weight {{ frobnicate(1) - 2 }}\n}}\n", &s[..i]))?
			},
			InFile::Truncated(f, n) => {
				let s = f.src();
				// Cuts the closing brace of the impl in any case.
				let i = s.trim_end().len() - 1 - *n as usize % 3;
				tmp.write(rel, s.get(..i).unwrap_or(""))?
			},
			InFile::Link(f) => {
				let to = tmp.write(&format!("{rel}.real"), f.src())?;
				harness(std::os::unix::fs::symlink(&to, tmp.0.join(rel)), "link")?;
				tmp.0.join(rel)
			},
			InFile::BadLink(n) => {
				let p = tmp.write(rel, "")?;
				harness(std::fs::remove_file(&p), "link")?;
				let own = p.display().to_string();
				let to = ["nowhere", &own, "/dev/null", ".", "../nowhere/at.rs"][*n as usize % 5];
				harness(std::os::unix::fs::symlink(to, &p), "link")?;
				p
			},
			InFile::Unreadable(f) => {
				let p = tmp.write(rel, f.src())?;
				harness(std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o000)), "permissions")?;
				p
			},
		};
		Ok(p.display().to_string())
	}
}

fn in_file(good: u32) -> BoxedStrategy<InFile> {
	prop_oneof![
		good => wfile(3).prop_map(InFile::Good),
		1 => Just(InFile::Empty),
		1 => select(vec!["hello", "fn f() {", "{}", "\"", "/*", "impl WeightInfo for () {", "\0", "use a::b;", "// license", "// SPDX-License-Identifier: Apache-2.0\n", "/* a */\n", "//! A file.\n", "/// A\n",
			"// a\n\n// b\n", " ", "\n\n", "\u{feff}", "#![allow(unused)]\n", "#!/bin/sh\n", "mod a;", "mod a {}", ";", "// impl WeightInfo for () { fn a() -> Weight { Weight::zero() } }\n"])
			.prop_map(|s| InFile::Text(s.into())),
		1 => Just(InFile::NoImpl),
		1 => Just(InFile::Missing),
		1 => (wfile(2), any::<u8>()).prop_map(|(f, n)| InFile::NotUtf8(f, n)),
		1 => Just(InFile::Directory),
		1 => Just(InFile::Storage),
		1 => wfile(2).prop_map(InFile::Foreign),
		1 => (wfile(2), any::<u8>()).prop_map(|(f, n)| InFile::Truncated(f, n)),
		1 => wfile(2).prop_map(InFile::Link),
		1 => any::<u8>().prop_map(InFile::BadLink),
		1 => wfile(2).prop_map(InFile::Unreadable),
	]
	.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FaultCase {
	old: Vec<InFile>,
	new: Vec<InFile>,
	method: u8,
	unit: u8,
	format: u8,
	terms: bool,
}

fn fault_case() -> BoxedStrategy<FaultCase> {
	let side = |good| vec(in_file(good), 1..5);
	let long = |good| vec(in_file(good), 5..20);
	prop_oneof![10 => (side(9), side(9)), 10 => (side(40), side(40)), 1 => (long(200), long(200)), 1 => (long(200), side(200)), 1 => (long(20), long(400))]
		.prop_flat_map(|(old, new)| (Just(old), Just(new), 0u8..5, 0u8..2, 0u8..3, any::<bool>()))
		.prop_map(|(old, new, method, unit, format, terms)| FaultCase { old, new, method, unit, format, terms })
		.boxed()
}

fn check_faults(c: &FaultCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c19")?;
	let put = |v: &Vec<InFile>, side: &str| -> Result<Vec<(String, bool)>, Fail> {
		v.iter()
			.enumerate()
			.map(|(i, f)| Ok((f.place(&tmp, &format!("{side}/p{i}.rs"))?, f.good())))
			.collect()
	};
	let (old, new) = (put(&c.old, "old")?, put(&c.new, "new")?);
	let bad = old.iter().chain(&new).filter(|f| !f.1).count();
	let base = |ignore: bool| -> Vec<String> {
		let mut a: Vec<String> = vec!["compare".into(), "files".into()];
		a.push(format!("--method={}", method_name(METHODS[c.method as usize % 5])));
		a.push(format!("--unit={}", unit_name(UNITS[c.unit as usize % 2])));
		a.push(format!("--format={}", ["human", "csv", "markdown"][c.format as usize % 3]));
		a.push("--threshold=0".into());
		if c.terms {
			a.push("--print-terms".into());
		}
		if ignore {
			a.push("--ignore-errors".into());
		}
		a
	};
	let with = |mut a: Vec<String>, only_good: bool| {
		for (flag, fs) in [("--old", &old), ("--new", &new)] {
			a.push(flag.into());
			a.extend(fs.iter().filter(|f| f.1 || !only_good).map(|f| f.0.clone()));
		}
		a
	};
	let other_user = c.old.iter().chain(&c.new).any(|f| matches!(f, InFile::Unreadable(_)));
	if other_user {
		if subweight_as_nobody(&["--help".into()], &tmp.0)?.is_none() {
			ctx.label("no other user");
			return Ok(())
		}
		ctx.label("unreadable file");
	}
	let subweight = |args: &[String], cwd: &Path| -> Result<Out, Fail> {
		if other_user {
			return Ok(subweight_as_nobody(args, cwd)?.unwrap())
		}
		subweight(args, cwd)
	};
	let strict = subweight(&with(base(false), false), &tmp.0)?;
	let lenient = subweight(&with(base(true), false), &tmp.0)?;
	let rest = subweight(&with(base(false), true), &tmp.0)?;
	let what = format!("{:?}", with(base(false), false));
	rest.no_panic(&what)?;
	ensure!(rest.ok(), "{what}: valid files are refused: {}", rest.stderr);
	lenient.no_panic(&what)?;
	ensure!(lenient.ok(), "{what}: with --ignore-errors: {}", lenient.stderr);
	ensure_eq!(lenient.stdout, rest.stdout, "{what}: report with --ignore-errors against that of the valid files");
	if bad > 0 {
		strict.refused(&what)?;
		ctx.nontrivial();
		ctx.label(format!("{} bad files", bad.min(4)));
	} else {
		ensure_eq!(strict, rest, "{what}: two equal runs");
		ctx.label("all good");
	}

	// Parsing only.
	let all: Vec<_> = old.iter().chain(&new).collect();
	for fs in [&all[..], &all[..1], &all[..old.len()]] {
		let mut a: Vec<String> = vec!["parse".into(), "files".into()];
		a.extend(fs.iter().map(|f| f.0.clone()));
		let out = subweight(&a, &tmp.0)?;
		out.no_panic("parse files")?;
		if fs.iter().all(|f| f.1) {
			ensure!(out.ok(), "{a:?}: {}", out.stderr);
			let last = out.stdout.lines().last().unwrap_or("");
			let n: Vec<&str> = last.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
			ensure_eq!(n, [fs.len().to_string()], "{a:?} reports {:?}", out.stdout);
		} else {
			ensure!(!out.ok(), "{a:?} succeeds: {:?}", out.stdout);
			ensure!(!out.stderr.trim().is_empty(), "{a:?}: no message");
			ensure!(!out.stdout.contains("success"), "{a:?}: {:?}", out.stdout);
		}
		ctx.evals(1);
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct OptionCase {
	files: (WFile, WFile),
	same: bool,
	/// Arguments to add; or, with an empty value, an option to leave out.
	bad: (String, String),
	at_end: bool,
	verbose: bool,
}

fn option_case() -> BoxedStrategy<OptionCase> {
	let word = "[a-z]{1,8}(-[a-z]{1,5})?".boxed();
	let not_in = move |names: &'static [&'static str]| {
		prop_oneof![
			4 => word.clone(),
			2 => (select(names.to_vec()), "[a-z0-9 _-]{1,2}").prop_map(|(n, s)| format!("{n}{s}")),
			1 => select(names.to_vec()).prop_map(|n| n[..n.len() - 1].to_string()),
			1 => select(names.to_vec()).prop_map(|n| n.replace('-', "_") + if n.contains('-') { "" } else { "_" }),
			1 => Just(String::new()),
			1 => Just("0".into()),
		]
		.prop_filter("documented", move |s: &String| !names.iter().any(|n| n.eq_ignore_ascii_case(s)))
		.boxed()
	};
	let opt = |name: &'static str, v: BoxedStrategy<String>| v.prop_map(move |v| (name.to_string(), v)).boxed();
	let bad = prop_oneof![
		opt("method", not_in(&["base", "guess-worst", "exact-worst", "asymptotic", "exact-asymptotic"])),
		opt("unit", not_in(&["time", "proof", "weight"])),
		opt("format", not_in(&["human", "brief-human", "csv", "json", "markdown"])),
		opt("format", select(vec!["brief-human".to_string(), "json".into(), "JSON".into()]).boxed()),
		opt("change", not_in(&["unchanged", "added", "removed", "changed"])),
		opt("threshold", select(vec!["", "x", "5%", "1,5", "0x10", "--", "1e", "five"]).prop_map(String::from).boxed()),
		opt("extrinsic", bad_re().prop_map(|r| r.src()).boxed()),
		opt("pallet", bad_re().prop_map(|r| r.src()).boxed()),
		opt("strip-path-prefix", bad_re().prop_map(|r| r.src()).boxed()),
		"[a-z]{3,9}".prop_map(|s| (format!("zz-{s}"), "1".into())),
		select(vec!["method", "old", "new"]).prop_map(|s| (format!("!{s}"), String::new())),
	];
	(wfile(3), wfile(3), any::<bool>(), bad, any::<bool>(), prop_oneof![3 => Just(false), 1 => Just(true)])
		.prop_map(|(a, b, same, bad, at_end, verbose)| OptionCase { files: (a, b), same, bad, at_end, verbose })
		.boxed()
}

fn check_option(c: &OptionCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c19o")?;
	let old = tmp.write("old/p.rs", c.files.0.src())?.display().to_string();
	let new = tmp.write("new/p.rs", if c.same { &c.files.0 } else { &c.files.1 }.src())?.display().to_string();
	let build = |bad: bool| {
		let mut a: Vec<String> = vec!["compare".into(), "files".into()];
		let mut opts = vec![("method", "--method=base".to_string()), ("old", format!("--old={old}")), ("new", format!("--new={new}"))];
		let (name, v) = &c.bad;
		if bad {
			match name.strip_prefix('!') {
				Some(n) => opts.retain(|o| o.0 != n),
				None => {
					opts.retain(|o| o.0 != name);
					let o = ("x", format!("--{name}={v}"));
					if c.at_end {
						opts.push(o);
					} else {
						opts.insert(0, o);
					}
				},
			}
		}
		a.extend(opts.into_iter().map(|o| o.1));
		if c.verbose {
			a.insert(0, "--verbose".into());
		}
		a
	};
	let good = subweight(&build(false), &tmp.0)?;
	ensure!(good.ok(), "{:?}: {}", build(false), good.stderr);
	let bad = build(true);
	let out = subweight(&bad, &tmp.0)?;
	out.refused(&format!("{bad:?}"))?;
	ctx.nontrivial();
	ctx.label(c.bad.0.split('-').next().unwrap().to_string());
	Ok(())
}

pub fn c19() -> Prop {
	Prop {
		id: "C19",
		rels: vec![
			rel_slow(
				"bad files",
				"old and new file lists with valid, malformed, missing, undecodable and foreign files in all positions, compared strictly, leniently and without the bad ones, and parsed; non-trivial: a bad file",
				2_500,
				80_000,
				150,
				fault_case,
				check_faults,
			),
			rel_slow(
				"bad options",
				"a valid invocation with one option made invalid or left out; all are non-trivial",
				5_000,
				100_000,
				100,
				option_case,
				check_option,
			),
		],
		assumptions: vec!["files that may not be read are checked as an unprivileged user, where the sandbox allows to run as one"],
	}
}
