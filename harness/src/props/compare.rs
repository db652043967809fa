//! C09-C17: comparing extrinsics and files.

use super::parse::{no_filter, params};
use crate::{ensure, ensure_eq, lang::*, run::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use subweight_core::{
	compare_extrinsics, compare_files, filter_changes,
	parse::pallet::{parse_content, ChromaticExtrinsic},
	scope::SimpleScope,
	sort_changes,
	term::SimpleTerm,
	CompareMethod, Dimension, ExtrinsicDiff, FilterParams, RelativeChange, TermChange, TermDiff,
	TotalDiff,
};

pub const METHODS: [CompareMethod; 5] = [
	CompareMethod::Base,
	CompareMethod::GuessWorst,
	CompareMethod::ExactWorst,
	CompareMethod::ExactAsymptotic,
	CompareMethod::Asymptotic,
];
pub const UNITS: [Dimension; 2] = [Dimension::Time, Dimension::Proof];

pub fn prices(unit: Dimension) -> (u128, u128) {
	// 25 us and 100 us, in pico seconds; storage has no proof size of its own.
	match unit {
		Dimension::Time => (25_000_000, 100_000_000),
		Dimension::Proof => (0, 0),
	}
}

pub fn parse_fun(f: &Fun, pallet: &str) -> Result<ChromaticExtrinsic, Fail> {
	let mut e = parse_content(pallet.into(), f.file())
		.map_err(|e| Fail::Violation(format!("template function rejected: {e}")))?;
	ensure_eq!(e.len(), 1, "functions parsed from {}", f.src());
	Ok(e.remove(0))
}

fn sides(p: &Pair, pallet: &str) -> Result<(Vec<ChromaticExtrinsic>, Vec<ChromaticExtrinsic>), Fail> {
	let one = |f: &Option<Fun>| -> Result<Vec<ChromaticExtrinsic>, Fail> {
		f.as_ref().map(|f| parse_fun(f, pallet)).transpose().map(|e| e.into_iter().collect())
	};
	Ok((one(&p.old)?, one(&p.new)?))
}

fn compare_pair(p: &Pair, method: CompareMethod, unit: Dimension) -> Result<ExtrinsicDiff, Fail> {
	let (o, n) = sides(p, "pallet_x.rs")?;
	let mut d = compare_files(o, n, &params(method, unit), &no_filter())
		.map_err(|e| Fail::Violation(format!("comparison failed as a whole: {e}")))?;
	ensure_eq!(d.len(), 1, "rows of a single call");
	Ok(d.remove(0))
}

pub fn comps(p: &Pair) -> Vec<String> {
	let mut v: Vec<String> =
		p.old.iter().chain(&p.new).flat_map(|f| f.body.vars()).collect();
	v.sort();
	v.dedup();
	v
}

fn ranges(p: &Pair, c: &str) -> (Option<(u32, u32)>, Option<(u32, u32)>) {
	(p.old.as_ref().and_then(|f| f.range(c)), p.new.as_ref().and_then(|f| f.range(c)))
}

/// Smallest minimum and largest maximum, guessed if there is none.
pub fn bounds(p: &Pair, c: &str) -> (u32, u32) {
	match ranges(p, c) {
		(Some(a), Some(b)) => (a.0.min(b.0), a.1.max(b.1)),
		(Some(a), None) | (None, Some(a)) => a,
		(None, None) => (0, 100),
	}
}

fn exact(p: &Pair, c: &str) -> bool {
	match ranges(p, c) {
		(Some(a), Some(b)) => a == b,
		(None, None) => false,
		_ => true,
	}
}

fn is_exact(m: CompareMethod) -> bool {
	matches!(m, CompareMethod::ExactWorst | CompareMethod::ExactAsymptotic)
}

fn is_worst(m: CompareMethod) -> bool {
	matches!(m, CompareMethod::ExactWorst | CompareMethod::GuessWorst)
}

fn fails(p: &Pair, m: CompareMethod) -> bool {
	let c = comps(p);
	c.len() > 16 || is_exact(m) && c.iter().any(|c| !exact(p, c))
}

/// The value of one side, `None` beyond 64 bits.
fn value(f: &Fun, env: &Env, unit: Dimension) -> Option<u128> {
	let (r, w) = prices(Dimension::Time);
	let (t, p) = f.body.eval(env, r, w)?;
	Some(if unit == Dimension::Time { t } else { p })
}

fn reported(c: &TermChange) -> Result<Env, Fail> {
	c.scope
		.as_vec()
		.into_iter()
		.map(|(k, v)| match v {
			SimpleTerm::Scalar(v) | SimpleTerm::Value(v) => Ok((k, v)),
			v => Err(Fail::Violation(format!("variable {k} is reported as {v:?}"))),
		})
		.collect()
}

pub fn rel_change(old: u128, new: u128) -> f64 {
	if old == new {
		0.0
	} else if old == 0 {
		f64::INFINITY
	} else {
		let (o, n) = (old as f64, new as f64);
		100.0 * (n - o) / o
	}
}

pub fn near(a: f64, b: f64) -> bool {
	a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) && a.is_finite() && b.is_finite()
}

// ------------------------------------------------------------------------------------------ C09

pub fn any_body() -> BoxedStrategy<Body> {
	prop_oneof![
		3 => template_body(),
		1 => plain_weight(3).prop_map(Body::Chroma),
		1 => legacy(3).prop_map(Body::Legacy),
		1 => affine(letters(5), 2),
	]
	.boxed()
}

fn check_points(p: &Pair, ctx: &mut Ctx) -> Check {
	let cs = comps(p);
	for unit in UNITS {
		for m in [CompareMethod::Base, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic] {
			if fails(p, m) {
				ctx.label("failing method skipped");
				continue
			}
			let mut env: Env = Env::new();
			for c in &cs {
				let (lo, hi) = bounds(p, c);
				env.insert(c.clone(), if m == CompareMethod::Base { lo } else { hi } as u128);
			}
			let row = compare_pair(p, m, unit)?;
			let Some(t) = row.term() else {
				return Err(Fail::Violation(format!("{m:?} in {unit:?} failed: {:?} for {p:?}", row.error())))
			};
			for (side, f, got) in [("old", &p.old, t.old_v), ("new", &p.new, t.new_v)] {
				let want = match f {
					None => None,
					Some(f) => match value(f, &env, unit) {
						None => {
							ctx.label("beyond 64 bits");
							continue
						},
						v => v,
					},
				};
				ensure_eq!(got, want, "{} value of {:?} by {:?} in {:?}", side, p, m, unit);
				ctx.evals(1);
			}
			let mut want = env;
			let (r, w) = prices(unit);
			want.insert("READ".into(), r);
			want.insert("WRITE".into(), w);
			ensure_eq!(reported(t)?, want, "variables of {:?} by {:?} in {:?}", p, m, unit);
			ensure_eq!(t.method, m, "reported method");
			if !cs.is_empty() && p.old != p.new {
				ctx.nontrivial();
			}
		}
	}
	let kinds: BTreeSet<&str> = cs
		.iter()
		.map(|c| match ranges(p, c) {
			(Some(a), Some(b)) if a == b => "same range in both",
			(Some(_), Some(_)) => "different ranges",
			(None, None) => "no range",
			_ => "range in one version",
		})
		.collect();
	for k in kinds {
		ctx.label(k);
	}
	Ok(())
}

pub fn c09() -> Prop {
	Prop {
		id: "C09",
		rels: vec![rel(
			"one-point methods",
			"pairs of versions with independently annotated ranges, compared by the base and both asymptotic methods in both dimensions; non-trivial: a component occurs and the versions differ",
			80_000,
			600_000,
			|| pair(any_body(), false),
			check_points,
		)],
		assumptions: vec!["values beyond 64 bits are out of the domain"],
	}
}

// ------------------------------------------------------------------------------------------ C10

#[derive(Debug, Clone, Serialize, Deserialize)]
struct WorstCase {
	pair: Pair,
	/// Interior points in 1/65536 of the ranges.
	points: Vec<Vec<u16>>,
}

fn worst_case(n: usize) -> BoxedStrategy<WorstCase> {
	let body = if n == 0 {
		prop_oneof![template_v2().prop_map(Body::Chroma), template_v1().prop_map(Body::Legacy)].boxed()
	} else {
		affine(letters(n), 4)
	};
	(prop_oneof![2 => pair(body.clone(), false), 1 => pair(body, true)], vec(vec(any::<u16>(), 26), 12))
		.prop_map(|(pair, points)| WorstCase { pair, points })
		.boxed()
}

fn check_worst(c: &WorstCase, ctx: &mut Ctx) -> Check {
	let p = &c.pair;
	let (Some(old), Some(new)) = (&p.old, &p.new) else {
		ctx.label("one side only");
		return Ok(())
	};
	let cs = comps(p);
	if cs.len() > 16 {
		ctx.label("too many components");
		return Ok(())
	}
	for unit in UNITS {
		// Every combination of range ends.
		let mut best: Option<f64> = None;
		let mut ok = true;
		for mask in 0u32..1 << cs.len() {
			let env: Env = cs
				.iter()
				.enumerate()
				.map(|(i, c)| {
					let (lo, hi) = bounds(p, c);
					(c.clone(), if mask >> i & 1 == 1 { hi } else { lo } as u128)
				})
				.collect();
			match (value(old, &env, unit), value(new, &env, unit)) {
				(Some(o), Some(n)) if o > 0 => {
					let r = rel_change(o, n);
					best = Some(best.map_or(r, |b: f64| b.max(r)));
				},
				_ => {
					ok = false;
					break
				},
			}
		}
		let Some(best) = best.filter(|_| ok) else {
			ctx.label("zero or huge weight");
			continue
		};
		// The order of relative changes is only defined to a thousandth.
		let tol = 0.002 + best.abs() * 1e-9;
		for m in [CompareMethod::ExactWorst, CompareMethod::GuessWorst] {
			if fails(p, m) {
				continue
			}
			let row = compare_pair(p, m, unit)?;
			let Some(t) = row.term() else {
				return Err(Fail::Violation(format!("{m:?} in {unit:?} failed: {:?} for {p:?}", row.error())))
			};
			// Attained at the reported corner.
			let env = reported(t)?;
			for c in &cs {
				let (lo, hi) = bounds(p, c);
				let v = *env.get(c).ok_or(format!("component {c} is not reported for {p:?}"))?;
				ensure!(v == lo as u128 || v == hi as u128, "{}={} is no range end in {:?}", c, v, p);
			}
			let (o, n) = (value(old, &env, unit), value(new, &env, unit));
			ensure_eq!((t.old_v, t.new_v), (o, n), "values of {:?} at {:?} by {:?}", p, env, m);
			ensure!(
				near(t.percent, rel_change(o.unwrap(), n.unwrap())),
				"change of {:?} by {:?} in {:?} is {}, values {:?} and {:?}",
				p, m, unit, t.percent, o, n
			);
			ensure!(
				(t.percent - best).abs() <= tol,
				"{:?} in {:?} reports {}%, the greatest increase is {}%: {:?}",
				m, unit, t.percent, best, p
			);
			for pt in &c.points {
				let env: Env = cs
					.iter()
					.zip(pt)
					.map(|(c, x)| {
						let (lo, hi) = bounds(p, c);
						(c.clone(), lo as u128 + ((hi - lo) as u128 * *x as u128 + 32768) / 65536)
					})
					.collect();
				if let (Some(o), Some(n)) = (value(old, &env, unit), value(new, &env, unit)) {
					ensure!(
						o == 0 || rel_change(o, n) <= t.percent + tol,
						"{:?} in {:?} reports {}%, but {:?} gives {}%: {:?}",
						m, unit, t.percent, env, rel_change(o, n), p
					);
					ctx.evals(1);
				}
			}
			if cs.len() >= 2 && old.body != new.body {
				ctx.nontrivial();
			}
			ctx.label(format!("{} components", cs.len()));
		}
	}
	Ok(())
}

pub fn c10() -> Prop {
	Prop {
		id: "C10",
		rels: vec![
			rel(
				"few components",
				"pairs of multilinear versions with up to 5 components against all range ends and 12 interior points; non-trivial: two components or more and the versions differ",
				16_000,
				500_000,
				|| prop_oneof![2 => worst_case(0), 2 => worst_case(3), 3 => worst_case(5)].boxed(),
				check_worst,
			),
			rel(
				"many components",
				"the same with up to 10 components",
				400,
				12_000,
				|| worst_case(10),
				check_worst,
			),
			rel(
				"the limit",
				"the same with up to 16 components",
				8,
				200,
				|| prop_oneof![1 => worst_case(14), 1 => worst_case(16)].boxed(),
				check_worst,
			),
		],
		assumptions: vec![
			"equations are linear in each component and the old weight is not zero at any range end",
			"relative changes are ordered to a thousandth of a percent",
		],
	}
}

// ------------------------------------------------------------------------------------------ C11

const PALLETS: [&str; 7] = [
	"runtime/polkadot/src/weights/pallet_balances.rs",
	"runtime/polkadot/src/weights/pallet_staking.rs",
	"runtime/kusama/src/weights/pallet_balances.rs",
	"pallet_balances.rs",
	"frame/system/src/weights.rs",
	"frame/x/src/weights.rs",
	"a.rs",
];

/// Calls of several pallets, unique by pallet and name.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Calls(pub Vec<(String, Pair)>);

impl Calls {
	/// The weight files of one side: one per pallet, as real inputs come.
	pub fn files(&self, new: bool) -> Vec<(String, WFile)> {
		let mut out: Vec<(String, WFile)> = vec![];
		for (p, pair) in &self.0 {
			let Some(f) = (if new { &pair.new } else { &pair.old }) else { continue };
			match out.iter_mut().find(|(n, _)| n == p) {
				Some((_, w)) => w.funs.push(f.clone()),
				None => out.push((p.clone(), WFile { funs: vec![f.clone()], style: p.len() as u8 })),
			}
		}
		out
	}
	pub fn side(&self, new: bool) -> Result<Vec<ChromaticExtrinsic>, Fail> {
		let mut out = vec![];
		for (p, f) in self.files(new) {
			out.extend(
				parse_content(p, f.src())
					.map_err(|e| Fail::Violation(format!("template file rejected: {e}")))?,
			);
		}
		Ok(out)
	}
}

pub fn calls(pair: BoxedStrategy<Pair>, max: usize) -> BoxedStrategy<Calls> {
	calls_of(PALLETS.to_vec(), pair, max, 1000)
}

pub fn calls_in(pallets: Vec<&'static str>, pair: BoxedStrategy<Pair>, max: usize) -> BoxedStrategy<Calls> {
	calls_of(pallets, pair, max, 50)
}

fn calls_of(pallets: Vec<&'static str>, pair: BoxedStrategy<Pair>, max: usize, few_of: u32) -> BoxedStrategy<Calls> {
	// Now and then a file of another name in the same place.
	let file = (select(pallets.clone()), prop::option::weighted(0.08, identifier())).prop_map(|(p, other)| match other {
		Some(o) => format!("{}{o}.rs", &p[..p.rfind('/').map_or(0, |i| i + 1)]),
		None => p.to_string(),
	});
	let few = vec((file, pair), 0..=max);
	if max < 10 {
		return unique(few.boxed())
	}
	prop_oneof![few_of => unique(few.boxed()), 1 => many_calls(pallets)].boxed()
}

/// Hundreds of plain calls in dozens of files.
fn many_calls(pallets: Vec<&'static str>) -> BoxedStrategy<Calls> {
	(vec((0u8..40, 0u8..10, 1u64..1_000_000, 1u64..1_000_000), 60..300), any::<bool>())
		.prop_map(move |(v, components)| {
			// Some with a component whose ranges differ or are missing.
			let fun = |i: usize, t: u64| {
				let constant = W::Parts(S::Lit(t, 0), S::Lit(t / 7, 0));
				let c = components && i % 3 == 0;
				Fun {
					name: format!("call_{i}"),
					body: Body::Chroma(if c { W::Add(Box::new(constant), Box::new(W::RefTime(S::Var("n".into(), 0)))) } else { constant }),
					ranges: if c && i % 2 == 0 { vec![("n".into(), 0, 100 + (t % 4) as u32)] } else { vec![] },
					style: 0,
				}
			};
			let all = v.into_iter().enumerate().map(|(i, (p, kind, a, b))| {
				let file = pallets.get(p as usize).map_or(format!("p{p}.rs"), |p| p.to_string());
				(file, Pair { old: (kind != 0).then(|| fun(i, a)), new: (kind != 1).then(|| fun(i, if kind == 2 { a } else { b })) })
			});
			Calls(all.collect())
		})
		.boxed()
}

fn unique(calls: BoxedStrategy<Vec<(String, Pair)>>) -> BoxedStrategy<Calls> {
	calls
		.prop_map(|v| {
			let mut seen = BTreeSet::new();
			Calls(
				v.into_iter()
					.filter(|(p, c)| {
						let name = &c.old.as_ref().or(c.new.as_ref()).unwrap().name;
						seen.insert((p.to_string(), name.clone()))
					})
					.collect(),
			)
		})
		.boxed()
}

fn name_of(p: &Pair) -> &str {
	&p.old.as_ref().or(p.new.as_ref()).unwrap().name
}

/// Whether `word` occurs in the text delimited by non-word characters.
fn has_word(text: &str, word: &str) -> bool {
	text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == word)
}

fn check_failures(p: &Pair, ctx: &mut Ctx) -> Check {
	let cs = comps(p);
	for unit in UNITS {
		for m in METHODS {
			// 2^16 evaluations each: only a few.
			if cs.len() > 12 && cs.len() <= 16 && is_worst(m) {
				continue
			}
			let row = compare_pair(p, m, unit)?;
			let fail = fails(p, m);
			match (&row.change, fail) {
				(TermDiff::Failed(e), true) => {
					ctx.nontrivial();
					ensure!(
						e.contains(name_of(p)) && e.contains("pallet_x.rs"),
						"the error does not name the call: {} for {:?}",
						e,
						p
					);
					if cs.len() > 16 {
						ctx.label("too many components");
					} else {
						ctx.label("inexact ranges");
						ensure!(
							cs.iter().filter(|c| !exact(p, c)).any(|c| has_word(e, c)),
							"the error does not name an inexact component: {} for {:?}",
							e,
							p
						);
					}
				},
				(TermDiff::Failed(e), false) =>
					return Err(Fail::Violation(format!("{m:?} in {unit:?} failed: {e} for {p:?}"))),
				(_, true) =>
					return Err(Fail::Violation(format!(
						"{m:?} in {unit:?} gives a value although ranges are missing or different: {p:?}"
					))),
				_ => ctx.label("succeeds"),
			}
			if m == CompareMethod::ExactWorst && !fail && is_worst(m) {
				// Exact and guessing methods agree where exact ones apply.
				let g = compare_pair(p, CompareMethod::GuessWorst, unit)?;
				if let (Some(a), Some(b)) = (row.term(), g.term()) {
					ensure_eq!(
						(a.old_v, a.new_v),
						(b.old_v, b.new_v),
						"exact-worst against guess-worst of {:?} in {:?}",
						p,
						unit
					);
				}
			}
		}
	}
	Ok(())
}

fn check_isolated(c: &Calls, ctx: &mut Ctx) -> Check {
	let (o, n) = (c.side(false)?, c.side(true)?);
	for unit in UNITS {
		for m in METHODS {
			let pr = params(m, unit);
			let all = compare_files(o.clone(), n.clone(), &pr, &no_filter())
				.map_err(|e| format!("comparison failed as a whole: {e}"))?;
			let again = compare_files(o.clone(), n.clone(), &pr, &no_filter())
				.map_err(|e| format!("comparison failed as a whole: {e}"))?;
			ensure_eq!(format!("{again:?}"), format!("{all:?}"), "repeated comparison");
			ensure_eq!(all.len(), c.0.len(), "rows");
			let pick = |v: &[ChromaticExtrinsic], p: &str, name: &str| {
				v.iter().filter(|e| e.pallet == p && e.name == name).cloned().collect::<Vec<_>>()
			};
			let failed = all.iter().filter(|r| r.error().is_some()).count();
			for (p, pair) in &c.0 {
				let name = name_of(pair);
				let alone = compare_files(pick(&o, p, name), pick(&n, p, name), &pr, &no_filter())
					.map_err(|e| format!("comparison failed as a whole: {e}"))?;
				ensure_eq!(alone.len(), 1, "rows of a single call");
				let Some(here) = all.iter().find(|r| r.file == *p && r.name == name) else {
					return Err(Fail::Violation(format!("{p}::{name} is missing")))
				};
				ensure_eq!(
					format!("{here:?}"),
					format!("{:?}", alone[0]),
					"{}::{} compared among others and alone",
					p,
					name
				);
				ctx.evals(1);
			}
			if failed > 0 && failed < all.len() {
				ctx.nontrivial();
				ctx.label("some fail");
			}
		}
	}
	Ok(())
}

pub fn c11() -> Prop {
	Prop {
		id: "C11",
		rels: vec![
			rel(
				"failures",
				"pairs of versions with missing, single-sided, equal and different ranges by all methods in both dimensions; non-trivial: a method has to fail",
				12_000,
				500_000,
				|| {
					prop_oneof![
						6 => pair(any_body(), false),
						2 => pair(affine(letters(4), 3), true),
					]
					.boxed()
				},
				check_failures,
			),
			rel(
				"many components",
				"the same with 13 to 20 components",
				400,
				20_000,
				|| {
					prop_oneof![
						2 => pair(affine(letters(17), 30), true),
						2 => pair(affine(letters(20), 8), true),
						1 => pair(affine(letters(18), 12), false),
					]
					.boxed()
				},
				check_failures,
			),
			rel(
				"isolation",
				"sets of calls of several pallets, each compared among the others, again, and alone; non-trivial: some calls fail and some do not",
				900,
				40_000,
				|| {
					calls(
						prop_oneof![
							8 => pair(any_body(), false),
							1 => pair(affine(letters(20), 20), true),
						]
						.boxed(),
						8,
					)
				},
				check_isolated,
			),
		],
		assumptions: vec![],
	}
}

// ------------------------------------------------------------------------------------------ C12

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Re {
	Sub(String),
	Prefix(String),
	Suffix(String),
	Full(String),
	NotPrefix(String),
	All,
	Or(Box<Re>, Box<Re>),
	Word2(String, String),
	/// One of `CLASSES`.
	Class(u8),
	/// At the start or the other at the end.
	Ends(String, String),
	/// In any case.
	NoCase(String),
	Bad(String),
}

/// Expressions whose meaning hinges on details of the syntax.
pub const CLASSES: [(&str, fn(&str) -> bool); 17] = [
	("\\D$", |t| t.chars().last().is_some_and(|c| !c.is_numeric())),
	("^\\S+$", |t| !t.is_empty() && !t.contains(char::is_whitespace)),
	("\\s", |t| t.contains(char::is_whitespace)),
	("[A-Z]", |t| t.contains(|c: char| c.is_ascii_uppercase())),
	("^[a-z_]+$", |t| !t.is_empty() && t.chars().all(|c| c.is_ascii_lowercase() || c == '_')),
	("\\d", |t| t.contains(|c: char| c.is_ascii_digit())),
	("\\W", |t| t.contains(|c: char| !c.is_alphanumeric() && c != '_')),
	("^\\w*$", |t| t.chars().all(|c| c.is_alphanumeric() || c == '_')),
	(" ", |t| t.contains(' ')),
	(" b", |t| t.contains(" b")),
	("a ", |t| t.contains("a ")),
	("^.{3}$", |t| t.chars().count() == 3),
	("(.)\\1", |t| t.chars().zip(t.chars().skip(1)).any(|(a, b)| a == b)),
	("^$", |t| t.is_empty()),
	("", |_| true),
	("s$(?<!\\.rs)", |t| t.ends_with('s') && !t.ends_with(".rs")),
	("a|b", |t| t.contains('a') || t.contains('b')),
];

fn esc(s: &str) -> String {
	s.replace('.', "\\.")
}

impl Re {
	pub fn src(&self) -> String {
		match self {
			Re::Sub(s) => esc(s),
			Re::Prefix(s) => format!("^{}", esc(s)),
			Re::Suffix(s) => format!("{}$", esc(s)),
			Re::Full(s) => format!("^{}$", esc(s)),
			Re::NotPrefix(s) => format!("^(?!{})", esc(s)),
			Re::All => ".*".into(),
			Re::Or(a, b) => format!("(?:{})|(?:{})", a.src(), b.src()),
			Re::Word2(a, b) => format!("{}.*{}", esc(a), esc(b)),
			Re::Class(i) => CLASSES[*i as usize % CLASSES.len()].0.into(),
			Re::Ends(a, b) => format!("^{}|{}$", esc(a), esc(b)),
			Re::NoCase(s) => format!("(?i){}", esc(s)),
			Re::Bad(s) => s.clone(),
		}
	}
	fn valid(&self) -> bool {
		match self {
			Re::Bad(_) => false,
			Re::Or(a, b) => a.valid() && b.valid(),
			_ => true,
		}
	}
	pub fn matches(&self, t: &str) -> bool {
		match self {
			Re::Sub(s) => t.contains(s.as_str()),
			Re::Prefix(s) => t.starts_with(s.as_str()),
			Re::Suffix(s) => t.ends_with(s.as_str()),
			Re::Full(s) => t == s,
			Re::NotPrefix(s) => !t.starts_with(s.as_str()),
			Re::All => true,
			Re::Or(a, b) => a.matches(t) || b.matches(t),
			Re::Word2(a, b) => t.find(a.as_str()).is_some_and(|i| t[i + a.len()..].contains(b.as_str())),
			Re::Class(i) => CLASSES[*i as usize % CLASSES.len()].1(t),
			Re::Ends(a, b) => t.starts_with(a.as_str()) || t.ends_with(b.as_str()),
			Re::NoCase(s) => t.to_lowercase().contains(&s.to_lowercase()),
			Re::Bad(_) => false,
		}
	}
}

pub fn re(words: Vec<&'static str>) -> BoxedStrategy<Re> {
	let w = move || select(words.clone()).prop_map(String::from);
	let leaf = prop_oneof![
		4 => w().prop_map(Re::Sub),
		2 => w().prop_map(Re::Prefix),
		2 => w().prop_map(Re::Suffix),
		1 => w().prop_map(Re::Full),
		1 => w().prop_map(Re::NotPrefix),
		1 => Just(Re::All),
		2 => (w(), w()).prop_map(|(a, b)| Re::Word2(a, b)),
		2 => (0u8..CLASSES.len() as u8).prop_map(Re::Class),
		1 => (w(), w()).prop_map(|(a, b)| Re::Ends(a, b)),
		1 => (w(), any::<bool>()).prop_map(|(a, up)| Re::NoCase(if up { a.to_uppercase() } else { a })),
	];
	prop_oneof![
		6 => leaf.clone(),
		2 => (leaf.clone(), leaf).prop_map(|(a, b)| Re::Or(a.into(), b.into())),
	]
	.boxed()
}

pub fn bad_re() -> BoxedStrategy<Re> {
	select(vec!["(", "[a", "a)", "*", "a{3,1}", "(?P<n", "\\", "[z-a]", "(?<=a", "+a"])
		.prop_map(|s| Re::Bad(s.into()))
		.boxed()
}

fn filters() -> BoxedStrategy<(Option<Re>, Option<Re>)> {
	let e = || {
		re(vec!["transfer", "transfer_all", "t", "set_balance", "_", "x", "all", "burn", "fn_1", "kill", "mint", ""])
	};
	let p = || {
		re(vec!["runtime", "polkadot", "pallet_balances", ".rs", "a.rs", "/", "weights", "frame/system", "pallet_balances.rs", "kusama", "x", ""])
	};
	prop_oneof![
		4 => (prop::option::of(e()), prop::option::of(p())),
		1 => (bad_re().prop_map(Some), prop::option::of(p())),
		1 => (prop::option::of(e()), bad_re().prop_map(Some)),
	]
	.boxed()
}

type CoverCase = (Calls, (Option<Re>, Option<Re>), u8);

fn check_cover(c: &CoverCase, ctx: &mut Ctx) -> Check {
	let (calls, (ext, pal), mu) = c;
	let (o, n) = (calls.side(false)?, calls.side(true)?);
	let unit = UNITS[*mu as usize % 2];
	let m = METHODS[*mu as usize / 2 % 5];
	let filter = FilterParams {
		extrinsic: ext.as_ref().map(|r| r.src()),
		pallet: pal.as_ref().map(|r| r.src()),
		..no_filter()
	};
	let res = compare_files(o, n, &params(m, unit), &filter);
	if ext.iter().chain(pal).any(|r| !r.valid()) {
		ctx.label("invalid regex");
		ctx.nontrivial();
		ensure!(res.is_err(), "an invalid regex was accepted: {:?} {:?}", ext, pal);
		return Ok(())
	}
	let diff = res.map_err(|e| format!("comparison failed as a whole: {e}"))?;
	let mut want: Vec<(String, &Pair)> = calls
		.0
		.iter()
		.filter(|(p, c)| {
			pal.as_ref().map_or(true, |r| r.matches(p)) &&
				ext.as_ref().map_or(true, |r| r.matches(name_of(c)))
		})
		.map(|(p, c)| (p.clone(), c))
		.collect();
	want.sort_by(|a, b| (&a.0, name_of(a.1)).cmp(&(&b.0, name_of(b.1))));
	let got: Vec<(&str, &str)> = diff.iter().map(|r| (r.file.as_str(), r.name.as_str())).collect();
	let exp: Vec<(&str, &str)> = want.iter().map(|(p, c)| (p.as_str(), name_of(c))).collect();
	ensure_eq!(got, exp, "rows with filters {:?}", (ext, pal));
	if want.len() > 1 {
		ctx.nontrivial();
	}
	if want.len() < calls.0.len() {
		ctx.label("filtered");
	}
	for (row, (_, pair)) in diff.iter().zip(&want) {
		let Some(t) = row.term() else {
			ensure!(fails(pair, m), "{} failed: {:?}", row.name, row.error());
			continue
		};
		let kind = match (&pair.old, &pair.new) {
			(None, Some(_)) => Some(RelativeChange::Added),
			(Some(_), None) => Some(RelativeChange::Removed),
			(Some(a), Some(b)) if a.body == b.body => Some(RelativeChange::Unchanged),
			(Some(a), Some(b)) => {
				// Different if they differ at some point.
				let differ = (1u128..4).any(|k| {
					let env: Env = comps(pair)
						.into_iter()
						.enumerate()
						.map(|(i, c)| (c, (7 + 3 * i as u128) * k * k))
						.collect();
					matches!((value(a, &env, unit), value(b, &env, unit)), (Some(x), Some(y)) if x != y)
				});
				differ.then_some(RelativeChange::Changed)
			},
			_ => unreachable!(),
		};
		if let Some(kind) = kind {
			ensure_eq!(t.change, kind, "change type of {} in {:?}: {:?}", row.name, unit, pair);
			ctx.label(format!("{kind:?}"));
		}
		ensure_eq!(
			(t.old.is_some(), t.new.is_some()),
			(pair.old.is_some(), pair.new.is_some()),
			"sides of {}",
			row.name
		);
	}
	Ok(())
}

/// Names that are easily taken for each other: the same text divided differently into pallet and
/// call, other cases, underscores and extensions.
fn confusable() -> BoxedStrategy<Vec<(String, String, Option<u64>, Option<u64>)>> {
	let text = select(vec![
		"abab", "a.rsfoo", "a::b::c", "a/b/c.rs", "a_b_c", "A.rsFoo", "a b c", "foo.rs", "a.rs.rs", "x.r", "x.rs", "fn_1fn_11", "aaaa", "mod.rsa",
	]);
	let name = (text, any::<prop::sample::Index>(), any::<prop::sample::Index>(), 0u8..6).prop_map(|(t, i, j, how)| {
		let t = match how {
			0 => t.to_uppercase(),
			1 => t.replace('_', ""),
			2 => format!("{t}_"),
			_ => t.to_string(),
		};
		let (mut i, mut j) = (i.index(t.len() + 1), j.index(t.len() + 1));
		if how % 2 == 1 {
			j = i;
		}
		if i > j {
			std::mem::swap(&mut i, &mut j);
		}
		(t[..i].to_string(), t[j..].to_string())
	});
	vec((name, prop::option::of(0u64..1000), prop::option::of(0u64..1000)), 1..12)
		.prop_map(|v| {
			let mut seen = BTreeSet::new();
			v.into_iter()
				.filter(|(n, a, b)| (a.is_some() || b.is_some()) && seen.insert(n.clone()))
				.map(|((p, n), a, b)| (p, n, a, b))
				.collect()
		})
		.boxed()
}

type ConfusableCase = (Vec<(String, String, Option<u64>, Option<u64>)>, Option<Re>, Option<Re>);

fn confusable_case() -> BoxedStrategy<ConfusableCase> {
	let r = || re(vec!["ab", "a", "A", "a.rs", "a::", "::b", "/", "_", "RS", " ", "c", ".rs", "1", "foo", "F", "mod", "."]);
	let r = move || prop_oneof![3 => Just(None), 2 => r().prop_map(Some)];
	(confusable(), r(), r()).boxed()
}

fn many_rows() -> BoxedStrategy<ConfusableCase> {
	let r = || re(vec!["ab", "1", "call_1", "p_2", "/1", "_", "3.rs", "x"]);
	let r = move || prop_oneof![3 => Just(None), 2 => r().prop_map(Some)];
	let row = (0u16..200, 0u16..60, prop_oneof![3 => (0u64..1000).prop_map(Some), 1 => Just(None)], prop_oneof![3 => (0u64..1000).prop_map(Some), 1 => Just(None)]);
	(vec(row, 60..600), 1u16..200, r(), r())
		.prop_map(|(v, pallets, p, e)| {
			let mut seen = BTreeSet::new();
			let rows = v
				.into_iter()
				.map(|(p, n, a, b)| (format!("x/{}/p_{}.rs", p % pallets % 7, p % pallets), format!("call_{n}"), a, b))
				.filter(|(p, n, a, b)| (a.is_some() || b.is_some()) && seen.insert((p.clone(), n.clone())))
				.collect();
			(rows, p, e)
		})
		.boxed()
}

fn check_confusable((rows, pal, ext): &ConfusableCase, ctx: &mut Ctx) -> Check {
	let side = |new: bool| {
		rows.iter()
			.enumerate()
			.filter_map(|(i, (p, n, a, b))| {
				// No two calls have the same weight.
				let w = (if new { *b } else { *a })? as u128 * 1000 + i as u128;
				Some(ChromaticExtrinsic {
					name: n.clone(),
					pallet: p.clone(),
					term: subweight_core::term::ChromaticTerm::Value((w, w + 1).into()),
					comp_ranges: None,
				})
			})
			.collect::<Vec<_>>()
	};
	let mut want: Vec<_> = rows
		.iter()
		.enumerate()
		.map(|(i, (p, n, a, b))| {
			let v = |x: &Option<u64>| x.map(|x| x as u128 * 1000 + i as u128);
			(p.clone(), n.clone(), v(a), v(b))
		})
		.filter(|(p, n, ..)| pal.as_ref().map_or(true, |r| r.matches(p)) && ext.as_ref().map_or(true, |r| r.matches(n)))
		.collect();
	want.sort();
	let filter = FilterParams { pallet: pal.as_ref().map(Re::src), extrinsic: ext.as_ref().map(Re::src), ..no_filter() };
	let diff = compare_files(side(false), side(true), &params(CompareMethod::Base, Dimension::Time), &filter)
		.map_err(|e| format!("comparison failed as a whole: {e}"))?;
	let got: Vec<_> = diff
		.iter()
		.map(|r| (r.file.clone(), r.name.clone(), r.term().and_then(|t| t.old_v), r.term().and_then(|t| t.new_v)))
		.collect();
	ensure_eq!(got, want, "pallets, calls and values with filters {:?}", (&filter.pallet, &filter.extrinsic));
	if pal.is_some() || ext.is_some() {
		ctx.label("with filters");
	}
	let joined: BTreeSet<String> = rows.iter().map(|(p, n, ..)| format!("{p}{n}").to_lowercase()).collect();
	if joined.len() < rows.len() || rows.len() > 40 {
		ctx.nontrivial();
	}
	Ok(())
}

pub fn c12() -> Prop {
	Prop {
		id: "C12",
		rels: vec![rel(
			"rows",
			"sets of calls of several pallets with call and pallet regexes, some invalid; non-trivial: two rows or more, or an invalid regex",
			80_000,
			500_000,
			|| boxed((calls(pair(any_body(), false), 10), filters(), 0u8..10)),
			check_cover,
		), rel(
			"confusable names",
			"calls whose pallet and call names differ only in where they are divided, in case, underscores or extension, with regexes of all kinds; non-trivial: two of them are equal up to that",
			160_000,
			1_000_000,
			confusable_case,
			check_confusable,
		), rel(
			"many rows",
			"60 to 600 calls in up to 200 pallets, with regexes; always non-trivial",
			1_200,
			20_000,
			many_rows,
			check_confusable,
		)],
		assumptions: vec!["a call occurs once per file"],
	}
}

// ------------------------------------------------------------------------------------------ C13

type OrderCase = (Calls, Vec<u32>, u8);

fn shuffle<T: Clone>(v: &[T], keys: &[u32], off: usize) -> Vec<T> {
	let mut k: Vec<(u32, usize)> =
		(0..v.len()).map(|i| (keys[(i + off) % keys.len()].rotate_left(i as u32), i)).collect();
	k.sort();
	k.into_iter().map(|(_, i)| v[i].clone()).collect()
}

fn check_symmetry(c: &OrderCase, ctx: &mut Ctx) -> Check {
	let (calls, keys, mu) = c;
	let (o, n) = (calls.side(false)?, calls.side(true)?);
	let unit = UNITS[*mu as usize % 2];
	let m = METHODS[*mu as usize / 2 % 5];
	let pr = params(m, unit);
	let run = |a: &[ChromaticExtrinsic], b: &[ChromaticExtrinsic]| -> Result<TotalDiff, Fail> {
		compare_files(a.to_vec(), b.to_vec(), &pr, &no_filter())
			.map_err(|e| Fail::Violation(format!("comparison failed as a whole: {e}")))
	};
	// Reflexive.
	for r in run(&o, &o)? {
		match r.term() {
			Some(t) => {
				ensure_eq!(t.change, RelativeChange::Unchanged, "{} against itself", r.name);
				ensure!(t.percent == 0.0, "{} against itself changes by {}%", r.name, t.percent);
				ensure_eq!(t.old_v, t.new_v, "values of {} against itself", r.name);
				ctx.evals(1);
			},
			None => {
				let p = &calls.0.iter().find(|(p, c)| *p == r.file && name_of(c) == r.name).unwrap().1;
				let me = Pair { old: p.old.clone(), new: p.old.clone() };
				ensure!(fails(&me, m), "{} against itself failed: {:?}", r.name, r.error());
			},
		}
	}
	// The order of files and functions.
	let d = run(&o, &n)?;
	let d2 = run(&shuffle(&o, keys, 0), &shuffle(&n, keys, 3))?;
	ensure_eq!(format!("{d2:?}"), format!("{d:?}"), "report of shuffled inputs");
	// Swapped.
	let s = run(&n, &o)?;
	ensure_eq!(s.len(), d.len(), "rows after swapping");
	for (a, b) in d.iter().zip(&s) {
		ensure_eq!((&a.file, &a.name), (&b.file, &b.name), "row after swapping");
		match (a.term(), b.term()) {
			(Some(x), Some(y)) => {
				let sw = match x.change {
					RelativeChange::Added => RelativeChange::Removed,
					RelativeChange::Removed => RelativeChange::Added,
					c => c,
				};
				ensure_eq!(y.change, sw, "change type of {} after swapping", a.name);
				if !is_worst(m) {
					ensure_eq!((y.new_v, y.old_v), (x.old_v, x.new_v), "values of {} after swapping", a.name);
					ensure_eq!((&y.new, &y.old), (&x.old, &x.new), "equations of {} after swapping", a.name);
					ensure_eq!(y.scope.as_vec(), x.scope.as_vec(), "variables of {} after swapping", a.name);
				}
				if x.old_v != x.new_v {
					ctx.nontrivial();
				}
			},
			(None, None) => {},
			_ => return Err(Fail::Violation(format!("{} fails only in one direction", a.name))),
		}
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DimCase {
	fun: Fun,
	/// New values for the constants of one dimension.
	vals: Vec<u64>,
	time: bool,
	method: u8,
}

fn check_dims(c: &DimCase, ctx: &mut Ctx) -> Check {
	let mut new = c.fun.clone();
	let kind = if c.time { Kind::Time } else { Kind::Proof };
	for (i, (k, v)) in new.body.lits().into_iter().enumerate() {
		if k == kind {
			*v = c.vals[i % c.vals.len()];
		}
	}
	if new != c.fun {
		ctx.nontrivial();
	}
	let p = Pair { old: Some(c.fun.clone()), new: Some(new) };
	let unit = if c.time { Dimension::Proof } else { Dimension::Time };
	let row = compare_pair(&p, METHODS[c.method as usize % 5], unit)?;
	if let Some(t) = row.term() {
		ensure_eq!(t.change, RelativeChange::Unchanged, "{:?} compared in {:?}", p, unit);
		ensure_eq!(t.old_v, t.new_v, "{:?} compared in {:?}", p, unit);
		ensure!(t.percent == 0.0, "{:?} compared in {:?} is {}%", p, unit, t.percent);
	}
	Ok(())
}

pub fn c13() -> Prop {
	Prop {
		id: "C13",
		rels: vec![
			rel(
				"symmetry and order",
				"sets of calls compared with themselves, swapped and shuffled; non-trivial: a row with different values",
				60_000,
				400_000,
				|| {
					boxed((
						calls(pair(any_body(), false), 7),
						vec(any::<u32>(), 1..8),
						0u8..10,
					))
				},
				check_symmetry,
			),
			rel(
				"dimensions",
				"versions that only differ in constants of one dimension, compared in the other; non-trivial: they do differ",
				120_000,
				800_000,
				|| {
					boxed((
						funs(
							prop_oneof![
								template_v2().prop_map(Body::Chroma),
								plain_weight(3).prop_map(Body::Chroma),
								affine(letters(4), 3)
							]
							.boxed(),
							4,
						),
						vec(lit(), 1..12),
						any::<bool>(),
						0u8..5,
					)
						.prop_map(|(mut f, vals, time, method)| DimCase {
							fun: f.remove(0),
							vals,
							time,
							method,
						}))
				},
				check_dims,
			),
		],
		assumptions: vec!["a call occurs once per file"],
	}
}

// ------------------------------------------------------------------------------------- C14, C15

/// A relative change.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum P {
	Ratio(u64, u64),
	/// Millionths of a percent.
	Micro(i64),
	/// Times a power of ten, up to 10^34.
	Big(u8, u8),
	Inf,
}

impl P {
	pub fn get(&self) -> f64 {
		match self {
			P::Ratio(a, b) => rel_change(*a as u128, *b as u128),
			P::Micro(m) => *m as f64 / 1e6,
			P::Big(m, e) => *m as f64 * 10f64.powi((*e % 33) as i32),
			P::Inf => f64::INFINITY,
		}
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RowSpec {
	/// 0: changed, 1: with warning, 2: failed
	kind: u8,
	change: u8,
	percent: P,
	name: u8,
}

const CHANGES: [RelativeChange; 4] = [
	RelativeChange::Unchanged,
	RelativeChange::Added,
	RelativeChange::Removed,
	RelativeChange::Changed,
];

impl RowSpec {
	fn row(&self, i: usize) -> ExtrinsicDiff {
		let change = CHANGES[self.change as usize % 4];
		let t = TermChange {
			old: Some(SimpleTerm::Scalar(i as u128)),
			old_v: Some(i as u128),
			new: None,
			new_v: Some(self.name as u128),
			scope: SimpleScope::empty(),
			percent: self.percent.get(),
			change,
			method: CompareMethod::Base,
		};
		ExtrinsicDiff {
			name: format!("call_{}", self.name),
			file: format!("pallet_{}", self.name % 5),
			change: match self.kind {
				0 => TermDiff::Changed(t),
				1 => TermDiff::Warning(t, format!("warning {i}")),
				_ => TermDiff::Failed(format!("error {i}")),
			},
		}
	}
}

fn percent_spec() -> BoxedStrategy<P> {
	prop_oneof![
		3 => (-100_000_000i64..300_000_000).prop_map(P::Micro),
		2 => (-20i64..20).prop_map(|v| P::Micro(v * 1_000_000)),
		2 => (-5000i64..5000).prop_map(P::Micro),
		2 => (lit(), lit()).prop_map(|(a, b)| P::Ratio(a, b)),
		1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| P::Ratio(a, b)),
		1 => (1u64..100, any::<u64>()).prop_map(|(a, b)| P::Ratio(a, b)),
		1 => (1u8..100, 0u8..33).prop_map(|(m, e)| P::Big(m, e)),
		1 => Just(P::Inf),
		1 => select(vec![0i64, -100_000_000, 5_000_000, -5_000_000]).prop_map(P::Micro),
	]
	.boxed()
}

fn rows(max: usize) -> BoxedStrategy<Vec<RowSpec>> {
	let kind = prop_oneof![5 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)];
	vec(
		(kind, 0u8..4, percent_spec(), any::<u8>())
			.prop_map(|(kind, change, percent, name)| RowSpec { kind, change, percent, name }),
		0..=max,
	)
	.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Threshold {
	Zero,
	Of(P),
	/// The magnitude of a row.
	Row(u16),
}

type FilterCase = (Vec<RowSpec>, Threshold, Option<Vec<u8>>);

fn passes(kind: Option<(RelativeChange, f64)>, threshold: f64, wanted: &Option<Vec<RelativeChange>>) -> bool {
	let Some((ty, percent)) = kind else { return true };
	if wanted.as_ref().is_some_and(|w| !w.contains(&ty)) {
		return false
	}
	match ty {
		RelativeChange::Added | RelativeChange::Removed => true,
		RelativeChange::Changed => percent.abs() >= threshold,
		RelativeChange::Unchanged => threshold == 0.0,
	}
}

fn check_filter_shown(c: &super::cli::Shown, ctx: &mut Ctx) -> Check {
	for s in super::cli::seen(c)? {
		let id = |r: &ExtrinsicDiff| format!("{}::{}", r.file, r.name);
		let mut got: Vec<String> = s.rows.iter().map(id).collect();
		let mut want: Vec<String> = s
			.all
			.iter()
			.filter(|r| r.term().is_some() || !s.csv)
			.filter(|r| passes(r.term().map(|t| (t.change, t.percent)), s.filter.threshold, &s.filter.change))
			.map(id)
			.collect();
		got.sort();
		want.sort();
		if !want.is_empty() && want.len() < s.all.len() {
			ctx.nontrivial();
		}
		ensure_eq!(got, want, "{}: rows shown with threshold {} and types {:?}", s.what, s.filter.threshold, s.filter.change);
		ctx.evals(1);
	}
	Ok(())
}

fn check_filter(c: &FilterCase, ctx: &mut Ctx) -> Check {
	let (specs, th, change) = c;
	let diff: TotalDiff = specs.iter().enumerate().map(|(i, s)| s.row(i)).collect();
	let threshold = match th {
		Threshold::Zero => 0.0,
		Threshold::Of(p) => p.get().abs(),
		Threshold::Row(i) if !specs.is_empty() => specs[*i as usize % specs.len()].percent.get().abs(),
		Threshold::Row(_) => 5.0,
	};
	// Below a millionth of a percent there is no difference to zero.
	let threshold = if threshold < 1e-6 { 0.0 } else { threshold };
	let wanted: Option<Vec<RelativeChange>> =
		change.as_ref().map(|v| v.iter().map(|i| CHANGES[*i as usize % 4]).collect());
	let params = FilterParams { threshold, change: wanted.clone(), ..no_filter() };
	let keep = |s: &RowSpec| {
		let kind = (s.kind != 2).then(|| (CHANGES[s.change as usize % 4], s.percent.get()));
		passes(kind, threshold, &wanted)
	};
	let want: Vec<String> = specs
		.iter()
		.zip(&diff)
		.filter(|(s, _)| keep(s))
		.map(|(_, r)| format!("{r:?}"))
		.collect();
	if !want.is_empty() && want.len() < specs.len() {
		ctx.nontrivial();
	}
	let got: Vec<String> =
		filter_changes(diff, &params).iter().map(|r| format!("{r:?}")).collect();
	ensure_eq!(got, want, "rows that pass threshold {} and types {:?}", threshold, wanted);
	Ok(())
}

pub fn c14() -> Prop {
	Prop {
		id: "C14",
		rels: vec![rel(
			"filter",
			"reports with rows of all kinds against thresholds (also exactly at rows) and type sets; non-trivial: some but not all rows pass",
			160_000,
			2_000_000,
			|| {
				let th = prop_oneof![
					1 => Just(Threshold::Zero),
					2 => percent_spec().prop_map(Threshold::Of),
					2 => any::<u16>().prop_map(Threshold::Row),
				];
				boxed((rows(12), th, prop::option::of(vec(0u8..4, 1..7))))
			},
			check_filter,
		),
		rel_slow(
			"command line",
			"weight files and two commits with them, compared by the program with a threshold and types; non-trivial: some but not all rows are shown",
			700,
			12_000,
			100,
			|| super::cli::shown(true),
			check_filter_shown,
		)],
		assumptions: vec!["thresholds are zero or at least a millionth of a percent; an empty list of types is not generated"],
	}
}

fn sort_rank(r: &ExtrinsicDiff) -> u8 {
	match r.term() {
		None => 0,
		Some(t) => match t.change {
			RelativeChange::Unchanged => 1,
			RelativeChange::Added => 2,
			RelativeChange::Removed => 3,
			RelativeChange::Changed => 4,
		},
	}
}

/// Whether the rows are in ascending order.
fn check_ascending<'a>(rows: impl Iterator<Item = &'a ExtrinsicDiff>, what: &str) -> Check {
	let rows: Vec<_> = rows.collect();
	for w in rows.windows(2) {
		let (a, b) = (sort_rank(w[0]), sort_rank(w[1]));
		ensure!(a <= b, "{what}{:?} is sorted below {:?}", w[0], w[1]);
		if let (Some(x), Some(y), true) = (w[0].term(), w[1].term(), a == b) {
			ensure!(
				x.percent <= y.percent ||
					x.percent - y.percent < 0.001 + 1e-9 ||
					x.percent.abs() < 0.001 && y.percent.abs() < 0.001,
				"{what}{}% is sorted below {}%",
				x.percent,
				y.percent
			);
		}
	}
	Ok(())
}

fn check_sort(specs: &Vec<RowSpec>, ctx: &mut Ctx) -> Check {
	let mut diff: TotalDiff = specs.iter().enumerate().map(|(i, s)| s.row(i)).collect();
	let mut before: Vec<String> = diff.iter().map(|r| format!("{r:?}")).collect();
	sort_changes(&mut diff);
	let sorted: Vec<String> = diff.iter().map(|r| format!("{r:?}")).collect();
	let mut after = sorted.clone();
	before.sort();
	after.sort();
	ensure_eq!(after, before, "rows before and after sorting");
	if specs.len() > 2 {
		ctx.nontrivial();
	}
	let failed = specs.iter().filter(|s| s.kind == 2).count();
	if failed > 1 {
		ctx.label("several failed");
	}
	check_ascending(diff.iter(), "")?;
	sort_changes(&mut diff);
	let again: Vec<String> = diff.iter().map(|r| format!("{r:?}")).collect();
	ensure_eq!(again, sorted, "rows sorted once more");
	Ok(())
}

fn check_order_shown(c: &super::cli::Shown, ctx: &mut Ctx) -> Check {
	for s in super::cli::seen(c)? {
		let rows: Vec<&ExtrinsicDiff> = s.rows.iter().filter(|r| r.term().is_some()).collect();
		if rows.len() > 1 {
			ctx.nontrivial();
		}
		check_ascending(rows.into_iter().rev(), &format!("{}: from the bottom, ", s.what))?;
		ctx.evals(1);
	}
	Ok(())
}

pub fn c15() -> Prop {
	Prop {
		id: "C15",
		rels: vec![
			rel(
				"sort",
				"reports of up to 12 rows of all kinds; non-trivial: three rows or more",
				160_000,
				2_000_000,
				|| rows(12),
				check_sort,
			),
			rel("long reports", "the same with up to 200 rows", 6_000, 50_000, || rows(200), check_sort),
			rel_slow(
				"command line",
				"weight files and two commits with them, compared by the program in all formats; non-trivial: two rows or more that did not fail",
				700,
				12_000,
				100,
				|| super::cli::shown(false),
				check_order_shown,
			),
		],
		assumptions: vec!["relative changes are ordered to a thousandth of a percent and up to 10^35 percent"],
	}
}

// ------------------------------------------------------------------------------------------ C16

fn eval_shown(t: &SimpleTerm, env: &Env) -> Result<u128, String> {
	Ok(match t {
		SimpleTerm::Value(v) | SimpleTerm::Scalar(v) => *v,
		SimpleTerm::Var(v) =>
			*env.get(v.0.as_str()).ok_or(format!("variable {} is not shown", v.0))?,
		SimpleTerm::Add(a, b) => eval_shown(a, env)?.saturating_add(eval_shown(b, env)?),
		SimpleTerm::Mul(a, b) => eval_shown(a, env)?.saturating_mul(eval_shown(b, env)?),
	})
}

fn check_row(row: &ExtrinsicDiff, p: &Pair, ctx: &mut Ctx) -> Check {
	let Some(t) = row.term() else { return Ok(()) };
	let env = reported(t)?;
	for (side, f, term, v) in
		[("old", &p.old, &t.old, t.old_v), ("new", &p.new, &t.new, t.new_v)]
	{
		match (f, term, v) {
			(None, None, None) => {},
			(Some(_), Some(term), Some(v)) =>
				ensure_eq!(eval_shown(term, &env), Ok(v), "{} value of {:?} against its equation", side, row),
			_ => return Err(Fail::Violation(format!("the {side} side of {row:?} is inconsistent: {p:?}"))),
		}
	}
	let (o, n) = (t.old_v.unwrap_or(0), t.new_v.unwrap_or(0));
	ensure!(
		near(t.percent, rel_change(o, n)),
		"change from {} to {} is {}%: {:?}",
		o,
		n,
		t.percent,
		p
	);
	if o != n {
		ctx.nontrivial();
	}
	if o == 0 || n == 0 {
		ctx.label("a zero value");
	}
	Ok(())
}

fn check_rows(p: &Pair, ctx: &mut Ctx) -> Check {
	for unit in UNITS {
		for m in METHODS {
			let row = compare_pair(p, m, unit)?;
			check_row(&row, p, ctx)?;
			ctx.evals(1);
		}
	}
	Ok(())
}

fn sparse_body() -> BoxedStrategy<Body> {
	// Many zeros.
	let z = || prop_oneof![2 => Just(0u64), 1 => lit()].prop_map(|v| S::Lit(v, 0));
	let step = prop_oneof![
		(z(), z(), comp()).prop_map(|(a, b, c)| W::Mul(W::Parts(a, b).into(), S::Var(c, 0))),
		z().prop_map(|s| W::Reads(0, s)),
		(z(), z()).prop_map(|(a, b)| W::Parts(a, b)),
	];
	(z(), z(), vec(step, 0..4))
		.prop_map(|(a, b, steps)| {
			Body::Chroma(steps.into_iter().fold(W::Parts(a, b), |x, y| W::Add(x.into(), y.into())))
		})
		.boxed()
}

/// Constants up to what the parser takes.
fn huge_body() -> BoxedStrategy<Body> {
	let l = || any::<u64>().prop_map(|v| S::Lit(v, 0));
	let step = (l(), l(), comp(), comp(), any::<bool>()).prop_map(|(a, b, c, d, m)| {
		if m {
			W::Mul(W::Mul(W::Parts(a, b.clone()).into(), S::Var(c, 0)).into(), S::Var(d, 1))
		} else {
			W::Reads(0, S::Mul(a.into(), b.into()))
		}
	});
	(l(), l(), vec(step, 0..5))
		.prop_map(|(a, b, steps)| {
			Body::Chroma(steps.into_iter().fold(W::Parts(a, b), |x, y| W::Add(x.into(), y.into())))
		})
		.boxed()
}

pub fn c16() -> Prop {
	Prop {
		id: "C16",
		rels: vec![rel(
			"rows",
			"pairs of versions, many with zero weights or huge constants, by all methods in both dimensions; non-trivial: a row with different values",
			60_000,
			500_000,
			|| {
				prop_oneof![
					3 => pair(any_body(), false),
					3 => pair(sparse_body(), false),
					1 => pair(huge_body(), false),
				]
				.boxed()
			},
			check_rows,
		)],
		assumptions: vec![],
	}
}

// ------------------------------------------------------------------------------------------ C17

/// Components may be named as the prices.
fn named() -> BoxedStrategy<String> {
	prop_oneof![8 => comp(), 1 => select(vec!["read", "write", "reads", "w_rite"]).prop_map(String::from)].boxed()
}

fn count_lit() -> BoxedStrategy<u64> {
	prop_oneof![
		2 => 990u64..1010,
		2 => select(vec![0u64, 1, 1000, 1001, 1_000_000, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX - 1, u64::MAX]),
		2 => 0u64..3000,
	]
	.boxed()
}

fn rw_body() -> BoxedStrategy<Body> {
	let n = || (count_lit(), 0u8..6).prop_map(|(v, s)| S::Lit(v, s));
	let count = move || {
		prop_oneof![
			4 => n(),
			1 => n().prop_map(|s| S::Paren(s.into())),
			1 => (n(), named()).prop_map(|(a, c)| S::Mul(a.into(), S::Var(c, 0).into())),
			1 => (n(), n()).prop_map(|(a, b)| S::Add(a.into(), b.into())),
			1 => (named(), 0u8..4).prop_map(|(c, s)| S::Var(c, s)),
		]
	};
	let step = prop_oneof![
		2 => (0u8..4, count()).prop_map(|(d, c)| W::Reads(d, c)),
		2 => (0u8..4, count()).prop_map(|(d, c)| W::Writes(d, c)),
		1 => (0u8..4, n(), named()).prop_map(|(d, c, v)| W::Mul(W::Reads(d, c).into(), S::Var(v, 0))),
		1 => (lit(), lit(), named()).prop_map(|(a, b, c)| W::Mul(W::Parts(S::Lit(a, 0), S::Lit(b, 0)).into(), S::Var(c, 1))),
	];
	let chroma = (lit(), lit(), vec(step, 0..5)).prop_map(|(a, b, steps)| {
		Body::Chroma(
			steps
				.into_iter()
				.fold(W::Parts(S::Lit(a, 0), S::Lit(b, 0)), |x, y| W::Add(x.into(), y.into())),
		)
	});
	let vl = || (count_lit(), 0u8..3).prop_map(|(v, s)| V::Lit(v, s));
	let vcount = move || {
		prop_oneof![
			3 => vl(),
			1 => vl().prop_map(|v| V::Paren(v.into())),
			1 => (vl(), named()).prop_map(|(a, c)| V::Mul(a.into(), V::Var(c).into())),
		]
	};
	let vstep = prop_oneof![
		(0u8..4, vcount()).prop_map(|(d, c)| V::Reads(d, c.into())),
		(0u8..4, vcount()).prop_map(|(d, c)| V::Writes(d, c.into())),
		(lit(), named()).prop_map(|(a, c)| V::Mul(V::Lit(a, 0).into(), V::Var(c).into())),
	];
	let leg = (lit(), vec(vstep, 0..5)).prop_map(|(a, steps)| {
		Body::Legacy(steps.into_iter().fold(V::Lit(a, 0), |x, y| V::Add(x.into(), y.into())))
	});
	prop_oneof![3 => chroma, 2 => leg].boxed()
}

fn check_warning(p: &Pair, ctx: &mut Ctx) -> Check {
	let newer = p.new.as_ref().or(p.old.as_ref()).unwrap();
	let (r, w) = newer.body.largest_counts();
	let (o, n) = sides(p, "frame/pallet_x.rs")?;
	for unit in UNITS {
		for m in METHODS {
			let pr = params(m, unit);
			let diff = compare_files(o.clone(), n.clone(), &pr, &no_filter())
				.map_err(|e| format!("comparison failed as a whole: {e}"))?;
			ensure_eq!(diff.len(), 1, "rows");
			let row = &diff[0];
			let simple = |e: &Vec<ChromaticExtrinsic>| {
				e.first().cloned().map(|e| e.map_term(|t| t.simplify(unit).unwrap()))
			};
			let plain = compare_extrinsics(simple(&o), simple(&n), &pr);
			match (&row.change, plain) {
				(TermDiff::Failed(e), Err(f)) => ensure_eq!(e, &f, "error of the call"),
				(_, Ok(t)) => ensure_eq!(
					format!("{:?}", row.term()),
					format!("{:?}", Some(&t)),
					"row against the plain comparison"
				),
				(c, Err(e)) => return Err(Fail::Violation(format!("{c:?} although: {e}"))),
			}
			if row.error().is_some() {
				ctx.label("failed");
				continue
			}
			let want = r.max(w) > 1000;
			let Some(text) = row.warning() else {
				ensure!(!want, "no warning for {} reads and {} writes in {:?}: {}", r, w, unit, newer.src());
				continue
			};
			ensure!(want, "warning for {} reads and {} writes: {}: {}", r, w, text, newer.src());
			ctx.label("warned");
			ensure!(
				text.contains("frame/pallet_x.rs") && has_word(text, &newer.name),
				"the warning does not name the call: {}",
				text
			);
			ensure!(has_word(text, &r.max(w).to_string()), "the warning does not name {}: {}", r.max(w), text);
			let (has_r, has_w) = (text.contains("READ"), text.contains("WRITE"));
			ensure!(
				if r > w { has_r && !has_w } else if w > r { has_w && !has_r } else { has_r || has_w },
				"the warning for {} reads and {} writes is: {}",
				r, w, text
			);
		}
	}
	if r.max(w) > 900 {
		ctx.nontrivial();
	}
	Ok(())
}

pub fn c17() -> Prop {
	Prop {
		id: "C17",
		rels: vec![rel(
			"warnings",
			"pairs of versions with read and write counts around the limit in all notations; non-trivial: a direct count above 900",
			60_000,
			500_000,
			|| prop_oneof![4 => pair(rw_body(), false), 1 => pair(any_body(), false)].boxed(),
			check_warning,
		)],
		assumptions: vec!["counts are literals; a product or sum of literals is not a direct count"],
	}
}
