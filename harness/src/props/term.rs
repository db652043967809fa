//! C06-C08: equations as text and as numbers, formatted values.

use crate::{ensure, ensure_eq, run::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use subweight_core::{
	scope::{ChromaticScope, SimpleScope},
	term::{ChromaticTerm, SimpleTerm},
	traits::Weight,
	Dimension,
};

/// A number up to 128 bits that JSON can hold: `m << sh`.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub struct Num(pub u64, pub u8);

impl Num {
	pub fn get(&self) -> u128 {
		(self.0 as u128) << self.1
	}
}

/// An equation.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum T {
	Val(Num),
	Scalar(Num),
	Var(String),
	Add(Box<T>, Box<T>),
	Mul(Box<T>, Box<T>),
}

impl T {
	pub fn term(&self) -> SimpleTerm {
		match self {
			T::Val(n) => SimpleTerm::Value(n.get()),
			T::Scalar(n) => SimpleTerm::Scalar(n.get()),
			T::Var(v) => SimpleTerm::Var(v.as_str().into()),
			T::Add(a, b) => SimpleTerm::Add(a.term().into(), b.term().into()),
			T::Mul(a, b) => SimpleTerm::Mul(a.term().into(), b.term().into()),
		}
	}
	pub fn vars(&self, out: &mut BTreeSet<String>) {
		match self {
			T::Var(v) => {
				out.insert(v.clone());
			},
			T::Add(a, b) | T::Mul(a, b) => {
				a.vars(out);
				b.vars(out);
			},
			_ => {},
		}
	}
	/// The exact value; `Big` stands for anything that exceeds 128 bits.
	fn eval(&self, env: &BTreeMap<String, X>) -> X {
		match self {
			T::Val(n) | T::Scalar(n) => X::Is(n.get()),
			T::Var(v) => env.get(v).copied().unwrap_or(X::Undefined),
			T::Add(a, b) => a.eval(env).op(b.eval(env), |a, b| a.checked_add(b), false),
			T::Mul(a, b) => a.eval(env).op(b.eval(env), |a, b| a.checked_mul(b), true),
		}
	}
	/// The value as a float, and whether it is free of overflow.
	fn real(&self, env: &BTreeMap<String, f64>) -> f64 {
		match self {
			T::Val(n) | T::Scalar(n) => n.get() as f64,
			T::Var(v) => env[v],
			T::Add(a, b) => a.real(env) + b.real(env),
			T::Mul(a, b) => a.real(env) * b.real(env),
		}
	}
	fn size(&self) -> usize {
		match self {
			T::Add(a, b) | T::Mul(a, b) => 1 + a.size() + b.size(),
			_ => 1,
		}
	}
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum X {
	Is(u128),
	Big,
	Undefined,
}

impl X {
	fn op(self, o: X, f: fn(u128, u128) -> Option<u128>, mul: bool) -> X {
		match (self, o) {
			(X::Undefined, _) | (_, X::Undefined) => X::Undefined,
			(X::Is(0), X::Big) | (X::Big, X::Is(0)) if mul => X::Is(0),
			(X::Big, _) | (_, X::Big) => X::Big,
			(X::Is(a), X::Is(b)) => f(a, b).map_or(X::Big, X::Is),
		}
	}
	fn capped(self) -> Option<u128> {
		match self {
			X::Is(v) => Some(v),
			X::Big => Some(u128::MAX),
			X::Undefined => None,
		}
	}
}

const VARS: [&str; 13] =
	["a", "b", "c", "n", "s", "x", "READ", "WRITE", "_a", "a_b", "ab", "constants::NANOS", "NANOS"];

fn small() -> BoxedStrategy<Num> {
	prop_oneof![
		3 => Just(0u64),
		3 => Just(1u64),
		4 => 2u64..10,
		4 => 0u64..1000,
		2 => 0u64..2_000_000,
		1 => 0u64..5_000_000_000_000_000,
		1 => select(vec![999u64, 1000, 1001, 999_999, 1_000_000, 999_999_999, 1_000_000_000, 999_999_999_999, 1_000_000_000_000]),
	]
	.prop_map(|v| Num(v, 0))
	.boxed()
}

fn any_num() -> BoxedStrategy<Num> {
	prop_oneof![
		3 => small(),
		1 => any::<u64>().prop_map(|v| Num(v, 0)),
		1 => (any::<u64>(), 0u8..=64).prop_map(|(m, s)| Num(m, s)),
		1 => Just(Num(u64::MAX, 64)),
	]
	.boxed()
}

fn term(num: BoxedStrategy<Num>, depth: u32) -> BoxedStrategy<T> {
	let leaf = prop_oneof![
		2 => num.clone().prop_map(T::Val),
		2 => num.prop_map(T::Scalar),
		3 => select(VARS.to_vec()).prop_map(|v| T::Var(v.into())),
	];
	let tree = |depth, leaf: BoxedStrategy<T>| {
		leaf.prop_recursive(depth, 24, 2, |i| {
			prop_oneof![
				(i.clone(), i.clone()).prop_map(|(a, b)| T::Add(a.into(), b.into())),
				(i.clone(), i.clone()).prop_map(|(a, b)| T::Mul(a.into(), b.into())),
			]
		})
		.boxed()
	};
	let long = (vec(tree(1, leaf.clone().boxed()), 8..60), any::<bool>()).prop_map(|(v, left)| {
		let join = |a: T, b: T| if left { T::Add(a.into(), b.into()) } else { T::Add(b.into(), a.into()) };
		v.into_iter().reduce(join).unwrap()
	});
	prop_oneof![40 => tree(depth, leaf.boxed()), 1 => long].boxed()
}

// ------------------------------------------------------------------------------------------ C06

#[derive(Debug, Clone, Copy)]
struct Iv(f64, f64);

/// Reads displayed text back; numbers with a suffix stand for everything that rounds to them.
struct Reader<'a> {
	s: &'a [u8],
	at: usize,
	env: &'a BTreeMap<String, f64>,
}

impl<'a> Reader<'a> {
	fn read(text: &'a str, env: &'a BTreeMap<String, f64>) -> Result<Iv, String> {
		let mut r = Reader { s: text.as_bytes(), at: 0, env };
		let v = r.sum()?;
		if r.at != r.s.len() {
			return Err(format!("unexpected text at {} of `{text}`", r.at))
		}
		Ok(v)
	}
	fn skip(&mut self) {
		while self.s.get(self.at) == Some(&b' ') {
			self.at += 1;
		}
	}
	fn eat(&mut self, c: u8) -> bool {
		self.skip();
		if self.s.get(self.at) == Some(&c) {
			self.at += 1;
			self.skip();
			return true
		}
		false
	}
	fn sum(&mut self) -> Result<Iv, String> {
		let mut v = self.product()?;
		while self.eat(b'+') {
			let w = self.product()?;
			v = Iv(v.0 + w.0, v.1 + w.1);
		}
		Ok(v)
	}
	fn product(&mut self) -> Result<Iv, String> {
		let mut v = self.atom()?;
		while self.eat(b'*') {
			let w = self.atom()?;
			v = Iv(v.0 * w.0, v.1 * w.1);
		}
		Ok(v)
	}
	fn atom(&mut self) -> Result<Iv, String> {
		if self.eat(b'(') {
			let v = self.sum()?;
			if !self.eat(b')') {
				return Err(format!("missing bracket at {}", self.at))
			}
			return Ok(v)
		}
		self.skip();
		let start = self.at;
		while self.at < self.s.len() && (self.s[self.at].is_ascii_alphanumeric() || b"_.:".contains(&self.s[self.at])) {
			self.at += 1;
		}
		let word = std::str::from_utf8(&self.s[start..self.at]).unwrap();
		if word.is_empty() {
			return Err(format!("nothing at {start}"))
		}
		if word.as_bytes()[0].is_ascii_digit() {
			return number(word)
		}
		let v = *self.env.get(word).ok_or(format!("unknown variable {word}"))?;
		Ok(Iv(v, v))
	}
}

fn number(word: &str) -> Result<Iv, String> {
	let unit = match word.as_bytes()[word.len() - 1] {
		b'K' => 1e3,
		b'M' => 1e6,
		b'G' => 1e9,
		b'T' => 1e12,
		b'0'..=b'9' => {
			let v: f64 = word.parse().map_err(|e| format!("{word}: {e}"))?;
			return Ok(Iv(v, v))
		},
		_ => return Err(format!("unknown suffix: {word}")),
	};
	let digits = &word[..word.len() - 1];
	let v: f64 = digits.parse().map_err(|e| format!("{word}: {e}"))?;
	let (_, frac) = digits.split_once('.').ok_or(format!("{word}: no decimals"))?;
	if frac.len() != 2 {
		return Err(format!("{word}: not two decimals"))
	}
	let eps = v * 1e-12;
	Ok(Iv((v - 0.005 - eps).max(0.0) * unit, (v + 0.005 + eps) * unit))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DisplayCase {
	term: T,
	envs: Vec<Vec<u32>>,
}

fn check_display(c: &DisplayCase, ctx: &mut Ctx) -> Check {
	let text = c.term.term().to_string();
	let mut vars = BTreeSet::new();
	c.term.vars(&mut vars);
	if c.term.size() >= 5 && !vars.is_empty() {
		ctx.nontrivial();
	}
	if text.contains('(') {
		ctx.label("with brackets");
	}
	if text.contains('.') {
		ctx.label("with rounded constants");
	}
	let mut envs: Vec<BTreeMap<String, f64>> = c
		.envs
		.iter()
		.map(|vals| VARS.iter().zip(vals).map(|(v, x)| (v.to_string(), *x as f64)).collect())
		.collect();
	// Each variable alone large, the others 1: shows a term that is lost.
	for v in &vars {
		let mut e: BTreeMap<String, f64> = VARS.iter().map(|v| (v.to_string(), 1.0)).collect();
		e.insert(v.clone(), 1e12);
		envs.push(e);
	}
	for env in envs {
		let want = c.term.real(&env);
		let iv = Reader::read(&text, &env)
			.map_err(|e| format!("`{text}` can not be read back: {e}"))?;
		let eps = 1e-9;
		ensure!(
			iv.0 * (1.0 - eps) <= want && want <= iv.1 * (1.0 + eps),
			"`{}` under {:?} is {:?}, but the equation is {} ({:?})",
			text,
			env,
			iv,
			want,
			c.term
		);
		ctx.evals(1);
	}
	Ok(())
}

pub fn c06() -> Prop {
	fn exact() -> BoxedStrategy<Num> {
		prop_oneof![2 => Just(0u64), 2 => Just(1u64), 3 => 2u64..1000].prop_map(|v| Num(v, 0)).boxed()
	}
	fn case(num: BoxedStrategy<Num>, depth: u32) -> BoxedStrategy<DisplayCase> {
		(term(num, depth), vec(vec(prop_oneof![0u32..3, 0u32..1000], VARS.len()), 4))
			.prop_map(|(term, envs)| DisplayCase { term, envs })
			.boxed()
	}
	/// Parsed bodies: what users really see.
	fn parsed(c: &(crate::lang::Body, Vec<Vec<u32>>), ctx: &mut Ctx) -> Check {
		let f = crate::lang::Fun { name: "f".into(), body: c.0.clone(), ranges: vec![], style: 0 };
		let exts = subweight_core::parse::pallet::parse_content("p".into(), f.file())
			.map_err(|e| format!("template rejected: {e}"))?;
		for d in Dimension::all() {
			let t = exts[0].term.simplify(d)?;
			let text = t.to_string();
			for vals in &c.1 {
				let env: crate::lang::Env =
					["a", "b", "c", "n", "s", "x", "z", "READ", "WRITE"]
						.iter()
						.zip(vals.iter().chain(&[7]))
						.map(|(v, x)| (v.to_string(), *x as u128))
						.chain([("N".to_string(), 2 * vals[0] as u128 + 11), ("S".to_string(), 3 * vals[1] as u128 + 5)])
						.collect();
				let (r, w) = (env["READ"], env["WRITE"]);
				let Some((time, proof)) = c.0.eval(&env, r, w) else { continue };
				let mut fenv: BTreeMap<String, f64> =
					env.iter().map(|(k, v)| (k.clone(), *v as f64)).collect();
				let want = if d == Dimension::Time {
					time
				} else {
					fenv.insert("READ".into(), 0.0);
					fenv.insert("WRITE".into(), 0.0);
					proof
				} as f64;
				let iv = Reader::read(&text, &fenv)
					.map_err(|e| format!("`{text}` can not be read back: {e}"))?;
				ensure!(
					iv.0 * (1.0 - 1e-9) <= want && want <= iv.1 * (1.0 + 1e-9),
					"`{}` ({:?}) under {:?} is {:?}, but `{}` is {}",
					text, d, fenv, iv, c.0.src(), want
				);
				if want > 0.0 && text.contains('*') {
					ctx.nontrivial();
				}
			}
		}
		Ok(())
	}
	Prop {
		id: "C06",
		rels: vec![
			rel(
				"exact constants",
				"random equations whose constants are below 1000, read back under 4 random and one extreme assignment per variable; non-trivial: at least 5 nodes and a variable",
				300_000,
				2_000_000,
				|| case(exact(), 5),
				check_display,
			),
			rel(
				"rounded constants",
				"random equations with constants of any suffix, read back as intervals; non-trivial: at least 5 nodes and a variable",
				300_000,
				2_000_000,
				|| case(small(), 4),
				check_display,
			),
			rel(
				"parsed bodies",
				"template bodies, parsed, displayed and read back in both dimensions; non-trivial: a displayed product and a non-zero value",
				75_000,
				500_000,
				|| {
					boxed((
						crate::lang::template_body(),
						vec(vec(prop_oneof![0u32..3, 0u32..1000], VARS.len()), 3),
					))
				},
				parsed,
			),
		],
		assumptions: vec!["displayed text is read with * before +, brackets, and decimal suffixes of two decimals"],
	}
}

// ------------------------------------------------------------------------------------------ C07

fn check_format(n: &Num, ctx: &mut Ctx) -> Check {
	let v = n.get();
	let dec = [("", 1u128), ("K", 1_000), ("M", 1_000_000), ("G", 1_000_000_000), ("T", 1_000_000_000_000)];
	let time = [
		("ps", 1u128),
		("ns", 1_000),
		("us", 1_000_000),
		("ms", 1_000_000_000),
		("s", 1_000_000_000_000),
	];
	let size = [("B", 1u128), ("KiB", 1 << 10), ("MiB", 1 << 20), ("GiB", 1 << 30)];
	for (what, text, units) in [
		("count", Dimension::fmt_scalar(v), &dec[..]),
		("time", Dimension::Time.fmt_value(v), &time[..]),
		("time", Dimension::fmt_time(v), &time[..]),
		("proof size", Dimension::Proof.fmt_value(v), &size[..]),
		("proof size", Dimension::fmt_proof(v), &size[..]),
	] {
		let (name, unit) = *units.iter().rev().find(|u| u.1 <= v).unwrap_or(&units[0]);
		let digits = text.trim_end_matches(|c: char| c.is_ascii_alphabetic());
		let suffix = &text[digits.len()..];
		ensure_eq!(suffix, name, "unit of {} {} shown as {}", what, v, text);
		if unit == 1 {
			ensure_eq!(digits, v.to_string(), "{} {} shown as {}", what, v, text);
			continue
		}
		ctx.nontrivial();
		// Exactly: |shown * unit - v| <= unit / 200, in integers.
		let (int, frac) = digits.split_once('.').unwrap_or((digits, ""));
		ensure!(
			!int.is_empty() && frac.len() == 2 && (int.to_string() + frac).bytes().all(|b| b.is_ascii_digit()),
			"{} {} is shown as {}",
			what,
			v,
			text
		);
		let hundredths: u128 =
			format!("{int}{frac}").parse().map_err(|e| format!("{text}: {e}"))?;
		// 128-bit overflow is impossible below 2^64, where weights live.
		if v < 1 << 80 {
			let err = (hundredths * unit).abs_diff(v * 100) as f64;
			ensure!(
				err <= unit as f64 / 2.0 + v as f64 * 100.0 * 4e-16,
				"{} {} is shown as {}",
				what,
				v,
				text
			);
		} else {
			let (a, b) = (hundredths as f64 * unit as f64 / 100.0, v as f64);
			ensure!((a - b).abs() <= b * 1e-12, "{} {} is shown as {}", what, v, text);
		}
	}
	Ok(())
}

pub fn c07() -> Prop {
	Prop {
		id: "C07",
		rels: vec![rel(
			"values",
			"values of all magnitudes, around unit boundaries and half-way roundings, for counts, times and sizes; non-trivial: a unit above the base unit",
			1_600_000,
			20_000_000,
			|| {
				boxed(prop_oneof![
					2 => any_num(),
					2 => (0u32..64).prop_flat_map(|b| (0u64..=(u64::MAX >> b))).prop_map(|v| Num(v, 0)),
					2 => (select(vec![1_000u64, 1_000_000, 1_000_000_000, 1_000_000_000_000, 1 << 10, 1 << 20, 1 << 30, 1 << 40, 1 << 50]), -3i64..=3)
						.prop_map(|(b, d)| Num(b.wrapping_add(d as u64), 0)),
					2 => (select(vec![1_000u64, 1_000_000, 1_000_000_000, 1_000_000_000_000, 1 << 10, 1 << 20, 1 << 30]), 0u64..2_000_000, -1i64..=1)
						.prop_map(|(b, k, d)| Num((b as u128 * k as u128 / 200).min(u64::MAX as u128 / 2) as u64, 0).offset(d)),
				])
			},
			check_format,
		)],
		assumptions: vec!["above 2^80 only 12 digits are compared; substrate weights have 64 bits"],
	}
}

impl Num {
	fn offset(self, d: i64) -> Num {
		Num(self.0.saturating_add_signed(d), self.1)
	}
}

// ------------------------------------------------------------------------------------------ C08

#[derive(Debug, Clone, Serialize, Deserialize)]
struct EvalCase {
	term: T,
	/// Definitions; each may only use the ones before it (no cycles).
	defs: Vec<Option<T>>,
	subst: (usize, T),
}

fn eval_case() -> BoxedStrategy<EvalCase> {
	let num = || prop_oneof![2 => small(), 1 => any_num()].boxed();
	let def = prop_oneof![
		1 => Just(None),
		5 => num().prop_map(|n| Some(T::Scalar(n))),
		2 => term(num(), 2).prop_map(Some),
	];
	(term(num(), 6), vec(def, VARS.len()), (0..VARS.len(), term(num(), 3)))
		.prop_map(|(term, defs, subst)| EvalCase { term, defs, subst })
		.boxed()
}

/// Replaces variables that a definition must not use by a constant.
fn restrict(t: &T, allowed: &[&str]) -> T {
	match t {
		T::Var(v) if !allowed.contains(&v.as_str()) => T::Scalar(Num(3, 0)),
		T::Add(a, b) => T::Add(restrict(a, allowed).into(), restrict(b, allowed).into()),
		T::Mul(a, b) => T::Mul(restrict(a, allowed).into(), restrict(b, allowed).into()),
		t => t.clone(),
	}
}

fn check_eval(c: &EvalCase, ctx: &mut Ctx) -> Check {
	let mut scope = SimpleScope::empty();
	let mut env: BTreeMap<String, X> = BTreeMap::new();
	let mut defined = BTreeSet::new();
	for (i, d) in c.defs.iter().enumerate() {
		if let Some(d) = d {
			let d = restrict(d, &VARS[..i]);
			// May well be undefined: then so is everything that uses it.
			env.insert(VARS[i].into(), d.eval(&env));
			if i % 2 == 0 {
				scope = scope.with_var(VARS[i], d.term());
			} else {
				scope.put_var(VARS[i], d.term());
			}
			defined.insert(VARS[i].to_string());
		}
	}
	let t = c.term.term();
	let want = c.term.eval(&env);
	let got = t.eval(&scope);
	match want.capped() {
		Some(v) => ensure_eq!(got, Ok(v), "value of {:?} in {}", c.term, scope),
		None => ensure!(got.is_err(), "{:?} in {} is {:?} despite an undefined variable", c.term, scope, got),
	}
	ctx.label(match want {
		X::Is(_) => "exact",
		X::Big => "capped",
		X::Undefined => "undefined",
	});
	let mut vars = BTreeSet::new();
	c.term.vars(&mut vars);
	if c.term.size() >= 4 && !vars.is_empty() {
		ctx.nontrivial();
	}
	let (free, bound): (BTreeSet<_>, BTreeSet<_>) =
		vars.iter().cloned().partition(|v| !defined.contains(v));
	ensure_eq!(t.free_vars(&scope), free, "free variables of {:?} in {}", c.term, scope);
	ensure_eq!(t.bound_vars(&scope), bound, "bound variables of {:?} in {}", c.term, scope);

	// Substitution is evaluation with the variable bound to the equation.
	let x = VARS[c.subst.0];
	let by = restrict(&c.subst.1, &VARS[..c.subst.0]);
	let s = t.clone().into_substituted(x, &by.term());
	let mut s2 = t.clone();
	s2.substitute(x, &by.term());
	ensure_eq!(s, s2, "both substitutions");
	let mut env2 = env.clone();
	env2.insert(x.into(), by.eval(&env));
	let want = c.term.eval(&env2);
	// Evaluate in the original scope: no other variable may be touched. Definitions that use x
	// do so by name, so restrict to scopes without them.
	let uses_x = c.defs.iter().enumerate().any(|(i, d)| {
		let mut v = BTreeSet::new();
		if let Some(d) = d {
			restrict(d, &VARS[..i]).vars(&mut v);
		}
		v.contains(x)
	});
	if !uses_x {
		let got = s.eval(&scope);
		match want.capped() {
			Some(v) => ensure_eq!(got, Ok(v), "{:?} with {} replaced by {:?} in {}", c.term, x, by, scope),
			None => ensure!(got.is_err(), "{:?} with {} replaced by {:?} has no value", c.term, x, by),
		}
		ctx.evals(1);
	}
	let mut by_vars = BTreeSet::new();
	by.vars(&mut by_vars);
	let mut want_vars: BTreeSet<String> = vars.iter().filter(|v| v.as_str() != x).cloned().collect();
	if vars.contains(x) {
		want_vars.extend(by_vars);
	}
	ensure_eq!(
		s.free_vars(&SimpleScope::empty()),
		want_vars,
		"variables of {:?} with {} replaced by {:?}",
		c.term,
		x,
		by
	);
	Ok(())
}

/// Well-typed two-dimensional equations.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum CT {
	Val(Num, Num),
	/// weight variable
	Var(u8),
	Add(Box<CT>, Box<CT>),
	/// by a number, from either side
	MulN(Box<CT>, Num, bool),
	/// by a number variable, from either side
	MulV(Box<CT>, u8, bool),
}

impl CT {
	fn term(&self) -> ChromaticTerm {
		let two = |a: ChromaticTerm, b: ChromaticTerm, swap: bool| {
			if swap {
				ChromaticTerm::Mul(b.into(), a.into())
			} else {
				ChromaticTerm::Mul(a.into(), b.into())
			}
		};
		match self {
			CT::Val(t, p) => ChromaticTerm::Value(Weight { time: t.get(), proof: p.get() }),
			CT::Var(i) => ChromaticTerm::Var(format!("w{i}").into()),
			CT::Add(a, b) => ChromaticTerm::Add(a.term().into(), b.term().into()),
			CT::MulN(a, n, s) => two(a.term(), ChromaticTerm::Scalar(n.get()), *s),
			CT::MulV(a, i, s) => two(a.term(), ChromaticTerm::Var(format!("n{i}").into()), *s),
		}
	}
	fn simple(&self, time: bool) -> T {
		match self {
			CT::Val(t, p) => T::Val(if time { *t } else { *p }),
			CT::Var(i) => T::Var(format!("w{i}")),
			CT::Add(a, b) => T::Add(a.simple(time).into(), b.simple(time).into()),
			CT::MulN(a, n, _) => T::Mul(a.simple(time).into(), T::Scalar(*n).into()),
			CT::MulV(a, i, _) => T::Mul(a.simple(time).into(), T::Var(format!("n{i}")).into()),
		}
	}
}

fn ct() -> BoxedStrategy<CT> {
	let leaf = prop_oneof![
		4 => (any_num(), any_num()).prop_map(|(a, b)| CT::Val(a, b)),
		1 => (0u8..3).prop_map(CT::Var),
	];
	leaf.prop_recursive(4, 12, 2, |i| {
		prop_oneof![
			(i.clone(), i.clone()).prop_map(|(a, b)| CT::Add(a.into(), b.into())),
			(i.clone(), any_num(), any::<bool>()).prop_map(|(a, n, s)| CT::MulN(a.into(), n, s)),
			// A product of two bare variables has no defined types.
			(i, 0u8..3, any::<bool>()).prop_map(|(a, n, s)| match a {
				CT::Var(_) => CT::MulV(CT::Add(a.clone().into(), a.into()).into(), n, s),
				a => CT::MulV(a.into(), n, s),
			}),
		]
	})
	.boxed()
}

type ChromaCase = (CT, Vec<Option<(Num, Num)>>, Vec<Option<Num>>);

fn check_chroma(c: &ChromaCase, ctx: &mut Ctx) -> Check {
	let mut scope = ChromaticScope::empty();
	let mut env: [BTreeMap<String, X>; 2] = Default::default();
	for (i, w) in c.1.iter().enumerate() {
		if let Some((t, p)) = w {
			let name = format!("w{i}");
			scope.put_var(&name, ChromaticTerm::Value(Weight { time: t.get(), proof: p.get() }));
			env[0].insert(name.clone(), X::Is(t.get()));
			env[1].insert(name, X::Is(p.get()));
		}
	}
	for (i, n) in c.2.iter().enumerate() {
		if let Some(n) = n {
			let name = format!("n{i}");
			scope.put_var(&name, ChromaticTerm::Scalar(n.get()));
			env[0].insert(name.clone(), X::Is(n.get()));
			env[1].insert(name, X::Is(n.get()));
		}
	}
	let (t, p) = (c.0.simple(true).eval(&env[0]), c.0.simple(false).eval(&env[1]));
	let term = c.0.term();
	let got = term.eval(&scope);
	match (t.capped(), p.capped()) {
		(Some(t), Some(p)) => {
			ensure_eq!(got, Ok(Weight { time: t, proof: p }), "value of {:?}", c.0);
			ctx.nontrivial();
		},
		_ => ensure!(got.is_err(), "{:?} has a value despite an undefined variable", c.0),
	}
	// The equation of one dimension, evaluated in that dimension.
	for (d, i) in [(Dimension::Time, 0), (Dimension::Proof, 1)] {
		let mut s = SimpleScope::empty();
		for (k, v) in &env[i] {
			if let X::Is(v) = v {
				s.put_var(k, SimpleTerm::Scalar(*v));
			}
		}
		let got = term.simplify(d)?.eval(&s);
		match [t, p][i].capped() {
			Some(v) => ensure_eq!(got, Ok(v), "{:?} of {:?}", d, c.0),
			None => ensure!(got.is_err(), "{:?} has a value despite an undefined variable", c.0),
		}
	}
	Ok(())
}

pub fn c08() -> Prop {
	Prop {
		id: "C08",
		rels: vec![
			rel(
				"evaluation",
				"random equations with numbers up to 128 bits in scopes that define some variables by numbers and equations; non-trivial: at least 4 nodes and a variable",
				320_000,
				4_000_000,
				eval_case,
				check_eval,
			),
			rel(
				"two dimensions",
				"well-typed weight equations, evaluated as a pair and dimension by dimension; non-trivial: has a value",
				160_000,
				2_000_000,
				|| {
					boxed((
						ct(),
						vec(prop::option::weighted(0.9, (any_num(), any_num())), 3),
						vec(prop::option::weighted(0.9, any_num()), 3),
					))
				},
				check_chroma,
			),
		],
		assumptions: vec!["scopes are acyclic; two-dimensional equations multiply a weight with a number"],
	}
}
