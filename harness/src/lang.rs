//! Abstract weight functions and files: how they look as Rust source and what they mean.
//! The meaning is defined here from the abstract form, never through the code under test.

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub type Env = BTreeMap<String, u128>;

/// (time, proof) in unbounded enough arithmetic; `None` once it leaves 64 bits, which no real
/// weight does (there the source expression saturates at 64 bits).
pub type WV = Option<(u128, u128)>;

fn lim(x: Option<u128>) -> Option<u128> {
	x.filter(|v| *v <= u64::MAX as u128)
}

/// Scalars (`u64` expressions).
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum S {
	Lit(u64, u8),
	Var(String, u8),
	Add(Box<S>, Box<S>),
	Mul(Box<S>, Box<S>),
	Paren(Box<S>),
}

/// Weights, chromatic syntax.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum W {
	Parts(S, S),
	RefTime(S),
	Proof(S),
	Zero,
	Add(Box<W>, Box<W>),
	Mul(Box<W>, S),
	Reads(u8, S),
	Writes(u8, S),
	Paren(Box<W>),
}

/// Weights, legacy syntax (`Weight` is `u64`).
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum V {
	Lit(u64, u8),
	Var(String),
	/// With the type written as a path.
	QVar(String, u8),
	Add(Box<V>, Box<V>),
	Mul(Box<V>, Box<V>),
	Reads(u8, Box<V>),
	Writes(u8, Box<V>),
	Paren(Box<V>),
}

pub fn group(v: u64) -> String {
	let s = v.to_string();
	let mut out = String::new();
	for (i, c) in s.chars().enumerate() {
		if i > 0 && (s.len() - i) % 3 == 0 {
			out.push('_');
		}
		out.push(c);
	}
	out
}

pub const DBS: [&str; 4] = [
	"T::DbWeight::get()",
	"RocksDbWeight::get()",
	"ParityDbWeight::get()",
	"frame_support::weights::constants::RocksDbWeight::get()",
];

impl S {
	pub fn eval(&self, env: &Env) -> Option<u128> {
		lim(match self {
			S::Lit(v, _) => Some(*v as u128),
			S::Var(n, _) => Some(env[n]),
			S::Add(a, b) => a.eval(env)?.checked_add(b.eval(env)?),
			S::Mul(a, b) => a.eval(env)?.checked_mul(b.eval(env)?),
			S::Paren(a) => a.eval(env),
		})
	}
	/// As an argument.
	pub fn src(&self) -> String {
		match self {
			S::Lit(v, st) => match st % 11 {
				0 => v.to_string(),
				1 => format!("{}_u64", v),
				2 => format!("{} as u64", group(*v)),
				3 => group(*v),
				4 => format!("{}u64", v),
				6 => format!("{v:#x}"),
				7 => format!("{v:#o}_u64"),
				8 => format!("0b_{v:b}"),
				9 => format!("00{v}"),
				10 => format!("0x{v:X}u64"),
				_ => format!("({} as u64)", v),
			},
			S::Var(n, st) => match st % 4 {
				0 => format!("{n}.into()"),
				1 => format!("{n} as u64"),
				2 => n.clone(),
				_ => format!("({n} as u64)"),
			},
			S::Add(a, b) => format!("{}.saturating_add({})", a.recv(), b.src()),
			S::Mul(a, b) => format!("{}.saturating_mul({})", a.recv(), b.src()),
			S::Paren(a) => format!("({})", a.src()),
		}
	}
	/// As a method receiver.
	fn recv(&self) -> String {
		match self {
			S::Lit(..) | S::Var(..) => {
				let s = self.src();
				if s.starts_with('(') {
					s
				} else {
					format!("({s})")
				}
			},
			_ => self.src(),
		}
	}
	pub fn vars(&self, out: &mut Vec<String>) {
		match self {
			S::Lit(..) => {},
			S::Var(n, _) => out.push(n.clone()),
			S::Add(a, b) | S::Mul(a, b) => {
				a.vars(out);
				b.vars(out);
			},
			S::Paren(a) => a.vars(out),
		}
	}
}

impl W {
	pub fn eval(&self, env: &Env, read: u128, write: u128) -> WV {
		let z = |a: WV, b: WV, f: fn(u128, u128) -> Option<u128>| -> WV {
			let ((a, b), (c, d)) = (a?, b?);
			Some((lim(f(a, c))?, lim(f(b, d))?))
		};
		match self {
			W::Parts(t, p) => Some((t.eval(env)?, p.eval(env)?)),
			W::RefTime(t) => Some((t.eval(env)?, 0)),
			W::Proof(p) => Some((0, p.eval(env)?)),
			W::Zero => Some((0, 0)),
			W::Add(a, b) =>
				z(a.eval(env, read, write), b.eval(env, read, write), |x, y| x.checked_add(y)),
			W::Mul(a, s) => {
				let s = s.eval(env)?;
				z(a.eval(env, read, write), Some((s, s)), |x, y| x.checked_mul(y))
			},
			W::Reads(_, s) => Some((lim(s.eval(env)?.checked_mul(read))?, 0)),
			W::Writes(_, s) => Some((lim(s.eval(env)?.checked_mul(write))?, 0)),
			W::Paren(a) => a.eval(env, read, write),
		}
	}
	pub fn src(&self) -> String {
		match self {
			W::Parts(t, p) => format!("Weight::from_parts({}, {})", t.src(), p.src()),
			W::RefTime(t) => format!("Weight::from_ref_time({})", t.src()),
			W::Proof(p) => format!("Weight::from_proof_size({})", p.src()),
			W::Zero => "Weight::zero()".into(),
			W::Add(a, b) => format!("{}\n\t\t\t.saturating_add({})", a.src(), b.src()),
			W::Mul(a, s) => format!("{}.saturating_mul({})", a.src(), s.src()),
			W::Reads(d, s) => format!("{}.reads({})", DBS[*d as usize % DBS.len()], s.src()),
			W::Writes(d, s) => format!("{}.writes({})", DBS[*d as usize % DBS.len()], s.src()),
			W::Paren(a) => format!("({})", a.src()),
		}
	}
	pub fn vars(&self, out: &mut Vec<String>) {
		match self {
			W::Parts(a, b) => {
				a.vars(out);
				b.vars(out)
			},
			W::RefTime(a) | W::Proof(a) | W::Reads(_, a) | W::Writes(_, a) => a.vars(out),
			W::Zero => {},
			W::Add(a, b) => {
				a.vars(out);
				b.vars(out)
			},
			W::Mul(a, s) => {
				a.vars(out);
				s.vars(out)
			},
			W::Paren(a) => a.vars(out),
		}
	}
}

const QUALIFIED: [&str; 2] = ["frame_support::weights::Weight", "crate::Weight"];

impl V {
	pub fn eval(&self, env: &Env, read: u128, write: u128) -> Option<u128> {
		lim(match self {
			V::Lit(v, _) => Some(*v as u128),
			V::Var(n) | V::QVar(n, _) => Some(env[n]),
			V::Add(a, b) => a.eval(env, read, write)?.checked_add(b.eval(env, read, write)?),
			V::Mul(a, b) => a.eval(env, read, write)?.checked_mul(b.eval(env, read, write)?),
			V::Reads(_, s) => s.eval(env, read, write)?.checked_mul(read),
			V::Writes(_, s) => s.eval(env, read, write)?.checked_mul(write),
			V::Paren(a) => a.eval(env, read, write),
		})
	}
	pub fn src(&self) -> String {
		match self {
			V::Lit(v, st) if st % 5 == 0 => format!("{} as Weight", v),
			V::Lit(v, st) if st % 5 > 2 => format!("{} as {}", v, QUALIFIED[*st as usize % 5 - 3]),
			V::Lit(v, _) => format!("{} as Weight", group(*v)),
			V::Var(n) => format!("{n} as Weight"),
			V::QVar(n, st) => format!("{n} as {}", QUALIFIED[*st as usize % 2]),
			V::Add(a, b) => format!("{}\n\t\t\t.saturating_add({})", a.recv(), b.src()),
			V::Mul(a, b) => format!("{}.saturating_mul({})", a.recv(), b.src()),
			V::Reads(d, s) => format!("{}.reads({})", DBS[*d as usize % DBS.len()], s.src()),
			V::Writes(d, s) => format!("{}.writes({})", DBS[*d as usize % DBS.len()], s.src()),
			V::Paren(a) => format!("({})", a.src()),
		}
	}
	fn recv(&self) -> String {
		match self {
			V::Lit(..) | V::Var(..) | V::QVar(..) => format!("({})", self.src()),
			_ => self.src(),
		}
	}
	pub fn vars(&self, out: &mut Vec<String>) {
		match self {
			V::Lit(..) => {},
			V::Var(n) | V::QVar(n, _) => out.push(n.clone()),
			V::Add(a, b) | V::Mul(a, b) => {
				a.vars(out);
				b.vars(out)
			},
			V::Reads(_, s) | V::Writes(_, s) => s.vars(out),
			V::Paren(a) => a.vars(out),
		}
	}
}

/// A weight function body in any of the syntaxes.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Body {
	Chroma(W),
	Legacy(V),
}

impl Body {
	pub fn src(&self) -> String {
		match self {
			Body::Chroma(w) => w.src(),
			// The legacy template always wraps the base into parentheses.
			Body::Legacy(v) => v.recv(),
		}
	}
	pub fn eval(&self, env: &Env, read: u128, write: u128) -> WV {
		match self {
			Body::Chroma(w) => w.eval(env, read, write),
			Body::Legacy(v) => Some((v.eval(env, read, write)?, 0)),
		}
	}
	pub fn vars(&self) -> Vec<String> {
		let mut v = vec![];
		match self {
			Body::Chroma(w) => w.vars(&mut v),
			Body::Legacy(x) => x.vars(&mut v),
		}
		v.sort();
		v.dedup();
		v
	}
}

// ---------------------------------------------------------------------------------------------
// Generators

pub fn lit() -> BoxedStrategy<u64> {
	prop_oneof![
		3 => 0u64..10,
		3 => 0u64..2000,
		4 => 0u64..100_000_000,
		1 => 0u64..2_000_000_000_000,
		1 => select(vec![0u64, 1, 999, 1000, 1001, 1023, 1024, 1_000_000, u32::MAX as u64, 1 << 40]),
	]
	.boxed()
}

pub fn comp() -> BoxedStrategy<String> {
	prop_oneof![20 => select(vec!["a", "b", "c", "n", "s", "x", "z"]), 1 => select(vec!["N", "S"])].prop_map(String::from).boxed()
}

pub fn scalar(depth: u32) -> BoxedStrategy<S> {
	let leaf = prop_oneof![
		6 => (lit(), 0u8..11).prop_map(|(v, s)| S::Lit(v, s)),
		4 => (comp(), 0u8..4).prop_map(|(v, s)| S::Var(v, s)),
	];
	leaf.prop_recursive(depth, 8, 2, |inner| {
		prop_oneof![
			(inner.clone(), inner.clone()).prop_map(|(a, b)| S::Add(a.into(), b.into())),
			(inner.clone(), inner.clone()).prop_map(|(a, b)| S::Mul(a.into(), b.into())),
			inner.prop_map(|a| S::Paren(a.into())),
		]
	})
	.boxed()
}

pub fn weight(depth: u32) -> BoxedStrategy<W> {
	weight_by(depth, scalar(1))
}

/// Nested weights that are only multiplied by components, which are always understood.
pub fn plain_weight(depth: u32) -> BoxedStrategy<W> {
	weight_by(depth, (comp(), 0u8..4).prop_map(|(v, s)| S::Var(v, s)).boxed())
}

fn weight_by(depth: u32, factor: BoxedStrategy<S>) -> BoxedStrategy<W> {
	let leaf = prop_oneof![
		4 => (scalar(1), scalar(1)).prop_map(|(a, b)| W::Parts(a, b)),
		2 => scalar(2).prop_map(W::RefTime),
		2 => scalar(2).prop_map(W::Proof),
		1 => Just(W::Zero),
		2 => (0u8..4, scalar(1)).prop_map(|(d, s)| W::Reads(d, s)),
		2 => (0u8..4, scalar(1)).prop_map(|(d, s)| W::Writes(d, s)),
	];
	leaf.prop_recursive(depth, 12, 2, move |inner| {
		prop_oneof![
			3 => (inner.clone(), inner.clone()).prop_map(|(a, b)| W::Add(a.into(), b.into())),
			2 => (inner.clone(), factor.clone()).prop_map(|(a, b)| W::Mul(a.into(), b)),
			1 => inner.prop_map(|a| W::Paren(a.into())),
		]
	})
	.boxed()
}

pub fn legacy(depth: u32) -> BoxedStrategy<V> {
	let leaf = prop_oneof![
		8 => (lit(), 0u8..3).prop_map(|(v, s)| V::Lit(v, s)),
		1 => (lit(), 3u8..5).prop_map(|(v, s)| V::Lit(v, s)),
		5 => comp().prop_map(V::Var),
		1 => (comp(), 0u8..2).prop_map(|(n, s)| V::QVar(n, s)),
	];
	let inner = leaf.prop_recursive(depth, 10, 2, |inner| {
		prop_oneof![
			3 => (inner.clone(), inner.clone()).prop_map(|(a, b)| V::Add(a.into(), b.into())),
			2 => (inner.clone(), inner.clone()).prop_map(|(a, b)| V::Mul(a.into(), b.into())),
			1 => (0u8..4, inner.clone()).prop_map(|(d, a)| V::Reads(d, a.into())),
			1 => (0u8..4, inner.clone()).prop_map(|(d, a)| V::Writes(d, a.into())),
			1 => inner.prop_map(|a| V::Paren(a.into())),
		]
	});
	// Reads of reads do not type-check.
	inner.prop_filter("nested reads", |v| !nested_rw(v, false)).boxed()
}

fn nested_rw(v: &V, inside: bool) -> bool {
	match v {
		V::Lit(..) | V::Var(_) | V::QVar(..) => false,
		V::Add(a, b) | V::Mul(a, b) => nested_rw(a, inside) || nested_rw(b, inside),
		V::Reads(_, s) | V::Writes(_, s) => inside || nested_rw(s, true),
		V::Paren(a) => nested_rw(a, inside),
	}
}

/// What the benchmark templates of the three syntax generations emit.
pub fn template_body() -> BoxedStrategy<Body> {
	prop_oneof![
		1 => template_v1().prop_map(Body::Legacy),
		1 => template_v15().prop_map(Body::Chroma),
		3 => template_v2().prop_map(Body::Chroma),
	]
	.boxed()
}

fn chain<A: Clone + std::fmt::Debug + 'static>(
	base: BoxedStrategy<A>,
	step: BoxedStrategy<A>,
	add: fn(A, A) -> A,
) -> BoxedStrategy<A> {
	(base, prop_oneof![30 => vec(step.clone(), 0..7), 1 => vec(step, 7..70)])
		.prop_map(move |(b, steps)| steps.into_iter().fold(b, add))
		.boxed()
}

pub fn template_v1() -> BoxedStrategy<V> {
	let l = || (lit(), 0u8..3).prop_map(|(v, s)| V::Lit(v, s)).boxed();
	let m = move || (l(), comp()).prop_map(|(a, n)| V::Mul(a.into(), V::Var(n).into())).boxed();
	let small = || (0u64..2000, 0u8..3).prop_map(|(v, s)| V::Lit(v, s)).boxed();
	let count = move || prop_oneof![small(), m()].boxed();
	let step = prop_oneof![
		m(),
		(0u8..4, count()).prop_map(|(d, c)| V::Reads(d, c.into())),
		(0u8..4, count()).prop_map(|(d, c)| V::Writes(d, c.into())),
	]
	.boxed();
	chain(l(), step, |a, b| V::Add(a.into(), b.into()))
}

/// The coefficient styles: `5 as u64`, `5_000 as u64`.
fn cast_lit(max: u64) -> BoxedStrategy<S> {
	prop_oneof![(0..max).boxed(), lit().prop_map(move |l| l % max).boxed()]
		.prop_map(|v| S::Lit(v, 2))
		.boxed()
}

pub fn template_v15() -> BoxedStrategy<W> {
	let c = || cast_lit(1 << 40);
	let m = move || {
		(c(), comp())
			.prop_map(|(a, n)| W::Mul(W::RefTime(a).into(), S::Var(n, 1)))
			.boxed()
	};
	let count = move || {
		prop_oneof![
			cast_lit(2000),
			(cast_lit(100), comp()).prop_map(|(a, n)| S::Mul(a.into(), S::Var(n, 1).into())),
		]
		.boxed()
	};
	let step = prop_oneof![
		m(),
		(0u8..4, count()).prop_map(|(d, c)| W::Reads(d, c)),
		(0u8..4, count()).prop_map(|(d, c)| W::Writes(d, c)),
	]
	.boxed();
	chain(c().prop_map(W::RefTime).boxed(), step, |a, b| W::Add(a.into(), b.into()))
}

pub fn template_v2() -> BoxedStrategy<W> {
	let p = || {
		(lit(), prop_oneof![1 => Just(0u64), 2 => 0u64..100_000], select(vec![0u8, 3]))
			.prop_map(|(t, p, s)| (S::Lit(t, s), S::Lit(p, s)))
	};
	let base = prop_oneof![
		5 => p().prop_map(|(t, p)| W::Parts(t, p)),
		1 => p().prop_map(|(t, p)| W::Add(
			W::Parts(t, S::Lit(0, 0)).into(),
			W::Parts(S::Lit(0, 0), p).into()
		)),
		1 => p().prop_map(|(t, p)| W::Add(W::RefTime(t).into(), W::Proof(p).into())),
		1 => p().prop_map(|(t, _)| W::RefTime(t)),
		1 => p().prop_map(|(_, p)| W::Proof(p)),
		1 => Just(W::Zero),
	]
	.boxed();
	let m = move || {
		(p(), comp(), 0u8..4, prop_oneof![2 => Just(0u8), 1 => Just(1u8)])
			.prop_map(|((t, p), n, k, st)| {
				let w = match k {
					0 => W::Parts(t, p),
					1 => W::Parts(t, S::Lit(0, 0)),
					2 => W::Parts(S::Lit(0, 0), p),
					_ => W::Proof(p),
				};
				W::Mul(w.into(), S::Var(n, st))
			})
			.boxed()
	};
	let count = move || {
		let n = || (0u64..2000, select(vec![0u8, 1])).prop_map(|(v, s)| S::Lit(v, s));
		prop_oneof![
			n().boxed(),
			(n(), comp())
				.prop_map(|(a, n)| S::Mul(a.into(), S::Var(n, 0).into()))
				.boxed(),
		]
		.boxed()
	};
	let step = prop_oneof![
		2 => m(),
		1 => (0u8..4, count()).prop_map(|(d, c)| W::Reads(d, c)),
		1 => (0u8..4, count()).prop_map(|(d, c)| W::Writes(d, c)),
	]
	.boxed();
	chain(base, step, |a, b| W::Add(a.into(), b.into()))
}

// ---------------------------------------------------------------------------------------------
// Functions and files

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Fun {
	pub name: String,
	pub body: Body,
	/// component, min, max
	pub ranges: Vec<(String, u32, u32)>,
	pub style: u8,
}

impl Fun {
	pub fn src(&self) -> String {
		let mut s = String::new();
		if self.style & 1 != 0 {
			s += "\t/// Storage: System Account (r:1 w:1)\n\t/// Proof: System Account (max_values: None, max_size: Some(128), added: 2603, mode: MaxEncodedLen)\n";
		}
		for (c, lo, hi) in &self.ranges {
			let f = |v: u32| if self.style & 2 != 0 { group(v as u64) } else { v.to_string() };
			s += &format!("\t/// The range of component `{c}` is `[{}, {}]`.\n", f(*lo), f(*hi));
		}
		let mut args = self.body.vars();
		args.extend(self.ranges.iter().map(|r| r.0.clone()));
		args.sort();
		args.dedup();
		let args: String = args.iter().map(|a| format!("{a}: u32, ")).collect();
		s += &format!("\tfn {}({}) -> Weight {{\n", self.name, args);
		if self.style & 4 != 0 {
			s += "\t\t// Proof Size summary in bytes:\n\t\t//  Measured:  `4 + n * (1 ±0)`\n\t\t// Minimum execution time: 1_234_000 picoseconds.\n";
		}
		s += &format!("\t\t{}\n\t}}\n", self.body.src());
		s
	}
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct WFile {
	pub funs: Vec<Fun>,
	pub style: u8,
}

impl WFile {
	pub fn src(&self) -> String {
		let mut s = String::from("// This file is part of Substrate.\n//! Autogenerated weights\n#![cfg_attr(rustfmt, rustfmt_skip)]\n#![allow(unused_parens)]\n\nuse frame_support::{traits::Get, weights::Weight};\nuse sp_std::marker::PhantomData;\n\n");
		match self.style % 4 {
			0 => s += "/// Weight functions.\npub struct WeightInfo<T>(PhantomData<T>);\nimpl<T: frame_system::Config> pallet_balances::WeightInfo for WeightInfo<T> {\n",
			1 => s += "pub trait WeightInfo {\n\tfn foo() -> Weight;\n}\npub struct SubstrateWeight<T>(PhantomData<T>);\nimpl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {\n",
			2 => s += "impl WeightInfo for () {\n",
			_ => s += "pub struct WeightInfo;\nimpl pallet_x::WeightInfo for WeightInfo {\n",
		}
		for f in &self.funs {
			s += &f.src();
		}
		s += "}\n";
		s
	}
}

pub const NAMES: [&str; 12] = [
	"transfer", "transfer_all", "set_balance", "mint", "burn", "on_initialize", "remark", "batch",
	"x", "fn_1", "approve_as_multi_complete", "kill",
];

/// Any identifier that is no keyword, now and then with a usual prefix or suffix or very long.
pub fn identifier() -> BoxedStrategy<String> {
	let part = prop_oneof![
		4 => "[a-z][a-z0-9_]{0,12}",
		1 => "[a-zA-Z_][a-zA-Z0-9_]{0,20}",
		1 => "[a-z][a-z0-9_]{20,90}",
		1 => "[a-z]{1,3}",
		1 => select(vec!["émettre", "größe", "ñ", "名前"]).prop_map(String::from),
	];
	let pre = prop_oneof![3 => Just(""), 1 => select(vec!["on_", "do_", "_", "__", "force_", "test_", "bench_", "benchmark_", "get_", "weight_", "pallet_", "new_", "old_", "mod_"])];
	let post = prop_oneof![3 => Just(""), 1 => select(vec!["_v2", "_2", "_", "__", "_weight", "_deprecated", "_test", "s", "1", "_with_len", "_rs", "_mod", "0", "_per_item"])];
	(pre, part, post).prop_map(|(a, b, c)| format!("{a}{b}{c}")).prop_filter("keyword", |s| syn_ident(s)).boxed()
}

fn syn_ident(s: &str) -> bool {
	const KEYWORDS: &str = " _ abstract as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return self Self static struct super trait true try type typeof unsafe unsized use virtual where while yield ";
	!KEYWORDS.contains(&format!(" {s} "))
}

pub fn fun_name() -> BoxedStrategy<String> {
	prop_oneof![12 => select(NAMES.to_vec()).prop_map(String::from), 1 => identifier()].boxed()
}

/// Functions with unique names.
pub fn funs(body: BoxedStrategy<Body>, max: usize) -> BoxedStrategy<Vec<Fun>> {
	let range = prop_oneof![
		(0u32..5, 0u32..2000).prop_map(|(a, b)| (a.min(b), a.max(b))),
		(0u32..1000, 0u32..100_000).prop_map(|(a, b)| (a.min(b), a.max(b))),
	];
	let fun = (fun_name(), body, vec((any::<bool>(), range), 7), 0u8..8);
	vec(fun, 1..=max)
		.prop_map(|fs| {
			let mut seen = std::collections::BTreeSet::new();
			fs.into_iter()
				.filter(|f| seen.insert(f.0.clone()))
				.map(|(name, body, ranges, style)| {
					let ranges = body
						.vars()
						.into_iter()
						.zip(ranges)
						.filter(|(_, (on, _))| *on)
						.map(|(n, (_, (lo, hi)))| (n, lo, hi))
						.collect();
					Fun { name, body, ranges, style }
				})
				.collect()
		})
		.boxed()
}

pub fn wfile(max: usize) -> BoxedStrategy<WFile> {
	(funs(template_body(), max), 0u8..4)
		.prop_map(|(funs, style)| WFile { funs, style })
		.boxed()
}

// ---------------------------------------------------------------------------------------------
// Literals by dimension, and pairs of versions

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
	Time,
	Proof,
	Both,
}

impl S {
	fn rename(&mut self, f: &dyn Fn(&str) -> String) {
		match self {
			S::Lit(..) => {},
			S::Var(n, _) => *n = f(n),
			S::Add(a, b) | S::Mul(a, b) => {
				a.rename(f);
				b.rename(f);
			},
			S::Paren(a) => a.rename(f),
		}
	}
}

impl W {
	fn rename(&mut self, f: &dyn Fn(&str) -> String) {
		match self {
			W::Parts(a, b) => {
				a.rename(f);
				b.rename(f);
			},
			W::RefTime(a) | W::Proof(a) | W::Reads(_, a) | W::Writes(_, a) => a.rename(f),
			W::Zero => {},
			W::Add(a, b) => {
				a.rename(f);
				b.rename(f);
			},
			W::Mul(a, s) => {
				a.rename(f);
				s.rename(f);
			},
			W::Paren(a) => a.rename(f),
		}
	}
}

impl V {
	fn rename(&mut self, f: &dyn Fn(&str) -> String) {
		match self {
			V::Lit(..) => {},
			V::Var(n) | V::QVar(n, _) => *n = f(n),
			V::Add(a, b) | V::Mul(a, b) => {
				a.rename(f);
				b.rename(f);
			},
			V::Reads(_, s) | V::Writes(_, s) => s.rename(f),
			V::Paren(a) => a.rename(f),
		}
	}
}

impl Body {
	/// Gives the components other names.
	fn rename(&mut self, f: &dyn Fn(&str) -> String) {
		match self {
			Body::Chroma(w) => w.rename(f),
			Body::Legacy(v) => v.rename(f),
		}
	}
}

impl S {
	fn lits<'a>(&'a mut self, k: Kind, out: &mut Vec<(Kind, &'a mut u64)>) {
		match self {
			S::Lit(v, _) => out.push((k, v)),
			S::Var(..) => {},
			S::Add(a, b) | S::Mul(a, b) => {
				a.lits(k, out);
				b.lits(k, out);
			},
			S::Paren(a) => a.lits(k, out),
		}
	}
}

impl W {
	fn lits<'a>(&'a mut self, out: &mut Vec<(Kind, &'a mut u64)>) {
		match self {
			W::Parts(t, p) => {
				t.lits(Kind::Time, out);
				p.lits(Kind::Proof, out);
			},
			W::RefTime(t) => t.lits(Kind::Time, out),
			W::Proof(p) => p.lits(Kind::Proof, out),
			W::Zero => {},
			W::Add(a, b) => {
				a.lits(out);
				b.lits(out);
			},
			W::Mul(a, s) => {
				a.lits(out);
				s.lits(Kind::Both, out);
			},
			// Reads and writes have no proof size, but they show up in both equations.
			W::Reads(_, s) | W::Writes(_, s) => s.lits(Kind::Both, out),
			W::Paren(a) => a.lits(out),
		}
	}
	/// The literal counts that the read and the write price are directly multiplied by.
	fn counts(&self, out: &mut (Vec<u64>, Vec<u64>)) {
		match self {
			W::Reads(_, s) => out.0.extend(s.direct()),
			W::Writes(_, s) => out.1.extend(s.direct()),
			W::Add(a, b) => {
				a.counts(out);
				b.counts(out);
			},
			W::Mul(a, _) | W::Paren(a) => a.counts(out),
			_ => {},
		}
	}
}

impl S {
	fn direct(&self) -> Option<u64> {
		match self {
			S::Lit(v, _) => Some(*v),
			S::Paren(a) => a.direct(),
			_ => None,
		}
	}
}

impl V {
	fn lits<'a>(&'a mut self, out: &mut Vec<(Kind, &'a mut u64)>) {
		match self {
			V::Lit(v, _) => out.push((Kind::Both, v)),
			V::Var(_) | V::QVar(..) => {},
			V::Add(a, b) | V::Mul(a, b) => {
				a.lits(out);
				b.lits(out);
			},
			V::Reads(_, a) | V::Writes(_, a) | V::Paren(a) => a.lits(out),
		}
	}
	fn direct(&self) -> Option<u64> {
		match self {
			V::Lit(v, _) => Some(*v),
			V::Paren(a) => a.direct(),
			_ => None,
		}
	}
	fn counts(&self, out: &mut (Vec<u64>, Vec<u64>)) {
		match self {
			V::Reads(_, s) => out.0.extend(s.direct()),
			V::Writes(_, s) => out.1.extend(s.direct()),
			V::Add(a, b) | V::Mul(a, b) => {
				a.counts(out);
				b.counts(out);
			},
			V::Paren(a) => a.counts(out),
			_ => {},
		}
	}
}

impl Body {
	pub fn lits(&mut self) -> Vec<(Kind, &mut u64)> {
		let mut out = vec![];
		match self {
			Body::Chroma(w) => w.lits(&mut out),
			Body::Legacy(v) => v.lits(&mut out),
		}
		out
	}
	/// The largest literal read and write counts.
	pub fn largest_counts(&self) -> (u64, u64) {
		let mut out = (vec![], vec![]);
		match self {
			Body::Chroma(w) => w.counts(&mut out),
			Body::Legacy(v) => v.counts(&mut out),
		}
		(out.0.into_iter().max().unwrap_or(0), out.1.into_iter().max().unwrap_or(0))
	}
}

impl Fun {
	pub fn range(&self, c: &str) -> Option<(u32, u32)> {
		self.ranges.iter().find(|r| r.0 == c).map(|r| (r.1, r.2))
	}
	/// The same function as the only one of a file.
	pub fn file(&self) -> String {
		WFile { funs: vec![self.clone()], style: 0 }.src()
	}
}

/// Two versions of one call.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Pair {
	pub old: Option<Fun>,
	pub new: Option<Fun>,
}

/// How the annotation of one component is distributed over the versions.
type RangeMode = (u8, (u32, u32), (u32, u32));

fn range_mode() -> BoxedStrategy<RangeMode> {
	let range = || {
		prop_oneof![
			(0u32..5, 0u32..2000).prop_map(|(a, b)| (a.min(b), a.max(b))),
			(0u32..1000, 0u32..100_000).prop_map(|(a, b)| (a.min(b), a.max(b))),
			select(vec![(0u32, 0u32), (1, 1), (0, 100), (1, 100), (0, u16::MAX as u32)]),
		]
	};
	(0u8..8, range(), range()).boxed()
}

/// `how`: 0 random new body, 2 identical, 6 a component renamed, otherwise one literal changed.
pub fn pair(body: BoxedStrategy<Body>, complete_ranges: bool) -> BoxedStrategy<Pair> {
	(
		(fun_name(), body.clone(), body, 0u8..8, 0u8..8),
		(0u8..7, any::<u32>(), lit()),
		0u8..10,
		vec(range_mode(), 26),
	)
		.prop_map(move |((name, b1, b2, st1, st2), (how, pick, val), sides, modes)| {
			let nb = match how {
				0 | 1 => b2,
				2 => b1.clone(),
				6 => {
					let mut b = b1.clone();
					let vars = b.vars();
					if !vars.is_empty() {
						let v = &vars[pick as usize / 8 % vars.len()];
						let to = match pick % 8 {
							0 | 1 if v.len() == 1 => v.to_uppercase(),
							2 if v.len() == 1 => v.to_lowercase(),
							n => ["a", "b", "n", "s", "N"][n as usize % 5].to_string(),
						};
						b.rename(&|n| if n == v { to.clone() } else { n.to_string() });
					}
					b
				},
				_ => {
					let mut b = b1.clone();
					let mut l = b.lits();
					if !l.is_empty() {
						let n = l.len();
						*l[pick as usize % n].1 = val;
					}
					b
				},
			};
			let mut comps = b1.vars();
			comps.extend(nb.vars());
			comps.sort();
			comps.dedup();
			let (mut r1, mut r2) = (vec![], vec![]);
			for (c, (m, a, b)) in comps.iter().zip(&modes) {
				let (x, y) = match m {
					0 if !complete_ranges => (None, None),
					1 | 0 => (Some(a), None),
					2 => (None, Some(a)),
					3 if !complete_ranges => (Some(a), Some(b)),
					_ => (Some(a), Some(a)),
				};
				r1.extend(x.map(|r| (c.clone(), r.0, r.1)));
				r2.extend(y.map(|r| (c.clone(), r.0, r.1)));
			}
			let old = Fun { name: name.clone(), body: b1, ranges: r1, style: st1 };
			let new = Fun { name, body: nb, ranges: r2, style: st2 };
			match sides {
				0 if !complete_ranges => Pair { old: None, new: Some(new) },
				1 if !complete_ranges => Pair { old: Some(old), new: None },
				_ => Pair { old: Some(old), new: Some(new) },
			}
		})
		.boxed()
}

/// Bodies that are linear in each of (a subset of) the given components.
pub fn affine(comps: Vec<String>, density: u32) -> BoxedStrategy<Body> {
	let n = comps.len();
	let coef = || prop_oneof![Just(0u64), 0u64..100, 0u64..1_000_000, 0u64..100_000_000];
	let per = (
		prop_oneof![density => Just(true), 1 => Just(false)],
		coef(),
		prop_oneof![Just(0u64), 0u64..5000],
		0u8..6,
		0u64..20,
		any::<u8>(),
		0u8..3,
	);
	((1u64..200_000_000, 1u64..20_000), vec(per, n))
		.prop_map(move |((t, p), pers)| {
			let l = |v: u64| S::Lit(v, 0);
			let mut w = W::Parts(l(t), l(p));
			for (i, (on, a, b, kind, k, other, st)) in pers.into_iter().enumerate() {
				if !on {
					continue
				}
				let v = |j: usize| S::Var(comps[j].clone(), st);
				let j = other as usize % n;
				let t = match kind {
					0 => W::Reads(0, S::Mul(l(k).into(), v(i).into())),
					1 => W::Writes(1, S::Mul(l(k).into(), v(i).into())),
					2 if j != i => W::Mul(W::Mul(W::Parts(l(a), l(b)).into(), v(i)).into(), v(j)),
					3 => W::Mul(W::Proof(l(b)).into(), v(i)),
					_ => W::Mul(W::Parts(l(a), l(b)).into(), v(i)),
				};
				w = W::Add(w.into(), t.into());
			}
			Body::Chroma(w)
		})
		.boxed()
}

pub fn letters(n: usize) -> Vec<String> {
	(0..n).map(|i| ((b'a' + i as u8) as char).to_string()).collect()
}
