//! C01-C05: the parsers.

use crate::{ensure, ensure_eq, lang::*, run::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use subweight_core::{
	compare_files,
	parse::{
		overhead,
		pallet::{self, ChromaticExtrinsic},
		storage, try_parse_file, ParsedFile,
	},
	scope::SimpleScope,
	term::{ChromaticTerm, SimpleTerm},
	CompareMethod, CompareParams, Dimension, FilterParams,
};

pub fn scope(env: &Env, read: u128, write: u128) -> SimpleScope {
	let mut s = SimpleScope::empty()
		.with_storage_weights(SimpleTerm::Scalar(read), SimpleTerm::Scalar(write));
	for (k, v) in env {
		s = s.with_var(k, SimpleTerm::Scalar(*v));
	}
	s
}

/// Evaluates a parsed term in both dimensions. Storage costs no proof size.
pub fn eval_both(t: &ChromaticTerm, env: &Env, read: u128, write: u128) -> Result<(u128, u128), String> {
	let time = t.simplify(Dimension::Time)?.eval(&scope(env, read, write))?;
	let proof = t.simplify(Dimension::Proof)?.eval(&scope(env, 0, 0))?;
	Ok((time, proof))
}

pub fn params(method: CompareMethod, unit: Dimension) -> CompareParams {
	CompareParams { method, unit, ignore_errors: false, git_pull: false, git_force: false, offline: true }
}

pub fn no_filter() -> FilterParams {
	FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None }
}

// ------------------------------------------------------------------------------------------ C01

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BodyCase {
	body: Body,
	envs: Vec<(Vec<u32>, u64, u64)>,
}

fn env_of(vals: &[u32]) -> Env {
	["a", "b", "c", "n", "s", "x", "z"]
		.iter()
		.zip(vals)
		.map(|(k, v)| (k.to_string(), *v as u128))
		// Other components, although they look alike.
		.chain([("N".to_string(), 2 * vals[0] as u128 + 11), ("S".to_string(), 3 * vals[1] as u128 + 5)])
		.collect()
}

fn envs() -> BoxedStrategy<Vec<(Vec<u32>, u64, u64)>> {
	let val = prop_oneof![0u32..4, 0u32..1000, 0u32..100_000];
	let price = prop_oneof![Just(0u64), 1u64..10, 0u64..200_000_000];
	vec((vec(val, 7), price.clone(), price), 3..=3).boxed()
}

fn fun_src(body: &str) -> String {
	format!(
		"pub struct WeightInfo<T>(PhantomData<T>);\nimpl<T: frame_system::Config> pallet_x::WeightInfo for WeightInfo<T> {{\n\tfn call(a: u32, b: u32, c: u32, n: u32, s: u32, x: u32, z: u32, N: u32, S: u32, ) -> Weight {{\n\t\t{body}\n\t}}\n}}\n"
	)
}

fn parse_one(body: &str) -> Result<ChromaticExtrinsic, String> {
	let mut r = pallet::parse_content("p".into(), fun_src(body))?;
	if r.len() != 1 {
		return Err(format!("expected one extrinsic, got {}", r.len()))
	}
	Ok(r.remove(0))
}

fn check_body(c: &BodyCase, must_accept: bool, ctx: &mut Ctx) -> Check {
	let src = c.body.src();
	ctx.label(match c.body {
		Body::Chroma(_) => "chromatic",
		Body::Legacy(_) => "legacy",
	});
	let ext = match parse_one(&src) {
		Ok(e) => e,
		Err(e) if must_accept =>
			return Err(Fail::Violation(format!("template body rejected: {src}: {e}"))),
		Err(_) => {
			ctx.label("rejected");
			return Ok(())
		},
	};
	let mut decided = false;
	for (vals, read, write) in &c.envs {
		let env = env_of(vals);
		let Some(want) = c.body.eval(&env, *read as u128, *write as u128) else {
			ctx.label("beyond 64 bits");
			continue
		};
		let got = eval_both(&ext.term, &env, *read as u128, *write as u128)?;
		ensure_eq!(
			got,
			want,
			"(time, proof) of `{}` under {:?}, READ={}, WRITE={}",
			src,
			env,
			read,
			write
		);
		ctx.evals(1);
		decided |= want.0 > 0 || want.1 > 0;
	}
	if decided && !c.body.vars().is_empty() {
		ctx.nontrivial();
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ForeignCase {
	text: String,
}

fn foreign() -> BoxedStrategy<ForeignCase> {
	let w = || template_v2().prop_map(|w| w.src());
	let small_w = || {
		prop_oneof![
			(lit(), lit()).prop_map(|(a, b)| format!("Weight::from_parts({a}, {b})")),
			lit().prop_map(|a| format!("Weight::from_ref_time({a} as u64)")),
			(0usize..4, 1u32..9).prop_map(|(d, n)| format!("{}.reads({n})", DBS[d])),
		]
	};
	let s = || scalar(1).prop_map(|s| s.src());
	// A weight with something the vocabulary does not have.
	let fw = prop_oneof![
		(small_w(), small_w(), select(vec![
			"{}.saturating_sub({})", "{}.max({})", "{}.min({})", "{}.checked_add(&{})", "({} + {})",
			"({} - {})", "{}.add({})", "{}.any_gt({})", "if x > 3 { {} } else { {} }", "({}, {}).0",
			"{}.saturating_reduce({})", "[{}, {}][0]",
		]))
			.prop_map(|(a, b, f)| f.replacen("{}", &a, 1).replacen("{}", &b, 1)),
		(small_w(), s(), select(vec![
			"{}.saturating_div({})", "({} * {})", "({} / {})", "{}.mul({})", "{}.div({})",
			"{}.saturating_pow({})", "{}.add_ref_time({})", "{}.add_proof_size({})",
			"{}.set_proof_size({})", "{}.saturating_sub_ref_time({})",
		]))
			.prop_map(|(a, b, f)| f.replacen("{}", &a, 1).replacen("{}", &b, 1)),
		(0usize..4, s(), s(), select(vec![
			"{d}.reads_writes({a}, {b})", "{d}.reads({a}, {b})", "{d}.writes({a}, {b})", "{d}.reads()",
			"{d}.writes()", "T::Other::get().reads({a})", "T::DbWeight::put().writes({a})", "T::DbWeight::get(1).reads({a})",
			"x.reads({a})", "{d}.saturating_add({a})", "Weight::zero().reads({a})",
		]))
			.prop_map(|(d, a, b, f)| f.replace("{d}", DBS[d]).replace("{a}", &a).replace("{b}", &b)),
		(s(), s(), select(vec![
			"Weight::from_parts({a})", "Weight::from_parts({a}, {b}, {a})", "Weight::from_parts()",
			"Weight::from_all({a})", "Weight::zero({a})", "Weight::from_ref_time({a}, {b})",
			"Weight::from_ref_time()", "Weight::from_proof_size({a}, {b})", "Weight::new({a}, {b})", "from_parts({a}, {b})",
			"Weight::from_parts({a}, 1 + 2)", "Weight::from_parts(100 - x as u64, {b})",
			"Weight::from_parts({a}, x.pow(2))", "Weight::from_parts({a}, {b}).saturating_mul(x as u64 / 2)",
			"Weight::from_parts(100u64.saturating_sub(x.into()), {b})", "Weight::from_parts({a}, -1)",
			"Weight::from_ref_time(3 * x)", "Weight::from_ref_time(x.min(100))", "Weight::from_ref_time(x.max(100))",
			"Weight::from_proof_size(3 << x)", "Weight::from_parts({a}, {b}).saturating_mul(x.max(2))",
			"weight!({a})", "{ {a}; Weight::zero() }", "Weight { ref_time: 1, proof_size: 2 }", "*x", "!x", "x.0", "|| x",
			"Weight::from_parts(Weight::from_parts({a}, 0).proof_size(), 0)", "match x { _ => Weight::zero() }",
			"Weight::from_parts({a}, x.saturating_pow(2))", "Weight::from_parts({a}, if x > 1 { 1 } else { 2 })",
			"Weight::from_parts(1.5, {b})", "Weight::from_parts(\"5\", {b})", "Weight::from_parts(true, {b})", "Weight::from_parts('a', {b})",
		]))
			.prop_map(|(a, b, f)| f.replace("{a}", &a).replace("{b}", &b)),
	];
	// A weight, but not the only statement.
	let several = (w(), small_w(), select(vec![
		"{w}; {v}", "let y = {w}; y", "let y = {w}; {v}", "{v}; {w}", "return {w}; {v}", "{w}; return {v}",
		"use core::ops::Add; {w}", "const Y: u64 = 5; {w}", "{w}; {v}; {w}", "log!({v}); {w}", "let _ = {v}; {w}",
		"if x > 5 { return {v} } {w}", "debug_assert!(x > 3); {w}", "let x = x.min(5); {w}", "fn g() {} {w}",
		"{w}; unreachable!()", "x += 1; {w}", "let a = 5u32; {w}",
	]))
		.prop_map(|(w, v, f)| ForeignCase { text: f.replace("{w}", &w).replace("{v}", &v) });
	let one = (w(), fw, vec(small_w(), 0..3), 0u8..4)
		.prop_map(|(base, f, after, how)| {
			let mut t = match how {
				0 => format!("{base}.saturating_add({f})"),
				1 => format!("{base}.saturating_add(({f}).saturating_mul(x.into()))"),
				2 => format!("({f}).saturating_add({base})"),
				_ => f,
			};
			for a in after {
				t = format!("{t}.saturating_add({a})");
			}
			ForeignCase { text: t }
		});
	prop_oneof![9 => one, 1 => several].boxed()
}

/// Foreign operations in the legacy syntax.
fn foreign_legacy() -> BoxedStrategy<ForeignCase> {
	let l = || (0u64..1000000).prop_map(|v| format!("({v} as Weight)"));
	let f = (l(), l(), select(vec![
		"{a}.saturating_sub({b})", "({a} + {b})", "({a} - {b})", "({a} * {b})", "{a}.max({b})",
		"{a}.pow(2)", "T::DbWeight::get().reads_writes(1, 2)", "{a} / 2", "{a}.saturating_add({b}, {a})",
		"T::DbWeight::get().reads(1 as Weight).saturating_sub({a})", "{a}.saturating_mul(x as Weight - 1)",
		"{a}.saturating_mul(2 + 3)", "-5", "{a}.saturating_mul((x as Weight).min(10))", "{a}.saturating_mul(1.5)",
		"T::Other::get().reads(1 as Weight)",
	]))
		.prop_map(|(a, b, f)| f.replace("{a}", &a).replace("{b}", &b));
	(l(), f, 0u8..3)
		.prop_map(|(base, f, how)| ForeignCase {
			text: match how {
				0 => format!("{base}.saturating_add({f})"),
				1 => format!("({f}).saturating_add({base})"),
				_ => format!("{base}.saturating_add(({f}).saturating_mul(x as Weight))"),
			},
		})
		.boxed()
}

/// A template body with one word of the vocabulary replaced by a similar one.
fn near_miss() -> BoxedStrategy<ForeignCase> {
	const WORDS: [&str; 14] = [
		"from_parts", "from_ref_time", "from_proof_size", "zero", "reads", "writes", "saturating_add", "saturating_mul",
		"into", "get", "DbWeight", "RocksDbWeight", "ParityDbWeight", "T",
	];
	let rename = |word: &str, how: u8| -> String {
		let suffix = ["x", "s", "_x", "2", "_unchecked"][how as usize % 5];
		match how / 5 % 5 {
			0 => format!("{word}{suffix}"),
			// These may be anyone's.
			1 | 2 if word.ends_with("yDbWeight") || word == "RocksDbWeight" => format!("{word}{suffix}"),
			1 => format!("x_{word}"),
			2 => format!("{}{word}", ["My", "Slow", "Other", "A", "try_"][how as usize % 5]),
			3 => word.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
			_ if word.len() < 2 => format!("{word}{word}"),
			_ => word[..word.len() - 1].to_string(),
		}
	};
	(template_body(), any::<prop::sample::Index>(), 0u8..25)
		.prop_map(move |(body, at, how)| {
			let src = body.src();
			let mut spots = vec![];
			let mut start = None;
			for (i, c) in src.char_indices().chain([(src.len(), ' ')]) {
				match (start, c.is_alphanumeric() || c == '_') {
					(None, true) => start = Some(i),
					(Some(s), false) => {
						// A `T` that is not the one of `T::DbWeight` does not occur.
						if WORDS.contains(&&src[s..i]) {
							spots.push((s, i));
						}
						start = None;
					},
					_ => {},
				}
			}
			if spots.is_empty() {
				return ForeignCase { text: format!("{src} - 1") }
			}
			let (s, e) = spots[at.index(spots.len())];
			ForeignCase { text: format!("{}{}{}", &src[..s], rename(&src[s..e], how), &src[e..]) }
		})
		.boxed()
}

fn check_foreign(c: &ForeignCase, ctx: &mut Ctx) -> Check {
	if !is_rust(&fun_src(&c.text)) {
		ctx.label("not Rust");
		return Ok(())
	}
	ctx.nontrivial();
	match pallet::parse_content("p".into(), fun_src(&c.text)) {
		Err(_) => Ok(()),
		Ok(r) => Err(Fail::Violation(format!(
			"a body with a foreign operation was accepted: `{}` as {:?}",
			c.text,
			r.first().map(|e| e.term.to_string())
		))),
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LayoutCase {
	body: Body,
	gaps: Vec<u8>,
}

const GAPS: [&str; 12] = [
	"", "", "", " ", "\n", "\t\t", " \r\n ", "/* .saturating_add(Weight::from_parts(7, 7)) */", "// .saturating_mul(2)\n", "/**/ ", "/* /* nested */ \" */", " // `//`\n\t",
];

/// The same tokens with other white space, comments and trailing commas.
fn relayout(src: &str, gaps: &[u8]) -> String {
	let c: Vec<char> = src.chars().collect();
	let mut tokens: Vec<String> = vec![];
	let mut i = 0;
	while i < c.len() {
		let word = |c: char| c.is_alphanumeric() || c == '_';
		let start = i;
		i += 1;
		if word(c[start]) {
			while i < c.len() && word(c[i]) {
				i += 1;
			}
		} else if c[start] == ':' {
			i += 1;
		} else if c[start].is_whitespace() {
			continue
		}
		tokens.push(c[start..i].iter().collect());
	}
	let word = |t: &String| t.chars().all(|c| c.is_alphanumeric() || c == '_');
	let mut gap = gaps.iter().cycle();
	let mut out = String::new();
	// Whether a bracket is that of a call.
	let mut open = vec![];
	for (i, t) in tokens.iter().enumerate() {
		let prev = i.checked_sub(1).map(|i| &tokens[i]);
		let mut g = GAPS[*gap.next().unwrap() as usize % GAPS.len()];
		if g.is_empty() && word(t) && prev.is_some_and(word) {
			g = " ";
		}
		match t.as_str() {
			"(" => open.push(prev.is_some_and(|p| word(p) && p != "as")),
			")" => {
				if open.pop() == Some(true) && prev.unwrap() != "(" && gap.next().unwrap() % 4 == 0 {
					out += ",";
				}
			},
			_ => {},
		}
		out += g;
		out += t;
	}
	out
}

fn check_layout(c: &LayoutCase, ctx: &mut Ctx) -> Check {
	let src = c.body.src();
	let other = relayout(&src, &c.gaps);
	let (a, b) = (parse_one(&src), parse_one(&other));
	match (&a, &b) {
		(Ok(a), Ok(b)) => {
			if !c.body.vars().is_empty() {
				ctx.nontrivial();
			}
			ensure!(a.term == b.term, "`{src}` is read as {:?}, but `{other}` as {:?}", a.term, b.term);
		},
		(Err(_), Err(_)) => ctx.label("rejected"),
		_ => return Err(Fail::Violation(format!("`{src}` is read as {a:?}, but `{other}` as {b:?}"))),
	}
	Ok(())
}

/// Whether the text is syntactically a Rust file, by wrapping it as a dead item next to a known
/// good weight impl: the file then parses if and only if syn accepts it.
fn is_rust(src: &str) -> bool {
	let probe = format!("{src}\nmod zz_probe {{ }}\nimpl WeightInfo for () {{ fn zz_ok() -> Weight {{ Weight::zero() }} }}\n");
	pallet::parse_content("p".into(), probe).is_ok()
}

pub fn c01() -> Prop {
	Prop {
		id: "C01",
		rels: vec![
			rel(
				"templates",
				"bodies from the grammar of the three template generations, evaluated under 3 assignments; non-trivial: a variable occurs and a value is non-zero",
				240_000,
				1_500_000,
				|| boxed((template_body(), envs()).prop_map(|(body, envs)| BodyCase { body, envs })),
				|c, ctx| check_body(c, true, ctx),
			),
			rel(
				"closure",
				"arbitrarily nested type-correct bodies: rejected, or exact under 3 assignments; non-trivial: accepted, a variable occurs and a value is non-zero",
				240_000,
				2_000_000,
				|| {
					boxed(
						(
							prop_oneof![
								2 => weight(4).prop_map(Body::Chroma),
								1 => legacy(4).prop_map(Body::Legacy)
							],
							envs(),
						)
							.prop_map(|(body, envs)| BodyCase { body, envs }),
					)
				},
				|c, ctx| check_body(c, false, ctx),
			),
			rel(
				"foreign",
				"bodies with one operation outside the vocabulary at some position must be rejected; non-trivial: the text is syntactically valid Rust",
				120_000,
				600_000,
				|| boxed(prop_oneof![3 => foreign(), 1 => foreign_legacy()]),
				check_foreign,
			),
			rel(
				"near misses",
				"template bodies with one word of the vocabulary (call, method, database) misspelt at some position must be rejected; non-trivial: the text is syntactically valid Rust",
				120_000,
				600_000,
				|| boxed(near_miss()),
				check_foreign,
			),
			rel(
				"layout",
				"bodies in two layouts (white space, comments that look like code, trailing commas) must be read alike; non-trivial: accepted and a variable occurs",
				160_000,
				600_000,
				|| {
					let body = prop_oneof![
						3 => template_body(),
						1 => weight(3).prop_map(Body::Chroma),
						1 => legacy(3).prop_map(Body::Legacy)
					];
					boxed((body, vec(any::<u8>(), 5..60)).prop_map(|(body, gaps)| LayoutCase { body, gaps }))
				},
				check_layout,
			),
		],
		assumptions: vec![
			"values beyond 64 bits are out of the domain (the Rust expression saturates there)",
			"paths to constants are variables of the equation",
		],
	}
}

// ------------------------------------------------------------------------------------------ C02

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Doc {
	Range { comp: String, min: String, max: String, style: u8 },
	Other(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RangeFun {
	docs: Vec<Doc>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RangeCase {
	funs: Vec<RangeFun>,
}

fn grouped_num() -> BoxedStrategy<String> {
	let v = prop_oneof![
		2 => 0u64..10,
		3 => 0u64..5000,
		2 => 0u64..=u32::MAX as u64,
		1 => select(vec![0u64, u32::MAX as u64, u32::MAX as u64 - 1, 1_000_000]),
	];
	(v, 0u8..4, any::<u64>())
		.prop_map(|(v, how, bits)| match how {
			0 => v.to_string(),
			1 | 2 => group(v),
			_ => {
				// Underscores anywhere but in front.
				let mut s = String::new();
				for (i, c) in v.to_string().chars().enumerate() {
					if i > 0 && bits >> i & 1 == 1 {
						s.push('_');
					}
					s.push(c);
				}
				s
			},
		})
		.boxed()
}

fn bad_num() -> BoxedStrategy<String> {
	prop_oneof![
		(u32::MAX as u64 + 1..=u64::MAX).prop_map(|v| v.to_string()),
		(u32::MAX as u64 + 1..10_000_000_000).prop_map(group),
		Just("99999999999999999999999999999999999999999999".to_string()),
	]
	.boxed()
}

fn other_doc() -> BoxedStrategy<Doc> {
	select(vec![
		"/// Storage: System Account (r:1 w:1)",
		"/// Proof: System Account (max_values: None, max_size: Some(128), added: 2603, mode: MaxEncodedLen)",
		"/// Storage: `System::Account` (r:1 w:1)",
		"/// Proof: `System::Account` (`max_values`: None, `max_size`: Some(128), added: 2603, mode: `MaxEncodedLen`)",
		"///",
		"/// [0, 10] is not a range.",
		"/// The component `a` has no range.",
		"#[inline]",
		"#[allow(unused)]",
		"#[cfg(feature = \"std\")]",
		"// The range of component `b` is `[1, 2]`.",
		"/// The range of component `c` is [1, 2].",
		"/// The range of component c is `[1, 2]`.",
		"/// The range of component `c` is `[1, ]`.",
		"/// The range of component `c` is `(1, 2)`.",
		"/// The range of component `c` is `[1; 2]`.",
		"#[foo = \"The range of component `c` is `[1, 2]`.\"]",
		"/// Storage: `Foo::Bar` (r:1 w:0) `[a]`",
	])
	.prop_map(|s| Doc::Other(s.into()))
	.boxed()
}

fn range_doc(bad: bool) -> BoxedStrategy<Doc> {
	let comp = || prop_oneof![4 => "[a-z]", 1 => "[A-Z]"];
	if bad {
		let lohi = prop_oneof![
			(grouped_num(), bad_num()),
			(bad_num(), grouped_num()),
			(bad_num(), bad_num()),
			(1u64..=u32::MAX as u64, any::<u32>()).prop_map(|(hi, d)| {
				let lo = hi - 1 - (d as u64 % hi);
				(group(hi), group(lo))
			}),
		];
		(comp(), lohi, 0u8..6)
			.prop_map(|(comp, (min, max), style)| Doc::Range { comp, min, max, style })
			.boxed()
	} else {
		(comp(), grouped_num(), grouped_num(), 0u8..6)
			.prop_map(|(comp, a, b, style)| {
				let (x, y) = (num(&a).unwrap(), num(&b).unwrap());
				let (min, max) = if x <= y { (a, b) } else { (b, a) };
				Doc::Range { comp, min, max, style }
			})
			.boxed()
	}
}

fn num(s: &str) -> Option<u32> {
	s.replace('_', "").parse::<u32>().ok()
}

impl Doc {
	fn src(&self) -> String {
		match self {
			Doc::Other(s) => s.clone(),
			Doc::Range { comp, min, max, style } => match style {
				0 | 1 => format!("/// The range of component `{comp}` is `[{min}, {max}]`."),
				2 => format!("/// The range of component `_{comp}` is `[{min}, {max}]`."),
				3 => format!("#[doc = \" The range of component `{comp}` is `[{min}, {max}]`.\"]"),
				4 => format!("///  The range of component   `{comp}` is `[{min},{max}]`. "),
				_ => format!("/** The range of component `{comp}` is `[{min},  {max}]`. */"),
			},
		}
	}
}

fn check_ranges(c: &RangeCase, ctx: &mut Ctx) -> Check {
	let mut src = String::from("impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {\n");
	let mut want: Vec<BTreeMap<String, (u32, u32)>> = vec![];
	let mut bad = false;
	for (i, f) in c.funs.iter().enumerate() {
		let mut m = BTreeMap::new();
		for d in &f.docs {
			src += &format!("\t{}\n", d.src());
			if let Doc::Range { comp, min, max, .. } = d {
				match (num(min), num(max)) {
					(Some(lo), Some(hi)) if lo <= hi => {
						m.insert(comp.clone(), (lo, hi));
					},
					_ => bad = true,
				}
			}
		}
		src += &format!("\tfn f{i}(a: u32) -> Weight {{ Weight::from_parts({i}, 1) }}\n");
		want.push(m);
	}
	src += "}\n";
	let n_ranges: usize = want.iter().map(|m| m.len()).sum();
	if n_ranges > 0 || bad {
		ctx.nontrivial();
	}
	ctx.label(if bad { "invalid annotation" } else { "valid" });
	if want.iter().any(|m| m.len() > 1) {
		ctx.label("several components");
	}
	match pallet::parse_content("p".into(), src.clone()) {
		Ok(exts) => {
			ensure!(!bad, "an invalid range annotation was accepted: {src}");
			ensure_eq!(exts.len(), want.len(), "number of functions");
			for (e, w) in exts.iter().zip(&want) {
				let got: BTreeMap<String, (u32, u32)> = e
					.comp_ranges
					.iter()
					.flatten()
					.map(|(k, r)| (k.clone(), (r.min, r.max)))
					.collect();
				ensure_eq!(&got, w, "ranges of {} in {}", e.name, src);
				ensure_eq!(e.comp_ranges.is_some(), !w.is_empty(), "presence of ranges of {}", e.name);
			}
			Ok(())
		},
		Err(e) => {
			ensure!(bad, "valid annotations were rejected: {src}: {e}");
			Ok(())
		},
	}
}

fn unique_ranges(docs: Vec<Doc>) -> Vec<Doc> {
	// What two annotations of the same component mean is not specified.
	let mut seen = BTreeSet::new();
	docs.into_iter()
		.filter(|d| match d {
			Doc::Range { comp, .. } => seen.insert(comp.clone()),
			_ => true,
		})
		.collect()
}

pub fn c02() -> Prop {
	Prop {
		id: "C02",
		rels: vec![
			rel(
				"valid",
				"functions with generated range annotations among other docs and attributes; non-trivial: at least one range",
				160_000,
				800_000,
				|| {
					boxed(
						vec(
							vec(prop_oneof![2 => range_doc(false), 1 => other_doc()], 0..8)
								.prop_map(|d| RangeFun { docs: unique_ranges(d) }),
							1..4,
						)
						.prop_map(|funs| RangeCase { funs }),
					)
				},
				check_ranges,
			),
			rel(
				"invalid",
				"as above with exactly one annotation whose bounds are reversed or too large; always non-trivial",
				80_000,
				400_000,
				|| {
					boxed(
						(
							vec(
								vec(prop_oneof![2 => range_doc(false), 1 => other_doc()], 0..6)
									.prop_map(|d| RangeFun { docs: unique_ranges(d) }),
								1..4,
							),
							range_doc(true),
							any::<prop::sample::Index>(),
							any::<prop::sample::Index>(),
						)
							.prop_map(|(mut funs, bad, i, j)| {
								let k = i.index(funs.len());
								let f = &mut funs[k];
								let at = j.index(f.docs.len() + 1);
								f.docs.insert(at, bad);
								RangeCase { funs }
							}),
					)
				},
				check_ranges,
			),
		],
		assumptions: vec!["a component is annotated at most once per function"],
	}
}

// ------------------------------------------------------------------------------------------ C03

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Bad {
	NotWeight(u8),
	NoReturn,
	TwoStmts(u8),
	Foreign,
	Empty,
}

/// What there may be in front of a function, in the signature, and for a return type.
const ATTRS: [&str; 16] = [
	"", "", "", "", "#[inline]", "#[cfg(feature = \"runtime-benchmarks\")]", "#[cfg(test)]", "#[allow(dead_code)]", "#[must_use]",
	"#[doc(hidden)]", "#[cfg_attr(feature = \"std\", inline)]", "#[deprecated]", "#[cfg(not(feature = \"std\"))]", "#[rustfmt::skip]",
	"#[allow(clippy::all)]\n\t#[inline(always)]", "#[pallet::weight(5)]",
];
const SIGNATURES: [&str; 10] = ["fn", "fn", "fn", "fn", "pub fn", "const fn", "unsafe fn", "pub(crate) fn", "pub const fn", "default fn"];
const NO_WEIGHTS: [&str; 14] = [
	"u64", "WeightMeter", "Weights", "WeightV2", "weight", "WEIGHT", "(Weight, Weight)", "(Weight,)", "&Weight", "[Weight; 1]", "Weight::Type",
	"Result<Weight, ()>", "Option<Weight>", "WeightInfo",
];
const TWO_STATEMENTS: [&str; 8] = [
	"let y = 5;\n\t\t{b}", "{b};\n\t\tWeight::zero()", "Weight::zero();\n\t\t{b}", "let y = {b};\n\t\ty", "{b};\n\t\t{b}", "use core::mem;\n\t\t{b}",
	"foo!();\n\t\t{b}", "return {b};\n\t\tWeight::zero()",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ImplFun {
	name: String,
	body: Body,
	ranges: Vec<(String, u32, u32)>,
	ret: u8,
	#[serde(default)]
	looks: (u8, u8, bool),
	bad: Option<Bad>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum FileItem {
	/// header, is it for an accepted type, functions, extra non-function items
	Impl { head: usize, funs: Vec<ImplFun>, extra: u8 },
	Other(usize),
}

const GOOD_HEADS: [&str; 8] = [
	"impl<T: frame_system::Config> pallet_x::WeightInfo for WeightInfo<T>",
	"impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T>",
	"impl WeightInfo for ()",
	"impl pallet_x::WeightInfo for WeightInfo",
	"impl<T> crate::weights::WeightInfo for SubstrateWeight<T> where T: frame_system::Config",
	"impl<T: frame_system::Config, I> foo::bar::WeightInfo for WeightInfo<T, I>",
	"#[cfg(test)]\nimpl crate::WeightInfo for ()",
	"impl<T: frame_system::Config> WeightInfo for WeightInfo<T>",
];
const BAD_HEADS: [&str; 14] = [
	"impl<T> WeightInfo for Foo<T>",
	"impl WeightInfo for (u32, u64)",
	"impl WeightInfo for (WeightInfo,)",
	"impl WeightInfo for weights::WeightInfo",
	"impl WeightInfo for self::SubstrateWeight",
	"impl WeightInfo for ::WeightInfo",
	"impl<T> Default for WeightInfos<T>",
	"impl WeightInfo for [WeightInfo; 2]",
	"impl WeightInfo for &WeightInfo",
	"impl WeightInfo for weightinfo",
	"impl WeightInfo for MyWeightInfo",
	"impl WeightInfo for SubstrateWeights",
	"impl WeightInfo for (())",
	"impl WeightInfo for Box<WeightInfo>",
];
const OTHER_ITEMS: [&str; 20] = [
	"use frame_support::{traits::Get, weights::Weight};",
	"pub struct WeightInfo<T>(PhantomData<T>);",
	"pub trait WeightInfo { fn transfer() -> Weight; fn dflt() -> Weight { Weight::from_parts(77, 7) } }",
	"pub fn transfer() -> Weight { Weight::from_parts(99, 9) }",
	"const MAX: Weight = Weight::from_parts(1, 1);",
	"mod inner { impl WeightInfo for () { fn hidden() -> Weight { Weight::from_parts(55, 5) } } }",
	"type X = WeightInfo<()>;",
	"parameter_types! { pub const Foo: u32 = 5; }",
	"static S: u32 = 4;",
	"pub enum WeightInfoE { A, B }",
	"macro_rules! foo { () => { impl WeightInfo for () { fn m() -> Weight { Weight::zero() } } } }",
	"extern crate alloc;",
	"pub struct SubstrateWeight<T>(PhantomData<T>);",
	"union U { a: u32 }",
	"// SPDX-License-Identifier: Apache-2.0",
	"// impl WeightInfo for () { fn a() -> Weight { Weight::zero() } }\n//\n",
	"/* impl WeightInfo for () { fn a() -> Weight { Weight::zero() } } */",
	"",
	"   \n\t\n",
	"fn dead() { impl WeightInfo for () { fn a() -> Weight { Weight::zero() } } }",
];

fn impl_fun() -> BoxedStrategy<ImplFun> {
	(
		fun_name(),
		template_body(),
		vec((any::<bool>(), 0u32..100, 100u32..10_000), 7),
		(0u8..4, prop_oneof![1 => Just((0, 0, false)), 1 => (0u8..16, 0u8..10, any::<bool>())]),
	)
		.prop_map(|(name, body, rs, (ret, looks))| {
			let ranges = body
				.vars()
				.into_iter()
				.zip(rs)
				.filter(|(_, r)| r.0)
				.map(|(n, (_, lo, hi))| (n, lo, hi))
				.collect();
			ImplFun { name, body, ranges, ret, looks, bad: None }
		})
		.boxed()
}

fn file_item() -> BoxedStrategy<FileItem> {
	let bad = prop_oneof![
		(0u8..14).prop_map(Bad::NotWeight),
		Just(Bad::NoReturn),
		(0u8..8).prop_map(Bad::TwoStmts),
		Just(Bad::Foreign),
		Just(Bad::Empty),
	];
	let good_funs = vec(impl_fun(), 0..4);
	let spoiled = (vec(impl_fun(), 1..4), bad, any::<prop::sample::Index>()).prop_map(
		|(mut f, b, i)| {
			let k = i.index(f.len());
			f[k].bad = Some(b);
			f
		},
	);
	prop_oneof![
		1 => (0usize..GOOD_HEADS.len(), prop_oneof![20 => vec(impl_fun(), 4..40), 1 => vec(impl_fun(), 40..400)], 0u8..4)
			.prop_map(|(head, funs, extra)| FileItem::Impl { head, funs, extra }),
		12 => (0usize..GOOD_HEADS.len(), good_funs.clone(), 0u8..4)
			.prop_map(|(head, funs, extra)| FileItem::Impl { head, funs, extra }),
		8 => (GOOD_HEADS.len()..GOOD_HEADS.len() + BAD_HEADS.len(), good_funs, 0u8..4)
			.prop_map(|(head, funs, extra)| FileItem::Impl { head, funs, extra }),
		4 => (0usize..GOOD_HEADS.len(), spoiled, 0u8..4)
			.prop_map(|(head, funs, extra)| FileItem::Impl { head, funs, extra }),
		12 => (0usize..OTHER_ITEMS.len()).prop_map(FileItem::Other),
	]
	.boxed()
}

/// Now and then there is a lot around the impls.
fn fillers() -> BoxedStrategy<Vec<(prop::sample::Index, FileItem)>> {
	let other = || (0usize..OTHER_ITEMS.len()).prop_map(FileItem::Other);
	let no_functions = (0usize..GOOD_HEADS.len() + BAD_HEADS.len(), 0u8..4).prop_map(|(head, extra)| FileItem::Impl { head, funs: vec![], extra });
	let at = any::<prop::sample::Index>();
	prop_oneof![
		12 => Just(vec![]),
		1 => vec((at, prop_oneof![6 => other(), 1 => no_functions]), 5..80),
	]
	.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FileCase {
	pallet: String,
	items: Vec<FileItem>,
	env: (Vec<u32>, u64, u64),
}

impl ImplFun {
	fn src(&self) -> String {
		let mut s = String::new();
		for (c, lo, hi) in &self.ranges {
			s += &format!("\t/// The range of component `{c}` is `[{lo}, {}]`.\n", group(*hi as u64));
		}
		let args: String = self.body.vars().iter().map(|a| format!("{a}: u32, ")).collect();
		let ret = ["Weight", "frame_support::weights::Weight", "Weight", "crate::RuntimeWeight"]
			[self.ret as usize % 4];
		let b = self.body.src();
		let (attr, sig, early) = self.looks;
		let attr = match ATTRS[attr as usize % ATTRS.len()] {
			"" => String::new(),
			a => format!("\t{a}\n"),
		};
		s = if early { attr + &s } else { s + &attr };
		s += &format!("\t{} {}({args})", SIGNATURES[sig as usize % SIGNATURES.len()], self.name);
		s += &match &self.bad {
			None => format!(" -> {ret} {{\n\t\t{b}\n\t}}\n"),
			Some(Bad::NotWeight(i)) => format!(" -> {} {{\n\t\t{b}\n\t}}\n", NO_WEIGHTS[*i as usize % NO_WEIGHTS.len()]),
			Some(Bad::NoReturn) => format!(" {{\n\t\t{b}\n\t}}\n"),
			Some(Bad::TwoStmts(i)) =>
				format!(" -> {ret} {{\n\t\t{}\n\t}}\n", TWO_STATEMENTS[*i as usize % TWO_STATEMENTS.len()].replace("{b}", &b)),
			Some(Bad::Foreign) =>
				format!(" -> {ret} {{\n\t\tWeight::from_parts(3, 4).saturating_sub(Weight::zero())\n\t}}\n"),
			Some(Bad::Empty) => format!(" -> {ret} {{\n\t}}\n"),
		};
		s
	}
}

fn check_file(c: &FileCase, ctx: &mut Ctx) -> Check {
	let mut src = String::new();
	let mut want: Option<&Vec<ImplFun>> = None;
	let mut skipped_good_type = false;
	for it in &c.items {
		match it {
			FileItem::Other(i) => src += &format!("{}\n", OTHER_ITEMS[*i]),
			FileItem::Impl { head, funs, extra } => {
				let good = *head < GOOD_HEADS.len();
				let h = if good { GOOD_HEADS[*head] } else { BAD_HEADS[*head - GOOD_HEADS.len()] };
				src += &format!("{h} {{\n");
				if extra & 1 == 1 {
					src += "\ttype Foo = u32;\n";
				}
				for f in funs {
					src += &f.src();
				}
				if extra & 2 == 2 {
					src += "\tconst BAR: u32 = 5;\n";
				}
				src += "}\n";
				let ok = good && !funs.is_empty() && funs.iter().all(|f| f.bad.is_none());
				if good && !ok && want.is_none() {
					skipped_good_type = true;
				}
				if ok && want.is_none() {
					want = Some(funs);
				}
			},
		}
	}
	let got = pallet::parse_content(c.pallet.clone(), src.clone());
	let Some(want) = want else {
		ctx.label("no weight impl");
		ensure!(got.is_err(), "a file without a weight impl gave {:?}: {src}", got.map(|g| g.len()));
		return Ok(())
	};
	if c.items.len() > 1 {
		ctx.nontrivial();
	}
	if skipped_good_type {
		ctx.label("not understood impl first");
	}
	let got = got.map_err(|e| Fail::Violation(format!("a good file was rejected: {e}\n{src}")))?;
	let names: Vec<_> = got.iter().map(|e| e.name.clone()).collect();
	let want_names: Vec<_> = want.iter().map(|f| f.name.clone()).collect();
	ensure_eq!(names, want_names, "extracted functions of\n{src}\n");
	let (read, write) = (c.env.1 as u128, c.env.2 as u128);
	let env = env_of(&c.env.0);
	for (e, f) in got.iter().zip(want) {
		ensure_eq!(e.pallet, c.pallet, "pallet name");
		if let Some(v) = f.body.eval(&env, read, write) {
			ensure_eq!(eval_both(&e.term, &env, read, write)?, v, "value of {} in\n{}\n", e.name, src);
		}
		let ranges: BTreeMap<_, _> =
			e.comp_ranges.iter().flatten().map(|(k, r)| (k.clone(), (r.min, r.max))).collect();
		let wr: BTreeMap<_, _> = f.ranges.iter().map(|r| (r.0.clone(), (r.1, r.2))).collect();
		ensure_eq!(ranges, wr, "ranges of {}", e.name);
		ctx.evals(1);
	}
	Ok(())
}

pub fn c03() -> Prop {
	Prop {
		id: "C03",
		rels: vec![rel(
			"files",
			"files of random items: impls for right and wrong types, understood and not, and other items; non-trivial: a weight impl is present among several items",
			150_000,
			1_000_000,
			|| {
				boxed(
					("[a-z_/.]{1,20}", vec(file_item(), 0..7), fillers(), (vec(0u32..1000, 7), 0u64..1000, 0u64..1000))
						.prop_map(|(pallet, mut items, fillers, env)| {
							for (at, item) in fillers {
								items.insert(at.index(items.len() + 1), item);
							}
							FileCase { pallet, items, env }
						}),
				)
			},
			check_file,
		)],
		assumptions: vec![],
	}
}

// ------------------------------------------------------------------------------------------ C04

/// Storage expressions: sums and products of literals and known constants.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum C {
	Lit(u64, u8),
	Const(usize),
	Mul(Box<C>, Box<C>),
	Add(Box<C>, Box<C>),
}

const CONSTS: [&str; 4] = [
	"WEIGHT_PER_NANOS",
	"WEIGHT_REF_TIME_PER_NANOS",
	"constants::WEIGHT_PER_NANOS",
	"constants::WEIGHT_REF_TIME_PER_NANOS",
];

impl C {
	fn eval(&self) -> u128 {
		match self {
			C::Lit(v, _) => *v as u128,
			C::Const(_) => 1000,
			C::Mul(a, b) => a.eval().saturating_mul(b.eval()),
			C::Add(a, b) => a.eval().saturating_add(b.eval()),
		}
	}
	fn src(&self) -> String {
		match self {
			C::Lit(v, s) => match s % 3 {
				0 => v.to_string(),
				1 => group(*v),
				_ => format!("{v}u64"),
			},
			C::Const(i) => CONSTS[i % 4].into(),
			C::Mul(a, b) => format!("{} * {}", a.src(), b.src()),
			C::Add(a, b) => format!("{} + {}", a.src(), b.src()),
		}
	}
}

/// Precedence needs no brackets: sums of products (the storage grammar has no brackets).
fn konst() -> BoxedStrategy<C> {
	let atom = || {
		prop_oneof![
			2 => (lit(), 0u8..3).prop_map(|(v, s)| C::Lit(v % 100_000_000, s)),
			1 => (0usize..4).prop_map(C::Const),
		]
	};
	let prod =
		|| vec(atom(), 1..3).prop_map(|v| v.into_iter().reduce(|a, b| C::Mul(a.into(), b.into())).unwrap());
	vec(prod(), 1..3)
		.prop_map(|v| v.into_iter().reduce(|a, b| C::Add(a.into(), b.into())).unwrap())
		.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Over {
	/// `5_000 * WEIGHT_PER_NANOS`
	Product(u64, usize, bool),
	/// `Weight::from_ref_time(5_000 * ..)` is not in the vocabulary; saturating forms are.
	RefTime(u64),
	ConstMul(u64, usize),
	Parts(u64, u64, usize),
	FromRefConst(u64, usize),
}

impl Over {
	fn src(&self) -> String {
		match self {
			Over::Product(v, c, false) => format!("{} * {}", group(*v), CONSTS[c % 4]),
			Over::Product(v, c, true) => format!("{} * {}", CONSTS[c % 4], group(*v)),
			Over::RefTime(v) => format!("Weight::from_ref_time({})", group(*v)),
			Over::ConstMul(v, c) => format!("{}.saturating_mul({})", CONSTS[c % 4], group(*v)),
			Over::Parts(v, p, c) =>
				format!("Weight::from_parts({}.saturating_mul({}), {p})", CONSTS[c % 4], group(*v)),
			Over::FromRefConst(v, c) =>
				format!("Weight::from_ref_time({}.saturating_mul({}))", CONSTS[c % 4], group(*v)),
		}
	}
	/// `None`: may be rejected.
	fn eval(&self) -> (u128, u128) {
		match self {
			Over::RefTime(v) => (*v as u128, 0),
			Over::Parts(v, p, _) => (*v as u128 * 1000, *p as u128),
			Over::Product(v, ..) | Over::ConstMul(v, _) | Over::FromRefConst(v, _) =>
				(*v as u128 * 1000, 0),
		}
	}
	fn must_accept(&self) -> bool {
		!matches!(self, Over::ConstMul(..))
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum SysFile {
	Storage { parity: bool, read: C, write: C, swapped: bool, shape: u8 },
	Overhead { base: bool, w: Over, shape: u8 },
	Pallet(WFile),
	Neither(usize),
}

const NEITHER: [&str; 9] = [
	"",
	"fn main() {}",
	"pub mod constants { pub const X: u32 = 5; }",
	"parameter_types! { pub const SomethingElse: Weight = 5 * WEIGHT_PER_NANOS; }",
	"parameter_types! { pub const RocksDbWeight: Weight = 5 * WEIGHT_PER_NANOS; }",
	"parameter_types! { pub const ExtrinsicBaseWeight: u64 = 5 * WEIGHT_PER_NANOS; }",
	"other_macro! { pub const ExtrinsicBaseWeight: Weight = 5 * WEIGHT_PER_NANOS; }",
	"parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 5 * WEIGHT_PER_NANOS }; }",
	"this is not rust",
];

impl SysFile {
	fn wrap(shape: u8, macro_: String) -> String {
		let head = "//! AUTO\nuse frame_support::weights::{constants, RuntimeDbWeight};\n\n";
		match shape % 5 {
			0 => format!("{head}pub mod constants {{\n\tuse frame_support::parameter_types;\n\tparameter_types! {{\n{macro_}\n\t}}\n}}\n"),
			1 => format!("{head}frame_support::parameter_types! {{\n{macro_}\n}}\n"),
			2 => format!("{head}parameter_types! {{\n{macro_}\n}}\n#[cfg(test)]\nmod test_db_weights {{\n\t#[test]\n\tfn sane() {{}}\n}}\n"),
			3 => format!("{head}pub mod constants {{\n\tuse super::*;\n\tparameter_types! {{ pub const Foo: u32 = 4; }}\n\tparameter_types! {{\n{macro_}\n\t}}\n}}\n"),
			_ => format!("{head}mod tests {{ fn x() {{}} }}\npub mod constants {{ parameter_types! {{\n{macro_}\n}} }}\n"),
		}
	}
	fn src(&self) -> String {
		match self {
			SysFile::Storage { parity, read, write, swapped, shape } => {
				let (a, b) = (format!("read: {}", read.src()), format!("write: {}", write.src()));
				let (a, b) = if *swapped { (b, a) } else { (a, b) };
				let name = if *parity { "ParityDbWeight" } else { "RocksDbWeight" };
				Self::wrap(
					*shape,
					format!("\t\t/// By default, Substrate uses `RocksDB`.\n\t\tpub const {name}: RuntimeDbWeight = RuntimeDbWeight {{\n\t\t\t{a},\n\t\t\t/// x\n\t\t\t{b},\n\t\t}};"),
				)
			},
			SysFile::Overhead { base, w, shape } => {
				let name = if *base { "ExtrinsicBaseWeight" } else { "BlockExecutionWeight" };
				Self::wrap(
					*shape,
					format!("\t\t/// Time to execute a NO-OP extrinsic.\n\t\tpub const {name}: Weight =\n\t\t\t{};", w.src()),
				)
			},
			SysFile::Pallet(f) => f.src(),
			SysFile::Neither(i) => NEITHER[i % NEITHER.len()].into(),
		}
	}
}

fn sys_file() -> BoxedStrategy<SysFile> {
	let storage = (any::<bool>(), konst(), konst(), any::<bool>(), 0u8..5).prop_map(
		|(parity, read, write, swapped, shape)| SysFile::Storage { parity, read, write, swapped, shape },
	);
	let v = || prop_oneof![0u64..10, 0u64..100_000_000];
	let over = prop_oneof![
		(v(), 0usize..4, any::<bool>()).prop_map(|(a, b, c)| Over::Product(a, b, c)),
		v().prop_map(Over::RefTime),
		(v(), 0usize..4).prop_map(|(a, b)| Over::ConstMul(a, b)),
		(v(), prop_oneof![Just(0u64), 0u64..5000], 0usize..4).prop_map(|(a, p, b)| Over::Parts(a, p, b)),
		(v(), 0usize..4).prop_map(|(a, b)| Over::FromRefConst(a, b)),
	];
	let over = (any::<bool>(), over, 0u8..5)
		.prop_map(|(base, w, shape)| SysFile::Overhead { base, w, shape });
	prop_oneof![
		4 => storage,
		4 => over,
		1 => wfile(3).prop_map(SysFile::Pallet),
		1 => (0usize..NEITHER.len()).prop_map(SysFile::Neither),
	]
	.boxed()
}

fn check_storage(w: &storage::Weights, parity: bool, read: &C, write: &C, src: &str) -> Check {
	let s = SimpleScope::from_substrate();
	ensure_eq!(
		w.db,
		if parity { storage::Db::Parity } else { storage::Db::Rocks },
		"database kind of {}",
		src
	);
	ensure_eq!(w.weights.read.eval(&s), Ok(read.eval()), "read weight of {}", src);
	ensure_eq!(w.weights.write.eval(&s), Ok(write.eval()), "write weight of {}", src);
	Ok(())
}

fn check_over(w: &overhead::Weight, base: bool, o: &Over, src: &str) -> Check {
	let t = match (w, base) {
		(overhead::Weight::ExtrinsicBase(t), true) => t,
		(overhead::Weight::BlockExecution(t), false) => t,
		_ => return Err(Fail::Violation(format!("wrong overhead kind: {w:?} for {src}"))),
	};
	let s = SimpleScope::from_substrate();
	let v = (
		t.simplify(Dimension::Time)?.eval(&s)?,
		t.simplify(Dimension::Proof)?.eval(&s)?,
	);
	ensure_eq!(v, o.eval(), "overhead weight of {}", src);
	Ok(())
}

pub struct Tmp(pub std::path::PathBuf);
impl Tmp {
	pub fn new(tag: &str) -> Result<Tmp, Fail> {
		use std::sync::atomic::{AtomicU64, Ordering};
		static N: AtomicU64 = AtomicU64::new(0);
		let base = std::env::var("TMPDIR").unwrap_or("/tmp".into());
		let p = std::path::PathBuf::from(base).join(format!(
			"verif-{tag}-{}-{}",
			std::process::id(),
			N.fetch_add(1, Ordering::Relaxed)
		));
		harness(std::fs::create_dir_all(&p), "scratch directory")?;
		Ok(Tmp(p))
	}
	pub fn write(&self, rel: &str, content: impl AsRef<[u8]>) -> Result<std::path::PathBuf, Fail> {
		let p = self.0.join(rel);
		harness(std::fs::create_dir_all(p.parent().unwrap()), "scratch directory")?;
		harness(std::fs::write(&p, content), "scratch file")?;
		Ok(p)
	}
}
impl Drop for Tmp {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

fn check_sys(f: &SysFile, ctx: &mut Ctx) -> Check {
	let src = f.src();
	match f {
		SysFile::Storage { parity, read, write, .. } => {
			ctx.nontrivial();
			ctx.label("storage");
			let w = storage::parse_content(src.clone())
				.map_err(|e| format!("storage file rejected: {e}: {src}"))?;
			check_storage(&w, *parity, read, write, &src)?;
			ensure!(overhead::parse_content(src.clone()).is_err(), "storage file read as overhead: {src}");
			ensure!(pallet::parse_content("p".into(), src.clone()).is_err(), "storage file read as pallet: {src}");
		},
		SysFile::Overhead { base, w, .. } => {
			ctx.nontrivial();
			ctx.label("overhead");
			match overhead::parse_content(src.clone()) {
				Ok(r) => check_over(&r, *base, w, &src)?,
				Err(e) => ensure!(!w.must_accept(), "overhead file rejected: {e}: {src}"),
			}
			ensure!(storage::parse_content(src.clone()).is_err(), "overhead file read as storage: {src}");
			ensure!(pallet::parse_content("p".into(), src.clone()).is_err(), "overhead file read as pallet: {src}");
		},
		SysFile::Pallet(_) | SysFile::Neither(_) => {
			ctx.label("neither");
			ensure!(storage::parse_content(src.clone()).is_err(), "read as storage: {src}");
			ensure!(overhead::parse_content(src.clone()).is_err(), "read as overhead: {src}");
		},
	}
	Ok(())
}

fn check_auto(f: &(SysFile, String), ctx: &mut Ctx) -> Check {
	let (f, name) = f;
	let src = f.src();
	let tmp = Tmp::new("c04")?;
	let rel = format!("runtime/weights/{name}.rs");
	let path = tmp.write(&rel, &src)?;
	let got = try_parse_file(&tmp.0, &path);
	match (f, got) {
		(SysFile::Pallet(w), Some(ParsedFile::Pallet(p))) => {
			ctx.label("pallet");
			ensure_eq!(p.len(), w.funs.len(), "functions of auto-detected {}", src);
			for (e, f) in p.iter().zip(&w.funs) {
				ensure_eq!(e.name, f.name, "function name");
				ensure_eq!(e.pallet, rel, "pallet name is the path in the repository");
			}
		},
		(SysFile::Storage { parity, read, write, .. }, Some(ParsedFile::Storage(s))) => {
			ctx.label("storage");
			check_storage(&s, *parity, read, write, &src)?
		},
		(SysFile::Overhead { base, w, .. }, Some(ParsedFile::Overhead(o))) => {
			ctx.label("overhead");
			check_over(&o, *base, w, &src)?
		},
		(SysFile::Overhead { w, .. }, None) if !w.must_accept() => {},
		(SysFile::Neither(_), None) => {
			ctx.label("nothing");
			return Ok(())
		},
		(_, got) => {
			let kind = match got {
				None => "nothing",
				Some(ParsedFile::Pallet(_)) => "pallet",
				Some(ParsedFile::Storage(_)) => "storage",
				Some(ParsedFile::Overhead(_)) => "overhead",
			};
			return Err(Fail::Violation(format!("detected as {kind}: {src}")))
		},
	}
	ctx.nontrivial();
	Ok(())
}

/// A good storage or overhead file with one thing replaced by a similar one.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct NearCase {
	file: SysFile,
	spot: u16,
	with: u16,
}

const OPERATORS: &[&str] = &[" / ", " - ", " << ", " & ", " | ", " ^ ", " % ", " >> ", " && ", " == ", " = ", " += ", " .. ", " as ", ".pow(2) * -", "! * "];
const TURNS: &[(&str, &[&str])] = &[
	(" * ", OPERATORS),
	(" + ", OPERATORS),
	("RocksDbWeight:", &["RocksDbWeights:", "rocksDbWeight:", "RocksDBWeight:", "DbWeight:", "Rocks:", "ROCKS_DB_WEIGHT:", "MyRocksDbWeight:", "RocksDbWeight2:", "MemoryDbWeight:", "RocksWeight:"]),
	("ParityDbWeight:", &["ParityDbWeights:", "parityDbWeight:", "ParityDBWeight:", "DbWeight:", "Parity:", "PARITY_DB_WEIGHT:", "MyParityDbWeight:", "ParityDbWeight2:", "PolkaDbWeight:", "ParityWeight:"]),
	(": RuntimeDbWeight =", &[": Weight =", ": RuntimeDbWeights =", ": DbWeight =", ": (u64, u64) =", ": runtimeDbWeight =", ": OldRuntimeDbWeight =", ": u64 =", ": &RuntimeDbWeight ="]),
	("= RuntimeDbWeight {", &["= Weight {", "= RuntimeDbWeights {", "= DbWeight {", "= Self {", "= OldRuntimeDbWeight {", "= RuntimeWeight {"]),
	("read: ", &["reads: ", "write: ", "r: ", "read_: ", "Read: ", "get: ", "read_write: "]),
	("write: ", &["writes: ", "read: ", "w: ", "write_: ", "Write: ", "set: ", "overwrite: "]),
	("ExtrinsicBaseWeight:", &["ExtrinsicWeight:", "BaseExtrinsicWeight:", "ExtrinsicBaseWeights:", "extrinsicBaseWeight:", "BaseWeight:", "ExtrinsicBase:", "MyExtrinsicBaseWeight:", "EXTRINSIC_BASE_WEIGHT:"]),
	("BlockExecutionWeight:", &["BlockWeight:", "ExecutionWeight:", "BlockExecutionWeights:", "blockExecutionWeight:", "BlockExecution:", "MyBlockExecutionWeight:", "BlockImportWeight:"]),
	(": Weight =", &[": u64 =", ": Weights =", ": RuntimeWeight =", ": OldWeight =", ": weight =", ": RuntimeDbWeight =", ": (Weight, Weight) =", ": &Weight ="]),
	("parameter_types! {\n", &["parameter_type! {\n", "parameters! {\n", "ord_parameter_types! {\n", "my_parameter_types! {\n", "Parameter_types! {\n", "parameter_types_v2! {\n", "types! {\n"]),
	("mod constants", &["mod constant", "mod consts", "mod tests", "mod constants_", "mod my_constants", "mod Constants", "mod weights", "mod prod", "mod db", "mod rocksdb_weights", "mod r#const", "mod block_weights", "trait constants"]),
	(",\n\t\t}};", &[",\n\t\t\textra: 5,\n\t\t}};", ",\n\t\t\tread: 5,\n\t\t}};", ",\n\t\t\twrite: 5,\n\t\t}};"]),
	("Weight::from_ref_time(", &["Weight::from_reftime(", "Weight::from_time(", "Weight::new(", "Weight::ref_time(", "u64::from_ref_times("]),
	("Weight::from_parts(", &["Weight::from_part(", "Weight::from_all(", "Weight::parts(", "Weight::new(", "Weight::from_parts_unchecked("]),
	(".saturating_mul(", &[".saturating_sub(", ".saturating_div(", ".mul(", ".min(", ".max(", ".saturating_pow(", ".wrapping_mul("]),
];

impl NearCase {
	/// The replacement and the file with it.
	fn src(&self) -> Option<(String, String)> {
		let src = self.file.src();
		let mut spots: Vec<(usize, usize, &[&str])> = vec![];
		for (what, turns) in TURNS {
			let what = what.replace("}}", "}");
			// Only the last `parameter_types!` and `mod constants` matter.
			let last = what.starts_with("param") || what.starts_with("mod");
			let found: Vec<usize> = src.match_indices(&what).map(|(i, _)| i).collect();
			for i in if last { &found[found.len().saturating_sub(1)..] } else { &found[..] } {
				spots.push((*i, what.len(), turns));
			}
		}
		if spots.is_empty() {
			return None
		}
		let (at, len, turns) = spots[self.spot as usize % spots.len()];
		let new = turns[self.with as usize % turns.len()].replace("}}", "}");
		Some((format!("`{}` replaced by `{new}`", &src[at..at + len]), format!("{}{new}{}", &src[..at], &src[at + len..])))
	}
}

fn check_near(c: &NearCase, ctx: &mut Ctx) -> Check {
	let src = c.file.src();
	let taken = match &c.file {
		SysFile::Storage { .. } => storage::parse_content(src.clone()).is_ok(),
		SysFile::Overhead { .. } => overhead::parse_content(src.clone()).is_ok(),
		_ => false,
	};
	let (true, Some((what, near))) = (taken, c.src()) else {
		ctx.label("nothing to replace");
		return Ok(())
	};
	ctx.nontrivial();
	let got = [
		pallet::parse_content("p".into(), near.clone()).map(|p| format!("{p:?}")),
		storage::parse_content(near.clone()).map(|p| format!("{p:?}")),
		overhead::parse_content(near.clone()).map(|p| format!("{p:?}")),
	];
	for g in got {
		ensure!(g.is_err(), "a file with {what} was accepted as {}: {near}", g.unwrap());
	}
	if c.with >= 0xf000 {
		ctx.label("auto-detection, too");
		let tmp = Tmp::new("c04")?;
		let path = tmp.write("x.rs", &near)?;
		ensure!(try_parse_file(&tmp.0, &path).is_none(), "a file with {what} was detected as a weight file: {near}");
	}
	Ok(())
}

pub fn c04() -> Prop {
	Prop {
		id: "C04",
		rels: vec![
			rel(
				"declarations",
				"storage and overhead files over the template grammar, plus pallet and unrelated files that must be refused; non-trivial: a storage or overhead file",
				180_000,
				1_000_000,
				sys_file,
				check_sys,
			),
			rel(
				"auto-detection",
				"files of all kinds written to disk and auto-detected; non-trivial: detected as a weight file",
				24_000,
				100_000,
				|| boxed((sys_file(), "[a-z_]{1,12}")),
				check_auto,
			),
			rel(
				"near misses",
				"storage and overhead files with one operator, name, type, field, macro or module replaced by a similar one, which all parsers and the auto-detection must refuse; non-trivial: the file is accepted without the replacement",
				60_000,
				400_000,
				|| boxed((sys_file(), any::<u16>(), any::<u16>()).prop_map(|(file, spot, with)| NearCase { file, spot, with })),
				check_near,
			),
		],
		assumptions: vec!["`CONST.saturating_mul(n)` at the top of an overhead constant may be rejected"],
	}
}

// ------------------------------------------------------------------------------------------ C05

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
	text: String,
}

const TOKENS: [&str; 96] = [
	"impl", "WeightInfo", "for", "SubstrateWeight", "<", "T", ">", "{", "}", "(", ")", "fn", "x", "y",
	"->", "Weight", "::", "from_parts", "from_ref_time", "from_proof_size", "zero", ",", ".",
	"saturating_add", "saturating_mul", "as", "u64", "5", "1_000", "0xff", "1.5", "\"s\"", "'c'", "b\"x\"",
	"true", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999",
	"1e10", "5u256", "-", "+", "*", "/", "!", "&", "|", ";", "let", "=", "mut", "if", "else", "match", "return",
	"DbWeight", "get", "reads", "writes", "into", "ref_time", "T::DbWeight::get()", "RocksDbWeight::get()",
	"#[doc = \"The range of component `a` is `[1, 2]`.\"]", "/// The range of component `a` is `[5, 99999999999]`.\n",
	"/// The range of component `a` is `[_, _]`.\n", "#[doc]", "#[doc(hidden)]", "#[doc = 5]",
	"parameter_types!", "frame_support::parameter_types!", "pub", "const", "RocksDbWeight", ":", "RuntimeDbWeight",
	"read", "write", "ExtrinsicBaseWeight", "BlockExecutionWeight", "WEIGHT_PER_NANOS", "mod", "constants",
	"struct", "trait", "()", "(,)", "[", "]", "async", "unsafe", "r#fn", "{}", "'a", "?", "..", "impl WeightInfo for () {",
];

fn token_soup() -> BoxedStrategy<Text> {
	vec(select(TOKENS.to_vec()), 0..60)
		.prop_map(|t| Text { text: t.join(" ") })
		.boxed()
}

/// Splits Rust text into rough tokens.
fn rough_tokens(s: &str) -> Vec<String> {
	let mut out: Vec<String> = vec![];
	let mut word = false;
	for c in s.chars() {
		let w = c.is_alphanumeric() || c == '_';
		if w && word {
			out.last_mut().unwrap().push(c);
		} else {
			out.push(c.to_string());
		}
		word = w;
	}
	out
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
	Delete(u32),
	Dup(u32),
	Replace(u32, String),
	Insert(u32, String),
	Swap(u32, u32),
}

fn edits() -> BoxedStrategy<Vec<Edit>> {
	let tok = || {
		prop_oneof![
			4 => select(TOKENS.to_vec()).prop_map(String::from),
			1 => "\\PC{1,3}",
			1 => (0u128..=u128::MAX).prop_map(|v| v.to_string()),
		]
	};
	vec(
		prop_oneof![
			any::<u32>().prop_map(Edit::Delete),
			any::<u32>().prop_map(Edit::Dup),
			(any::<u32>(), tok()).prop_map(|(i, t)| Edit::Replace(i, t)),
			(any::<u32>(), tok()).prop_map(|(i, t)| Edit::Insert(i, t)),
			(any::<u32>(), any::<u32>()).prop_map(|(i, j)| Edit::Swap(i, j)),
		],
		0..6,
	)
	.boxed()
}

fn apply(text: &str, edits: &[Edit]) -> String {
	let mut t = rough_tokens(text);
	for e in edits {
		if t.is_empty() {
			break
		}
		let n = t.len();
		match e {
			Edit::Delete(i) => {
				t.remove(*i as usize % n);
			},
			Edit::Dup(i) => {
				let x = t[*i as usize % n].clone();
				t.insert(*i as usize % n, x);
			},
			Edit::Replace(i, x) => t[*i as usize % n] = x.clone(),
			Edit::Insert(i, x) => t.insert(*i as usize % (n + 1), format!(" {x} ")),
			Edit::Swap(i, j) => t.swap(*i as usize % n, *j as usize % n),
		}
	}
	t.concat()
}

fn mutated() -> BoxedStrategy<Text> {
	(sys_or_pallet(), edits())
		.prop_map(|(s, e)| Text { text: apply(&s, &e) })
		.boxed()
}

fn sys_or_pallet() -> BoxedStrategy<String> {
	prop_oneof![
		3 => wfile(3).prop_map(|f| f.src()),
		2 => sys_file().prop_map(|f| f.src()),
	]
	.boxed()
}

/// Any expression of a reasonable Rust subset as a function body: valid Rust, rarely a weight.
fn odd_expr() -> BoxedStrategy<String> {
	let leaf = prop_oneof![
		select(vec![
			"x", "self", "1.5", "\"s\"", "'c'", "b'x'", "true", "5", "0xffu8", "1e3", "x.0", "[]", "()", "|| 5",
			"Weight::MAX", "T::DbWeight::get()", "foo!()", "return", "break", "340282366920938463463374607431768211456",
			"5f32", "b\"abc\"", "c\"abc\"", "..", "<T as X>::Y", "&x", "*x", "!x", "-5", "loop {}", "Foo {}", "Foo { a: 1 }", "_",
			"Weight::zero()", "0b1111_0000", "0o777u64", "1_000_000_000_000_000_000_000_000_000_000_000_000_000u128",
		])
		.prop_map(String::from),
		any::<u128>().prop_map(|v| v.to_string()),
	];
	leaf.prop_recursive(5, 20, 3, |i| {
		prop_oneof![
			(i.clone(), i.clone(), select(vec![
				"{a}.saturating_add({b})", "{a}.saturating_mul({b})", "Weight::from_parts({a}, {b})", "{a} + {b}",
				"{a} * {b}", "({a}).saturating_add({b})", "({a} as u64).saturating_mul({b})", "T::DbWeight::get().reads({a}, {b})",
				"{ let y = {a}; {b} }", "if {a} { {b} } else { 5 }", "{a}({b})", "{a}[{b}]", "{a} = {b}", "({a}, {b})",
			]))
				.prop_map(|(a, b, f)| f.replace("{a}", &a).replace("{b}", &b)),
			(i, select(vec![
				"({a})", "{a} as u64", "({a}).into()", "T::DbWeight::get().reads({a})", "T::DbWeight::get().writes({a})",
				"Weight::from_ref_time({a})", "Weight::from_proof_size({a})", "Weight::zero({a})", "({a}).ref_time()",
				"{ {a} }", "{a};", "let y = {a};", "[{a}; 3]", "&{a}", "{a}?", "unsafe { {a} }", "foo!({a});", "fn g() {}", "struct Z;", "match {a} { _ => 5 }",
			]))
				.prop_map(|(a, f)| f.replace("{a}", &a)),
		]
	})
	.boxed()
}

fn odd_file() -> BoxedStrategy<Text> {
	let f = prop_oneof![
		3 => odd_expr().prop_map(|e| fun_src(&e)),
		1 => (odd_expr(), odd_expr()).prop_map(|(a, b)| format!(
			"parameter_types! {{ pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ read: {a}, write: {b}, }}; }}"
		)),
		1 => (odd_expr(), any::<bool>()).prop_map(|(a, n)| format!(
			"parameter_types! {{ pub const {}: Weight = {a}; }}",
			if n { "ExtrinsicBaseWeight" } else { "BlockExecutionWeight" }
		)),
	];
	f.prop_map(|text| Text { text }).boxed()
}

/// Runs of multi-byte characters at any offset in the places of a file where such may stand.
fn unicode_file() -> BoxedStrategy<Text> {
	let run = (
		0usize..80,
		prop_oneof![1 => Just(String::new()), 6 => "[a-z ]{0,3}"],
		select(vec!["ä", "€", "𝒳", "日", "é", "\u{301}", "\u{200d}👩", "ß", "İ", "\u{2028}", "\u{a0}", "ﬁ", "٣", "１"]),
		0usize..60,
		"[ -!#-Z^-z]{0,8}",
	)
		.prop_map(|(pad, sep, ch, n, tail)| {
			let mut t = ".".repeat(pad);
			for _ in 0..n {
				t += ch;
				t += &sep;
			}
			t + &tail
		});
	let id = ("[a-z]{0,20}", select(vec!["ä", "é", "日", "ß", "ﬀ", "𝒳", "İ", "ǆ"]), 0usize..20)
		.prop_map(|(a, c, n)| format!("x{a}{}", c.repeat(n)));
	(sys_or_pallet(), run, id, 0u8..18, edits(), 0u8..3)
		.prop_map(|(src, run, id, place, edits, edited)| {
			let text = match place {
				0 => format!("//! {run}\n{src}"),
				1 => src.replacen("\tfn ", &format!("\t/// {run}\n\tfn "), 1),
				2 => src.replacen("\tfn ", &format!("\t// {run}\n\tfn "), 1),
				3 => src.replacen("\tfn ", &format!("\t#[doc = \"{run}\"]\n\tfn "), 2),
				4 => src.replacen("\tfn ", &format!("\t/// The range of component `{id}` is `[1, 2]`. {run}\n\tfn "), 1),
				5 => src.replacen("\tfn ", &format!("\t/// {run} The range of component `a` is `[1, 2]`.\n\tfn "), 1),
				6 => src.replacen("\tfn ", &format!("\tfn {id}_"), 1),
				7 => src.replacen("fn ", &format!("/* {run} */ fn "), 1),
				8 => format!("{src}\nconst X: &str = \"{run}\";\n"),
				9 => src.replacen("impl<T", &format!("impl<{id}: Config, T"), 1),
				10 => src.replacen("saturating_add", &format!("saturating_add{id}"), 1),
				11 => src.replacen(" * ", &format!(" * {id}::"), 1),
				12 => src.replacen("WeightInfo", &format!("{id}::WeightInfo"), 1),
				13 => format!("mod {id} {{ }} {src}"),
				15 => format!("\u{feff}{src}{run}"),
				16 => format!("#!/usr/bin/env {run}\n{src}"),
				14 => src.replacen("const ", &format!("/** {run} */ const "), 1),
				_ => src.replacen("saturating_mul(", &format!("saturating_mul({id}+ /* {run} */ "), 1).replacen("{id}+", &id, 1),
			};
			Text { text: if edited == 0 { apply(&text, &edits) } else { text } }
		})
		.boxed()
}

pub fn only_parse(text: &str) {
	let _ = pallet::parse_content("p".into(), text.to_string()).is_ok();
	let _ = storage::parse_content(text.to_string()).is_ok();
	let _ = overhead::parse_content(text.to_string()).is_ok();
}

/// A necessary condition for the known endless loop of the parser library (syn 2.0.74): after an operator that
/// binds less, two comparisons, ranges or assignments (`x = a == b == c`), which is never valid Rust.
fn chained_comparisons(text: &str) -> bool {
	fn within(ts: proc_macro2::TokenStream) -> bool {
		let (mut weak, mut comparisons, mut joint) = (false, 0, ' ');
		for t in ts {
			match t {
				proc_macro2::TokenTree::Group(g) =>
					if within(g.stream()) {
						return true
					},
				proc_macro2::TokenTree::Punct(p) => {
					let c = p.as_char();
					match c {
						'<' | '>' | '!' => comparisons += u32::from(weak),
						// Also the second half of `<=`.
						'=' => {
							comparisons += u32::from(weak);
							weak = true;
						},
						';' => (weak, comparisons) = (false, 0),
						// Ranges do not chain either.
						'.' =>
							if joint == '.' {
								comparisons += u32::from(weak);
								weak = true;
							},
						'|' | '&' => weak = true,
						_ => {},
					}
					joint = if p.spacing() == proc_macro2::Spacing::Joint { c } else { ' ' };
				},
				_ => {},
			}
			if comparisons >= 2 {
				return true
			}
		}
		false
	}
	// The parser skips a byte order mark and an interpreter line.
	let text = text.strip_prefix('\u{feff}').unwrap_or(text);
	let rest = text.split_once('\n').map_or("", |x| x.1);
	let lex = |t: &str| t.parse::<proc_macro2::TokenStream>().is_ok_and(within);
	lex(text) || text.starts_with("#!") && lex(rest)
}

/// Whether parsing this text hangs for the known reason.
pub fn known_hang(text: &str) -> Result<bool, Fail> {
	Ok(chained_comparisons(text) && hangs(text, 12)?)
}

#[derive(Debug, PartialEq)]
enum Probe {
	Returned,
	Hangs,
	/// Ended by a signal.
	Crashed(i32),
}

fn hangs(text: &str, secs: u64) -> Result<bool, Fail> {
	Ok(probe("probe", text, secs)? == Probe::Hangs)
}

/// Parses (`probe`), or also displays and compares (`exercise`), in an own process.
fn probe(what: &str, text: &str, secs: u64) -> Result<Probe, Fail> {
	use std::os::unix::process::ExitStatusExt;
	let exe = harness(std::env::current_exe(), "own program")?;
	let mut c = std::process::Command::new(exe);
	c.arg(what).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
	let mut c = harness(c.spawn(), "probe")?;
	let mut pipe = c.stdin.take().unwrap();
	harness(std::io::Write::write_all(&mut pipe, text.as_bytes()), "probe")?;
	drop(pipe);
	// Judged by the time it computes, not by a clock that runs on when the machine is busy.
	let stat = std::path::PathBuf::from(format!("/proc/{}/stat", c.id()));
	let end = std::time::Instant::now() + std::time::Duration::from_secs(secs * 20);
	let mut nap = 1;
	loop {
		if let Some(status) = harness(c.try_wait(), "probe")? {
			return Ok(match status.signal() {
				// Ended from outside, e.g. for lack of memory.
				Some(9 | 15 | 2) => return Err(Fail::Harness(format!("probe ended by {status}"))),
				Some(n) => Probe::Crashed(n),
				None => Probe::Returned,
			})
		}
		if nap > 40 && cpu_seconds(&stat).is_some_and(|s| s >= secs) {
			break
		}
		if std::time::Instant::now() > end {
			let _ = c.kill();
			let _ = c.wait();
			return Err(Fail::Harness("a probe neither ends nor computes".into()))
		}
		std::thread::sleep(std::time::Duration::from_millis(nap));
		nap = (nap + 1).min(50);
	}
	let _ = c.kill();
	let _ = c.wait();
	Ok(Probe::Hangs)
}

/// Something nested or chained `n` times, around an atom.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Deep {
	kind: u8,
	n: u32,
	place: u8,
}

const DEEP: [(&str, &str); 22] = [
	// Nested.
	("(", ")"), ("{ ", " }"), ("[", "]"), ("f(", ")"), ("-", ""), ("!", ""), ("&", ""), ("|x| ", ""), ("return ", ""),
	("Weight::zero().saturating_add(", ")"), ("if x { ", " }"), ("match x { _ => ", " }"), ("loop { ", " }"), ("<A<", ">>::b"), ("vec![", "]"),
	("T::DbWeight::get().reads(", ")"),
	// Chained.
	("", ".saturating_add(Weight::from_parts(1, 1))"), ("", ".saturating_mul(x as u64)"), ("", " + 1"), ("", " as u64"), ("", "[0]"), ("", " && 1"),
];

impl Deep {
	fn nested(&self) -> bool {
		self.kind as usize % DEEP.len() < 16
	}
	fn text(&self) -> String {
		let (a, b) = DEEP[self.kind as usize % DEEP.len()];
		let n = self.n as usize;
		let atom = ["1", "Weight::zero()", "x", "Weight::from_parts(5, 5)"][self.place as usize / 8 % 4];
		let e = format!("{}{atom}{}", a.repeat(n), b.repeat(n));
		match self.place % 6 {
			0 => format!("impl<T> a::WeightInfo for W<T> {{ fn f() -> Weight {{ {e} }} }}"),
			1 => format!("impl WeightInfo for () {{ fn f(x: u32) -> Weight {{ Weight::from_parts({e}, 1) }} }}"),
			2 => format!("impl WeightInfo for () {{ fn f(x: u32) -> Weight {{ Weight::zero().saturating_add({e}) }} }}"),
			3 => format!("parameter_types! {{ pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ read: {e}, write: 2 }}; }}"),
			4 => format!("parameter_types! {{ pub const ExtrinsicBaseWeight: Weight = {e}; }}"),
			_ => format!("#[doc = {e}]\nconst X: u64 = {e};"),
		}
	}
}

fn deep() -> BoxedStrategy<Deep> {
	(0u8..DEEP.len() as u8, 0u32..1000, 0u8..64)
		.prop_map(|(kind, n, place)| {
			let d = Deep { kind, n: 0, place };
			// Far from where stacks end, see the findings.
			let n = n % if d.nested() { 120 } else { 400 };
			Deep { n, ..d }
		})
		.boxed()
}

fn check_deep(d: &Deep, ctx: &mut Ctx) -> Check {
	let text = d.text();
	if chained_comparisons(&text) {
		ctx.label("possibly the known finding, left out");
		return Ok(())
	}
	if d.n > 40 {
		ctx.nontrivial();
	}
	let got = probe("exercise", &text, 40)?;
	ensure!(got == Probe::Returned, "{} nested {} times: {got:?}", DEEP[d.kind as usize % DEEP.len()].0, d.n);
	Ok(())
}

/// Expressions of many operators, of which few are valid.
fn chains() -> BoxedStrategy<Text> {
	const OPS: [&str; 24] =
		["+", "-", "*", "/", "%", "<", ">", "==", "<=", "!=", "&&", "||", "=", "+=", "|", "&", "^", "<<", ">>", "as", "..", "..=", ".", "?."];
	const ATOMS: [&str; 14] =
		["a", "1", "(a)", "!b", "-1", "x.y", "f(1)", "[a]", "{ a }", "&a", "if a { b } else { c }", "|a| a", "return", "u64"];
	let expr = (select(ATOMS.to_vec()), vec((select(OPS.to_vec()), select(ATOMS.to_vec())), 0..6)).prop_map(|(a, r)| {
		r.into_iter().fold(a.to_string(), |s, (o, b)| format!("{s} {o} {b}"))
	});
	(expr, 0u8..6)
		.prop_map(|(e, k)| Text {
			text: match k {
				0 => format!("impl<T> a::WeightInfo for W<T> {{ fn f() -> Weight {{ {e} }} }}"),
				1 => format!("impl<T> a::WeightInfo for W<T> {{ fn f() -> Weight {{ Weight::from_parts({e}, 1) }} }}"),
				2 => format!("parameter_types! {{ pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {{ read: {e}, write: 2 }}; }}"),
				3 => format!("parameter_types! {{ pub const ExtrinsicBaseWeight: Weight = {e}; }}"),
				4 => format!("const X: u64 = {e};"),
				_ => format!("#[cfg({e})] fn f() {{ let x = {e}; }}"),
			},
		})
		.boxed()
}

fn check_returns(t: &Text, ctx: &mut Ctx) -> Check {
	if chained_comparisons(&t.text) {
		ctx.label("possibly the known finding, left out");
		return Ok(())
	}
	ctx.nontrivial();
	check_library_loop(t, ctx)
}

/// Only for the listed finding.
fn check_library_loop(t: &Text, _: &mut Ctx) -> Check {
	ensure!(!hangs(&t.text, 12)?, "the parsers do not return for {:?}", t.text);
	Ok(())
}

fn exercise(text: &str, ctx: &mut Ctx) -> Check {
	if known_hang(text)? {
		ctx.label("known finding: endless loop of the parser library");
		return Ok(())
	}
	exercise_here(text, ctx)
}

pub fn exercise_here(text: &str, ctx: &mut Ctx) -> Check {
	let r = pallet::parse_content("p".into(), text.to_string());
	if let Ok(w) = storage::parse_content(text.to_string()) {
		ctx.label("accepted as storage");
		ctx.nontrivial();
		let _ = (w.weights.read.to_string(), w.weights.write.eval(&SimpleScope::from_substrate()));
	}
	if let Ok(w) = overhead::parse_content(text.to_string()) {
		ctx.label("accepted as overhead");
		ctx.nontrivial();
		let (overhead::Weight::ExtrinsicBase(t) | overhead::Weight::BlockExecution(t)) = w;
		for d in Dimension::all() {
			let s = t.simplify(d)?;
			let _ = (s.to_string(), s.eval(&SimpleScope::from_substrate()));
		}
	}
	if let Ok(exts) = r {
		ctx.label("accepted as pallet");
		ctx.nontrivial();
		for e in &exts {
			let _ = e.term.to_string();
		}
		for d in Dimension::all() {
			for m in CompareMethod::all() {
				let p = params(m, d);
				for (a, b) in [(exts.clone(), exts.clone()), (vec![], exts.clone()), (exts.clone(), vec![])] {
					let n: BTreeSet<_> = exts.iter().map(|e| e.name.clone()).collect();
					let mut diff = compare_files(a, b, &p, &no_filter())
						.map_err(|e| format!("comparison failed as a whole: {e}"))?;
					ensure_eq!(diff.len(), n.len(), "rows of an accepted file");
					for r in &diff {
						if let Some(t) = r.term() {
							let _ = (
								t.old.as_ref().map(|t| t.to_string()),
								t.new.as_ref().map(|t| t.to_string()),
								t.old_v.map(|v| d.fmt_value(v)),
								t.scope.to_string(),
							);
						}
					}
					subweight_core::sort_changes(&mut diff);
					ctx.evals(1);
				}
			}
		}
	} else {
		ctx.label("rejected");
	}
	Ok(())
}

fn check_text(t: &Text, ctx: &mut Ctx) -> Check {
	exercise(&t.text, ctx)
}

fn check_bytes(b: &Vec<u8>, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c05")?;
	let p = tmp.write("a.rs", b)?;
	if std::str::from_utf8(b).is_ok_and(|t| chained_comparisons(t)) && known_hang(std::str::from_utf8(b).unwrap())? {
		ctx.label("known finding: endless loop of the parser library");
		return Ok(())
	}
	let r = try_parse_file(&tmp.0, &p);
	if r.is_some() {
		ctx.nontrivial();
		ctx.label("detected");
	}
	if std::str::from_utf8(b).is_err() {
		ctx.label("not UTF-8");
		ctx.nontrivial();
		ensure!(r.is_none(), "bytes that are no text were parsed");
	}
	let _ = (pallet::parse_file(&p), storage::parse_file(&p), overhead::parse_file(&p));
	Ok(())
}

pub fn c05() -> Prop {
	Prop {
		id: "C05",
		rels: vec![
			rel(
				"odd bodies",
				"valid weight impls, storage and overhead macros around arbitrary Rust expressions, statements and literals; non-trivial: accepted by a parser and taken through all comparisons",
				60_000,
				2_000_000,
				odd_file,
				check_text,
			),
			rel(
				"mutated files",
				"valid files of all kinds with 0-5 token edits; non-trivial: accepted by a parser and taken through all comparisons",
				40_000,
				1_500_000,
				mutated,
				check_text,
			),
			rel(
				"token soup",
				"sequences of relevant tokens, and arbitrary unicode text; non-trivial: accepted by a parser",
				30_000,
				1_000_000,
				|| boxed(prop_oneof![4 => token_soup(), 1 => "\\PC{0,60}".prop_map(|text| Text { text })]),
				check_text,
			),
			rel(
				"unicode",
				"valid and edited files with runs of multi-byte characters in doc comments, attributes, comments, strings and names, at any offset; non-trivial: accepted by a parser",
				40_000,
				600_000,
				unicode_file,
				check_text,
			),
			rel_slow(
				"returns",
				"near-valid files with chains of operators, parsed in a process with a time limit; files on which the parser library itself loops are a known finding and left out; non-trivial: not left out",
				800,
				20_000,
				200,
				chains,
				check_returns,
			),
			rel_slow(
				"depth",
				"expressions nested up to 120 times or chained up to 400 times, parsed, displayed and compared in an own process, which must neither crash nor hang; far deeper ones overflow the stack, a known finding; non-trivial: more than 40 times",
				6_000,
				100_000,
				200,
				deep,
				check_deep,
			),
			rel_slow("library loop", "the listed finding only", 0, 0, 0, chains, check_library_loop),
			rel(
				"bytes",
				"files with arbitrary or near-valid bytes through the file-reading entry points; non-trivial: detected as a weight file, or not UTF-8",
				4_000,
				60_000,
				|| {
					boxed(prop_oneof![
						vec(any::<u8>(), 0..200),
						(mutated(), vec((any::<u32>(), any::<u8>()), 0..3)).prop_map(|(t, e)| {
							let mut b = t.text.into_bytes();
							for (i, x) in e {
								if !b.is_empty() {
									let n = b.len();
									b[i as usize % n] = x;
								}
							}
							b
						}),
					])
				},
				check_bytes,
			),
		],
		assumptions: vec!["nesting of up to 120 levels, chains of up to 400 operations; far deeper is a known finding"],
	}
}
