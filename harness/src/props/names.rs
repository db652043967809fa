//! C28: the names of options.

use super::{
	cli::{change_name, check_rows_shown, method_name, parse_csv, parse_table, place, plain, subweight, unit_name, Options, CHANGES, FILES},
	compare::*,
	parse::{params, Tmp},
	webprops::{check_error, check_page, site_repo, up, Query, METHODS},
};
use crate::{ensure, ensure_eq, git::*, lang::pair, run::*, web::*};
use clap::ValueEnum;
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, fmt::Debug};
use subweight_core::{
	compare_files, filter_changes, parse::PathStripping, sort_changes, CompareMethod, Dimension, FilterParams, RelativeChange,
};

const METHOD_NAMES: [(&str, CompareMethod); 5] = [
	("base", CompareMethod::Base),
	("guess-worst", CompareMethod::GuessWorst),
	("exact-worst", CompareMethod::ExactWorst),
	("asymptotic", CompareMethod::Asymptotic),
	("exact-asymptotic", CompareMethod::ExactAsymptotic),
];
const UNIT_NAMES: [(&str, Dimension); 3] = [("time", Dimension::Time), ("proof", Dimension::Proof), ("weight", Dimension::Time)];
const CHANGE_NAMES: [(&str, RelativeChange); 4] = [
	("unchanged", RelativeChange::Unchanged),
	("changed", RelativeChange::Changed),
	("added", RelativeChange::Added),
	("removed", RelativeChange::Removed),
];
const STRIP_NAMES: [(&str, PathStripping); 2] = [("file_name", PathStripping::FileName), ("repo_relative", PathStripping::RepoRelative)];
const FORMATS: [&str; 3] = ["human", "csv", "markdown"];

fn all_names() -> Vec<&'static str> {
	let mut v: Vec<&str> = METHOD_NAMES.iter().map(|n| n.0).collect();
	v.extend(UNIT_NAMES.iter().map(|n| n.0));
	v.extend(CHANGE_NAMES.iter().map(|n| n.0));
	v.extend(STRIP_NAMES.iter().map(|n| n.0));
	v.extend(FORMATS);
	v
}

/// A documented name, one that is nearly so, or any text.
fn name() -> BoxedStrategy<String> {
	let known = || select(all_names()).prop_map(String::from);
	prop_oneof![
		5 => known(),
		1 => known().prop_map(|s| s.to_uppercase()),
		1 => (known(), any::<u8>()).prop_map(|(s, i)| flip(&s, i as u32)),
		1 => known().prop_map(|s| s.replace('-', "_")),
		1 => known().prop_map(|s| s.replace(['-', '_'], "")),
		1 => known().prop_map(|s| s.replace('_', "-")),
		1 => (known(), select(vec![" ", "s", "\n", "\0", "-", "d"])).prop_map(|(s, x)| s + x),
		1 => (known(), select(vec![" ", "un", "-", "\u{feff}", "exact-", "guess-"])).prop_map(|(s, x)| x.to_string() + &s),
		1 => (known(), any::<prop::sample::Index>()).prop_map(|(s, i)| {
			let mut c: Vec<char> = s.chars().collect();
			c.remove(i.index(c.len()));
			c.into_iter().collect()
		}),
		1 => (known(), any::<prop::sample::Index>()).prop_map(|(s, i)| s[..i.index(s.len())].to_string()),
		1 => "[a-z]{1,8}([-_][a-z]{1,6})?",
		1 => "\\PC{0,12}",
	]
	.boxed()
}

/// Changes the case of the letters chosen by the bits.
fn flip(s: &str, bits: u32) -> String {
	s.chars().enumerate().map(|(i, c)| if bits >> (i % 32) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
}

/// Every entry point has to agree with the table.
fn judge<T: Copy + PartialEq + Debug>(s: &str, table: &[(&str, T)], got: Option<T>, what: &str) -> Check {
	let want = table.iter().find(|n| n.0 == s).map(|n| n.1);
	if want.is_none() {
		if let (Some(g), Some((_, w))) = (got, table.iter().find(|n| n.0.eq_ignore_ascii_case(s))) {
			// Whether letter case matters here is not documented; what it means is.
			ensure_eq!(g, *w, "{what} of {s:?}");
			return Ok(())
		}
	}
	ensure_eq!(got, want, "{what} of {s:?}");
	Ok(())
}

fn json<T: serde::de::DeserializeOwned>(s: &str) -> Option<T> {
	serde_json::from_value(serde_json::Value::String(s.into())).ok()
}

fn check_parsing(s: &String, ctx: &mut Ctx) -> Check {
	if all_names().contains(&s.as_str()) {
		ctx.nontrivial();
		ctx.label("documented");
	} else {
		ctx.label("not documented");
	}
	judge(s, &METHOD_NAMES, s.parse().ok(), "method parsed from a string")?;
	judge(s, &METHOD_NAMES, json(s), "method deserialised")?;
	judge(s, &METHOD_NAMES, CompareMethod::from_str(s, false).ok(), "method on the command line")?;
	judge(s, &UNIT_NAMES, s.parse().ok(), "unit parsed from a string")?;
	judge(s, &UNIT_NAMES, json(s), "unit deserialised")?;
	judge(s, &CHANGE_NAMES, s.parse().ok(), "change type parsed from a string")?;
	judge(s, &CHANGE_NAMES, json(s), "change type deserialised")?;
	judge(s, &CHANGE_NAMES, RelativeChange::from_str(s, false).ok(), "change type on the command line")?;
	judge(s, &STRIP_NAMES, s.parse().ok(), "path stripping parsed from a string")?;
	if s != "weight" {
		judge(s, &UNIT_NAMES[..2], Dimension::from_str(s, false).ok(), "unit on the command line")?;
	} else if let Ok(d) = Dimension::from_str(s, false) {
		ensure_eq!(d, Dimension::Time, "unit `weight` on the command line");
	}
	ctx.evals(9);
	// The advertised names.
	fn set<T: Copy + PartialEq + Debug>(what: &str, got: Vec<&'static str>, table: &[(&str, T)]) -> Check {
		let mut want: Vec<&str> = table.iter().map(|n| n.0).filter(|n| *n != "weight").collect();
		let mut got: Vec<&str> = got.into_iter().filter(|n| *n != "weight").collect();
		want.sort();
		got.sort();
		ensure_eq!(got, want, "advertised names of {what}");
		Ok(())
	}
	set("methods", CompareMethod::variants(), &METHOD_NAMES)?;
	set("units", Dimension::variants(), &UNIT_NAMES)?;
	set("change types", RelativeChange::variants(), &CHANGE_NAMES)?;
	set("path strippings", PathStripping::variants(), &STRIP_NAMES)?;
	for (m, n) in CompareMethod::reflect() {
		judge(n, &METHOD_NAMES, Some(m), "method listed under the name")?;
	}
	for (m, n) in Dimension::reflect() {
		judge(n, &UNIT_NAMES, Some(m), "unit listed under the name")?;
	}
	ensure_eq!(CompareMethod::reflect().len(), 5, "listed methods");
	ensure_eq!(Dimension::reflect().len(), 2, "listed units");
	Ok(())
}

// ------------------------------------------------------------------------------- Command line

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CliCase {
	calls: Calls,
	method: u8,
	unit: Option<u8>,
	change: Option<Vec<u8>>,
	format: Option<u8>,
	/// Letters in upper case.
	bits: (u32, u32, u32, u32),
	short: (bool, bool),
	split: bool,
	order: Vec<u8>,
	/// Also with this name for one of the options.
	other: (u8, String),
}

fn cli_case() -> BoxedStrategy<CliCase> {
	(
		calls_in(FILES[..6].to_vec(), pair(any_body(), false), 5),
		(0u8..5, prop_oneof![1 => Just(None), 4 => (0u8..2).prop_map(Some)]),
		prop_oneof![2 => Just(None), 3 => vec(0u8..4, 1..4).prop_map(Some)],
		prop_oneof![1 => Just(None), 3 => (0u8..3).prop_map(Some)],
		(any::<u32>(), any::<u32>(), any::<u32>(), any::<u32>()),
		(any::<bool>(), any::<bool>()),
		any::<bool>(),
		vec(any::<u8>(), 24),
		(0u8..4, name().prop_filter("no NUL in arguments", |s| !s.contains('\0'))),
	)
		.prop_map(|(calls, (method, unit), change, format, bits, short, split, order, other)| CliCase {
			calls, method, unit, change, format, bits, short, split, order, other,
		})
		.boxed()
}

fn check_cli(c: &CliCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c28")?;
	let old = place(&tmp, &c.calls, false, &c.order)?;
	let new = place(&tmp, &c.calls, true, &c.order)?;
	let method = METHODS[c.method as usize % 5];
	let unit = c.unit.map_or(Dimension::Time, |u| [Dimension::Time, Dimension::Proof][u as usize % 2]);
	let filter = FilterParams {
		threshold: 0.0,
		change: c.change.as_ref().map(|c| c.iter().map(|i| CHANGES[*i as usize % 4]).collect()),
		extrinsic: None,
		pallet: None,
	};
	let all = compare_files(c.calls.side(false)?, c.calls.side(true)?, &params(method, unit), &filter)
		.map_err(|e| format!("comparison failed: {e}"))?;
	let mut diff = filter_changes(all, &filter);
	sort_changes(&mut diff);
	let format = FORMATS[c.format.unwrap_or(0) as usize % 3];

	let mut a: Vec<String> = ["compare", "files", "--no-color", "--threshold=0"].map(String::from).to_vec();
	let mut opt = |long: &str, short: Option<&str>, v: String| match (short, c.split) {
		(Some(s), true) => a.extend([s.to_string(), v]),
		(Some(s), false) => a.push(format!("{s}{v}")),
		(None, true) => a.extend([format!("--{long}"), v]),
		(None, false) => a.push(format!("--{long}={v}")),
	};
	opt("method", c.short.0.then_some("-m"), flip(method_name(method), c.bits.0));
	if c.unit.is_some() {
		opt("unit", c.short.1.then_some("-u"), flip(unit_name(unit), c.bits.1));
	}
	if c.format.is_some() {
		opt("format", None, flip(format, c.bits.2));
	}
	if let Some(cs) = &filter.change {
		if c.split {
			a.push("--change".into());
			a.extend(cs.iter().map(|x| flip(change_name(*x), c.bits.3)));
		} else {
			a.extend(cs.iter().map(|x| format!("--change={}", flip(change_name(*x), c.bits.3))));
		}
	}
	let files: Vec<String> = ["--old".to_string()].into_iter().chain(old).chain(["--new".to_string()]).chain(new).collect();
	let mut all_args = a.clone();
	all_args.extend(files.clone());
	let out = subweight(&all_args, &tmp.0)?;
	let what = format!("{all_args:?}");
	out.no_panic(&what)?;
	ensure!(out.ok(), "{what}: {}", out.stderr);
	let text = plain(&out.stdout);
	let rows = if format == "csv" { parse_csv(&text).map_err(|e| format!("{what}: {e}"))? } else { parse_table(&text) };
	if diff.is_empty() {
		ensure!(rows.is_empty() || rows.len() == 1 && format == "csv", "{what}: rows although there is nothing to report: {rows:?}");
	} else {
		ctx.nontrivial();
		// What a Markdown renderer takes for a table.
		let mut lines = text.lines().filter(|l| !l.trim().is_empty());
		let head = lines.next().unwrap_or("");
		let rule = lines.next().unwrap_or("");
		let is_md = head.trim().starts_with('|') && rule.contains("--") && rule.chars().all(|c| "|-: ".contains(c));
		ensure_eq!(is_md, format == "markdown", "{what}: is a Markdown table: {text:?}");
		let o = Options::plain();
		check_rows_shown(rows, &diff, &o, unit, format == "csv", &what)?;
	}
	ctx.label(format!("{} {}", method_name(method), unit_name(unit)));

	// A name that is not documented.
	let (i, s) = &c.other;
	let (key, known): (&str, Vec<&str>) = match i % 4 {
		0 => ("method", METHOD_NAMES.iter().map(|n| n.0).collect()),
		1 => ("unit", UNIT_NAMES.iter().map(|n| n.0).collect()),
		2 => ("change", CHANGE_NAMES.iter().map(|n| n.0).collect()),
		_ => ("format", FORMATS.into_iter().chain(["json", "brief-human"]).collect()),
	};
	if !known.iter().any(|k| k.eq_ignore_ascii_case(s)) {
		ctx.label(format!("unknown {key}"));
		let mut b: Vec<String> = ["compare", "files"].map(String::from).to_vec();
		if key != "method" {
			b.push("--method=base".into());
		}
		b.push(format!("--{key}={s}"));
		b.extend(files);
		let out = subweight(&b, &tmp.0)?;
		out.refused(&format!("{b:?}"))?;
		ctx.evals(1);
	}
	Ok(())
}

// ----------------------------------------------------------------------------------------- Web

#[derive(Debug, Clone, Serialize, Deserialize)]
struct WebCase {
	calls: Calls,
	/// Method, unit.
	asks: Vec<(u8, u8)>,
	others: Vec<(bool, String)>,
}

fn web_case() -> BoxedStrategy<WebCase> {
	(
		calls_in(FILES[..6].to_vec(), pair(any_body(), false), 5),
		vec((0u8..5, 0u8..3), 1..6),
		vec((any::<bool>(), name()), 0..6),
	)
		.prop_map(|(calls, asks, others)| WebCase { calls, asks, others })
		.boxed()
}

fn check_web(c: &WebCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c28w")?;
	let side = |new: bool| -> Tree { c.calls.files(new).into_iter().map(|(p, f)| (p, f.src())).collect() };
	let (old, new) = (side(false), side(true));
	let mut h = History::default();
	h.commits.push(Commit { parents: vec![], tree: old.clone(), hash: String::new() });
	h.commits.push(Commit { parents: vec![0], tree: new.clone(), hash: String::new() });
	h.branches = BTreeMap::from([("main".into(), 0), ("next".into(), 1)]);
	site_repo(&tmp, "site", "org", &mut h, "main")?;
	let s = up(&tmp, &["site".into()])?;
	let q = |method: u8, unit: u8| Query {
		repo: "site".into(),
		old: "main".into(),
		new: "next".into(),
		pattern: "**/*.rs".into(),
		unit,
		method,
		threshold: 0,
		ignore: true,
		pull: Some(false),
		pallet: None,
		extrinsic: None,
	};
	let mut asked = std::collections::BTreeSet::new();
	for (m, u) in &c.asks {
		let q = q(*m, *u);
		let r = s.get(&q.target())?;
		match q.expected(&old, &new) {
			None => check_error(&r, &q.target())?,
			Some(want) => {
				if want.iter().any(|d| d.term().is_some()) {
					ctx.nontrivial();
				}
				check_page(&r, &q, "org", &want, Some(!asked.insert((*m % 5, *u % 3)))).or_else(|e| {
					// `time` and `weight` may share a saved result.
					let other = match *u % 3 {
						0 => 1,
						1 => 0,
						_ => return Err(e),
					};
					if asked.contains(&(*m % 5, other)) {
						check_page(&r, &q, "org", &want, Some(true))
					} else {
						Err(e)
					}
				})?;
			},
		}
		ctx.label(format!("{:?} {}", q.method(), ["time", "weight", "proof"][*u as usize % 3]));
		ctx.evals(1);
	}
	for (unit, name) in &c.others {
		let known: Vec<&str> = if *unit { UNIT_NAMES.iter().map(|n| n.0).collect() } else { METHOD_NAMES.iter().map(|n| n.0).collect() };
		if known.iter().any(|k| k.eq_ignore_ascii_case(name)) {
			continue
		}
		let key = if *unit { "unit" } else { "method" };
		let mut a = q(0, 0).args();
		a.retain(|x| x.0 != key);
		a.push((key.into(), name.clone()));
		let t = target("/compare", &a);
		check_error(&s.get(&t)?, &t)?;
		ctx.label(format!("unknown {key}"));
		ctx.evals(1);
	}
	Ok(())
}

pub fn c28() -> Prop {
	Prop {
		id: "C28",
		rels: vec![
			rel(
				"names",
				"documented names, near misses of them and arbitrary text through string parsing, deserialisation and the parser of the command line, for every option, with the advertised lists; non-trivial: a documented name",
				20_000,
				500_000,
				name,
				check_parsing,
			),
			rel_slow(
				"command line",
				"generated files reported under every name in arbitrary letter case, in every way to write options, plus one arbitrary name; the rows have to be those of the named method, unit, change types and format; non-trivial: at least one row",
				8_000,
				100_000,
				150,
				cli_case,
				check_cli,
			),
			rel_slow(
				"web query",
				"generated repositories compared by the running server under each method and unit name, plus arbitrary names; the page has to be that of the named method and unit; non-trivial: at least one row",
				900,
				10_000,
				100,
				web_case,
				check_web,
			),
		],
		assumptions: vec![
			"letter case outside of the command line is only judged by meaning",
			"`brief-human` and `json` are documented formats without an implementation",
		],
	}
}
