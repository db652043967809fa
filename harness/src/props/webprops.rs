//! C23 to C27: the web server.

use super::{
	cli::{method_name, run_cmd},
	compare::*,
	gitprops::{parse_tree, Content},
	parse::Tmp,
};
use crate::{ensure, ensure_eq, git::*, lang::{affine, letters, pair}, run::*, web::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{
	collections::{BTreeMap, BTreeSet, HashMap},
	path::{Path, PathBuf},
	process::Command,
	sync::Barrier,
};
use subweight_core::{
	compare_files, filter_changes, sort_changes, CompareMethod, CompareParams, Dimension,
	FilterParams, RelativeChange, TotalDiff,
};

pub(super) const METHODS: [CompareMethod; 5] = [
	CompareMethod::Base,
	CompareMethod::GuessWorst,
	CompareMethod::ExactWorst,
	CompareMethod::Asymptotic,
	CompareMethod::ExactAsymptotic,
];
/// The names of the units and their meaning.
const UNITS: [(&str, Dimension); 3] = [("time", Dimension::Time), ("weight", Dimension::Time), ("proof", Dimension::Proof)];

// ------------------------------------------------------------------------------------- Queries

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub(super) struct Query {
	pub repo: String,
	pub old: String,
	pub new: String,
	pub pattern: String,
	pub unit: u8,
	pub method: u8,
	pub threshold: u32,
	pub ignore: bool,
	pub pull: Option<bool>,
	pub pallet: Option<String>,
	pub extrinsic: Option<String>,
}

impl Query {
	pub fn unit(&self) -> Dimension {
		UNITS[self.unit as usize % 3].1
	}
	pub fn method(&self) -> CompareMethod {
		METHODS[self.method as usize % 5]
	}
	pub fn args(&self) -> Vec<(String, String)> {
		let mut a: Vec<(&str, String)> = vec![
			("repo", self.repo.clone()),
			("old", self.old.clone()),
			("new", self.new.clone()),
			("path_pattern", self.pattern.clone()),
			("unit", UNITS[self.unit as usize % 3].0.into()),
			("method", method_name(self.method()).into()),
			("threshold", self.threshold.to_string()),
			("ignore_errors", self.ignore.to_string()),
		];
		if let Some(p) = self.pull {
			a.push(("git_pull", p.to_string()));
		}
		if let Some(p) = &self.pallet {
			a.push(("pallet", p.clone()));
		}
		if let Some(p) = &self.extrinsic {
			a.push(("extrinsic", p.clone()));
		}
		// The order of arguments means nothing.
		let n = a.len();
		a.rotate_left((self.threshold as usize + self.method as usize) % n);
		a.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
	}
	/// With spaces around some values, which mean nothing.
	pub fn padded(&self, pad: u8) -> String {
		let mut a = self.args();
		for (i, key) in ["old", "new", "path_pattern"].iter().enumerate() {
			let (l, r) = [("", ""), (" ", ""), ("", " "), ("  ", "\t")][(pad >> (2 * i)) as usize % 4];
			for (k, v) in &mut a {
				if k == key {
					*v = format!("{l}{v}{r}");
				}
			}
		}
		target("/compare", &a)
	}
	pub fn target(&self) -> String {
		target("/compare", &self.args())
	}
	/// What the comparison of two trees has to give; `None` is an error.
	pub fn expected(&self, old: &Tree, new: &Tree) -> Option<TotalDiff> {
		let params = CompareParams {
			method: self.method(),
			unit: self.unit(),
			ignore_errors: self.ignore,
			git_pull: false,
			git_force: true,
			offline: true,
		};
		let filter = FilterParams {
			threshold: self.threshold as f64,
			change: None,
			extrinsic: self.extrinsic.clone(),
			pallet: self.pallet.clone(),
		};
		let (o, n) = (parse_tree(old, &self.pattern, self.ignore).ok()?, parse_tree(new, &self.pattern, self.ignore).ok()?);
		let mut d = filter_changes(compare_files(o, n, &params, &filter).ok()?, &filter);
		sort_changes(&mut d);
		Some(d)
	}
}

// --------------------------------------------------------------------------------------- Sites

/// The arguments for a server with these repositories below `root`.
fn server_args(tmp: &Tmp, repos: &[String]) -> Result<Vec<String>, Fail> {
	let st = tmp.0.join("static");
	harness(std::fs::create_dir_all(&st), "scratch directory")?;
	let mut a = vec![format!("--root={}", tmp.0.join("root").display()), format!("--static={}", st.display()), "--repos".into()];
	a.extend(repos.iter().cloned());
	Ok(a)
}

pub(super) fn up(tmp: &Tmp, repos: &[String]) -> Result<Server, Fail> {
	up_with(tmp, repos, &[])
}

fn up_with(tmp: &Tmp, repos: &[String], env: &[(String, String)]) -> Result<Server, Fail> {
	match start_with(&tmp.0, &server_args(tmp, repos)?, env)? {
		Started::Up(s) => Ok(s),
		Started::Ended { code, log } => Err(Fail::Violation(format!("the server ended with {code:?} for {repos:?}: {log}"))),
	}
}

/// A repository with the history, to be served as `name`.
pub(super) fn site_repo(tmp: &Tmp, name: &str, org: &str, h: &mut History, branch: &str) -> Result<PathBuf, Fail> {
	let dir = local(tmp, &format!("root/{name}"), h, branch)?;
	git(&dir, &["remote", "add", "origin", &format!("https://github.com/{org}/x")])?;
	Ok(dir)
}

/// A server whose only origins are local.
fn point_origin(dir: &Path, to: &Path) -> Check {
	git(dir, &["remote", "set-url", "origin", &to.display().to_string()])?;
	Ok(())
}

// --------------------------------------------------------------------------------------- Pages

fn sort_key(cell: &[Tok]) -> Result<i128, Fail> {
	let k = attr(&cell[0], "data-order").unwrap_or("");
	k.parse().map_err(|_| Fail::Violation(format!("sort key {k:?}")))
}

fn ukey(cell: &[Tok]) -> Result<u128, Fail> {
	let k = attr(&cell[0], "data-order").unwrap_or("");
	k.parse().map_err(|_| Fail::Violation(format!("sort key {k:?}")))
}

/// The decoded path and fragment of a link to GitHub, as a browser takes it.
fn link_parts(href: &str) -> Option<(String, String)> {
	let href: String = href.trim().chars().filter(|c| !['\t', '\n', '\r'].contains(c)).collect();
	let (url, fragment) = href.split_once('#').unwrap_or((&href, ""));
	let path = url.strip_prefix("https://github.com/")?;
	if path.contains('?') {
		return None
	}
	Some((percent_decode(&path.replace('\\', "/")), percent_decode(fragment)))
}

fn percent_decode(s: &str) -> String {
	let b = s.as_bytes();
	let mut out = vec![];
	let mut i = 0;
	while i < b.len() {
		let hex = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).filter(|h| h.bytes().all(|c| c.is_ascii_hexdigit()));
		match (b[i], hex) {
			(b'%', Some(h)) => {
				out.push(u8::from_str_radix(h, 16).unwrap());
				i += 3;
			},
			(c, _) => {
				out.push(c);
				i += 1;
			},
		}
	}
	String::from_utf8_lossy(&out).into_owned()
}

/// The page of an error: nothing of a comparison, but a message.
pub(super) fn check_error(r: &Resp, what: &str) -> Check {
	ensure_eq!(r.status, 500, "{what}: status");
	r.page_type()?;
	let t = tokens(&r.body);
	ensure!(!t.iter().any(|t| is_start(t, "table", None) || is_start(t, "tr", None)), "{what}: error page with a table");
	let h = t.iter().position(|t| is_start(t, "h2", None)).map(|i| text(&t[i..(i + 2).min(t.len())])).unwrap_or_default();
	ensure!(!h.is_empty(), "{what}: error page without a message");
	Ok(())
}

/// The page of a comparison.
pub(super) fn check_page(r: &Resp, q: &Query, org: &str, want: &TotalDiff, hit: Option<bool>) -> Check {
	let what = q.target();
	let what = what.as_str();
	ensure_eq!(r.status, 200, "{what}: status");
	r.page_type()?;
	let t = tokens(&r.body);
	let unit = q.unit();

	// The form.
	let value = |id: &str| -> String {
		t.iter().find(|x| is_start(x, "input", Some(("id", id)))).and_then(|x| attr(x, "value")).unwrap_or("(missing)").to_string()
	};
	for (id, want) in [
		("input_old", q.old.clone()),
		("input_new", q.new.clone()),
		("input_path_pattern", q.pattern.clone()),
		("input_pallet", q.pallet.clone().unwrap_or(".*".into())),
		("input_extrinsic", q.extrinsic.clone().unwrap_or(".*".into())),
		("input_threshold", q.threshold.to_string()),
	] {
		// The server does not care for spaces around these.
		let v = value(id);
		let v = if ["input_old", "input_new", "input_path_pattern"].contains(&id) && v.trim() == want { want.clone() } else { v };
		ensure_eq!(v, want, "{what}: form field {id}");
	}
	for (id, want) in [("checkbox_ignore_errors", q.ignore), ("checkbox_git_pull", q.pull.unwrap_or(true))] {
		let c = t.iter().find(|x| is_start(x, "input", Some(("id", id))));
		ensure_eq!(c.map(|c| attr(c, "checked").is_some()), Some(want), "{what}: form field {id}");
	}
	let unit_shown = if unit == Dimension::Time { "time" } else { "proof" };
	for (id, want) in [("select_repo", q.repo.as_str()), ("select_unit", unit_shown), ("select_method", method_name(q.method()))] {
		let s = inside(&t, "select", Some(("id", id))).unwrap_or(&[]);
		let opts: Vec<&Tok> = s.iter().filter(|x| is_start(x, "option", None)).collect();
		let sel: Vec<&str> = opts.iter().filter(|x| attr(x, "selected").is_some()).filter_map(|x| attr(x, "value")).collect();
		ensure_eq!(sel, [want], "{what}: selected in {id}");
	}
	if let Some(hit) = hit {
		let c = inside(&t, "table", Some(("id", "config_table"))).unwrap_or(&[]);
		let rows = split_at(c, "tr");
		let row = rows.iter().map(|r| split_at(r, "td")).find(|r| r.first().is_some_and(|c| text(c).contains("Cache")));
		let shown = row.and_then(|r| r.get(1).map(|c| text(c))).unwrap_or_default();
		ensure_eq!(shown, if hit { "Yes" } else { "No" }, "{what}: cache hit");
	}

	// Errors and warnings.
	for (id, title, msgs) in [
		("collapseErrors", "errors", want.iter().filter_map(|d| d.error()).collect::<Vec<_>>()),
		("collapseWarns", "warnings", want.iter().filter_map(|d| d.warning()).collect()),
	] {
		let block = inside(&t, "div", Some(("id", id)));
		let button = t.iter().position(|x| is_start(x, "button", Some(("data-bs-target", &format!("#{id}")))));
		if msgs.is_empty() {
			ensure!(block.is_none() && button.is_none(), "{what}: shows {title} where there are none");
			continue
		}
		let Some(block) = block else { return Err(Fail::Violation(format!("{what}: no {title}, expected {msgs:?}"))) };
		let mut got: Vec<String> = block.iter().filter_map(|x| if let Tok::Text(s) = x { Some(squeeze(s)) } else { None }).filter(|s| !s.is_empty()).collect();
		let mut exp: Vec<String> = msgs.iter().map(|m| squeeze(m)).collect();
		got.sort();
		exp.sort();
		ensure_eq!(got, exp, "{what}: {title}");
		let b = button.map(|b| text(&t[b..b + 2])).unwrap_or_default();
		ensure!(b.split(' ').next() == Some(msgs.len().to_string().as_str()), "{what}: {} {title} announced as {b:?}", msgs.len());
	}

	// The table.
	let Some(table) = inside(&t, "table", Some(("id", "sort_me"))) else {
		return Err(Fail::Violation(format!("{what}: no table")))
	};
	let head: Vec<String> = split_at(table, "th").iter().map(|c| text(&c[..2.min(c.len())])).collect();
	let u = format!("[{}]", if unit == Dimension::Time { "Time" } else { "Proof" });
	ensure_eq!(
		head,
		["File", "Extrinsic", &format!("Old {u}"), &format!("New {u}"), "Rel. Change", "Abs. Change", "Old Equation", "New Equation", "Used Variables"],
		"{what}: header"
	);
	let body = inside(table, "tbody", None).unwrap_or(&[]);
	let rows = split_at(body, "tr");
	let mut by_id: HashMap<String, _> = HashMap::new();
	let mut ranks = vec![];
	for d in want {
		let Some(t) = d.term() else { continue };
		by_id.insert(format!("{}.{}", d.file, d.name), (d, t));
		ranks.push((t.change, (t.percent * 1000.0) as i128));
	}
	ensure_eq!(rows.len(), by_id.len(), "{what}: number of rows");
	// Per row: the exact relative change (`None` for added and removed) and its sort key.
	let mut rel_keys: Vec<(RelativeChange, f64, i128)> = vec![];
	let mut abs_keys: Vec<i128> = vec![];
	for (i, row) in rows.iter().enumerate() {
		let id = attr(&row[0], "id").unwrap_or("").to_string();
		let Some((d, c)) = by_id.remove(&id) else {
			return Err(Fail::Violation(format!("{what}: unexpected or repeated row {id:?}")))
		};
		let what = format!("{what}: row {id}");
		let got = (c.change, (c.percent * 1000.0) as i128);
		ensure_eq!(got, ranks[i], "{what}: place {i}");
		let cells = split_at(row, "td");
		ensure_eq!(cells.len(), 9, "{what}: cells");
		ensure_eq!(text(cells[0]), squeeze(&d.file), "{what}: file");
		let name = text(cells[1]);
		ensure_eq!(name.split(' ').next().unwrap_or(""), d.name, "{what}: call");
		let warns = attr(&cells[1][0], "class").unwrap_or("").contains("warning");
		ensure_eq!(warns, d.warning().is_some(), "{what}: marked with a warning");
		let anchor = cells[1].iter().find(|x| is_start(x, "a", None)).and_then(|x| attr(x, "href")).unwrap_or("");
		ensure_eq!(anchor, format!("#{id}"), "{what}: anchor");
		for (k, v) in [(2, c.old_v), (3, c.new_v)] {
			ensure_eq!(ukey(cells[k])?, v.unwrap_or(0), "{what}: sort key of cell {k}");
			ensure_eq!(text(cells[k]), v.map(|v| squeeze(&unit.fmt_value(v))).unwrap_or("-".into()), "{what}: cell {k}");
		}
		let (rel, abs) = (text(cells[4]), text(cells[5]));
		let style: Vec<&str> = [4, 5].iter().filter_map(|k| cells[*k].iter().find_map(|x| attr(x, "style"))).collect();
		let (rk, ak) = (sort_key(cells[4])?, sort_key(cells[5])?);
		match (c.change, c.old_v, c.new_v) {
			(RelativeChange::Changed, Some(o), Some(n)) => {
				let sign = if n > o { "+" } else { "-" };
				let exact = rel_change(o, n);
				if n != o {
					// Very close large weights have the same quotient.
					if exact.abs() > 1e-9 {
						let shown: f64 = rel.strip_prefix(sign).and_then(|s| s.strip_suffix('%')).and_then(|s| s.parse().ok()).unwrap_or(f64::NAN);
						let ok = (shown - exact.abs()).abs() <= 0.00501 + exact.abs() * 1e-9 || shown.is_infinite() && exact.is_infinite();
						ensure!(ok, "{what}: relative change {rel:?} of {o} to {n}");
					}
					ensure_eq!(abs, squeeze(&format!("{sign}{}", unit.fmt_value(n.abs_diff(o)))), "{what}: absolute change");
					let color = if n > o { "red" } else { "green" };
					ensure!(style.iter().all(|s| s.contains(color)), "{what}: colours {style:?}");
				}
				ensure!(rk == 0 || (rk > 0) == (n > o), "{what}: sort key {rk} of a change from {o} to {n}");
				let exact_abs = i128::try_from(n.abs_diff(o)).unwrap_or(i128::MAX);
				ensure_eq!(ak, if n < o { -exact_abs } else { exact_abs }, "{what}: sort key of the absolute change");
				rel_keys.push((c.change, exact, rk));
			},
			(ch, ..) => {
				let w = match ch {
					RelativeChange::Added => "Added",
					RelativeChange::Removed => "Removed",
					_ => "Unchanged",
				};
				ensure_eq!([rel, abs], [w, w], "{what}: change");
				if ch == RelativeChange::Unchanged {
					ensure_eq!((rk, ak), (0, 0), "{what}: sort keys of an unchanged call");
				}
				rel_keys.push((ch, 0.0, rk));
			},
		}
		abs_keys.push(ak);
		for (k, term, rev) in [(6, &c.old, &q.old), (7, &c.new, &q.new)] {
			let href = cells[k].iter().find(|x| is_start(x, "a", None)).and_then(|x| attr(x, "href"));
			match term {
				None => {
					ensure_eq!((text(cells[k]), href), ("-".to_string(), None), "{what}: equation {k}");
				},
				Some(term) => {
					ensure_eq!(text(cells[k]), squeeze(&format!("CODE {term}")), "{what}: equation {k}");
					let href = href.unwrap_or("");
					let (path, fragment) = link_parts(href).unwrap_or_default();
					ensure_eq!(path, format!("{org}/{}/tree/{rev}/{}", q.repo, d.file), "{what}: where link {k} {href:?} leads to");
					ensure_eq!(fragment, format!(":~:text=fn {}", d.name), "{what}: fragment of link {k}");
				},
			}
		}
		ensure_eq!(text(cells[8]), squeeze(&c.scope.to_string()), "{what}: variables");
	}
	// The browser sorts by the keys.
	for (i, a) in rel_keys.iter().enumerate() {
		for (j, b) in rel_keys.iter().enumerate() {
			use RelativeChange::*;
			match (a.0, b.0) {
				(Added, Added) | (Removed, Removed) => {},
				(Added, _) | (_, Removed) => {
					ensure!(a.2 > b.2, "{what}: relative sort keys {a:?} {b:?}");
					ensure!(abs_keys[i] > abs_keys[j], "{what}: absolute sort keys {a:?} {b:?}");
				},
				(_, Added) | (Removed, _) => {},
				_ => {
					// Beyond four million percent they may be equal.
					let strict = a.1 > b.1 + 0.0015 + a.1.abs() * 1e-12 && b.1 < 4.2e6;
					ensure!(if strict { a.2 > b.2 } else { a.1 <= b.1 || a.2 >= b.2 }, "{what}: relative sort keys {a:?} {b:?}");
				},
			}
		}
	}
	Ok(())
}

// ------------------------------------------------------------------------------------------ C23

const WEB_FILES: [&str; 13] = [
	"pallet_balances.rs",
	"runtime/a/src/weights/pallet_balances.rs",
	"runtime/a/src/weights/pallet_staking.rs",
	"runtime/b/src/weights/pallet_staking.rs",
	"runtime/b/weights.rs",
	"a/b.rs",
	"x,y.rs",
	"with space/p.rs",
	"uni_ünï.rs",
	"weights/mod.rs",
	"c#/p.rs",
	"what?.rs",
	"100%25.rs",
];

const WEB_PATTERNS: [&str; 7] = ["**/*.rs", "*.rs", "runtime/*/src/weights/*.rs", "runtime/**/*.rs,a/*.rs", "**/pallet_*.rs", "**/p*.rs,*.rs", "runtime/a/src/weights/pallet_balances.rs"];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Bad {
	Drop(u8),
	Set(String, String),
}

fn bad_query() -> BoxedStrategy<Bad> {
	let set = vec![
		("threshold", "-1"), ("threshold", "1.5"), ("threshold", "abc"), ("threshold", "4294967296"), ("threshold", ""), ("threshold", "1%"),
		("unit", "Time"), ("unit", "bogus"), ("unit", ""), ("unit", "times"), ("unit", "0"),
		("method", "Base"), ("method", "worst"), ("method", "guess_worst"), ("method", ""), ("method", "base "), ("method", "ExactWorst"),
		("ignore_errors", "yes"), ("ignore_errors", "1"), ("ignore_errors", "True"), ("ignore_errors", ""),
		("git_pull", "maybe"), ("git_pull", "1"),
		("repo", "nosuch"), ("repo", ""), ("repo", "SITE"), ("repo", "../root/site"), ("repo", "site/"), ("repo", "."),
		("old", "nosuch"), ("new", "nosuch"), ("old", ""), ("new", "-x"), ("old", "--help"), ("new", "a b"), ("new", "HEAD^{tree}"),
		("path_pattern", ".."), ("path_pattern", "../**/*.rs"), ("path_pattern", "***"), ("path_pattern", "[a"),
		("pallet", "("), ("extrinsic", "[a"), ("pallet", "a{3,1}"), ("extrinsic", "*"),
	];
	prop_oneof![
		1 => (0u8..8).prop_map(Bad::Drop),
		5 => select(set).prop_map(|(k, v)| Bad::Set(k.into(), v.into())),
	]
	.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PageCase {
	calls: Calls,
	/// Files that cannot be parsed: (place, in the new tree).
	junk: Vec<(u8, bool)>,
	org: u8,
	/// How the revisions are named.
	names: (u8, u8),
	unit: u8,
	method: u8,
	threshold: u32,
	ignore: bool,
	pull: Option<bool>,
	pattern: u8,
	pallet: Option<Re>,
	extrinsic: Option<Re>,
	/// The new branch only has its last commit at the remote.
	ahead: bool,
	/// Spaces around the revisions and the pattern.
	#[serde(default)]
	pad: u8,
	bad: Vec<Bad>,
}

fn page_case() -> BoxedStrategy<PageCase> {
	let body = prop_oneof![6 => any_body(), 1 => affine(letters(20), 19)].boxed();
	let re_opt = |w: Vec<&'static str>| prop_oneof![6 => Just(None), 1 => re(w).prop_map(Some)];
	(
		calls_in(WEB_FILES.to_vec(), pair(body, false), 10),
		prop_oneof![4 => Just(vec![]), 1 => vec((any::<u8>(), any::<bool>()), 1..3)],
		0u8..4,
		(0u8..5, 0u8..5),
		(0u8..3, 0u8..5, prop_oneof![7 => Just(0u32), 2 => 1u32..100, 1 => select(vec![u32::MAX, 1000])]),
		(any::<bool>(), prop_oneof![Just(None), Just(Some(true)), Just(Some(false))]),
		prop_oneof![5 => Just(0u8), 2 => 0u8..WEB_PATTERNS.len() as u8],
		(re_opt(vec!["pallet", ".rs", "runtime", "staking", "x,y.rs", ""]), re_opt(vec!["transfer", "t", "_", "all", "burn", ""])),
		any::<bool>(),
		(vec(bad_query(), 0..3), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]),
	)
		.prop_map(|(calls, junk, org, names, (unit, method, threshold), (ignore, pull), pattern, (pallet, extrinsic), ahead, (bad, pad))| PageCase {
			calls, junk, org, names, unit, method, threshold, ignore, pull, pattern, pallet, extrinsic, ahead, bad, pad,
		})
		.boxed()
}

const ORGS: [&str; 4] = ["paritytech", "a", "Org-1", "x.y_z"];

fn trees(c: &PageCase) -> (Tree, Tree) {
	let side = |new: bool| -> Tree {
		let mut t: Tree = c.calls.files(new).into_iter().map(|(p, f)| (p, f.src())).collect();
		t.insert("README.md".into(), format!("{new}"));
		for (p, n) in &c.junk {
			if *n == new {
				t.insert(format!("runtime/junk{}.rs", p % 4), "fn (((".into());
			}
		}
		t
	};
	(side(false), side(true))
}

fn check_pages(c: &PageCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c23")?;
	let (old, new) = trees(c);
	let pull = c.pull.unwrap_or(true);
	let ahead = c.ahead && pull;
	let mut h = History::default();
	h.commits.push(Commit { parents: vec![], tree: old.clone(), hash: String::new() });
	// What the branch has before it moves on.
	h.commits.push(Commit { parents: vec![0], tree: if ahead { Tree::new() } else { new.clone() }, hash: String::new() });
	h.branches = BTreeMap::from([("main".into(), 0), ("feat/x".into(), 1), ("old-br".into(), 0), ("issue#7".into(), 0), ("fix#12/50%25".into(), 1)]);
	h.tags = BTreeMap::from([("v0.9.1".to_string(), (0, c.org % 2 == 0))]);
	if !ahead {
		h.tags.insert("v0.9.2".into(), (1, true));
	}
	let mut remote_h = h.clone();
	let org = ORGS[c.org as usize % 4];
	let dir = site_repo(&tmp, "site", org, &mut h, "main")?;
	let mut other = History::default();
	other.commits.push(Commit { parents: vec![], tree: Tree::from([("z.rs".to_string(), "z".to_string())]), hash: String::new() });
	other.branches = BTreeMap::from([("main".into(), 0)]);
	site_repo(&tmp, "other", "other-org", &mut other, "main")?;
	if ahead {
		remote_h.commits.push(Commit { parents: vec![1], tree: new.clone(), hash: String::new() });
		remote_h.branches.insert("feat/x".into(), 2);
		remote_h.branches.insert("fix#12/50%25".into(), 2);
		remote_h.tags.insert("v0.9.2".into(), (2, false));
	}
	let remote = bare(&tmp, "remote.git", &mut remote_h, "main")?;
	let s = up(&tmp, &["site".into(), "other".into()])?;
	point_origin(&dir, &remote)?;

	let hash_old = h.commits[0].hash.clone();
	let q = Query {
		repo: "site".into(),
		old: match c.names.0 % 5 { 0 => "main".into(), 1 => "old-br".into(), 2 => "v0.9.1".into(), 3 => "issue#7".into(), _ => hash_old },
		new: match c.names.1 % 5 { 0 | 1 => "feat/x".into(), 2 => "v0.9.2".into(), 3 => "fix#12/50%25".into(), _ if ahead => "feat/x".into(), _ => h.commits[1].hash.clone() },
		pattern: WEB_PATTERNS[c.pattern as usize % WEB_PATTERNS.len()].into(),
		unit: c.unit,
		method: c.method,
		threshold: c.threshold,
		ignore: c.ignore,
		pull: c.pull,
		pallet: c.pallet.as_ref().map(|r| r.src()),
		extrinsic: c.extrinsic.as_ref().map(|r| r.src()),
	};
	for b in &c.bad {
		let mut a = q.args();
		match b {
			Bad::Drop(k) => {
				let key = ["repo", "old", "new", "path_pattern", "unit", "method", "threshold", "ignore_errors"][*k as usize % 8];
				a.retain(|(n, _)| n != key);
			},
			Bad::Set(k, v) => {
				a.retain(|(n, _)| n != k);
				a.push((k.clone(), v.clone()));
			},
		}
		let t = target("/compare", &a);
		check_error(&s.get(&t)?, &t)?;
		ctx.label("invalid query");
		ctx.evals(1);
	}
	let r = s.get(&q.padded(c.pad))?;
	match q.expected(&old, &new) {
		None => {
			ctx.label("failing comparison");
			ctx.nontrivial();
			check_error(&r, &q.target())
		},
		Some(want) => {
			let rows = want.iter().filter(|d| d.term().is_some()).count();
			ctx.label(format!("{} rows", if rows > 3 { "many".to_string() } else { rows.to_string() }));
			for d in &want {
				if d.error().is_some() {
					ctx.label("failed row");
				}
				if d.warning().is_some() {
					ctx.label("row with a warning");
				}
			}
			if rows > 0 {
				ctx.nontrivial();
			}
			if ahead {
				ctx.label("pulled");
			}
			check_page(&r, &q, org, &want, Some(false))
		},
	}
}

pub fn c23() -> Prop {
	Prop {
		id: "C23",
		rels: vec![rel_slow(
			"pages",
			"generated pairs of trees behind branches, tags or hashes, local or to be pulled, compared by the running server with generated queries and invalid variants of them; every cell, link, key, message and form field is judged; non-trivial: at least one row, or a failing comparison",
			700,
			12_000,
			150,
			page_case,
			check_pages,
		)],
		assumptions: vec![
			"the comparison itself is judged by C01 to C21; here the library computes it from the contents of the trees",
			"relative sort keys beyond four million percent may be equal",
		],
	}
}

// ------------------------------------------------------------------------------------------ C24

/// Names whose concatenations coincide.
const BR: [&str; 6] = ["a", "ab", "ba", "b", "aba", "late"];
const SITES: [(&str, &str); 2] = [("one", "org-one"), ("onea", "org-two")];
const C24_PATTERNS: [&str; 4] = ["**/*.rs", "*.rs", "w/*.rs", "**/a.rs"];
const C24_FILES: [&str; 3] = ["a.rs", "w/a.rs", "w/b.rs"];
const C24_RE: [&str; 4] = ["a", "call_0", "call_[01]", "b.rs"];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ask {
	repo: u8,
	old: u8,
	new: u8,
	pattern: u8,
	unit: u8,
	method: u8,
	threshold: u8,
	ignore: bool,
	pull: bool,
	pallet: Option<u8>,
	extrinsic: Option<u8>,
}

impl Ask {
	fn query(&self) -> Query {
		let re = |r: &Option<u8>| r.map(|r| C24_RE[r as usize % 4].to_string());
		Query {
			repo: SITES[self.repo as usize % 2].0.into(),
			old: BR[self.old as usize % 6].into(),
			new: BR[self.new as usize % 6].into(),
			pattern: C24_PATTERNS[self.pattern as usize % 4].into(),
			unit: if self.unit % 2 == 0 { 0 } else { 2 },
			method: self.method % 5,
			threshold: [0, 1, 10, 11][self.threshold as usize % 4],
			ignore: self.ignore,
			pull: Some(self.pull),
			pallet: re(&self.pallet),
			extrinsic: re(&self.extrinsic),
		}
	}
	/// Changes one argument.
	fn change(&mut self, field: u8, v: u8) {
		let o = |v: u8| if v % 5 == 4 { None } else { Some(v % 5) };
		match field % 13 {
			0 => self.repo = v,
			1 => self.old = v,
			2 => self.new = v,
			3 => self.pattern = v,
			4 => self.unit = v,
			5 => self.method = v,
			6 => self.threshold = v,
			7 => self.ignore = v % 2 == 0,
			8 => self.pull = v % 2 == 0,
			9 => self.pallet = o(v),
			10 => self.extrinsic = o(v),
			11 => std::mem::swap(&mut self.old, &mut self.new),
			_ => std::mem::swap(&mut self.pallet, &mut self.extrinsic),
		}
	}
}

fn ask() -> BoxedStrategy<Ask> {
	let re = || prop_oneof![2 => Just(None), 1 => (0u8..4).prop_map(Some)];
	((0u8..2, 0u8..5, 0u8..5), 0u8..4, 0u8..2, 0u8..5, 0u8..4, any::<bool>(), any::<bool>(), re(), re())
		.prop_map(|((repo, old, new), pattern, unit, method, threshold, ignore, pull, pallet, extrinsic)| Ask {
			repo, old, new, pattern, unit, method, threshold, ignore, pull, pallet, extrinsic,
		})
		.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Req {
	/// A variation of the basic query.
	Ask(Vec<(u8, u8)>),
	/// One of the queries before.
	Again(u8),
	/// A branch of a repository moves on, or comes into being.
	Move { repo: u8, branch: u8, file: u8, content: Option<Content> },
	/// So many seconds pass.
	Wait(u32),
}

/// How long the server may use an answer again.
const LIFETIME: f64 = 600.0;

fn small_content() -> BoxedStrategy<Content> {
	prop_oneof![
		8 => vec((0u8..3, 0u16..2000, 0u8..50), 1..4).prop_map(Content::Good),
		1 => Just(Content::Junk(1)),
	]
	.boxed()
}

type Start = Vec<(u8, u8, u8, Content)>;

fn start_trees() -> BoxedStrategy<Start> {
	vec((0u8..2, 0u8..5, 0u8..3, small_content()), 4..16).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CacheCase {
	start: Start,
	base: Ask,
	steps: Vec<Req>,
}

fn req() -> BoxedStrategy<Req> {
	prop_oneof![
		5 => vec((any::<u8>(), any::<u8>()), 0..3).prop_map(Req::Ask),
		4 => any::<u8>().prop_map(Req::Again),
		3 => moving(),
	]
	.boxed()
}

fn moving() -> BoxedStrategy<Req> {
	(0u8..2, 0u8..6, 0u8..3, prop::option::weighted(0.9, small_content()))
		.prop_map(|(repo, branch, file, content)| Req::Move { repo, branch, file, content })
		.boxed()
}

fn cache_case() -> BoxedStrategy<CacheCase> {
	(start_trees(), ask(), vec(req(), 4..24)).prop_map(|(start, base, steps)| CacheCase { start, base, steps }).boxed()
}

/// Many different queries, then many of them again.
fn many_case() -> BoxedStrategy<CacheCase> {
	let first = vec(vec((any::<u8>(), any::<u8>()), 2..7).prop_map(Req::Ask), 40..160);
	let then = vec(prop_oneof![9 => any::<u8>().prop_map(Req::Again), 1 => req()], 20..60);
	(start_trees(), ask(), first, vec(moving(), 0..3), then)
		.prop_map(|(start, base, mut steps, moves, then)| {
			steps.extend(moves);
			steps.extend(then);
			CacheCase { start, base, steps }
		})
		.boxed()
}

fn ageing_case() -> BoxedStrategy<CacheCase> {
	let wait = select(&[30u32, 200, 290, 310, 570, 595, 601, 700, 3600, 100_000][..]).prop_map(Req::Wait);
	let step = prop_oneof![
		2 => vec((any::<u8>(), any::<u8>()), 0..3).prop_map(Req::Ask),
		6 => (0u8..4).prop_map(Req::Again),
		3 => moving(),
		4 => wait,
	];
	(start_trees(), ask(), vec(step, 6..24)).prop_map(|(start, base, steps)| CacheCase { start, base, steps }).boxed()
}

/// Two repositories with remotes, and what their branches contain.
struct Sites {
	h: Vec<History>,
	dirs: Vec<(PathBuf, PathBuf)>,
}

impl Sites {
	fn new(tmp: &Tmp, start: &Start) -> Result<(Sites, Server), Fail> {
		Self::with(tmp, start, &[])
	}
	fn with(tmp: &Tmp, start: &Start, env: &[(String, String)]) -> Result<(Sites, Server), Fail> {
		let mut s = Sites { h: vec![], dirs: vec![] };
		for (r, (name, org)) in SITES.iter().enumerate() {
			let mut h = History::default();
			for (b, branch) in BR.iter().enumerate().take(5) {
				let mut tree = Tree::from([("README.md".to_string(), format!("{branch} {r}"))]);
				// Every repository and branch has something of its own.
				tree.insert("w/b.rs".into(), Content::Good(vec![(3, (100 * r + 10 * b) as u16 + 7, b as u8)]).text());
				for (sr, sb, f, c) in start {
					if *sr as usize % 2 == r && *sb as usize % 5 == b {
						tree.insert(C24_FILES[*f as usize % 3].into(), c.text());
					}
				}
				let parents = if b == 0 { vec![] } else { vec![b - 1] };
				h.commits.push(Commit { parents, tree, hash: String::new() });
				h.branches.insert(branch.to_string(), b);
			}
			let mut copy = h.clone();
			let remote = bare(tmp, &format!("remote{r}.git"), &mut copy, "a")?;
			let dir = site_repo(tmp, name, org, &mut h, "a")?;
			s.h.push(h);
			s.dirs.push((dir, remote));
		}
		let server = up_with(tmp, &SITES.map(|s| s.0.to_string()), env)?;
		for (dir, remote) in &s.dirs {
			point_origin(dir, remote)?;
		}
		Ok((s, server))
	}
	fn tree(&self, repo: u8, branch: &str) -> Option<&Tree> {
		let h = &self.h[repo as usize % 2];
		h.branches.get(branch).map(|c| &h.commits[*c].tree)
	}
	/// What the query has to give now.
	fn expected(&self, a: &Ask) -> Option<TotalDiff> {
		let q = a.query();
		q.expected(self.tree(a.repo, &q.old)?, self.tree(a.repo, &q.new)?)
	}
	fn apply(&mut self, repo: u8, branch: u8, file: u8, content: &Option<Content>) -> Check {
		let r = repo as usize % 2;
		let h = &mut self.h[r];
		let name = BR[branch as usize % 6];
		let at = h.branches.get(name).copied();
		let mut tree = h.commits[at.unwrap_or(0)].tree.clone();
		let file = C24_FILES[file as usize % 3].to_string();
		match content {
			Some(c) => tree.insert(file, c.text()),
			None => tree.remove(&file),
		};
		h.commits.push(Commit { parents: vec![at.unwrap_or(0)], tree, hash: String::new() });
		h.branches.insert(name.into(), h.commits.len() - 1);
		// The same commits on both sides, so that pulling makes no difference.
		let mut copy = h.clone();
		copy.write(&self.dirs[r].1)?;
		h.write(&self.dirs[r].0)?;
		git(&self.dirs[r].0, &["fetch", "-q", "origin"])?;
		Ok(())
	}
}

fn check_cache(c: &CacheCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c24")?;
	let ages = c.steps.iter().any(|s| matches!(s, Req::Wait(_)));
	let mut clock = Clock::new(&tmp)?;
	let (mut sites, server) = Sites::with(&tmp, &c.start, &if ages { clock.env() } else { vec![] })?;
	if ages {
		clock.in_use()?;
	}
	let begin = std::time::Instant::now();
	let mut asked: Vec<Ask> = vec![];
	// What is shown, and between which times it was computed.
	let mut cached: HashMap<Query, (TotalDiff, f64, f64)> = HashMap::new();
	let mut failed: BTreeSet<String> = BTreeSet::new();
	let mut moved: BTreeSet<String> = BTreeSet::new();
	for (i, step) in c.steps.iter().enumerate() {
		let ask = match step {
			Req::Move { repo, branch, file, content } => {
				sites.apply(*repo, *branch, *file, content)?;
				moved.extend(cached.keys().map(|q| q.target()));
				continue
			},
			Req::Wait(s) => {
				clock.advance(*s)?;
				continue
			},
			Req::Again(n) if !asked.is_empty() => asked[*n as usize % asked.len()].clone(),
			Req::Again(_) => c.base.clone(),
			Req::Ask(changes) => {
				let mut a = c.base.clone();
				for (f, v) in changes {
					a.change(*f, *v);
				}
				a
			},
		};
		asked.push(ask.clone());
		let q = ask.query();
		let org = SITES[ask.repo as usize % 2].1;
		let t = q.target();
		let now = || clock.ahead as f64 + begin.elapsed().as_secs_f64();
		let from = now();
		let mut r = server.get(&t)?;
		// A connection that was opened before the server noticed the time.
		for _ in 0..5 {
			if !ages || r.status != 408 {
				break
			}
			std::thread::sleep(std::time::Duration::from_millis(700));
			r = server.get(&t)?;
		}
		let to = now();
		ctx.evals(1);
		let in_context = |f: Fail| match f {
			Fail::Violation(m) => Fail::Violation(format!("request {i}: {m}")),
			f => f,
		};
		if let Some((d, since, until)) = cached.get(&q) {
			// Clocks tick in steps.
			let fresh = to - since < LIFETIME - 2.0;
			let stale = from - until > LIFETIME + 2.0;
			if !stale {
				let shown = check_page(&r, &q, org, d, Some(true)).map_err(in_context);
				if fresh || shown.is_ok() {
					ctx.label("answered from the cache");
					if moved.contains(&t) {
						ctx.label("answered from the cache after a change");
					}
					if clock.ahead > 0 {
						ctx.label("answered from the cache after a while");
					}
					ctx.nontrivial();
					shown?;
					continue
				}
			}
			ctx.label("computed again after its lifetime");
			if moved.contains(&t) {
				ctx.label("computed again after its lifetime and a change");
			}
			ctx.nontrivial();
			cached.remove(&q);
		}
		match sites.expected(&ask) {
			None => {
				ctx.label("failing query");
				failed.insert(t.clone());
				check_error(&r, &format!("request {i}: {t}"))?;
			},
			Some(d) => {
				ctx.label("new query");
				if failed.contains(&t) {
					ctx.label("succeeds after failing");
				}
				check_page(&r, &q, org, &d, Some(false)).map_err(in_context)?;
				moved.remove(&t);
				cached.insert(q, (d, from, to));
				if cached.len() > 100 {
					ctx.label("more than 100 results in the cache");
				}
			},
		}
	}
	Ok(())
}

/// What could stand between the arguments of a query when they are joined.
const JOINTS: [&str; 19] = ["/", "-", "_", ".", "+", "=", "&", ";", "#", "%", "'", "@", "!", ",", "|", "$", ",,", "", "--"];
/// Between regular expressions, there can be more.
const RE_JOINTS: [&str; 12] = ["/", "-", ", ", " ", ":", ";", "\n", "\u{1f}", "\", \"", "|", "", "\u{0}"];
const TWIN_PIECES: [&str; 4] = ["x", "y", "xy", "v1"];

/// Two queries of which one has a part of an argument in another one: `x` and `y-z` against `x-y` and `z`.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Twins {
	/// Of old, new, pattern, pallet and extrinsic.
	from: u8,
	to: u8,
	joint: u8,
	pieces: (u8, u8, u8),
	method: u8,
	ignore: bool,
	swap: bool,
}

impl Twins {
	fn queries(&self) -> (Query, Query) {
		let (i, j) = (self.from as usize % 5, self.to as usize % 5);
		let j = if i == j { (j + 1) % 5 } else { j };
		let joint = if i > 2 && j > 2 { RE_JOINTS[self.joint as usize % 12] } else { JOINTS[self.joint as usize % 19] };
		let piece = |n: u8| TWIN_PIECES[n as usize % 4];
		let atom = |f: usize, n: u8| match f {
			2 => "*.rs",
			3 | 4 => "c",
			_ => piece(n),
		};
		let (x, y, z) = (atom(i, self.pieces.0), piece(self.pieces.1), atom(j, self.pieces.2));
		let query = |a: String, b: String| {
			let mut f: [Option<String>; 5] = [Some("x".into()), Some("y".into()), Some("**/*.rs*".into()), None, None];
			f[i] = Some(a);
			f[j] = Some(b);
			let [old, new, pattern, pallet, extrinsic] = f;
			Query {
				repo: "one".into(),
				old: old.unwrap(),
				new: new.unwrap(),
				pattern: pattern.unwrap(),
				unit: 0,
				method: [0, 1, 3][self.method as usize % 3],
				threshold: 0,
				ignore: self.ignore,
				pull: Some(false),
				pallet,
				extrinsic,
			}
		};
		let a = query(x.into(), format!("{y}{joint}{z}"));
		let b = query(format!("{x}{joint}{y}"), z.into());
		if self.swap { (b, a) } else { (a, b) }
	}
}

fn twins_case() -> BoxedStrategy<Vec<Twins>> {
	let pieces = (0u8..4, 0u8..4, 0u8..4);
	// Neighbours in the usual order of arguments more often.
	let fields = prop_oneof![2 => select(&[(0u8, 1u8), (1, 2), (2, 3), (3, 4), (4, 3), (2, 4), (1, 3), (1, 4)][..]), 1 => (0u8..5, 0u8..5)];
	let joint = prop_oneof![1 => Just(0u8), 3 => any::<u8>()];
	let one = (fields, joint, pieces, 0u8..3, any::<bool>(), any::<bool>())
		.prop_map(|((from, to), joint, pieces, method, ignore, swap)| Twins { from, to, joint, pieces, method, ignore, swap });
	vec(one, 1..24).boxed()
}

fn check_twins(all: &Vec<Twins>, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c24")?;
	let pairs: Vec<(Query, Query)> = all.iter().map(|t| t.queries()).collect();
	let both = || pairs.iter().flat_map(|(a, b)| [a, b]);
	// A commit for every name, with a file for every pattern.
	let names: BTreeSet<&String> = both().flat_map(|q| [&q.old, &q.new]).collect();
	let mut files: BTreeSet<String> = BTreeSet::from(["c.rs".into(), "w/d.rs".into()]);
	for q in both() {
		for p in q.pattern.split(',') {
			if !p.contains("**") && !p.starts_with('/') && !p.contains("rs/") {
				files.insert(p.trim().replace('*', "c"));
			}
		}
	}
	// A path is a file or a directory.
	let all_files = files.clone();
	files.retain(|f| !f.is_empty() && !all_files.iter().any(|g| g.starts_with(&format!("{f}/"))));
	let mut h = History::default();
	for (i, name) in names.iter().enumerate() {
		let mut tree = Tree::from([("README.md".to_string(), name.to_string())]);
		for (j, f) in files.iter().enumerate() {
			let n = (100 + 50 * i + j) as u16;
			tree.insert(f.clone(), Content::Good(vec![(i as u8 % 3, n, 3), (3, 2 * n, 1)]).text());
		}
		h.commits.push(Commit { parents: vec![], tree, hash: String::new() });
		// `x` and `x/y` cannot both be branches.
		let branch = h.branches.keys().all(|b| !b.starts_with(&format!("{name}/")) && !name.starts_with(&format!("{b}/")));
		if branch {
			h.branches.insert(name.to_string(), i);
		} else {
			if h.tags.keys().any(|b| b.starts_with(&format!("{name}/")) || name.starts_with(&format!("{b}/"))) {
				ctx.label("impossible names");
				return Ok(())
			}
			h.tags.insert(name.to_string(), (i, false));
		}
	}
	h.commits.push(Commit { parents: vec![], tree: Tree::from([("README.md".to_string(), "main".to_string())]), hash: String::new() });
	h.branches.insert("main".into(), h.commits.len() - 1);
	site_repo(&tmp, "one", "org-one", &mut h, "main")?;
	let server = up(&tmp, &["one".to_string()])?;
	let tree = |name: &String| &h.commits[h.branches.get(name).copied().unwrap_or_else(|| h.tags[name].0)].tree;
	let mut cached: HashMap<Query, TotalDiff> = HashMap::new();
	for (a, b) in &pairs {
		let expected = [a, b].map(|q| q.expected(tree(&q.old), tree(&q.new)));
		if let [Some(x), Some(y)] = &expected {
			if format!("{x:?}") != format!("{y:?}") {
				ctx.nontrivial();
			}
		}
		for (q, e) in [a, b, a, b].into_iter().zip(expected.iter().cycle()) {
			let t = q.target();
			let r = server.get(&t)?;
			ctx.evals(1);
			match e {
				None => {
					ctx.label("failing query");
					check_error(&r, &t)?;
				},
				Some(d) => {
					check_page(&r, q, "org-one", d, Some(cached.contains_key(q)))?;
					cached.insert(q.clone(), d.clone());
				},
			}
		}
	}
	Ok(())
}

pub fn c24() -> Prop {
	Prop {
		id: "C24",
		rels: vec![
			rel_slow(
				"request histories",
				"histories of queries that repeat or vary one or two arguments of each other, over two repositories whose branches move or appear in between, against a model of the cache; non-trivial: at least one answer comes from the cache",
				240,
				6_000,
				150,
				cache_case,
				check_cache,
			),
			rel_slow(
				"ageing",
				"histories of few queries over minutes to days of the server's clock, which is moved between requests, with moving branches; a result is used again for 600 s and computed again afterwards; non-trivial: at least one answer comes from the cache or had been there",
				100,
				2_000,
				100,
				ageing_case,
				check_cache,
			),
			rel_slow(
				"many queries",
				"40 to 160 different queries, then a selection of them again, against the model of the cache; non-trivial: at least one answer comes from the cache",
				16,
				400,
				40,
				many_case,
				check_cache,
			),
			rel_slow(
				"confusable queries",
				"pairs of queries of which one has a part of one argument in another argument (`x` and `y/z` against `x/y` and `z`, with all kinds of characters between), each twice; non-trivial: the two have different results",
				100,
				2_500,
				60,
				twins_case,
				check_twins,
			),
		],
		assumptions: vec![
			"time is what clock_gettime, gettimeofday and time tell the server; answers within 2 s of the end of a lifetime may be old or new",
			"`git_pull` is always given, `weight` is not used as the name of a unit: whether equal queries in other words share an entry is not judged",
		],
	}
}

// ------------------------------------------------------------------------------------------ C26

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Call {
	Compare(Ask),
	Branches(u8, bool),
	Version,
	Root,
	Mrs,
	/// Fails.
	Bad(u8),
	/// The client does not wait for the answer.
	Gone(Ask),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CrowdCase {
	start: Start,
	rounds: Vec<Vec<Call>>,
	/// How long git takes: before or after its work, with the working tree or with revisions.
	#[serde(default)]
	slow: u8,
	/// Milliseconds between the requests.
	#[serde(default)]
	stagger: u8,
	/// Connect first and send the requests a moment later, like browsers do.
	#[serde(default)]
	early: bool,
}

/// A `git` that takes its time, for the `PATH` of the server.
fn slow_git(tmp: &Tmp, how: u8) -> Result<Vec<(String, String)>, Fail> {
	let path = std::env::var("PATH").unwrap_or("/usr/bin:/bin".into());
	let Some(git) = path.split(':').map(|d| PathBuf::from(d).join("git")).find(|p| p.is_file()) else {
		return Err(Fail::Harness("no git".into()))
	};
	let nap = |bit: u8| if how & bit != 0 { ["0.015", "0.04", "0.15", "0.3"][(how >> 4) as usize % 4] } else { "0" };
	let (b, a, rb, ra) = (nap(1), nap(2), nap(4), nap(8));
	let script = format!(
		"#!/bin/sh\nb=0 a=0\ncase \" $* \" in\n*\" checkout \"*|*\" reset \"*|*\" switch \"*|*\" clean \"*) b={b} a={a};;\n*) b={rb} a={ra};;\nesac\n[ $b = 0 ] || sleep $b\n{} \"$@\"\nr=$?\n[ $a = 0 ] || sleep $a\nexit $r\n",
		git.display()
	);
	let p = tmp.write("slow/git", script)?;
	harness(std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755)), "permissions")?;
	Ok(vec![("PATH".into(), format!("{}:{path}", tmp.0.join("slow").display()))])
}

fn crowd_case() -> BoxedStrategy<CrowdCase> {
	let call = prop_oneof![
		10 => ask().prop_map(Call::Compare),
		1 => (0u8..2, any::<bool>()).prop_map(|(r, f)| Call::Branches(r, f)),
		1 => select(vec![Call::Version, Call::Root, Call::Mrs]),
		1 => any::<u8>().prop_map(Call::Bad),
		1 => ask().prop_map(Call::Gone),
	];
	// Also everybody asking the same, or about one repository.
	let round = prop_oneof![
		4 => vec(call, 2..14),
		1 => (ask(), 2usize..10).prop_map(|(a, n)| vec![Call::Compare(a); n]),
		3 => vec((ask(), 0u8..5, 0u8..5), 3..14).prop_map(|v| {
			v.into_iter()
				.map(|(mut a, old, new)| {
					a.repo = 0;
					a.old = old;
					a.new = new;
					a.pattern = 0;
					a.pallet = None;
					a.extrinsic = None;
					Call::Compare(a)
				})
				.collect()
		}),
		// Fetches between comparisons that pull.
		1 => vec((ask(), 0u8..3), 3..10).prop_map(|v| {
			v.into_iter()
				.map(|(a, n)| if n == 0 { Call::Branches(0, true) } else { Call::Compare(Ask { repo: 0, pull: true, ..a }) })
				.collect()
		}),
	];
	let slow = prop_oneof![2 => Just(0u8), 1 => 0u8..32, 1 => select(&[2u8, 18][..])];
	let stagger = prop_oneof![2 => Just(0u8), 1 => 1u8..30];
	(start_trees(), vec(round, 1..4), slow, stagger, any::<bool>())
		.prop_map(|(start, rounds, slow, stagger, early)| CrowdCase { start, rounds, slow, stagger, early })
		.boxed()
}

/// More comparisons than workers, each of which takes a second or more.
fn patience_case() -> BoxedStrategy<CrowdCase> {
	let call = prop_oneof![
		8 => ask().prop_map(|a| Call::Compare(Ask { repo: 0, pull: false, ..a })),
		1 => Just(Call::Version),
	];
	let slow = select(&[37u8, 42, 46, 50, 39][..]);
	(start_trees(), vec(call, 9..14), slow)
		.prop_map(|(start, round, slow)| CrowdCase { start, rounds: vec![round], slow, stagger: 0, early: true })
		.boxed()
}

fn call_target(c: &Call) -> String {
	match c {
		Call::Compare(a) | Call::Gone(a) => a.query().target(),
		Call::Branches(r, fetch) => format!("/branches?repo={}&fetch={fetch}", SITES[*r as usize % 2].0),
		Call::Version => "/version".into(),
		Call::Root => "/".into(),
		Call::Mrs => "/compare-mr".into(),
		Call::Bad(n) => match n % 4 {
			0 => "/branches?repo=nosuch".into(),
			1 => "/compare?repo=one".into(),
			2 => "/version?is=0".into(),
			_ => "/compare?repo=one&old=a&new=nosuch&path_pattern=*.rs&unit=time&method=base&threshold=0&ignore_errors=false&git_pull=false".into(),
		},
	}
}

/// Options and lists have no order.
fn sorted_words(r: &Resp) -> (u16, Vec<String>) {
	let mut w: Vec<String> = r.body.split_whitespace().map(|s| s.to_string()).collect();
	w.sort();
	(r.status, w)
}

fn check_crowd(c: &CrowdCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c26")?;
	let env = if c.slow & 15 != 0 {
		ctx.label("slow git");
		slow_git(&tmp, c.slow)?
	} else {
		vec![]
	};
	let (sites, server) = Sites::with(&tmp, &c.start, &env)?;
	for (n, round) in c.rounds.iter().enumerate() {
		let gate = Barrier::new(round.len());
		let answers: Vec<Result<Option<Resp>, Fail>> = std::thread::scope(|s| {
			let hs: Vec<_> = round
				.iter()
				.enumerate()
				.map(|(i, call)| {
					let (gate, server) = (&gate, &server);
					let nap = i as u64 * c.stagger as u64;
					s.spawn(move || {
						let t = call_target(call);
						let early = if c.early { Some(server.connect()) } else { None };
						gate.wait();
						if c.early {
							std::thread::sleep(std::time::Duration::from_millis(100));
						}
						std::thread::sleep(std::time::Duration::from_millis(nap));
						let conn = match early {
							Some(conn) => conn?,
							None => server.connect()?,
						};
						if let Call::Gone(_) = call {
							server.leave(conn, &t)?;
							return Ok(None)
						}
						server.get_on(conn, &t).map(Some)
					})
				})
				.collect();
			hs.into_iter().map(|h| h.join().unwrap_or(Err(Fail::Harness("client".into())))).collect()
		});
		let compares = round.iter().filter(|c| matches!(c, Call::Compare(_))).count();
		if compares > 1 {
			ctx.nontrivial();
		}
		ctx.label(format!("{}..{} simultaneous comparisons", compares / 4 * 4, compares / 4 * 4 + 3));
		for (call, r) in round.iter().zip(answers) {
			let Some(r) = r? else {
				ctx.label("client gone");
				continue
			};
			ctx.evals(1);
			let res = match call {
				Call::Compare(a) => match sites.expected(a) {
					None => check_error(&r, &call_target(call)),
					Some(d) => check_page(&r, &a.query(), SITES[a.repo as usize % 2].1, &d, None),
				},
				_ => {
					let alone = server.get(&call_target(call))?;
					ensure_eq!(sorted_words(&r), sorted_words(&alone), "round {n}: {} in a crowd of {} and alone", call_target(call), round.len());
					Ok(())
				},
			};
			res.map_err(|f| match f {
				Fail::Violation(m) => Fail::Violation(format!("round {n} of {} simultaneous requests: {m}", round.len())),
				f => f,
			})?;
		}
	}
	Ok(())
}

pub fn c26() -> Prop {
	Prop {
		id: "C26",
		rels: vec![rel_slow(
			"crowds",
			"up to 13 requests at once from as many threads, over two repositories and with equal, similar and failing ones among them, and some whose clients do not wait, up to three times per server; in half of the cases with a git that takes its time before or after its work; every answer has to be the one that the contents of the branches give; non-trivial: at least two comparisons at once",
			220,
			5_000,
			60,
			crowd_case,
			check_crowd,
		), rel_slow(
			"patience",
			"9 to 13 requests at once over connections that are already open, with a git that takes 0.15 or 0.3 seconds for each call, so that the last ones wait for many seconds; every answer has to be the one that the contents of the branches give; non-trivial: at least two comparisons at once",
			6,
			120,
			3,
			patience_case,
			check_crowd,
		)],
		assumptions: vec![
			"the interleavings are those that the machine happens to produce",
			"branches do not move while requests are on their way",
		],
	}
}

// ------------------------------------------------------------------------------------------ C25

const PIECES: [&str; 44] = [
	"<script>alert(1)</script>", "\"><img src=x onerror=alert(1)>", "'><svg onload=alert(1)>", "<b>", "</b>", "</td></tr></table><table>", "</select><input autofocus onfocus=alert(1)>", "\" onmouseover=\"alert(1)", "' onmouseover='alert(1)", " onclick=alert(1) ",
	"<!--", "-->", "</title>", "<plaintext>", "<style>*{}</style>", "<", ">", "&", "\"", "'", "`", "&lt;b&gt;", "&#60;b&#62;", "&#x3c;i&#x3e;", "&quot;", "&amp;lt;u&amp;gt;", "&amp;", "&", ";", "javascript:alert(1)", "<%= 1 %>", "{{x}}", "${x}", "\\", "\\u003cb\\u003e",
	"\u{2028}", "\u{202e}", "<a href=//evil>", "</p>", "<iframe src=x>", "]]>", "<br/>", "x y", "ü",
];

fn pieces(p: &[u8]) -> String {
	p.iter().map(|i| PIECES[*i as usize % PIECES.len()]).collect()
}

/// As a part of a branch name.
fn ref_part(s: &str) -> String {
	let s: String = s.chars().filter(|c| !c.is_whitespace() && !c.is_control() && !" ~^:?*[\\{".contains(*c) && *c != '\u{2028}').collect();
	let s = s.replace("//", "/").replace("..", "").replace(".lock", "");
	let s: Vec<&str> = s.split('/').filter(|c| !c.is_empty() && !c.starts_with('.') && !c.ends_with('.')).collect();
	s.join("/")
}

/// As a part of a path below a directory.
fn path_part(s: &str) -> String {
	let s = s.replace('\0', "");
	let s: Vec<&str> = s.split('/').filter(|c| !c.is_empty() && *c != "." && *c != ".." && !c.to_lowercase().contains("git")).collect();
	s.join("/")
}

fn glob_part(s: &str) -> String {
	s.chars().filter(|c| !"*?[].".contains(*c)).collect()
}

fn regex_part(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		if ".+*?()|[]{}^$\\#&-~/".contains(c) && c.is_ascii_punctuation() && c != '/' && c != '&' && c != '-' && c != '~' && c != '#' {
			o.push('\\');
		}
		o.push(c);
	}
	o
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Scene {
	/// A page with a comparison.
	Page { slots: Vec<Vec<u8>>, files: Vec<Vec<u8>>, method: u8, unit: u8, ignore: bool },
	/// An argument of the query, and an additional one, have this text: (argument, text, prefix).
	Arg(u8, Vec<u8>, u8),
	/// A file that cannot be parsed.
	Broken { name: Vec<u8>, text: Vec<u8>, kind: u8 },
	Version(Vec<u8>),
	BranchesOf(Vec<u8>),
	/// Branches of such names.
	BranchNames(Vec<Vec<u8>>),
	/// The start pages, with a repository and an organisation of these names.
	Start(Vec<u8>, Vec<u8>),
	/// Some other address.
	Elsewhere(Vec<u8>),
}

fn scene() -> BoxedStrategy<Scene> {
	let p = || vec(0u8..PIECES.len() as u8, 1..4);
	prop_oneof![
		6 => (vec(p(), 7), vec(p(), 1..4), 0u8..5, 0u8..3, any::<bool>()).prop_map(|(slots, files, method, unit, ignore)| Scene::Page { slots, files, method, unit, ignore }),
		6 => (0u8..14, p(), 0u8..5).prop_map(|(k, p, x)| Scene::Arg(k, p, x)),
		2 => (p(), p(), 0u8..5).prop_map(|(name, text, kind)| Scene::Broken { name, text, kind }),
		1 => p().prop_map(Scene::Version),
		1 => p().prop_map(Scene::BranchesOf),
		1 => vec(p(), 1..4).prop_map(Scene::BranchNames),
		2 => (p(), p()).prop_map(|(a, b)| Scene::Start(a, b)),
		1 => p().prop_map(Scene::Elsewhere),
	]
	.boxed()
}

/// What the strings in a page are, as they have to be shown.
#[derive(Debug, Clone)]
struct Strings {
	repo: String,
	org: String,
	old: String,
	new: String,
	pattern: String,
	pallet: String,
	extrinsic: String,
	files: Vec<String>,
}

impl Strings {
	fn all(&self) -> Vec<&String> {
		let mut v = vec![&self.repo, &self.org, &self.old, &self.new, &self.pattern, &self.pallet, &self.extrinsic];
		v.extend(&self.files);
		v
	}
}

fn odd_calls(i: usize, new: bool) -> String {
	let v = 1000 + if new { 100 * (i + 1) } else { 0 };
	let mut s = format!(
		"impl<T: frame_system::Config> pallet_x::WeightInfo for WeightInfo<T> {{\n\t/// The range of component `s` is `[1, 9]`.\n\tfn call_{i}(s: u32, ) -> Weight {{\n\t\tWeight::from_parts({v}, {v}).saturating_add(Weight::from_parts(3, 3).saturating_mul(s.into()))\n\t}}\n"
	);
	if i < 2 && new {
		// Worth a warning.
		s += "\tfn excessive() -> Weight {\n\t\tWeight::from_parts(5, 5).saturating_add(T::DbWeight::get().reads(1001))\n\t}\n";
	}
	if i == 0 {
		s += "\tfn no_range(q: u32, ) -> Weight {\n\t\tWeight::from_parts(5, 5).saturating_add(Weight::from_parts(3, 3).saturating_mul(q.into()))\n\t}\n";
		let to = if new { 77 } else { 33 };
		s += &format!("\t/// The range of component `r` is `[1, {to}]`.\n\tfn other_range(r: u32, ) -> Weight {{\n\t\tWeight::from_parts({}, 7).saturating_add(Weight::from_parts(3, 3).saturating_mul(r.into()))\n\t}}\n", v + 1);
		if new {
			s += "\tfn fresh() -> Weight {\n\t\tWeight::from_parts(5, 5)\n\t}\n";
		} else {
			s += "\tfn gone() -> Weight {\n\t\tWeight::from_parts(5, 5)\n\t}\n";
		}
	}
	s + "}\n"
}

/// The page that a comparison with these strings leads to.
fn strings_page(s: &Strings, method: u8, unit: u8, ignore: bool) -> Result<Resp, Fail> {
	let tmp = Tmp::new("c25")?;
	let tree = |new| -> Tree { s.files.iter().enumerate().map(|(i, f)| (f.clone(), odd_calls(i, new))).collect() };
	let mut h = History::default();
	for new in [false, true] {
		h.commits.push(Commit { parents: if new { vec![0] } else { vec![] }, tree: tree(new), hash: String::new() });
	}
	h.branches = BTreeMap::from([("main".to_string(), 0), (s.old.clone(), 0), (s.new.clone(), 1)]);
	site_repo(&tmp, &s.repo, &s.org, &mut h, "main")?;
	let server = up(&tmp, &[s.repo.clone()])?;
	// These three are decoded once.
	let amp = |s: &str| s.replace('&', "&amp;");
	let q = Query {
		repo: s.repo.clone(),
		old: amp(&s.old),
		new: amp(&s.new),
		pattern: format!("**/*.rs,{}", amp(&s.pattern)),
		unit,
		method,
		threshold: 0,
		ignore,
		pull: Some(false),
		pallet: Some(format!(".*|{}", s.pallet)),
		extrinsic: Some(format!(".*|{}", s.extrinsic)),
	};
	server.get(&q.target())
}

/// Tag names with attribute names.
fn structure(t: &[Tok]) -> Vec<String> {
	t.iter()
		.filter_map(|t| match t {
			Tok::Start(n, a) => Some(format!("<{n} {}>", a.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(" "))),
			Tok::End(n) => Some(format!("</{n}>")),
			Tok::Comment(_) => Some("<!---->".into()),
			Tok::Doctype => Some("<!DOCTYPE>".into()),
			Tok::Text(_) => None,
		})
		.collect()
}

fn same_structure(got: &[Tok], want: &[Tok], what: &str) -> Check {
	let (g, w) = (structure(got), structure(want));
	if let Some(i) = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)) {
		return Err(Fail::Violation(format!("{what}: at element {i} the page has {:?} where a harmless one has {:?}", &g[i.min(g.len())..(i + 3).min(g.len())], &w[i.min(w.len())..(i + 3).min(w.len())])))
	}
	Ok(())
}

/// Texts within messages may be put in any words.
fn without_messages(t: &[Tok]) -> Vec<Tok> {
	let mut out = vec![];
	let mut depth = 0;
	for x in t {
		if depth == 0 && (is_start(x, "div", Some(("id", "collapseErrors"))) || is_start(x, "div", Some(("id", "collapseWarns")))) {
			depth = 1;
		} else if depth > 0 {
			match x {
				Tok::Start(n, _) if n == "div" => depth += 1,
				Tok::End(n) if n == "div" => depth -= 1,
				Tok::Text(_) => continue,
				_ => {},
			}
		}
		out.push(x.clone());
	}
	out
}

fn check_scene(c: &Scene, ctx: &mut Ctx) -> Check {
	// A server that has nothing odd about it, except for the branches and files asked for.
	let plain_site = |tmp: &Tmp, h: &mut History| -> Result<(Server, PathBuf), Fail> {
		if h.commits.is_empty() {
			h.commits.push(Commit { parents: vec![], tree: Tree::from([("a.rs".to_string(), odd_calls(0, false))]), hash: String::new() });
		}
		h.branches.insert("main".into(), 0);
		let dir = site_repo(tmp, "site", "org", h, "main")?;
		Ok((up(tmp, &["site".into()])?, dir))
	};
	let fine = Query {
		repo: "site".into(),
		old: "main".into(),
		new: "main".into(),
		pattern: "**/*.rs".into(),
		unit: 0,
		method: 1,
		threshold: 0,
		ignore: false,
		pull: Some(false),
		pallet: None,
		extrinsic: None,
	};
	let special = |s: &str| s.contains(['<', '>', '&', '"', '\'']);
	match c {
		Scene::Page { slots, files, method, unit, ignore } => {
			let t = |i: usize| pieces(&slots[i % slots.len()]);
			let hostile = Strings {
				repo: format!("r{}", path_part(&t(0)).replace('/', "")),
				org: format!("o{}", t(1).replace(['/', '\n'], "")),
				old: format!("o{}e", ref_part(&t(2))),
				new: format!("n{}e", ref_part(&t(3))),
				pattern: format!("p{}q", glob_part(&t(4))),
				pallet: format!("f{}", regex_part(&t(5))),
				extrinsic: format!("x{}", regex_part(&t(6))),
				files: files.iter().enumerate().map(|(i, f)| format!("d{i}/{}e.rs", path_part(&pieces(f)))).collect(),
			};
			let mut n = 0;
			let mut ph = || {
				n += 1;
				format!("hq{n}z")
			};
			let twin = Strings {
				repo: ph(), org: ph(), old: ph(), new: ph(), pattern: ph(), pallet: ph(), extrinsic: ph(),
				files: files.iter().enumerate().map(|(i, _)| format!("d{i}/{}.rs", ph())).collect(),
			};
			if hostile.all().iter().any(|s| s.len() > 180) {
				return Ok(())
			}
			let got = strings_page(&hostile, *method, *unit, *ignore)?;
			let want = strings_page(&twin, *method, *unit, *ignore)?;
			ensure_eq!(want.status, 200, "harmless page");
			let what = format!("{hostile:?}");
			if got.status != 200 {
				return Err(Fail::Violation(format!("{what}: status {}: {}", got.status, text(&tokens(&got.body)))))
			}
			if hostile.all().iter().any(|s| special(s)) {
				ctx.nontrivial();
			}
			ctx.label("comparison");
			let (g, w) = (tokens(&got.body), tokens(&want.body));
			same_structure(&g, &w, &what)?;
			let put = |s: &str| {
				let mut s = s.to_string();
				for (a, b) in twin.all().iter().zip(hostile.all()).rev() {
					s = s.replace(a.as_str(), b);
				}
				s
			};
			for (a, b) in without_messages(&g).iter().zip(without_messages(&w).iter()) {
				let b = match b {
					Tok::Text(s) => Tok::Text(put(s)),
					Tok::Start(n, at) => Tok::Start(n.clone(), at.iter().map(|(k, v)| (k.clone(), put(v))).collect()),
					t => t.clone(),
				};
				// A link is compared by where it leads to.
				if let (Some(x), Some(y)) = (attr(a, "href"), attr(&b, "href").and_then(|l| l.strip_prefix("https://github.com/"))) {
					let y = y.rsplit_once('#').map(|(p, f)| (p.to_string(), percent_decode(f)));
					if y.as_ref().is_some_and(|y| y.0.contains("/tree/")) {
						let clean = |p: (String, String)| (p.0.replace(['\t', '\n', '\r'], ""), p.1);
						ensure_eq!(link_parts(x).map(clean), y.map(clean), "{what}: link");
						continue
					}
				}
				ensure_eq!(a, &b, "{what}: shown");
			}
			Ok(())
		},
		Scene::Arg(k, p, x) => {
			let tmp = Tmp::new("c25")?;
			let (s, _) = plain_site(&tmp, &mut History::default())?;
			let t = pieces(p);
			let key = ["threshold", "unit", "method", "ignore_errors", "git_pull", "repo", "old", "new", "path_pattern", "pallet", "extrinsic", "old", "new", "(missing)"][*k as usize % 14];
			let v = match key {
				"path_pattern" => format!("{}{t}", ["***", "..", "[", "a**", "**b"][*x as usize % 5]),
				"pallet" | "extrinsic" => format!("{}{t}", ["(", "[", "*", "(?P<", "a{2,1}"][*x as usize % 5]),
				_ => format!("{}{t}", ["", " ", "x", "-", "main "][*x as usize % 5]),
			};
			let mut a = fine.args();
			a.retain(|(n, _)| n != key);
			if key == "(missing)" {
				a.remove(*x as usize % a.len());
			} else {
				a.push((key.into(), v.clone()));
			}
			a.push((format!("u{t}"), t.clone()));
			let r = s.get(&target("/compare", &a))?;
			let mut b = fine.args();
			b.retain(|(n, _)| n != "unit");
			let base = s.get(&target("/compare", &b))?;
			ensure_eq!(base.status, 500, "query without a unit");
			let what = format!("{key}={v:?}");
			if r.status == 200 {
				// A valid pattern or the like after all.
				ctx.label("accepted");
				return Ok(())
			}
			ctx.label(format!("error about {key}"));
			if special(&v) {
				ctx.nontrivial();
			}
			let t = tokens(&r.body);
			check_error(&r, &what)?;
			same_structure(&t, &tokens(&base.body), &what)
		},
		Scene::Broken { name, text: body, kind } => {
			let tmp = Tmp::new("c25")?;
			let file = format!("d/{}e.rs", path_part(&pieces(name)));
			if file.len() > 180 {
				return Ok(())
			}
			let t = pieces(body);
			let body = match kind {
				0 => t,
				1 => format!("fn x() {{ {t} }}"),
				2 => format!("impl<T> pallet_x::WeightInfo for WeightInfo<T> {{ fn a() -> Weight {{ {t} }} }}"),
				3 => format!("impl<T> pallet_x::WeightInfo for WeightInfo<T> {{ fn a() -> Weight {{ Weight::from_parts({:?}, 1) }} }}", t),
				_ => format!("impl<T> pallet_x::WeightInfo for WeightInfo<T> {{ fn a() -> Weight {{ foo({:?}) }} }}", t),
			};
			if super::parse::known_hang(&body)? {
				ctx.label("known finding C05-syn-loop: the parser library does not return");
				return Ok(())
			}
			let mut h = History::default();
			h.commits.push(Commit { parents: vec![], tree: Tree::from([(file.clone(), body)]), hash: String::new() });
			let (s, _) = plain_site(&tmp, &mut h)?;
			let r = s.get(&fine.target())?;
			if r.status == 200 {
				ctx.label("file accepted");
				return Ok(())
			}
			ctx.label("broken file");
			if special(&file) {
				ctx.nontrivial();
			}
			check_error(&r, &file)?;
			let mut q = fine.clone();
			q.repo = "nosuch".into();
			let base = s.get(&q.target())?;
			same_structure(&tokens(&r.body), &tokens(&base.body), &format!("{file:?}"))
		},
		Scene::Version(p) => {
			let tmp = Tmp::new("c25")?;
			let (s, _) = plain_site(&tmp, &mut History::default())?;
			let v = pieces(p);
			let r = s.get(&target("/version", &[("is".into(), v.clone())]))?;
			ctx.label("version");
			if special(&v) {
				ctx.nontrivial();
			}
			ensure_eq!(r.status, 500, "version {v:?}");
			if r.is_html() {
				let t = tokens(&r.body);
				ensure!(structure(&t).is_empty(), "version {v:?}: {:?}", structure(&t));
				ensure!(t.iter().any(|t| matches!(t, Tok::Text(x) if x.contains(&v))), "version {v:?} is shown as {:?}", t);
			}
			Ok(())
		},
		Scene::BranchesOf(p) => {
			let tmp = Tmp::new("c25")?;
			let (s, _) = plain_site(&tmp, &mut History::default())?;
			let v = pieces(p);
			ctx.label("unknown repository");
			if special(&v) {
				ctx.nontrivial();
			}
			for a in [("repo", "fetch"), ("fetch", "repo")] {
				let r = s.get(&target("/branches", &[(a.0.into(), v.clone()), (a.1.into(), "site".into())]))?;
				ensure!(r.status >= 400, "branches of {v:?}: status {}", r.status);
				ensure!(!r.is_html() || structure(&tokens(&r.body)).is_empty(), "branches of {v:?}: {:?} {:?}", r.header("content-type"), r.body);
			}
			Ok(())
		},
		Scene::BranchNames(names) => {
			let tmp = Tmp::new("c25")?;
			let mut h = History::default();
			for (i, n) in names.iter().enumerate() {
				h.branches.insert(format!("b{i}{}e", ref_part(&pieces(n))), 0);
			}
			let mut copy = h.clone();
			copy.commits.push(Commit { parents: vec![], tree: Tree::from([("a.rs".to_string(), odd_calls(0, false))]), hash: String::new() });
			copy.branches.insert("main".into(), 0);
			let remote = bare(&tmp, "remote.git", &mut copy, "main")?;
			let (s, dir) = plain_site(&tmp, &mut h)?;
			point_origin(&dir, &remote)?;
			let r = s.get("/branches?repo=site")?;
			ctx.label("branch names");
			if h.branches.keys().any(|b| special(b)) {
				ctx.nontrivial();
			}
			ensure_eq!(r.status, 200, "branches {:?}", h.branches);
			ensure!(r.header("content-type").unwrap_or("").starts_with("application/json"), "branches as {:?}", r.header("content-type"));
			let got: BTreeSet<String> = branch_list(&r)?.into_iter().map(|b| b.0).collect();
			ensure_eq!(got, h.branches.keys().cloned().collect::<BTreeSet<_>>(), "branches");
			Ok(())
		},
		Scene::Start(a, b) => {
			let repo = format!("r{}", path_part(&pieces(a)).replace('/', ""));
			let org = format!("o{}", pieces(b).replace(['/', '\n'], ""));
			if repo.len() > 180 {
				return Ok(())
			}
			if special(&repo) || special(&org) {
				ctx.nontrivial();
			}
			ctx.label("start pages");
			let page = |repo: &str, org: &str| -> Result<Vec<Resp>, Fail> {
				let tmp = Tmp::new("c25")?;
				let mut h = History::default();
				h.commits.push(Commit { parents: vec![], tree: Tree::from([("a.rs".to_string(), "a".to_string())]), hash: String::new() });
				h.branches.insert("main".into(), 0);
				site_repo(&tmp, repo, org, &mut h, "main")?;
				let s = up(&tmp, &[repo.to_string()])?;
				["/", "/compare-mr", "/compare-commit"].iter().map(|t| s.get(t)).collect()
			};
			let (got, want) = (page(&repo, &org)?, page("hq1z", "hq2z")?);
			for (g, w) in got.iter().zip(&want) {
				let what = format!("repository {repo:?} of {org:?}");
				ensure_eq!(g.status, 200, "{what}: status");
				g.page_type()?;
				let (g, w) = (tokens(&g.body), tokens(&w.body));
				same_structure(&g, &w, &what)?;
				let put = |s: &str| s.replace("hq2z", &org).replace("hq1z", &repo);
				for (a, b) in g.iter().zip(&w) {
					let b = match b {
						Tok::Text(s) => Tok::Text(put(s)),
						Tok::Start(n, at) => Tok::Start(n.clone(), at.iter().map(|(k, v)| (k.clone(), put(v))).collect()),
						t => t.clone(),
					};
					ensure_eq!(a, &b, "{what}: shown");
				}
			}
			Ok(())
		},
		Scene::Elsewhere(p) => {
			let tmp = Tmp::new("c25")?;
			let (s, _) = plain_site(&tmp, &mut History::default())?;
			let v = pieces(p);
			ctx.label("elsewhere");
			if special(&v) {
				ctx.nontrivial();
			}
			for t in [format!("/{}", enc(&v, false)), format!("/static/{}", enc(&v, false)), format!("/?{}", enc(&v, false)), format!("/compare-mr?repo={}", enc(&v, false)), format!("/version/{}", enc(&v, false))] {
				let r = s.get(&t)?;
				if t.starts_with("/?") || t.starts_with("/compare-mr") {
					let base = s.get(t.split('?').next().unwrap())?;
					ensure_eq!(r.body, base.body, "{t}");
				} else if r.is_html() {
					ensure!(structure(&tokens(&r.body)).is_empty(), "{t}: {:?}", r.body);
				}
			}
			Ok(())
		},
	}
}

fn branch_list(r: &Resp) -> Result<Vec<(String, String)>, Fail> {
	let v: serde_json::Value = serde_json::from_str(&r.body).map_err(|e| Fail::Violation(format!("branches are not JSON: {e}: {:?}", r.body)))?;
	serde_json::from_value(v["branch"].clone()).map_err(|e| Fail::Violation(format!("branches: {e}: {:?}", r.body)))
}

pub fn c25() -> Prop {
	Prop {
		id: "C25",
		rels: vec![rel_slow(
			"injections",
			"markup, quotes, entities and the like as arguments, revision names, file and directory names, contents, repository and organisation names; the tokens of the page are those of a page with harmless strings, with the strings in the right places; non-trivial: a string has one of `<>&\"'`",
			2_400,
			40_000,
			100,
			scene,
			check_scene,
		)],
		assumptions: vec![
			"pages are split into tags, attributes and text by an HTML tokenizer of the harness; its states are the ones of browsers for the constructs that occur",
			"file names are UTF-8; names of repositories and branches are ones that git accepts",
			"the static JavaScript files, which build parts of pages in the browser, are not executed",
		],
	}
}

// ------------------------------------------------------------------------------------------ C27

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Origin {
	GitHub(u8, u8),
	Other(u8),
	None,
	NoGit,
	Missing,
	File,
}

fn origin() -> BoxedStrategy<Origin> {
	prop_oneof![
		14 => (0u8..5, 0u8..3).prop_map(|(o, f)| Origin::GitHub(o, f)),
		2 => (0u8..8).prop_map(Origin::Other),
		1 => Just(Origin::None),
		1 => Just(Origin::NoGit),
		1 => Just(Origin::Missing),
		1 => Just(Origin::File),
	]
	.boxed()
}

const NAMES27: [&str; 8] = ["polkadot", "substrate", "a", "b-b", "Upper", "with space", "x.y_z", "cumulus"];
const ORGS27: [&str; 5] = ["paritytech", "o", "Or-g", "a.b", "ünï"];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct StartCase {
	/// Existing directories: (name, origin).
	dirs: Vec<(u8, Origin)>,
	/// Which of them are configured; `None` leaves the option out.
	repos: Option<Vec<u8>>,
	/// Also one that does not exist.
	/// 0 directory, 1 missing, 2 file.
	statics: u8,
	versions: Vec<(u8, u8)>,
	/// A certificate without a key (1), the other way round (2), both (3).
	#[serde(default)]
	tls: u8,
	/// Files of the static directory, and what is asked for besides them.
	#[serde(default)]
	assets: Vec<(u8, u8)>,
	#[serde(default)]
	outside: Vec<u8>,
}

const ASSETS: [&str; 7] = ["a.js", "script.min.js", "css/b.css", "deep/er/c d.txt", "ünï.js", "x&y.js", "b..js"];

fn start_case() -> BoxedStrategy<StartCase> {
	(
		vec((0u8..8, origin()), 1..5),
		prop_oneof![1 => Just(None), 1 => Just(Some(vec![])), 10 => vec(any::<u8>(), 1..4).prop_map(Some)],
		prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
		vec((any::<u8>(), any::<u8>()), 1..5),
		prop_oneof![14 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 3 => Just(3u8)],
		vec((0u8..7, any::<u8>()), 0..4),
		vec(any::<u8>(), 0..4),
	)
		.prop_map(|(dirs, repos, statics, versions, tls, assets, outside)| StartCase { dirs, repos, statics, versions, tls, assets, outside })
		.boxed()
}

fn select_options(t: &[Tok], id: &str) -> Vec<(String, String)> {
	let s = inside(t, "select", Some(("id", id))).unwrap_or(&[]);
	split_at(s, "option").iter().map(|o| (attr(&o[0], "value").unwrap_or("").to_string(), text(o))).collect()
}

fn check_start(c: &StartCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c27")?;
	let root = tmp.0.join("root");
	harness(std::fs::create_dir_all(&root), "scratch directory")?;
	let mut known: BTreeMap<String, Origin> = BTreeMap::new();
	let mut order = vec![];
	for (n, o) in &c.dirs {
		let name = NAMES27[*n as usize % 8].to_string();
		if known.contains_key(&name) {
			continue
		}
		let dir = root.join(&name);
		match o {
			Origin::Missing => {},
			Origin::File => harness(std::fs::write(&dir, "x"), "scratch file")?,
			_ => harness(std::fs::create_dir_all(&dir), "scratch directory")?,
		}
		if matches!(o, Origin::GitHub(..) | Origin::Other(_) | Origin::None) {
			git(&dir, &["init", "-q"])?;
		}
		let url = match o {
			Origin::GitHub(org, form) => Some(format!("https://github.com/{}/{}", ORGS27[*org as usize % 5], ["repo", "repo.git", "re/po"][*form as usize % 3])),
			Origin::Other(k) => Some(
				["https://gitlab.com/o/r", "https://github.com.evil.org/o/r", "https://githubxcom/o/r", "https://evil.org/https://github.com/o/r", "https://notgithub.com/o/r", "/some/where", "ssh://git@gitlab.com/o/r", "https://evil.org/?https://github.com/o/r"]
					[*k as usize % 8]
					.to_string(),
			),
			_ => None,
		};
		if let Some(u) = url {
			git(&dir, &["remote", "add", "origin", &u])?;
		}
		order.push(name.clone());
		known.insert(name, o.clone());
	}
	let st = tmp.0.join("st");
	match c.statics {
		0 => harness(std::fs::create_dir_all(&st), "scratch directory")?,
		1 => {},
		_ => harness(std::fs::write(&st, "x"), "scratch file")?,
	}
	let mut served: BTreeMap<&str, String> = BTreeMap::new();
	if c.statics == 0 {
		for (n, v) in &c.assets {
			let name = ASSETS[*n as usize % 7];
			let body = format!("// file {n} with {v}\n").repeat(*v as usize / 16 + 1);
			tmp.write(&format!("st/{name}"), &body)?;
			served.insert(name, body);
		}
	}
	tmp.write("secret.js", "CANARY-OUTSIDE")?;
	tmp.write("stx/secret.js", "CANARY-OUTSIDE")?;
	let mut args = vec![format!("--root={}", root.display()), format!("--static={}", st.display())];
	if c.tls == 3 {
		let (cert, key) = (tmp.0.join("cert.pem"), tmp.0.join("key.pem"));
		let out = run_cmd(Command::new("openssl").args(["req", "-x509", "-newkey", "rsa:2048", "-nodes", "-subj", "/CN=localhost", "-days", "2", "-keyout"]).arg(&key).arg("-out").arg(&cert))?;
		if out.code != Some(0) {
			return Err(Fail::Harness(format!("openssl: {}", out.stderr)))
		}
		args.push(format!("--cert={}", cert.display()));
		args.push(format!("--key={}", key.display()));
	} else if c.tls > 0 {
		args.push(format!("--{}={}", ["cert", "key"][c.tls as usize % 2], tmp.write("x.pem", "x")?.display()));
	}
	let configured: Vec<String> = match &c.repos {
		None => vec!["polkadot".into()],
		Some(r) => {
			args.push("--repos".into());
			let v: Vec<String> = r.iter().map(|i| order[*i as usize % order.len()].clone()).collect();
			args.extend(v.iter().cloned());
			v
		},
	};
	let fine = !configured.is_empty() && c.statics == 0 && c.tls % 3 == 0 && configured.iter().all(|r| matches!(known.get(r), Some(Origin::GitHub(..))));
	let what = format!("server for {configured:?} with {known:?} and static directory {}, certificate or key {}", c.statics, c.tls);
	let s = match (start(&tmp.0, &args)?, fine) {
		(Started::Up(s), true) => s,
		(Started::Up(_), false) => return Err(Fail::Violation(format!("{what} has started"))),
		(Started::Ended { code, log }, true) => return Err(Fail::Violation(format!("{what} ended with {code:?}: {log}"))),
		(Started::Ended { code, log }, false) => {
			ctx.label("does not start");
			ctx.nontrivial();
			ensure!(code.is_some_and(|c| c != 0) && !log.trim().is_empty(), "{what} ended with {code:?} and {log:?}");
			return Ok(())
		},
	};
	ctx.label(if c.tls == 3 { "starts with a certificate" } else { "starts" });
	if c.tls == 3 {
		let plain = s.get_on(s.connect()?, "/version");
		ensure!(plain.map_or(true, |r| r.status >= 300), "{what} answers without encryption");
	}
	let names: BTreeSet<String> = configured.iter().cloned().collect();
	if names.len() > 1 {
		ctx.nontrivial();
	}
	for page in ["/", "/compare-commit"] {
		let r = s.get(page)?;
		ensure_eq!(r.status, 200, "{page}");
		let t = tokens(&r.body);
		let opts = select_options(&t, "repoSelect");
		let mut got: Vec<String> = opts.iter().map(|o| o.0.clone()).collect();
		got.sort();
		ensure_eq!(got, names.iter().cloned().collect::<Vec<_>>(), "{what}: repositories on {page}");
		ensure!(opts.iter().all(|o| o.0 == o.1), "{what}: options {opts:?}");
		ensure!(text(&t).contains(&format!("There are {} available", names.len())), "{what}: number of repositories on {page}");
	}
	let org = |n: &str| match known.get(n) {
		Some(Origin::GitHub(o, _)) => ORGS27[*o as usize % 5],
		_ => "",
	};
	let r = s.get("/compare-mr")?;
	ensure_eq!(r.status, 200, "/compare-mr");
	let mut got: Vec<String> = select_options(&tokens(&r.body), "select_repo").into_iter().map(|o| o.0).collect();
	got.sort();
	let mut want: Vec<String> = names.iter().map(|n| format!("{}:{n}", org(n))).collect();
	want.sort();
	ensure_eq!(got, want, "{what}: merge requests");
	// Nothing else is served.
	for n in known.keys().map(|s| s.as_str()).chain(["", ".", "..", "POLKADOT", "nosuch"]).filter(|n| !names.contains(*n)) {
		let r = s.get(&target("/branches", &[("repo".into(), n.into())]))?;
		ensure!(r.status >= 400, "{what}: branches of {n:?}: {}", r.body);
		let t = target("/compare", &[("repo", n), ("old", "HEAD"), ("new", "HEAD"), ("path_pattern", "*.rs"), ("unit", "time"), ("method", "base"), ("threshold", "0"), ("ignore_errors", "true"), ("git_pull", "false")].map(|(a, b)| (a.to_string(), b.to_string())));
		check_error(&s.get(&t)?, &t)?;
		ctx.evals(2);
	}

	for (name, body) in &served {
		let t = format!("/static/{}", name.split('/').map(|c| enc(c, false)).collect::<Vec<_>>().join("/"));
		let r = s.get(&t)?;
		ensure_eq!((r.status, r.body.as_str()), (200, body.as_str()), "{t}");
		ctx.evals(1);
	}
	for o in &c.outside {
		let up = ["..", "%2e%2e", "..%2f..", "css/../..", "%2e%2e%2f%2e%2e", ".%2e", "..%5c..", "//"][*o as usize % 8];
		let t = format!("/static/{up}/{}", ["secret.js", "stx/secret.js", "root/polkadot/.git/config", "st.log", "../../../../../../../../../etc/hostname"][*o as usize / 8 % 5]);
		let r = s.get(&t)?;
		ensure!(r.status >= 300 && !r.body.contains("CANARY-OUTSIDE"), "{t} answers with {} {}", r.status, r.body);
		ctx.evals(1);
	}

	// The version.
	let out = run_cmd(Command::new(super::cli::bin("subweight-web")).arg("--version"))?;
	let version = out.stdout.trim().rsplit(' ').next().unwrap_or("").to_string();
	let r = s.get("/version")?;
	ensure_eq!((r.status, r.body.as_str()), (200, version.as_str()), "/version");
	let toml = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
	let number = toml.lines().filter_map(|l| l.strip_prefix("version")).find_map(|l| l.split('"').nth(1));
	if let Some(n) = number {
		ensure!(version.starts_with(&format!("{n}+")), "version {version} of {n}");
	}
	let badge = s.get("/version/badge")?;
	ensure_eq!(badge.status, 200, "badge");
	ensure!(badge.header("content-type").unwrap_or("").contains("svg") && badge.body.contains(&version), "badge without {version}");
	for (k, at) in &c.versions {
		let at = *at as usize % version.len();
		let plus = version.replace('+', " ");
		let (v, ok) = match k % 16 {
			0 => (version.clone(), true),
			1 => (plus.clone(), true),
			2 => (version[..at].to_string(), false),
			3 => (version[at + 1..].to_string(), false),
			4 => (format!("{version}{}", &version[..at + 1]), false),
			5 => (format!("{version} "), false),
			6 => (format!(" {version}"), false),
			7 => (plus.trim_end_matches(|c: char| c != ' ').to_string(), false),
			8 => (version.replace('+', ""), false),
			9 => (version.replace('+', "  "), false),
			10 => (version.replace('+', "++"), false),
			11 => (version.replace('.', "x"), false),
			12 => (version.replace('+', "-"), false),
			13 => (format!("v{version}"), false),
			14 => (version.split('+').next().unwrap().to_string(), false),
			_ => {
				let mut b = version.clone().into_bytes();
				b[at] = if b[at] == b'1' { b'2' } else { b'1' };
				(String::from_utf8(b).unwrap(), false)
			},
		};
		for raw in [false, true] {
			// A plus sign that is not encoded means a space.
			let t = if raw { format!("/version?is={}", v.replace(' ', "+")) } else { target("/version", &[("is".into(), v.clone())]) };
			let r = s.get(&t)?;
			ensure_eq!(r.status, if ok { 200 } else { 500 }, "{t} for version {version}");
			ctx.evals(1);
		}
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BranchCase {
	commits: u8,
	branches: Vec<(u8, Vec<u8>, u8)>,
	tags: Vec<(u8, Vec<u8>, u8, bool)>,
	/// Moves them after the repository was cloned.
	moves: Vec<(u8, u8)>,
	fetches: Vec<Option<bool>>,
	broken: bool,
	/// Further branches and tags.
	#[serde(default)]
	more: u16,
}

const REF_BITS: [&str; 26] = [
	"master", "main", "dev", "feat/", "release-", "v1.0", "1", "refs/heads/", "refs/tags/", "heads/", "tags/", "HEAD", "origin/", "ü", "{", "}", "a", "-x", "@", "#", "%20", "+", "=", "'", "\"", ",",
];

fn branch_case() -> BoxedStrategy<BranchCase> {
	let bits = || vec(0u8..REF_BITS.len() as u8, 1..4);
	(
		1u8..5,
		vec((any::<u8>(), bits(), any::<u8>()), 0..6),
		vec((any::<u8>(), bits(), any::<u8>(), any::<bool>()), 0..5),
		vec((any::<u8>(), any::<u8>()), 0..3),
		vec(prop_oneof![Just(None), Just(Some(false)), Just(Some(true))], 1..4),
		prop_oneof![9 => Just(false), 1 => Just(true)],
		prop_oneof![20 => Just(0u16), 1 => 30u16..700],
	)
		.prop_map(|(commits, branches, tags, moves, fetches, broken, more)| BranchCase { commits, branches, tags, moves, fetches, broken, more })
		.boxed()
}

fn valid_ref(dir: &Path, name: &str, taken: &BTreeSet<String>) -> bool {
	let clash = taken.iter().any(|t| t == name || t.starts_with(&format!("{name}/")) || name.starts_with(&format!("{t}/")));
	!clash && !name.starts_with('-') && git_out(dir, &["check-ref-format", &format!("refs/heads/{name}")]).is_ok_and(|o| o.ok())
}

fn check_branches(c: &BranchCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c27b")?;
	let name = |bits: &[u8]| -> String { bits.iter().map(|b| REF_BITS[*b as usize % REF_BITS.len()]).collect() };
	let mut h = History::default();
	let n = c.commits as usize;
	for i in 0..n {
		h.commits.push(Commit { parents: if i == 0 { vec![] } else { vec![i - 1] }, tree: Tree::from([("f".to_string(), i.to_string())]), hash: String::new() });
	}
	let mut seen = BTreeSet::new();
	for (_, bits, at) in &c.branches {
		let b = name(bits);
		if valid_ref(&tmp.0, &b, &seen) {
			seen.insert(b.clone());
			h.branches.insert(b, *at as usize % n);
		}
	}
	let mut seen_tags = BTreeSet::new();
	for (_, bits, at, annotated) in &c.tags {
		let t = name(bits);
		if valid_ref(&tmp.0, &t, &seen_tags) {
			seen_tags.insert(t.clone());
			h.tags.insert(t, (*at as usize % n, *annotated));
		}
	}
	h.branches.entry("trunk".into()).or_insert(0);
	for i in 0..c.more as usize {
		if i % 3 == 2 {
			h.tags.insert(format!("release-of-the-year/{i}"), (i % n, i % 2 == 0));
		} else {
			h.branches.insert(format!("more-{i}{}", "-x".repeat(i % 40)), i % n);
		}
	}
	if c.more > 0 {
		ctx.label("many branches and tags");
	}
	let mut mine = History { commits: h.commits.clone(), branches: BTreeMap::from([("trunk".to_string(), 0), ("only-here".to_string(), 0)]), ..Default::default() };
	let remote = bare(&tmp, "remote.git", &mut h, "trunk")?;
	let dir = site_repo(&tmp, "site", "org", &mut mine, "trunk")?;
	let s = up(&tmp, &["site".into()])?;
	point_origin(&dir, &remote)?;
	if c.broken {
		harness(std::fs::rename(&remote, tmp.0.join("gone")), "rename")?;
		ctx.label("no remote");
		for f in ["", "&fetch=true", "&fetch=false"] {
			let r = s.get(&format!("/branches?repo=site{f}"))?;
			ensure!(r.status >= 400, "branches of a remote that is gone: {}", r.body);
		}
		return Ok(())
	}
	for (i, fetch) in c.fetches.iter().enumerate() {
		if i > 0 {
			for (b, at) in &c.moves {
				let b = h.branches.keys().nth(*b as usize % h.branches.len()).cloned().unwrap();
				if *at % 5 == 4 && h.branches.len() > 1 && b != "trunk" {
					git(&remote, &["update-ref", "-d", &format!("refs/heads/{b}")])?;
					h.branches.remove(&b);
				} else {
					h.branches.insert(b, *at as usize % n);
				}
			}
			h.write(&remote)?;
		}
		let before = refs(&dir)?;
		let mut t = "/branches?repo=site".to_string();
		if let Some(f) = fetch {
			t += &format!("&fetch={f}");
		}
		let r = s.get(&t)?;
		ensure_eq!(r.status, 200, "{t}: {}", r.body);
		let got = branch_list(&r)?;
		let brace = |n: &str| n.contains(['{', '}', '^']);
		let mut want: Vec<(String, Vec<String>)> = vec![];
		for (b, at) in &h.branches {
			want.push((b.clone(), vec![h.commits[*at].hash[..12].to_string()]));
		}
		for (t, (at, annotated)) in &h.tags {
			let mut ok = vec![h.commits[*at].hash[..12].to_string()];
			if *annotated {
				// The tag itself, or what it stands for.
				ok.push(git(&remote, &["rev-parse", &format!("refs/tags/{t}")])?[..12].to_string());
			}
			want.push((t.clone(), ok));
		}
		want.retain(|w| !brace(&w.0));
		let mut left = want.clone();
		for (n, hash) in got.iter().filter(|g| !brace(&g.0)) {
			match left.iter().position(|(m, ok)| m == n && ok.contains(hash)) {
				Some(i) => drop(left.remove(i)),
				None => return Err(Fail::Violation(format!("{t}: lists {n:?} at {hash}, the remote has {want:?}"))),
			}
		}
		ensure!(left.is_empty(), "{t}: misses {left:?} in {got:?}");
		if want.len() > 2 {
			ctx.nontrivial();
		}
		let after = refs(&dir)?;
		if *fetch == Some(true) {
			ctx.label("fetched");
			for (b, at) in &h.branches {
				let l = after.get(&format!("refs/remotes/origin/{b}")).map(|s| s.trim().to_string());
				ensure_eq!(l, Some(h.commits[*at].hash.clone()), "{t}: fetched branch {b}");
			}
		} else {
			ensure_eq!(after, before, "{t}: changed the refs of the repository");
		}
	}
	Ok(())
}

pub fn c27() -> Prop {
	Prop {
		id: "C27",
		rels: vec![
			rel_slow(
				"start-up",
				"directories with and without repositories and GitHub origins, configured or not, with and without TLS, and variations of the version; non-trivial: the server has to refuse, or serves several repositories",
				700,
				10_000,
				100,
				start_case,
				check_start,
			),
			rel_slow(
				"branches",
				"remotes with generated branch and tag names that move and vanish between requests, fetching or not; non-trivial: more than two names",
				300,
				6_000,
				100,
				branch_case,
				check_branches,
			),
		],
		assumptions: vec![
			"origins at GitHub are written `https://github.com/<organisation>/<repository>`, the only form that the server is documented to know",
			"for annotated tags the hash of the tag and that of its commit are both accepted",
			"names with a brace or a caret are not judged",
		],
	}
}
