//! C29: the scripts of the web pages, run by node with a stand-in for the browser.

use super::cli::run_cmd;
use crate::{ensure, ensure_eq, run::*, web::enc};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{collections::BTreeMap, process::Command};

const STATIC: &str = "/repo/web/static";
/// The repository that the pages know a path pattern for.
const REPO: &str = "polkadot-sdk";

#[derive(Debug, Deserialize)]
struct Went {
	path: String,
	query: String,
}

#[derive(Debug, Deserialize)]
struct Report {
	went: Vec<Went>,
	rows: usize,
	shown: BTreeMap<String, Option<String>>,
	errors: Vec<String>,
}

fn browse(scenario: &Value) -> Result<Report, Fail> {
	let root = std::env::var("VERIF_ROOT").unwrap_or(".".into());
	let out = run_cmd(Command::new("node").arg("--no-warnings").arg(format!("{root}/tools/forms.mjs")).arg(scenario.to_string()))?;
	harness(serde_json::from_str(&out.stdout), &format!("answer of node: {}", out.stderr))
}

/// What a server understands of a query.
fn decode(query: &str) -> Option<Vec<(String, String)>> {
	let plain = |s: &str| {
		let mut out = vec![];
		let mut b = s.bytes();
		while let Some(c) = b.next() {
			out.push(match c {
				b'+' => b' ',
				b'%' => {
					let hex = [b.next()?, b.next()?];
					u8::from_str_radix(std::str::from_utf8(&hex).ok()?, 16).ok()?
				},
				c => c,
			});
		}
		String::from_utf8(out).ok()
	};
	query.split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').unwrap_or((p, ""))).map(|(k, v)| Some((plain(k)?, plain(v)?))).collect()
}

/// The only place that was gone to is a comparison. Returns its arguments.
fn comparison(r: &Report, what: &str) -> Result<BTreeMap<String, String>, Fail> {
	ensure_eq!(r.went.len(), 1, "{what}: number of pages opened ({:?}, errors {:?})", r.went, r.errors);
	let w = &r.went[0];
	ensure_eq!(w.path, "/compare", "{what}: path");
	let Some(args) = decode(&w.query) else { return Err(Fail::Violation(format!("{what}: bad query {:?}", w.query))) };
	let n = args.len();
	let map: BTreeMap<_, _> = args.into_iter().collect();
	ensure_eq!(map.len(), n, "{what}: number of different arguments in {:?}", w.query);
	Ok(map)
}

/// The page of this comparison exists.
fn complete(args: &BTreeMap<String, String>, old: &str, new: &str, what: &str) -> Check {
	let get = |k: &str| args.get(k).map(|s| s.as_str()).unwrap_or("");
	ensure_eq!((get("repo"), get("old"), get("new")), (REPO, old, new), "{what}: repository and revisions of {args:?}");
	ensure!(["time", "weight", "proof"].contains(&get("unit")), "{what}: unit of {args:?}");
	ensure!(["base", "guess-worst", "exact-worst", "asymptotic", "exact-asymptotic"].contains(&get("method")), "{what}: method of {args:?}");
	ensure!(["true", "false"].contains(&get("ignore_errors")), "{what}: errors of {args:?}");
	ensure!(get("threshold").parse::<u32>().is_ok(), "{what}: threshold of {args:?}");
	ensure!(get("path_pattern").split(',').all(|p| p.ends_with(".rs")), "{what}: pattern of {args:?}");
	for k in args.keys() {
		ensure!(["repo", "old", "new", "unit", "method", "ignore_errors", "threshold", "path_pattern", "git_pull"].contains(&k.as_str()), "{what}: superfluous {k:?} in {args:?}");
	}
	Ok(())
}

/// Names that git takes for branches.
fn branch() -> BoxedStrategy<String> {
	prop_oneof![
		2 => "[a-z]{1,5}(/[a-z]{1,4})?",
		1 => select(&["master", "main", "release-v1.0.0", "dependabot/cargo/a+b", "fix#12", "a&new=b", "100%", "50%25", "x=y", "ünï"][..]).prop_map(String::from),
		3 => "[a-zA-Z0-9#&+%=;'\"<>@!$(),|`é日_]{1,8}",
	]
	.prop_filter("no name of a branch", |s| s != "@" && !s.contains("//"))
	.boxed()
}

// --------------------------------------------------------------------------------- Start page

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
	First(u8),
	Second(u8),
	Fetch,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct StartPage {
	branches: Vec<String>,
	steps: Vec<Step>,
	first: u8,
	second: u8,
	fetch: bool,
}

fn start_page() -> BoxedStrategy<StartPage> {
	let step = prop_oneof![3 => any::<u8>().prop_map(Step::First), 3 => any::<u8>().prop_map(Step::Second), 1 => Just(Step::Fetch)];
	(vec(branch(), 1..6), vec(step, 0..4), any::<u8>(), any::<u8>(), prop::bool::weighted(0.3))
		.prop_map(|(branches, steps, first, second, fetch)| StartPage { branches, steps, first, second, fetch })
		.boxed()
}

fn check_start_page(c: &StartPage, ctx: &mut Ctx) -> Check {
	let mut names = c.branches.clone();
	names.sort();
	names.dedup();
	let name = |i: u8| names[i as usize % names.len()].clone();
	let mut acts = vec![json!(["choose", "#repoSelect", REPO])];
	let choose = |s: &Step| match s {
		Step::First(i) => json!(["choose", "#firstSelect", name(*i)]),
		Step::Second(i) => json!(["choose", "#secondSelect", name(*i)]),
		Step::Fetch => json!(["click", "#fetch"]),
	};
	acts.extend(c.steps.iter().map(choose));
	acts.extend([Step::First(c.first), Step::Second(c.second)].iter().map(choose));
	if c.fetch {
		// The branches are still there afterwards.
		acts.push(choose(&Step::Fetch));
		ctx.label("fetch after the choice");
	}
	acts.push(json!(["click", "#bthPost"]));
	let branches: Vec<_> = names.iter().map(|n| json!([n, "0123456789ab"])).collect();
	let scenario = json!({ "script": format!("{STATIC}/root.js"), "href": "http://127.0.0.1:8080/", "branches": branches, "acts": acts });
	let r = browse(&scenario)?;
	let (first, second) = (name(c.first), name(c.second));
	let what = format!("start page, {first:?} against {second:?}");
	let args = comparison(&r, &what)?;
	complete(&args, &first, &second, &what)?;
	for (id, v) in [("#selectedRepo", REPO), ("#selectedFirst", &first), ("#selectedSecond", &second)] {
		let shown = r.shown.get(id).cloned().flatten().unwrap_or_default();
		ensure_eq!(shown, v, "{what}: {id} shown for verification");
	}
	if [&first, &second].iter().any(|n| !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '/' || c == '-')) {
		ctx.nontrivial();
	}
	Ok(())
}

// ------------------------------------------------------------------------------ Merge requests

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Request {
	title: String,
	head: String,
	base: String,
	/// The owner of the head: 0 and 1 are the one of the repository, 2 another one, 3 none any more.
	owner: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RequestsPage {
	owner: Option<String>,
	/// The repository is part of the address.
	repo: bool,
	requests: Vec<Request>,
	choice: u8,
}

fn requests_page() -> BoxedStrategy<RequestsPage> {
	let request = ("\\PC{0,12}|.*weight.*", branch(), branch(), 0u8..4).prop_map(|(title, head, base, owner)| Request { title, head, base, owner });
	(option::of("[a-z]{1,6}"), any::<bool>(), vec(request, 1..7), any::<u8>())
		.prop_map(|(owner, repo, requests, choice)| RequestsPage { owner, repo, requests, choice })
		.boxed()
}

fn check_requests_page(c: &RequestsPage, ctx: &mut Ctx) -> Check {
	let owner = c.owner.clone().unwrap_or("paritytech".into());
	let requests: Vec<_> = c
		.requests
		.iter()
		.enumerate()
		.map(|(i, q)| {
			let login = match q.owner {
				0 | 1 => owner.clone(),
				_ => format!("{owner}x"),
			};
			let repo = if q.owner == 3 { Value::Null } else { json!({ "owner": { "login": login } }) };
			// Newest first.
			json!({
				"title": q.title, "user": { "login": login }, "updated_at": format!("2023-01-{:02}T00:00:00Z", 28 - i),
				"html_url": "https://github.com", "head": { "ref": q.head, "repo": repo }, "base": { "ref": q.base },
			})
		})
		.collect();
	let mut query = vec![];
	if let Some(o) = &c.owner {
		query.push(format!("owner={o}"));
	}
	if c.repo {
		query.push(format!("repo={REPO}"));
	}
	let at = c.choice as usize % c.requests.len();
	let scenario = json!({
		"script": format!("{STATIC}/merge_requests.js"), "href": format!("http://127.0.0.1:8080/compare-mr?{}", query.join("&")),
		"requests": requests, "acts": [["dblclick", at]],
	});
	let r = browse(&scenario)?;
	let q = &c.requests[at];
	let what = format!("merge request {at} of {} ({q:?})", c.requests.len());
	ensure_eq!(r.rows, c.requests.len(), "{what}: rows (errors {:?})", r.errors);
	if q.owner > 1 {
		ctx.label("fork");
		ensure!(r.went.is_empty(), "{what}: a fork leads to {:?}", r.went);
		return Ok(())
	}
	ctx.nontrivial();
	complete(&comparison(&r, &what)?, &q.base, &q.head, &what)
}

// ----------------------------------------------------------------------------- Comparison page

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FieldCase {
	values: Vec<String>,
	pallet: bool,
	pull: Option<bool>,
	plus: bool,
	anchor: Option<String>,
	field: u8,
	value: String,
	check: bool,
}

fn field_case() -> BoxedStrategy<FieldCase> {
	let text = || prop_oneof![branch().boxed(), "\\PC{1,12}".boxed(), "[a-z*/., +%#&?]{1,12}".boxed()];
	(vec(text(), 6), any::<bool>(), option::of(any::<bool>()), any::<bool>(), option::of("[a-z/]{1,8}\\.[a-z]{1,5}"), any::<u8>(), text(), any::<bool>())
		.prop_map(|(values, pallet, pull, plus, anchor, field, value, check)| FieldCase { values, pallet, pull, plus, anchor, field, value, check })
		.boxed()
}

fn check_field(c: &FieldCase, ctx: &mut Ctx) -> Check {
	let mut args: Vec<(&str, String)> = ["repo", "old", "new", "path_pattern", "pallet", "extrinsic"].into_iter().zip(c.values.iter().cloned()).collect();
	args.retain(|(k, _)| c.pallet || !["pallet", "extrinsic"].contains(k));
	for (k, v) in [("unit", "time"), ("method", "base"), ("threshold", "10"), ("ignore_errors", "true")] {
		args.push((k, v.into()));
	}
	if let Some(p) = c.pull {
		args.push(("git_pull", p.to_string()));
	}
	let query: Vec<_> = args.iter().map(|(k, v)| format!("{k}={}", enc(v, c.plus))).collect();
	let mut href = format!("http://127.0.0.1:8080/compare?{}", query.join("&"));
	if let Some(a) = &c.anchor {
		href += &format!("#{a}");
	}
	let (id, value) = match c.field as usize % 11 {
		i @ 0..=2 => (["select_unit", "select_method", "select_repo"][i], json!(c.value)),
		i @ 3..=8 => (["input_threshold", "input_path_pattern", "input_old", "input_new", "input_pallet", "input_extrinsic"][i - 3], json!(c.value)),
		i => (["checkbox_ignore_errors", "checkbox_git_pull"][i - 9], json!(c.check)),
	};
	let key = id.split_once('_').unwrap().1;
	let scenario = json!({ "script": format!("{STATIC}/table.js"), "href": href, "acts": [["choose", format!("#{id}"), value]] });
	let r = browse(&scenario)?;
	let what = format!("{id} set to {value} on {href}");
	let got = comparison(&r, &what)?;
	let mut want: BTreeMap<String, String> = args.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
	want.insert(key.into(), value.as_str().map_or_else(|| value.to_string(), String::from));
	ensure_eq!(got, want, "{what}");
	ctx.nontrivial();
	ctx.label(id);
	Ok(())
}

pub fn c29() -> Prop {
	Prop {
		id: "C29",
		rels: vec![
			rel_slow(
				"start page",
				"branch names with all characters that git allows, chosen on the start page in several steps, with fetches in between; non-trivial: a chosen name has other characters than letters, digits, slash and dash",
				600,
				20_000,
				300,
				start_page,
				check_start_page,
			),
			rel_slow(
				"merge requests",
				"lists of merge requests with such names, of the repository itself, of forks and of forks that are gone, one of which is double-clicked; non-trivial: it is of the repository itself",
				600,
				20_000,
				300,
				requests_page,
				check_requests_page,
			),
			rel_slow(
				"fields",
				"a comparison page with arbitrary arguments, one field of which gets another value; non-trivial: always",
				600,
				20_000,
				300,
				field_case,
				check_field,
			),
		],
		assumptions: vec![
			"a small stand-in for the browser and jQuery (tools/forms.mjs) runs the scripts; layout, animation and the drop-down library are not part of it",
			"GitHub's list of merge requests is generated",
		],
	}
}
