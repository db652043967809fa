//! C20 to C22: comparing commits.

use super::{
	cli::{commit_reports, method_name, parse_csv, subweight, unit_name},
	parse::{no_filter, Tmp},
};
use crate::{ensure, ensure_eq, git::*, run::*};
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use std::{
	collections::{BTreeMap, BTreeSet, HashMap},
	path::{Path, PathBuf},
};
use subweight_core::{
	compare_commits, compare_files, filter_changes, parse::pallet::parse_content, sort_changes,
	CompareMethod, CompareParams, Dimension, TotalDiff,
};

const METHODS: [CompareMethod; 5] = [
	CompareMethod::Base,
	CompareMethod::GuessWorst,
	CompareMethod::ExactWorst,
	CompareMethod::Asymptotic,
	CompareMethod::ExactAsymptotic,
];

pub fn git_params(mu: u8, ignore_errors: bool, pull: bool, force: bool) -> CompareParams {
	CompareParams {
		method: METHODS[mu as usize / 2 % 5],
		unit: if mu % 2 == 0 { Dimension::Time } else { Dimension::Proof },
		ignore_errors,
		git_pull: pull,
		git_force: force,
		offline: false,
	}
}

// ---------------------------------------------------------------------------------- Contents

/// What a tracked file contains.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Content {
	/// Calls by number, with a base weight and a factor for their component.
	Good(Vec<(u8, u16, u8)>),
	/// Not a weight file.
	Junk(u8),
}

impl Content {
	pub fn text(&self) -> String {
		match self {
			Content::Junk(0) => String::new(),
			Content::Junk(1) => "not rust at all {".into(),
			Content::Junk(n) => format!("pub fn nothing() -> u32 {{ {n} }}\n"),
			Content::Good(calls) => {
				let mut s = String::from("pub struct WeightInfo<T>(PhantomData<T>);\nimpl<T: frame_system::Config> pallet_x::WeightInfo for WeightInfo<T> {\n");
				let mut seen = BTreeSet::new();
				for (n, base, per) in calls {
					if !seen.insert(n) {
						continue
					}
					s += &format!(
						"\t/// The range of component `s` is `[1, {}]`.\n\tfn call_{n}(s: u32, ) -> Weight {{\n\t\tWeight::from_parts({base}, {})\n\t\t\t.saturating_add(Weight::from_parts({per}, {}).saturating_mul(s.into()))\n\t\t\t.saturating_add(T::DbWeight::get().reads({}))\n\t}}\n",
						10 + n, base / 2, per / 3, n % 4
					);
				}
				s + "}\n"
			},
		}
	}
}

pub fn content() -> BoxedStrategy<Content> {
	prop_oneof![
		12 => vec((0u8..6, 0u16..2000, 0u8..50), 1..4).prop_map(Content::Good),
		1 => (0u8..4).prop_map(Content::Junk),
	]
	.boxed()
}

pub const PATHS: [&str; 9] = [
	"pallet_a.rs",
	"runtime/one/src/weights/pallet_a.rs",
	"runtime/one/src/weights/pallet_b.rs",
	"runtime/two/src/weights/pallet_b.rs",
	"runtime/two/src/weights/mod.rs",
	"weights/pallet_c.rs",
	"weights/deep/er/pallet_c.rs",
	"README.md",
	"weights/notes.txt",
];

pub const PATTERNS: [&str; 9] = [
	"**/*.rs",
	"runtime/*/src/weights/*.rs",
	"weights/**/*.rs",
	"*.rs",
	"**/weights/*.rs,*.rs",
	"weights/pallet_c.rs",
	"runtime/one/**/*.rs,runtime/**/pallet_b.rs",
	"**/pallet_?.rs",
	"no/such/*.rs",
];

/// The extrinsics of a tree, as `compare_commits` has to see them.
pub fn parse_tree(tree: &Tree, pattern: &str, ignore: bool) -> Result<Vec<subweight_core::parse::pallet::ChromaticExtrinsic>, String> {
	let mut out = vec![];
	for p in select_files(pattern, tree.keys()) {
		match parse_content(p.clone(), tree[p].clone()) {
			Ok(e) => out.extend(e),
			Err(_) if ignore => {},
			Err(e) => return Err(format!("{p}: {e}")),
		}
	}
	Ok(out)
}

/// What comparing two trees has to give; `None` is an error.
pub fn expected(old: &Tree, new: &Tree, pattern: &str, params: &CompareParams) -> Result<Option<TotalDiff>, Fail> {
	let (Ok(o), Ok(n)) = (parse_tree(old, pattern, params.ignore_errors), parse_tree(new, pattern, params.ignore_errors)) else {
		return Ok(None)
	};
	Ok(Some(harness(compare_files(o, n, params, &no_filter()), "reference comparison")?))
}

// ----------------------------------------------------------------------------------- Histories

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Edit {
	Put(u8, Content),
	Remove(u8),
	Rename(u8, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
	/// A commit on the current branch.
	Commit(Vec<Edit>),
	/// Creates a branch here, or moves there if it exists.
	Branch(u8),
	Switch(u8),
	/// Merges a branch, taking its version of every file whose path number has that parity.
	Merge(u8, bool),
	Tag(u8, bool),
	/// Moves the current branch back.
	Rewind,
}

pub const BRANCHES: [&str; 6] = ["master", "dev", "feat/x", "release-v1", "oty-123", "pallet_a.rs"];
pub const TAGS: [&str; 4] = ["v1.0", "v2.0", "t/x", "w.tag"];

fn edit() -> BoxedStrategy<Edit> {
	let p = || 0u8..PATHS.len() as u8;
	prop_oneof![
		6 => (p(), content()).prop_map(|(p, c)| Edit::Put(p, c)),
		1 => p().prop_map(Edit::Remove),
		1 => (p(), p()).prop_map(|(a, b)| Edit::Rename(a, b)),
	]
	.boxed()
}

fn op() -> BoxedStrategy<Op> {
	prop_oneof![
		6 => vec(edit(), 1..4).prop_map(Op::Commit),
		3 => (0u8..6).prop_map(Op::Branch),
		2 => (0u8..6).prop_map(Op::Switch),
		1 => (0u8..6, any::<bool>()).prop_map(|(b, p)| Op::Merge(b, p)),
		2 => (0u8..4, any::<bool>()).prop_map(|(t, a)| Op::Tag(t, a)),
		1 => Just(Op::Rewind),
	]
	.boxed()
}

fn apply_edit(t: &mut Tree, e: &Edit) {
	match e {
		Edit::Put(p, c) => {
			t.insert(PATHS[*p as usize % PATHS.len()].into(), c.text());
		},
		Edit::Remove(p) => {
			t.remove(PATHS[*p as usize % PATHS.len()]);
		},
		Edit::Rename(a, b) =>
			if let Some(c) = t.remove(PATHS[*a as usize % PATHS.len()]) {
				t.insert(PATHS[*b as usize % PATHS.len()].into(), c);
			},
	}
}

/// Applies the operations; returns the current branch.
fn apply_ops(h: &mut History, mut cur: String, ops: &[Op]) -> String {
	if h.commits.is_empty() {
		h.commits.push(Commit {
			parents: vec![],
			tree: Tree::from([(PATHS[0].to_string(), Content::Good(vec![(0, 100, 1)]).text())]),
			hash: String::new(),
		});
		h.branches.insert(cur.clone(), 0);
	}
	for o in ops {
		let at = h.branches[&cur];
		match o {
			Op::Commit(edits) => {
				let mut tree = h.commits[at].tree.clone();
				for e in edits {
					apply_edit(&mut tree, e);
				}
				h.commits.push(Commit { parents: vec![at], tree, hash: String::new() });
				h.branches.insert(cur.clone(), h.commits.len() - 1);
			},
			Op::Branch(b) => {
				let b = BRANCHES[*b as usize % BRANCHES.len()].to_string();
				h.branches.entry(b.clone()).or_insert(at);
				cur = b;
			},
			Op::Switch(b) => {
				let b = BRANCHES[*b as usize % BRANCHES.len()].to_string();
				if h.branches.contains_key(&b) {
					cur = b;
				}
			},
			Op::Merge(b, parity) => {
				let b = BRANCHES[*b as usize % BRANCHES.len()];
				let Some(&other) = h.branches.get(b) else { continue };
				if other == at {
					continue
				}
				let mut tree = h.commits[at].tree.clone();
				for (i, p) in PATHS.iter().enumerate() {
					if (i % 2 == 0) == *parity {
						match h.commits[other].tree.get(*p) {
							Some(c) => tree.insert(p.to_string(), c.clone()),
							None => tree.remove(*p),
						};
					}
				}
				h.commits.push(Commit { parents: vec![at, other], tree, hash: String::new() });
				h.branches.insert(cur.clone(), h.commits.len() - 1);
			},
			Op::Tag(t, annotated) => {
				h.tags.entry(TAGS[*t as usize % TAGS.len()].into()).or_insert((at, *annotated));
			},
			Op::Rewind => {
				if let Some(p) = h.ancestor(at, 1) {
					h.branches.insert(cur.clone(), p);
				}
			},
		}
	}
	cur
}

// ------------------------------------------------------------------------------------------ C20

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Rev {
	Branch(u8),
	Tag(u8),
	Hash(u8),
	Short(u8, u8),
	Head(u8),
	HeadParent(u8),
	BranchBack(u8, u8),
	RefsHeads(u8),
	RefsTags(u8),
	TagPeeled(u8),
	Origin(u8),
	At,
	/// More ways to name what is checked out.
	HeadAs(u8, u8),
	/// `branch^{commit}` and the like.
	BranchAs(u8, u8),
	/// By the message of the commit, anywhere or behind `HEAD`.
	Message(u8, bool),
}

/// Denotes `master` whether it exists or not.
const MASTER: u8 = 234;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Compare {
	old: Rev,
	/// `None`: `master`, by leaving it out.
	new: Option<Rev>,
	pattern: u8,
	mu: u8,
	ignore: bool,
	force: bool,
	pull: bool,
	offline: bool,
	cli: bool,
	/// Leave uncommitted changes behind before forced comparisons: (path, how).
	dirt: Vec<(u8, u8)>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
	Compare(Compare),
	Checkout(Rev),
	/// The library's own checkout or reset, with pulling and by force.
	Place(Rev, bool, bool, bool),
	/// The remote moves on.
	Remote(Vec<Op>),
	/// A local branch for one of the remote.
	Track(u8),
	LocalCommit(Vec<Edit>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CommitCase {
	ops: Vec<Op>,
	remote: bool,
	steps: Vec<Step>,
}

fn rev() -> BoxedStrategy<Rev> {
	let b = || any::<u8>();
	prop_oneof![
		8 => b().prop_map(Rev::Branch),
		3 => any::<u8>().prop_map(Rev::Tag),
		3 => any::<u8>().prop_map(Rev::Hash),
		1 => (any::<u8>(), 7u8..40).prop_map(|(c, l)| Rev::Short(c, l)),
		4 => (0u8..4).prop_map(Rev::Head),
		1 => (0u8..4).prop_map(Rev::HeadParent),
		2 => (b(), 0u8..3).prop_map(|(b, n)| Rev::BranchBack(b, n)),
		1 => b().prop_map(Rev::RefsHeads),
		1 => any::<u8>().prop_map(Rev::RefsTags),
		1 => any::<u8>().prop_map(Rev::TagPeeled),
		1 => b().prop_map(Rev::Origin),
		1 => Just(Rev::At),
		1 => (0u8..4, 0u8..4).prop_map(|(a, n)| Rev::HeadAs(a, n)),
		1 => (any::<u8>(), 0u8..4).prop_map(|(b, a)| Rev::BranchAs(b, a)),
		1 => (any::<u8>(), any::<bool>()).prop_map(|(c, h)| Rev::Message(c, h)),
	]
	.boxed()
}

fn compare() -> BoxedStrategy<Compare> {
	(
		(rev(), prop_oneof![5 => rev().prop_map(Some), 1 => Just(None)]),
		prop_oneof![1 => Just(0u8), 1 => 0u8..PATTERNS.len() as u8],
		0u8..10,
		prop_oneof![1 => Just(false), 1 => Just(true)],
		any::<bool>(),
		prop_oneof![1 => Just(false), 1 => Just(true)],
		prop_oneof![6 => Just(false), 1 => Just(true)],
		prop_oneof![2 => Just(false), 1 => Just(true)],
		vec((0u8..PATHS.len() as u8, 0u8..4), 0..3),
	)
		.prop_map(|((old, new), pattern, mu, ignore, force, pull, offline, cli, dirt)| Compare {
			old, new, pattern, mu, ignore, force, pull, offline, cli, dirt,
		})
		.boxed()
}

fn place(r: BoxedStrategy<Rev>) -> BoxedStrategy<Step> {
	(r, any::<[bool; 3]>()).prop_map(|(r, [pull, force, reset])| Step::Place(r, pull, force, reset)).boxed()
}

fn commit_case() -> BoxedStrategy<CommitCase> {
	let step = prop_oneof![
		6 => compare().prop_map(Step::Compare),
		1 => rev().prop_map(Step::Checkout),
		1 => place(rev()),
		2 => vec(op(), 1..4).prop_map(Step::Remote),
		1 => (0u8..6).prop_map(Step::Track),
		1 => vec(edit(), 1..3).prop_map(Step::LocalCommit),
	];
	(vec(op(), 2..18), prop_oneof![1 => Just(false), 2 => Just(true)], vec(step, 1..8))
		.prop_map(|(ops, remote, steps)| CommitCase { ops, remote, steps })
		.boxed()
}

/// Branches that move at both sides, with another content in each commit.
fn moving_case() -> BoxedStrategy<CommitCase> {
	let unique = || (any::<u16>(), any::<u8>()).prop_map(|(a, b)| vec![Edit::Put(0, Content::Good(vec![(0, a, b)]))]);
	let ops = move |n: std::ops::Range<usize>| {
		let op = prop_oneof![
			5 => unique().prop_map(Op::Commit),
			2 => (0u8..4).prop_map(Op::Branch),
			2 => (0u8..4).prop_map(Op::Switch),
			1 => (0u8..4, any::<bool>()).prop_map(|(b, p)| Op::Merge(b, p)),
			2 => (0u8..4, any::<bool>()).prop_map(|(t, a)| Op::Tag(t, a)),
			1 => Just(Op::Rewind),
		];
		vec(op, n)
	};
	let b = any::<u8>;
	let rev = || prop_oneof![
		8 => b().prop_map(Rev::Branch),
		3 => b().prop_map(Rev::Tag),
		2 => b().prop_map(Rev::Hash),
		3 => (b(), 0u8..3).prop_map(|(b, n)| Rev::BranchBack(b, n)),
		2 => b().prop_map(Rev::RefsHeads),
		1 => b().prop_map(Rev::RefsTags),
		2 => b().prop_map(Rev::Origin),
		1 => (0u8..3).prop_map(Rev::Head),
		1 => (b(), 0u8..4).prop_map(|(b, a)| Rev::BranchAs(b, a)),
	];
	let compare = (rev(), rev(), 0u8..10, any::<[bool; 4]>(), 0u8..4).prop_map(|(old, new, mu, [ignore, force, cli, pull], offline)| Compare {
		old, new: Some(new), pattern: 0, mu, ignore, force, pull, offline: offline == 0, cli, dirt: vec![],
	});
	let step = prop_oneof![
		6 => compare.prop_map(Step::Compare),
		1 => rev().prop_map(Step::Checkout),
		1 => place(rev().boxed()),
		3 => ops(1..5).prop_map(Step::Remote),
		2 => (0u8..4).prop_map(Step::Track),
		1 => unique().prop_map(Step::LocalCommit),
	];
	(ops(2..10), vec(step, 2..10)).prop_map(|(ops, steps)| CommitCase { ops, remote: true, steps }).boxed()
}

/// All commits by hash, from whichever side they were made on.
#[derive(Default)]
struct Known {
	trees: HashMap<String, Tree>,
	parents: HashMap<String, Vec<String>>,
	order: Vec<String>,
}

impl Known {
	fn add(&mut self, hash: &str, tree: Tree, parents: Vec<String>) {
		if self.trees.insert(hash.into(), tree).is_none() {
			self.order.push(hash.into());
		}
		self.parents.insert(hash.into(), parents);
	}
	fn update(&mut self, h: &History) {
		for c in &h.commits {
			self.add(&c.hash, c.tree.clone(), c.parents.iter().map(|p| h.commits[*p].hash.clone()).collect());
		}
	}
	fn back(&self, hash: &str, n: usize) -> Option<String> {
		let mut h = hash.to_string();
		for _ in 0..n {
			h = self.parents.get(&h)?.first()?.clone();
		}
		Some(h)
	}
}

/// Branches and tags to commits.
fn tips(dir: &Path, prefix: &str) -> Result<BTreeMap<String, String>, Fail> {
	Ok(git(dir, &["for-each-ref", "--format=%(refname) %(objectname) %(*objectname)", prefix])?
		.lines()
		.filter_map(|l| {
			let mut p = l.split(' ');
			let (name, direct, peeled) = (p.next()?, p.next()?, p.next().unwrap_or(""));
			let hash = if peeled.is_empty() { direct } else { peeled };
			Some((name.strip_prefix(prefix)?.to_string(), hash.to_string()))
		})
		.collect())
}

struct World {
	dir: PathBuf,
	bare: Option<PathBuf>,
	known: Known,
}

/// What a revision is called, and which commits it may denote. Empty: none. `None`: not judged.
type Meaning = (String, Option<BTreeSet<String>>);

impl World {
	fn meaning(&self, r: &Rev, force: bool, pull: bool) -> Result<Meaning, Fail> {
		let heads = tips(&self.dir, "refs/heads/")?;
		let remotes = tips(&self.dir, "refs/remotes/origin/")?;
		let tags = tips(&self.dir, "refs/tags/")?;
		let head = git(&self.dir, &["rev-parse", "HEAD"])?;
		// What is only there when asking the remote.
		let (new_heads, new_tags) = match &self.bare {
			Some(b) if pull => (tips(b, "refs/heads/")?, tips(b, "refs/tags/")?),
			_ => Default::default(),
		};
		// Mostly names that exist somewhere.
		let pick = |i: &u8, there: Vec<String>, all: &[&str]| {
			if *i < 230 && !there.is_empty() {
				there[*i as usize % there.len()].clone()
			} else {
				all[*i as usize % all.len()].to_string()
			}
		};
		let branch = |b: &u8| {
			let there: BTreeSet<String> = heads.keys().chain(remotes.keys()).chain(new_heads.keys()).filter(|b| *b != "HEAD").cloned().collect();
			pick(b, there.into_iter().collect(), &BRANCHES)
		};
		let tag = |t: &u8| pick(t, tags.keys().chain(new_tags.keys()).collect::<BTreeSet<_>>().into_iter().cloned().collect(), &TAGS);
		let commit = |c: &u8| self.known.order[*c as usize % self.known.order.len()].clone();
		// A hash is only known here if it was fetched.
		let here = |h: &String| -> Result<bool, Fail> {
			Ok(git_out(&self.dir, &["cat-file", "-e", h])?.ok())
		};
		let set = |h: Option<String>| h.into_iter().collect::<BTreeSet<_>>();
		let at_remote = |n: &str, p: &str| -> Result<Option<String>, Fail> {
			match &self.bare {
				Some(b) => Ok(tips(b, p)?.get(n).cloned()),
				None => Ok(None),
			}
		};
		let back = |h: Option<&String>, n: u8| h.and_then(|h| self.known.back(h, n as usize));
		if pull {
			return Ok(match r {
				Rev::Branch(b) => (branch(b), Some(set(at_remote(&branch(b), "refs/heads/")?))),
				Rev::Tag(t) => (tag(t), Some(set(at_remote(&tag(t), "refs/tags/")?))),
				Rev::RefsHeads(b) => (format!("refs/heads/{}", branch(b)), Some(set(at_remote(&branch(b), "refs/heads/")?))),
				Rev::RefsTags(t) => (format!("refs/tags/{}", tag(t)), Some(set(at_remote(&tag(t), "refs/tags/")?))),
				Rev::Hash(c) => {
					let h = commit(c);
					// Whether a remote hands out an unreferenced commit is its choice.
					let Some(bare) = &self.bare else { return Ok((h, Some(set(None)))) };
					let reachable = git(bare, &["rev-list", "--branches", "--tags"])?.lines().any(|l| l == h);
					(h.clone(), reachable.then(|| set(Some(h))))
				},
				// The remote cannot be asked for these.
				r => (self.meaning(r, false, false)?.0, None),
			})
		}
		// A name that both sides have: what was last seen of the remote counts when forced.
		let either = |l: Option<String>, r: Option<String>| -> BTreeSet<String> {
			match (l, r) {
				(Some(l), Some(r)) if force => BTreeSet::from([l, r]),
				(Some(l), _) => set(Some(l)),
				(None, r) => set(r),
			}
		};
		Ok(match r {
			Rev::Branch(b) => {
				let b = branch(b);
				let m = either(heads.get(&b).cloned(), remotes.get(&b).cloned());
				(b, Some(m))
			},
			Rev::Origin(b) if !remotes.is_empty() || *b < 20 => (format!("origin/{}", branch(b)), Some(set(remotes.get(&branch(b)).cloned()))),
			Rev::Origin(b) => {
				let b = branch(b);
				let m = set(heads.get(&b).cloned());
				(b, Some(m))
			},
			Rev::BranchBack(b, n) => {
				let b = branch(b);
				let m = either(back(heads.get(&b), *n), back(remotes.get(&b), *n));
				(format!("{b}~{n}"), Some(m))
			},
			Rev::Tag(t) => (tag(t), Some(set(tags.get(&tag(t)).cloned()))),
			Rev::RefsTags(t) => (format!("refs/tags/{}", tag(t)), Some(set(tags.get(&tag(t)).cloned()))),
			Rev::TagPeeled(t) => (format!("{}^{{}}", tag(t)), Some(set(tags.get(&tag(t)).cloned()))),
			Rev::RefsHeads(b) => (format!("refs/heads/{}", branch(b)), Some(set(heads.get(&branch(b)).cloned()))),
			Rev::Hash(c) => {
				let h = commit(c);
				let ok = here(&h)?;
				(h.clone(), Some(set(ok.then_some(h))))
			},
			Rev::Short(c, l) => {
				let h = commit(c);
				let s = h[..(*l as usize).min(h.len())].to_string();
				let unique = self.known.order.iter().filter(|o| o.starts_with(&s)).count() == 1;
				let ok = here(&h)?;
				(s, unique.then(|| set(ok.then_some(h))))
			},
			Rev::Head(n) => {
				let name = if *n == 0 { "HEAD".into() } else { format!("HEAD~{n}") };
				(name, Some(set(self.known.back(&head, *n as usize))))
			},
			Rev::HeadParent(n) => {
				let name = format!("HEAD{}", "^".repeat(*n as usize));
				(name, Some(set(self.known.back(&head, *n as usize))))
			},
			Rev::At => ("@".into(), Some(set(Some(head)))),
			Rev::HeadAs(a, n) => {
				let (name, n) = match a % 4 {
					0 => ("HEAD@{0}".into(), 0),
					1 => (format!("@~{n}"), *n),
					2 => (format!("HEAD^{{commit}}~{n}"), *n),
					_ => (format!("HEAD@{{0}}~{n}"), *n),
				};
				(name, Some(set(self.known.back(&head, n as usize))))
			},
			Rev::Message(c, at_head) => {
				let h = commit(c);
				let out = if here(&h)? { git(&self.dir, &["log", "-1", "--format=%s", &h])? } else { "commit number 999".into() };
				let subject = out.trim().to_string();
				let text = format!("{}[^0-9]", subject.trim_start_matches("commit "));
				let from: &[&str] = if *at_head { &["log", "--format=%H %s", "HEAD"] } else { &["log", "--format=%H %s", "--all", "HEAD"] };
				let found: BTreeSet<String> = git(&self.dir, from)?
					.lines()
					.filter_map(|l| l.split_once(' '))
					.filter(|(_, s)| *s == subject)
					.map(|(h, _)| h.to_string())
					.collect();
				let name = if *at_head { format!("HEAD^{{/{text}}}") } else { format!(":/{text}") };
				(name, (found.len() < 2).then_some(found))
			},
			Rev::BranchAs(b, a) => {
				let b = branch(b);
				let (suffix, n) = [("^{commit}", 0), ("^{}", 0), ("^0", 0), ("^", 1)][*a as usize % 4];
				let m = either(back(heads.get(&b), n), back(remotes.get(&b), n));
				(format!("{b}{suffix}"), Some(m))
			},
		})
	}
}

/// The rows that a CSV report has to show.
pub fn csv_rows(diff: &TotalDiff, unit: Dimension) -> Vec<Vec<String>> {
	use subweight_core::RelativeChange::*;
	let mut d = filter_changes(diff.clone(), &no_filter());
	sort_changes(&mut d);
	d.reverse();
	d.iter()
		.filter_map(|r| {
			let t = r.term()?;
			let v = |v: Option<u128>| v.map(|v| unit.fmt_value(v)).unwrap_or_default();
			Some(vec![
				r.file.clone(),
				r.name.clone(),
				v(t.old_v),
				v(t.new_v),
				match t.change {
					Changed => format!("{:+5.2}", t.percent).trim().to_string(),
					c => format!("{c:?}"),
				},
			])
		})
		.collect()
}

/// The rows in an order that does not depend on how ties are resolved.
fn normal(mut rows: Vec<Vec<String>>) -> Vec<Vec<String>> {
	rows.sort();
	rows
}

fn run_step(w: &mut World, c: &Compare, ctx: &mut Ctx) -> Check {
	// Without a remote there is nothing to pull from.
	let pull = c.pull && w.bare.is_some();
	let effective = pull && !c.offline;
	let (old, mold) = w.meaning(&c.old, c.force, effective)?;
	let cli = c.cli || c.new.is_none();
	let (new, mnew) = match &c.new {
		Some(r) => w.meaning(r, c.force, effective)?,
		None => w.meaning(&Rev::Branch(MASTER), c.force, effective)?,
	};
	let pattern = PATTERNS[c.pattern as usize % PATTERNS.len()];
	let mut params = git_params(c.mu, c.ignore, pull, c.force);
	params.offline = c.offline;
	if c.force {
		for (p, how) in &c.dirt {
			let rel = PATHS[*p as usize % PATHS.len()];
			let f = w.dir.join(rel);
			let tracked = git(&w.dir, &["ls-files", "--", rel])? == rel;
			if !tracked {
				continue
			}
			ctx.label("uncommitted changes");
			match how {
				0 => harness(std::fs::write(&f, Content::Good(vec![(77, 7, 7)]).text()), "dirt")?,
				1 => harness(std::fs::write(&f, "garbage {"), "dirt")?,
				2 => {
					let _ = std::fs::remove_file(&f);
				},
				_ => {
					harness(std::fs::write(&f, Content::Good(vec![(78, 7, 7)]).text()), "dirt")?;
					git(&w.dir, &["add", "--", rel])?;
				},
			}
		}
	}
	// Without force only some steps have local modifications, of a known kind.
	let head = git(&w.dir, &["rev-parse", "HEAD"])?;
	let mut modified: BTreeMap<String, String> = BTreeMap::new();
	if !c.force && c.dirt.len() == 1 {
		for (p, how) in &c.dirt {
			let rel = PATHS[*p as usize % PATHS.len()];
			let text = match how {
				0 | 1 => Content::Good(vec![(77, 7, 7)]).text(),
				2 => Content::Good(vec![(0, 100, 1)]).text(),
				_ => "garbage {".into(),
			};
			if w.known.trees[&head].get(rel).is_some_and(|t| *t != text) {
				harness(std::fs::write(w.dir.join(rel), &text), "modification")?;
				modified.insert(rel.into(), text);
			}
		}
	}
	let heads = tips(&w.dir, "refs/heads/")?;
	let tags = tips(&w.dir, "refs/tags/")?;
	let what = format!("{old:?} against {new:?} (pattern {pattern}, pull {effective}, force {}, remote {})", c.force, w.bare.is_some());

	let (got, rows): (Result<(), String>, _) = if cli {
		let mut args: Vec<String> = vec!["compare".into(), "commits".into(), old.clone()];
		if c.new.is_some() {
			args.push(new.clone());
		}
		let relative = c.mu % 2 == 0;
		if !relative {
			args.push(format!("--repo={}", w.dir.display()));
		}
		args.extend([
			"--method".into(), method_name(params.method).into(), "--unit".into(), unit_name(params.unit).into(),
			"--threshold=0".into(), "--format=csv".into(), "--no-color".into(), format!("--path-pattern={pattern}"),
		]);
		for (on, name) in [(c.ignore, "--ignore-errors"), (pull, "--git-pull"), (c.force, "--git-force"), (c.offline, "--offline")] {
			if on {
				args.push(name.into());
			}
		}
		let o = subweight(&args, if relative { &w.dir } else { w.dir.parent().unwrap() })?;
		o.no_panic(&what)?;
		if o.ok() {
			let rows = if o.stdout.trim() == "No changes found." {
				vec![]
			} else {
				parse_csv(&o.stdout)?.into_iter().skip(1).collect()
			};
			(Ok(()), Some((rows, String::new())))
		} else {
			o.refused(&what)?;
			(Err(o.stderr), None)
		}
	} else {
		match compare_commits(&w.dir, &old, &new, &params, &no_filter(), pattern, usize::MAX) {
			Ok(d) => (Ok(()), Some((vec![], format!("{d:?}")))),
			Err(e) => (Err(e.to_string()), None),
		}
	};
	ensure_eq!(tips(&w.dir, "refs/heads/")?, heads, "local branches after comparing {}", what);
	for (p, text) in &modified {
		ensure_eq!(
			std::fs::read_to_string(w.dir.join(p)).ok(),
			Some(text.clone()),
			"{p}, which was modified locally, after comparing {what} without force"
		);
	}
	if !effective {
		ensure_eq!(tips(&w.dir, "refs/tags/")?, tags, "tags after comparing {}", what);
	}
	let (Some(mold), Some(mnew)) = (mold, mnew) else {
		ctx.label("not judged");
		return Ok(())
	};
	if mold.is_empty() || mnew.is_empty() {
		ctx.label("unknown revision");
		ensure!(got.is_err(), "{what} succeeded although one of them does not exist");
		return Ok(())
	}
	let mut accepted = false;
	let mut wants = vec![];
	for o in &mold {
		for n in &mnew {
			let (mut to, mut tn) = (w.known.trees[o].clone(), w.known.trees[n].clone());
			// A modified file is kept as long as no checkout has to change it.
			let in_the_way = modified
				.keys()
				.any(|p| w.known.trees[&head].get(p) != to.get(p) || to.get(p) != tn.get(p));
			to.extend(modified.clone());
			tn.extend(modified.clone());
			let want = if in_the_way { None } else { expected(&to, &tn, pattern, &params)? };
			if !modified.is_empty() {
				ctx.label(if in_the_way { "modification in the way" } else { "modification kept" });
			}
			if o != n && want.as_ref().is_some_and(|d| !d.is_empty()) {
				ctx.nontrivial();
			}
			ctx.label(match (&want, effective, c.force) {
				(None, ..) => "unparsable file",
				(_, true, true) => "pulled and forced",
				(_, true, false) => "pulled",
				(_, false, true) => "forced",
				(_, false, false) => "plain",
			});
			let same = match (&want, &rows) {
				(None, None) => true,
				(Some(d), Some((rows, text))) =>
					if cli {
						normal(rows.clone()) == normal(csv_rows(d, params.unit))
					} else {
						*text == format!("{d:?}")
					},
				_ => false,
			};
			accepted |= same;
			wants.push(want.map(|d| csv_rows(&d, params.unit)));
		}
	}
	ensure!(
		accepted,
		"{what} gives {got:?} {rows:?}, expected one of {wants:?} for {mold:?} and {mnew:?}"
	);
	if effective && mold.iter().chain(&mnew).any(|h| !heads.values().any(|x| x == h)) {
		ctx.label("newer than the local branches");
	}
	Ok(())
}

fn check_commits(c: &CommitCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c20")?;
	let mut h = History::default();
	let mut cur = apply_ops(&mut h, "master".into(), &c.ops);
	let mut w = if c.remote {
		let b = bare(&tmp, "remote.git", &mut h, &cur)?;
		git(&tmp.0, &["clone", "-q", "remote.git", "repo"])?;
		World { dir: tmp.0.join("repo"), bare: Some(b), known: Known::default() }
	} else {
		World { dir: local(&tmp, "repo", &mut h, &cur)?, bare: None, known: Known::default() }
	};
	w.known.update(&h);
	for s in &c.steps {
		match s {
			Step::Compare(cmp) => {
				run_step(&mut w, cmp, ctx)?;
				// Whatever a refused comparison left behind.
				git(&w.dir, &["reset", "-q", "--hard"])?;
				ctx.evals(1);
			},
			Step::Checkout(r) => {
				let (name, m) = w.meaning(r, false, false)?;
				if m.is_some_and(|m| !m.is_empty()) {
					// Git does not look for `dev~1` at the remote.
					git_out(&w.dir, &["checkout", "-q", &name, "--"])?;
				}
			},
			Step::Place(r, pull, force, reset) => {
				let pull = *pull && w.bare.is_some();
				let (name, m) = w.meaning(r, *force || *reset, pull)?;
				let head = git(&w.dir, &["rev-parse", "HEAD"])?;
				let res = if *reset {
					subweight_core::git_reset(&w.dir, &name, pull)
				} else {
					subweight_core::git_checkout(&w.dir, &name, pull, *force)
				};
				let now = git(&w.dir, &["rev-parse", "HEAD"])?;
				let what = format!("checkout of {name:?} (pull {pull}, force {force}, reset {reset})");
				match m {
					None => {},
					Some(m) if m.is_empty() => {
						ensure!(res.is_err(), "{what} succeeded although there is none");
						ensure_eq!(now, head, "{what}: commit afterwards");
					},
					Some(m) => {
						ensure!(res.is_ok(), "{what}: {res:?}");
						ensure!(m.contains(&now), "{what} leads to {now}, expected {m:?}");
						let dirty = git(&w.dir, &["status", "--porcelain"])?;
						ensure_eq!(dirty, "", "{what}: working tree");
						ctx.label("placed");
					},
				}
				ctx.evals(1);
			},
			Step::Remote(ops) => {
				if let Some(b) = &w.bare {
					cur = apply_ops(&mut h, cur, ops);
					h.write(b)?;
					w.known.update(&h);
					ctx.label("remote moved");
				}
			},
			Step::Track(b) => {
				let b = BRANCHES[*b as usize % BRANCHES.len()];
				if tips(&w.dir, "refs/remotes/origin/")?.contains_key(b) && !tips(&w.dir, "refs/heads/")?.contains_key(b) {
					git(&w.dir, &["branch", "-q", b, &format!("origin/{b}")])?;
				}
			},
			Step::LocalCommit(edits) => {
				let head = git(&w.dir, &["rev-parse", "HEAD"])?;
				let mut tree = w.known.trees[&head].clone();
				for p in tree.keys() {
					harness(std::fs::remove_file(w.dir.join(p)), "remove")?;
				}
				for e in edits {
					apply_edit(&mut tree, e);
				}
				for (p, t) in &tree {
					let f = w.dir.join(p);
					harness(std::fs::create_dir_all(f.parent().unwrap()), "dir")?;
					harness(std::fs::write(f, t), "write")?;
				}
				git(&w.dir, &["add", "-A"])?;
				git(&w.dir, &["commit", "-q", "--allow-empty", "-m", "local"])?;
				let new = git(&w.dir, &["rev-parse", "HEAD"])?;
				w.known.add(&new, tree, vec![head]);
				ctx.label("local commit");
			},
		}
	}
	Ok(())
}

pub fn c20() -> Prop {
	Prop {
		id: "C20",
		rels: vec![rel_slow(
			"histories",
			"generated histories with branches, merges, tags, renames and force-pushes, then comparisons by branch, tag, hash, HEAD-relative and remote names, in-process and through the command line, mixed with checkouts, local commits and a moving remote; non-trivial: a comparison of two different commits with rows",
			700,
			12_000,
			150,
			commit_case,
			check_commits,
		), rel_slow(
			"moving branches",
			"the same with contents that differ in each commit and branches that move both here and at the remote between comparisons; non-trivial: a comparison of two different commits with rows",
			500,
			8_000,
			150,
			moving_case,
			check_commits,
		), commit_reports(300, 8_000)],
		assumptions: vec![
			"git itself, which is used to create the histories and to read references",
			"the working tree has no untracked files that match the pattern; without forced checkouts only unstaged modifications of tracked files",
			"branches and tags have different names; relative revisions are not judged for pulls",
		],
	}
}

// ------------------------------------------------------------------------------------------ C21

const PLACES: [&str; 20] = [
	"plain", "with space", "a[b]c", "st*r", "q?", "{x,y}", "[!a]", "ünï", "a..b", "-dash", "a,b", "x.rs", "mod.rs", "[[", "]", "b\\s", "#h%20", ".git-like",
	"**", "a/deep[1]/place",
];
const FILES: [&str; 22] = [
	"pallet_x.rs", "mod.rs", "my_mod.rs", "mod.rs.rs", "MOD.RS", "a b.rs", "ä.rs", "[x].rs", "x*.rs", "q?.rs", ".hidden.rs", "no_ext", "x.RS", "-dash.rs", "back\\slash.rs",
	"{a,b}.rs", "x.rs.bak", "weights.rs", "pallet_y.rs", "m.rs", "x.rs", "mod.rsx",
];
const DIRS: [&str; 13] = ["weights", "src", "runtime", "w.rs", ".cargo", "mod.rs", "a[1]", ".github", "sp ace", "frame", ".gitx", "dot.", " b"];

/// One component of a pattern.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Comp {
	Star,
	DeepStar,
	/// The name with its special characters escaped.
	Lit(String),
	/// The name with the n-th character replaced by `?`.
	Any(String, u8),
	/// The name with the n-th character replaced by a class that has it, or has it not.
	Class(String, u8, bool),
	Prefix(String, u8),
	Suffix(String, u8),
	Ends(&'static str),
}

fn esc(s: &str) -> String {
	s.chars()
		.map(|c| if matches!(c, '?' | '*' | '[' | ']') { format!("[{c}]") } else { c.to_string() })
		.collect()
}

impl Comp {
	fn src(&self) -> String {
		let cut = |s: &String, n: u8| {
			let c: Vec<char> = s.chars().collect();
			let i = n as usize % c.len();
			(c[..i].iter().collect::<String>(), c[i], c[i + 1..].iter().collect::<String>())
		};
		match self {
			Comp::Star => "*".into(),
			Comp::DeepStar => "**".into(),
			Comp::Lit(s) => esc(s),
			Comp::Any(s, n) => {
				let (a, _, b) = cut(s, *n);
				format!("{}?{}", esc(&a), esc(&b))
			},
			Comp::Class(s, n, has) => {
				let (a, c, b) = cut(s, *n);
				let c = if c.is_alphanumeric() { c } else { 'k' };
				let class = match (n % 3, has) {
					(0, true) => format!("[{c}_]"),
					(1, true) => format!("[!{}]", if c == 'q' { 'r' } else { 'q' }),
					(_, true) => "[a-z]".to_string(),
					(0, false) => format!("[!{c}]"),
					(_, false) => "[A-Z0-9]".to_string(),
				};
				format!("{}{class}{}", esc(&a), esc(&b))
			},
			Comp::Prefix(s, n) => {
				let (a, ..) = cut(s, *n);
				format!("{}*", esc(&a))
			},
			Comp::Suffix(s, n) => {
				let (_, c, b) = cut(s, *n);
				format!("*{}{}", esc(&c.to_string()), esc(&b))
			},
			Comp::Ends(e) => format!("*{e}"),
		}
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Piece {
	/// For each component of a file's path: how it is written. `deep`: where `**` is inserted and
	/// how many components it stands for.
	From(u8, Vec<(u8, u8)>, Option<(u8, u8)>),
	Fixed(String),
	Invalid(String),
}

fn piece() -> BoxedStrategy<Piece> {
	prop_oneof![
		8 => (any::<u8>(), vec((0u8..10, any::<u8>()), 4), prop::option::of((0u8..4, 0u8..3))).prop_map(|(f, c, d)| Piece::From(f, c, d)),
		5 => select(vec!["**/*.rs", "*.rs", "*", "**/*", "*/*.rs", "weights/*.rs", "**/weights/*.rs", "**/mod.rs", "*/mod.rs", "**/m*.rs", "**/?od.rs", "src/**/*.rs", "", "x.rs", "w.rs", ".git/**/*", ".git/HEAD", "**/HEAD", ".git/refs/heads/*", "**/.*", "**/*mod.rs", "*,", ".*/*.rs", ".?/pallet_x.rs", ".[.]/*/*.rs", "weights/.*/.*/*.rs", ".*/.*/**/pallet_x.rs", ".*/**/*", "src/.?/*.rs", ".*/.*/.*/.*/.*/.*/**/pallet_x.rs", "./*.rs", "./**/x.rs", "weights/./*.rs", "**/w.rs/*", "**/x.rs/**/*"]).prop_map(|s| Piece::Fixed(s.into())),
		1 => select(vec!["***", "a**", "**a/x.rs", "[", "x[!", "[]", "a/[z", "****"]).prop_map(|s| Piece::Invalid(s.into())),
	]
	.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PatternCase {
	place: u8,
	/// How the path of the repository is written.
	how: u8,
	/// (directories, name)
	files: Vec<(Vec<u8>, u8)>,
	pieces: Vec<Piece>,
	dup: bool,
	dots: u8,
	/// Relative to the number of unique matching files.
	max: Option<i8>,
	odd_branch: bool,
	/// Further files, some of them deep down.
	#[serde(default)]
	more: u16,
}

fn pattern_case() -> BoxedStrategy<PatternCase> {
	let file = (vec(0u8..DIRS.len() as u8, 0..4), prop_oneof![1 => Just(0u8), 1 => Just(1u8), 6 => 0u8..FILES.len() as u8]);
	(
		0u8..PLACES.len() as u8,
		0u8..8,
		vec(file, 1..10),
		vec(piece(), 1..4),
		prop_oneof![4 => Just(false), 1 => Just(true)],
		prop_oneof![12 => Just(0u8), 1 => 1u8..6],
		prop_oneof![2 => Just(None), 1 => (-3i8..3).prop_map(Some)],
		prop_oneof![2 => Just(false), 1 => Just(true)],
		prop_oneof![60 => Just(0u16), 1 => 20u16..600],
	)
		.prop_map(|(place, how, files, pieces, dup, dots, max, odd_branch, more)| PatternCase {
			place, how, files, pieces, dup, dots, max, odd_branch, more,
		})
		.boxed()
}

/// The pattern of one piece.
fn piece_src(p: &Piece, paths: &[String]) -> String {
	match p {
		Piece::Fixed(s) | Piece::Invalid(s) => s.clone(),
		Piece::From(f, how, deep) => {
			let names: Vec<&str> = paths[*f as usize % paths.len()].split('/').collect();
			let mut out: Vec<String> = names
				.iter()
				.enumerate()
				.map(|(i, n)| {
					let (h, k) = how[i % how.len()];
					let n = n.to_string();
					match h {
						0 => Comp::Any(n, k),
						1 => Comp::Class(n, k, true),
						2 => Comp::Class(n, k, false),
						3 => Comp::Prefix(n, k),
						4 => Comp::Suffix(n, k),
						5 => Comp::Star,
						6 if i + 1 == names.len() => Comp::Ends(".rs"),
						_ => Comp::Lit(n),
					}
					.src()
				})
				.collect();
			if let Some((at, n)) = deep {
				let at = *at as usize % out.len();
				let end = (at + *n as usize).min(out.len() - 1);
				out.splice(at..end, [Comp::DeepStar.src()]);
			}
			out.join("/")
		},
	}
}

/// Without the `.` of a pattern like `./weights/*.rs`.
fn plain_path(p: &str) -> String {
	p.split('/').filter(|c| *c != ".").collect::<Vec<_>>().join("/")
}

fn check_patterns(c: &PatternCase, ctx: &mut Ctx) -> Check {
	let mut paths = tree_paths(&c.files);
	for i in 0..c.more {
		let down: String = (0..if i % 9 == 0 { i / 9 % 30 } else { i % 3 }).map(|d| format!("d{d}/")).collect();
		paths.push(format!("more/{down}p{i}.rs"));
	}
	paths.sort();
	if c.more > 0 {
		ctx.label("many files");
	}
	let tmp = Tmp::new("c21")?;
	let place = PLACES[c.place as usize % PLACES.len()];
	let tree: Tree = paths
		.iter()
		.enumerate()
		.map(|(i, p)| (p.clone(), Content::Good(vec![((i % 200) as u8, 10 + i as u16, 1)]).text()))
		.collect();
	let mut h = History {
		commits: vec![Commit { parents: vec![], tree, hash: String::new() }],
		branches: BTreeMap::from([("master".to_string(), 0)]),
		..Default::default()
	};
	if c.odd_branch {
		h.branches.insert("x.rs".into(), 0);
		h.branches.insert("w.rs/pallet_x.rs".into(), 0);
	}
	// Decoys next to the repository, where a misread path could lead.
	let dir = local(&tmp, place, &mut h, "master")?;
	for d in ["b", "star", "qq", "x", "y", "z"] {
		let f = tmp.0.join(place.replace("[b]", d).replace('*', d).replace('?', d).replace("[!a]", d).replace("[1]", "1")).join("pallet_x.rs");
		if !f.starts_with(&dir) {
			let _ = std::fs::create_dir_all(f.parent().unwrap());
			let _ = std::fs::write(&f, Content::Good(vec![(99, 1, 1)]).text());
		}
	}
	harness(std::fs::write(tmp.0.join("pallet_x.rs"), Content::Good(vec![(98, 1, 1)]).text()), "decoy")?;
	let repo: PathBuf = match c.how {
		0 => format!("{}/", dir.display()).into(),
		1 => format!("{}//", dir.display()).into(),
		2 => format!("{}/.", dir.display()).into(),
		3 => {
			let link = tmp.0.join("link");
			harness(std::os::unix::fs::symlink(&dir, &link), "symlink")?;
			link
		},
		4 => tmp.0.join("sub/..").join(place),
		_ => dir.clone(),
	};
	if c.how == 4 {
		harness(std::fs::create_dir_all(tmp.0.join("sub")), "dir")?;
	}
	let mut pieces: Vec<String> = c.pieces.iter().map(|p| piece_src(p, &paths)).collect();
	// Commas in names divide as well.
	pieces = pieces.join(",").split(',').map(String::from).collect();
	if c.dup {
		pieces.push(pieces[0].clone());
	}
	let mut pattern = pieces.join(",");
	let dots = match c.dots {
		1 => Some(format!("../{pattern}")),
		2 => Some(format!("{pattern},../*/*.rs")),
		3 => Some(format!("weights/../{pattern}")),
		4 => Some(format!("{pattern},a..b")),
		5 => Some("..".into()),
		_ => None,
	};
	let refused = dots.is_some() || pattern.contains("..");
	if let Some(d) = dots {
		pattern = d;
	}
	let params = git_params(0, false, false, false);
	let run = |max: usize| compare_commits(&repo, "master", "HEAD", &params, &no_filter(), &pattern, max);
	let what = format!("pattern {pattern:?} in {}", repo.display());
	if refused {
		ctx.label("dots");
		ensure!(run(usize::MAX).is_err(), "{what} was accepted");
		return Ok(())
	}
	if c.pieces.iter().any(|p| matches!(p, Piece::Invalid(_))) || pieces.iter().any(|p| glob::Pattern::new(p).is_err()) {
		ctx.label("invalid pattern");
		ctx.nontrivial();
		ensure!(run(usize::MAX).is_err(), "{what} was accepted");
		return Ok(())
	}
	let want: BTreeSet<&String> = select_files(&pattern, paths.iter()).into_iter().collect();
	let total: usize = pieces.iter().map(|p| select_files(p, paths.iter()).len()).sum();
	if !want.is_empty() && want.len() < paths.len() {
		ctx.nontrivial();
	}
	if want.is_empty() {
		ctx.label("matches nothing");
	}
	if total > want.len() {
		ctx.label("overlapping patterns");
	}
	let rows = |files: Vec<&String>| -> BTreeSet<(String, String)> {
		files.into_iter().map(|p| (p.to_string(), format!("call_{}", paths.iter().position(|q| q == p).unwrap() % 200))).collect()
	};
	let exp = rows(want.iter().copied().collect());
	let judge = |max: usize| -> Result<bool, Fail> {
		let d = match run(max) {
			Ok(d) => d,
			Err(e) if max == usize::MAX => return Err(format!("{what}: {e}").into()),
			Err(_) => return Ok(false),
		};
		let got: Vec<(String, String)> = d.iter().map(|r| (plain_path(&r.file), r.name.clone())).collect();
		let unique: BTreeSet<_> = got.iter().cloned().collect();
		ensure!(
			unique.len() == got.len() && unique == exp,
			"files and calls of {what}: got {got:?}, expected {exp:?}"
		);
		Ok(true)
	};
	judge(usize::MAX)?;
	if let Some(m) = c.max {
		let max = (want.len() as i64 + m as i64).max(0) as usize;
		let accepted = judge(max)?;
		if want.len() > max {
			ctx.label("too many files");
			ensure!(!accepted, "{what} accepted {} files with a limit of {max}", want.len());
		} else if total <= max {
			ctx.label("just enough files");
			ensure!(accepted, "{what} refused {} files with a limit of {max}", want.len());
		}
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RelativeCase {
	/// Directories from the working directory of the program to the repository.
	place: Vec<u8>,
	/// How the path is written.
	how: u8,
	files: Vec<(Vec<u8>, u8)>,
	pieces: Vec<Piece>,
}

fn relative_case() -> BoxedStrategy<RelativeCase> {
	// Few names, so that the way to the repository appears again within it.
	let dirs = || vec(0u8..3, 0..4);
	let file = (dirs(), prop_oneof![4 => Just(0u8), 1 => Just(1u8), 2 => Just(20u8), 2 => 0u8..FILES.len() as u8]);
	let all = select(vec!["**/*.rs", "**/*.rs", "*/*.rs", "weights/**/*.rs", "src/*.rs", "weights/weights/*.rs", "*.rs", "weights/*", "**/pallet_x.rs", "*/*/*.rs"]).prop_map(|s| Piece::Fixed(s.into()));
	(dirs(), 0u8..6, vec(file, 1..6), vec(prop_oneof![2 => all, 1 => piece()], 1..3))
		.prop_map(|(place, how, files, pieces)| RelativeCase { place, how, files, pieces })
		.boxed()
}

/// The paths of files in the tree: a file cannot be a directory.
fn tree_paths(files: &[(Vec<u8>, u8)]) -> Vec<String> {
	let mut paths: BTreeSet<String> = BTreeSet::new();
	for (dirs, name) in files {
		let mut p: Vec<&str> = dirs.iter().map(|d| DIRS[*d as usize % DIRS.len()]).collect();
		p.push(FILES[*name as usize % FILES.len()]);
		let p = p.join("/");
		let clash = paths.iter().any(|q| *q == p || q.starts_with(&format!("{p}/")) || p.starts_with(&format!("{q}/")));
		if !clash {
			paths.insert(p);
		}
	}
	paths.into_iter().collect()
}

/// The program, called from elsewhere with a relative path to the repository.
fn check_relative(c: &RelativeCase, ctx: &mut Ctx) -> Check {
	let paths = tree_paths(&c.files);
	let pieces: Vec<String> = c.pieces.iter().map(|p| piece_src(p, &paths)).collect();
	let pattern = pieces.join(",");
	if pattern.contains("..") || pattern.split(',').any(|p| glob::Pattern::new(p).is_err()) {
		return Ok(())
	}
	let tmp = Tmp::new("c21")?;
	let place = c.place.iter().map(|d| DIRS[*d as usize % DIRS.len()]).collect::<Vec<_>>().join("/");
	let tree: Tree = paths
		.iter()
		.enumerate()
		.map(|(i, p)| (p.clone(), Content::Good(vec![((i % 200) as u8, 10 + i as u16, 1)]).text()))
		.collect();
	let mut h = History {
		commits: vec![Commit { parents: vec![], tree, hash: String::new() }],
		branches: BTreeMap::from([("master".to_string(), 0)]),
		..Default::default()
	};
	let home = format!("home/{place}");
	let dir = local(&tmp, home.trim_end_matches('/'), &mut h, "master")?;
	let mut cwd = tmp.0.join("home");
	let base = if place.is_empty() { "." } else { &place };
	let repo = match c.how {
		0 => format!("./{base}"),
		1 => format!("{base}/"),
		2 => {
			cwd = tmp.0.join("elsewhere/weights");
			harness(std::fs::create_dir_all(&cwd), "dir")?;
			format!("../../home/{base}")
		},
		// From within the repository.
		3 => {
			let first = paths.iter().find_map(|p| p.split_once('/').map(|x| x.0));
			cwd = dir.join(first.unwrap_or("."));
			if first.is_some() { ".." } else { "." }.into()
		},
		4 => {
			cwd = dir.clone();
			".".into()
		},
		_ => base.into(),
	};
	let args = ["compare", "commits", "master", "HEAD", "--method=base", "--threshold=0", "--format=csv", "--no-color"].map(String::from);
	let mut args = args.to_vec();
	args.extend([format!("--repo={repo}"), format!("--path-pattern={pattern}")]);
	let what = format!("{args:?} with {paths:?}");
	let o = subweight(&args, &cwd)?;
	o.no_panic(&what)?;
	ensure!(o.ok(), "{what}: {}", o.stderr);
	let rows = if o.stdout.trim() == "No changes found." {
		vec![]
	} else {
		parse_csv(&o.stdout)?.into_iter().skip(1).collect()
	};
	let mut got: Vec<(String, String)> = rows.iter().map(|r: &Vec<String>| (plain_path(&r[0]), r[1].clone())).collect();
	got.sort();
	let want: Vec<(String, String)> = select_files(&pattern, paths.iter())
		.into_iter()
		.map(|p| (p.to_string(), format!("call_{}", paths.iter().position(|q| q == p).unwrap())))
		.collect::<BTreeSet<_>>()
		.into_iter()
		.collect();
	if !place.is_empty() && want.iter().any(|(p, _)| p.starts_with(place.split('/').next().unwrap())) {
		ctx.label("the way to the repository appears in it");
	}
	if !want.is_empty() {
		ctx.nontrivial();
	}
	ensure_eq!(got, want, "files and calls of {}", what);
	Ok(())
}

pub fn c21() -> Prop {
	Prop {
		id: "C21",
		rels: vec![rel_slow(
			"patterns",
			"generated trees with odd file and directory names, at odd places, and lists of patterns derived from their paths or invalid; non-trivial: some but not all files match, or an invalid pattern",
			3_000,
			60_000,
			300,
			pattern_case,
			check_patterns,
		), rel_slow(
			"relative places",
			"repositories given by a relative path from another working directory, with few directory names that repeat within them; non-trivial: some files match",
			1_200,
			25_000,
			200,
			relative_case,
			check_relative,
		)],
		assumptions: vec![
			"file names are UTF-8 and the tree has no symbolic links",
			"with overlapping patterns, limits between the number of files and the number of matches are not judged",
		],
	}
}

// ------------------------------------------------------------------------------------------ C22

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Hostile {
	Fixed(String),
	/// `CANARY` stands for a file that must not come to be.
	Canary(String),
	/// A tree or blob of the history.
	Object(u8),
	/// Parts of names and syntax, joined.
	Mix(Vec<String>),
	Long(u16),
	/// Valid: so that the other one decides.
	Branch,
	Hash,
}

fn hostile() -> BoxedStrategy<Hostile> {
	let fixed = vec![
		"", " ", "-", "--", "---", ".", "..", "./", "../", "pallet_a.rs", "README.md", "weights", "weights/", ":/", ":", ":(glob)*", "*", "**/*.rs", "?", "[a]", "/", "/etc/hostname",
		"-b", "-bevil", "-B", "-Bdev", "--orphan=evil", "--orphan", "-d", "--detach", "-f", "--force", "-m", "--merge", "-p", "--patch", "--hard", "--soft", "-q", "--theirs", "--ours", "--all", "--prune",
		"--help", "-h", "--version", "--git-dir=/", "--work-tree=/", "-C", "-C/", "-cuser.name=x", "--exec-path", "--tags", "-t", "--no-tags", "--multiple", "--recurse-submodules", "--stdin", "--depth=1", "--unshallow", "--set-upstream",
		"--end-of-options", "--verify", "--pathspec-from-file=README.md", "--no-overlay", "--ignore-other-worktrees", "-l", "--track=direct", "--conflict=merge",
		"refs/heads/*", "refs/*", "refs/heads/d*", "ma*", "refs/tags/*", "refs/*/master", "heads/*", "+refs/heads/*", "+master", "+dev", "+v1.0", "+HEAD", "+", "++dev", "master:evil", "+master:evil", "refs/heads/master:refs/heads/evil", "+refs/heads/*:refs/heads/*", "refs/heads/*:refs/heads/*", ":master", ":refs/heads/dev", "+:dev", "master:refs/tags/evil", "^master", "^dev", "tag v1.0",
		"master dev", "master\ndev", "master\tdev", "master\0", "\0", "master;", "master|cat", "master&&true", "$HOME", "$(echo master)", "`echo master`", "'master'", "\"master\"", "\\master", "master\\", "%2e%2e",
		"master..dev", "master...dev", "HEAD..", "..HEAD", "^HEAD", "master^!", "master^@", "master^-", "master~999", "master^7", "HEAD~999999999999999999999", "master^{tree}", "master^{blob}", "HEAD^{tree}", "HEAD:", "HEAD:pallet_a.rs", "master:weights",
		":pallet_a.rs", ":0:pallet_a.rs", "HEAD^{/nosuchmessage}", ":/nosuchmessage", "@{-7}", "@{u}", "@{upstream}", "@{push}", "HEAD@{99999}", "HEAD@{0}~99", "dev@{0}~99", "HEAD@{0}^7", "master@{0}^{tree}", ":/^nosuch", "HEAD@{0}:weights", "@{0}~99", "HEAD~99@{0}", "HEAD@{yesterday}~99", "master@{2000-01-01", "stash", "stash@{0}", "FETCH_HEAD", "ORIG_HEAD", "MERGE_HEAD", "nosuchbranch",
		"refs/heads", "refs/heads/", "refs/heads/nosuch", "heads/nosuch", "origin", "origin/", "origin/nosuch", "origin/origin/master", "refs/remotes/origin", "0000000000000000000000000000000000000000", "deadbeef", "deadbeefdeadbeefdeadbeefdeadbeefdeadbeef", "g123456",
		"ünï", "🦀", "\u{202e}master", "master\u{0}--", "master.lock", "master/", "/master", "mas ter", "MASTER2", "a:b:c", "{", "}", "@{", "@{}", "~", "^", "~1", "^0", "HEAD^0~", "-1", "--1", "1", "file:///", "ssh://x/y", "ext::x",
	];
	let canary = vec![
		"--upload-pack=touch CANARY", "--upload-pack=touch CANARY;", "--upload-pack=touch${IFS}CANARY", "--exec=touch CANARY", "--output=CANARY", "-o CANARY", "-oCANARY", "; touch CANARY", "$(touch CANARY)", "`touch CANARY`", "| touch CANARY", "&& touch CANARY",
		"\n touch CANARY", "ext::sh -c touch% CANARY", "ext::touch CANARY", "master; touch CANARY", "master && touch CANARY", "-c core.sshCommand=touch CANARY", "--config=core.fsmonitor=touch CANARY", "-ccore.pager=touch CANARY", "--separate-git-dir=CANARY",
		"--template=CANARY", "--export-marks=CANARY", "--receive-pack=touch CANARY", "--negotiation-tip=$(touch CANARY)", "--server-option=touch CANARY", "CANARY", "> CANARY", ">CANARY", "master > CANARY", "--pathspec-from-file=CANARY", "--show-forced-updates=CANARY",
		"--refmap=refs/heads/*:CANARY", "--upload-pack touch CANARY", "-u touch CANARY", "--work-tree=CANARY",
	];
	let bits = vec!["-", "--", "master", "dev", "HEAD", "origin/", "refs/heads/", "v1.0", "~1", "^", "^{", "}", "@{", "1", ":", "+", "..", "/", "*", " ", "evil", "=", "pallet_a.rs", "\n", ".", "ü", "b", "force", "refs/tags/", "tree", "commit", "a1b2c3"];
	prop_oneof![
		12 => select(fixed).prop_map(|s| Hostile::Fixed(s.into())),
		5 => select(canary).prop_map(|s| Hostile::Canary(s.into())),
		8 => vec(select(bits).prop_map(String::from), 1..6).prop_map(Hostile::Mix),
		1 => any::<u8>().prop_map(Hostile::Object),
		1 => (1000u16..20000).prop_map(Hostile::Long),
		2 => Just(Hostile::Branch),
		1 => Just(Hostile::Hash),
	]
	.boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct RevCase {
	old: Hostile,
	new: Hostile,
	pull: bool,
	force: bool,
	cli: bool,
	/// Uncommitted changes: 1 modified, 2 staged, 4 untracked, 8 deleted, 16 detached HEAD.
	dirty: u8,
	ignore: bool,
	/// What the clone has of its own: 1 a moved tag, 2 a tag, 4 a commit on `dev`, 8 a stash; 16 a branch that is gone
	/// from the remote, 32 a moved tag there; 64 a branch with the new name if that starts with a dash.
	#[serde(default)]
	own: u8,
}

fn rev_case() -> BoxedStrategy<RevCase> {
	let valid = prop_oneof![Just(Hostile::Branch), Just(Hostile::Hash)];
	let revs = prop_oneof![
		3 => (hostile(), valid.clone()),
		3 => (valid, hostile()),
		2 => (hostile(), hostile()),
	];
	let own = prop_oneof![1 => Just(0u8), 2 => 0u8..128];
	(revs, any::<bool>(), any::<bool>(), prop_oneof![2 => Just(false), 1 => Just(true)], 0u8..32, any::<bool>(), own)
		.prop_map(|((old, new), pull, force, cli, dirty, ignore, own)| RevCase { old, new, pull, force, cli, dirty, ignore, own })
		.boxed()
}

#[derive(PartialEq, Debug)]
struct State {
	head: String,
	heads: BTreeMap<String, String>,
	tags: BTreeMap<String, String>,
	index: String,
	files: BTreeMap<String, Vec<u8>>,
	config: Vec<u8>,
	stash: bool,
}

fn state(dir: &Path) -> Result<State, Fail> {
	let all = refs(dir)?;
	let pick = |p: &str| all.iter().filter(|(n, _)| n.starts_with(p)).map(|(a, b)| (a.clone(), b.clone())).collect();
	Ok(State {
		head: harness(std::fs::read_to_string(dir.join(".git/HEAD")), "HEAD")?,
		heads: pick("refs/heads/"),
		tags: pick("refs/tags/"),
		index: git(dir, &["ls-files", "-s"])?,
		files: files(dir)?,
		config: harness(std::fs::read(dir.join(".git/config")), "config")?,
		stash: all.contains_key("refs/stash"),
	})
}

fn check_revs(c: &RevCase, ctx: &mut Ctx) -> Check {
	let tmp = Tmp::new("c22")?;
	let file = |n: u8, v: u16| Content::Good(vec![(n, v, 1)]).text();
	let tree = |v: u16| {
		Tree::from([
			("pallet_a.rs".to_string(), file(0, v)),
			("weights/pallet_b.rs".to_string(), file(1, v)),
			("README.md".to_string(), format!("read {v}")),
		])
	};
	let mut h = History::default();
	for i in 0..4u16 {
		let parents = if i == 0 { vec![] } else { vec![i as usize - 1] };
		h.commits.push(Commit { parents, tree: tree(100 + i), hash: String::new() });
	}
	h.branches = BTreeMap::from([("master".to_string(), 2), ("dev".to_string(), 1)]);
	h.tags = BTreeMap::from([("v1.0".to_string(), (0, true)), ("t".to_string(), (1, false))]);
	let remote = bare(&tmp, "remote.git", &mut h, "master")?;
	git(&tmp.0, &["clone", "-q", "remote.git", "repo"])?;
	let dir = tmp.0.join("repo");
	git(&dir, &["branch", "-q", "dev", "origin/dev"])?;
	// The remote is one commit ahead.
	h.branches.insert("dev".into(), 3);
	h.write(&remote)?;
	if c.dirty & 16 != 0 {
		git(&dir, &["checkout", "-q", "--detach", "HEAD~1", "--"])?;
	}
	let write = |p: &str, t: &str| harness(std::fs::write(dir.join(p), t), "dirt");
	if c.own & 1 != 0 {
		git(&dir, &["tag", "-f", "t", &h.commits[0].hash])?;
	}
	if c.own & 2 != 0 {
		git(&dir, &["tag", "mine", &h.commits[1].hash])?;
	}
	if c.own & 4 != 0 {
		let hash = git(&dir, &["commit-tree", "-p", "dev", "-m", "unpushed", "dev^{tree}"])?;
		git(&dir, &["update-ref", "refs/heads/dev", hash.trim()])?;
	}
	if c.own & 8 != 0 {
		write("README.md", "stashed")?;
		git(&dir, &["stash", "-q"])?;
	}
	if c.own & 16 != 0 {
		git(&remote, &["update-ref", "-d", "refs/heads/master"])?;
	}
	if c.own & 32 != 0 {
		git(&remote, &["update-ref", "refs/tags/t", &h.commits[2].hash])?;
	}
	if c.dirty & 1 != 0 {
		write("README.md", "modified")?;
	}
	if c.dirty & 2 != 0 {
		write("weights/pallet_b.rs", &file(1, 999))?;
		git(&dir, &["add", "weights/pallet_b.rs"])?;
	}
	if c.dirty & 4 != 0 {
		write("untracked.txt", "mine")?;
	}
	if c.dirty & 8 != 0 {
		harness(std::fs::remove_file(dir.join("pallet_a.rs")), "dirt")?;
	}
	let canary = tmp.0.join("canary");
	let text = |r: &Hostile| -> Result<String, Fail> {
		Ok(match r {
			Hostile::Fixed(s) => s.clone(),
			Hostile::Canary(s) => s.replace("CANARY", &canary.display().to_string()),
			Hostile::Object(n) => {
				let objs = git(&dir, &["rev-list", "--objects", "--filter=tree:9", "--all"])?;
				let objs: Vec<&str> = objs.lines().filter(|l| l.contains(' ')).map(|l| l.split(' ').next().unwrap()).collect();
				objs[*n as usize % objs.len()].to_string()
			},
			Hostile::Mix(v) => v.concat(),
			Hostile::Long(n) => "a".repeat(*n as usize),
			Hostile::Branch => "dev".into(),
			Hostile::Hash => h.commits[1].hash.clone(),
		})
	};
	let (old, new) = (text(&c.old)?, text(&c.new)?);
	// Git makes no such branches itself, but accepts the ones that are there.
	let dash = c.own & 64 != 0 && new.starts_with('-') && !new.contains('\0');
	let dash = dash && git_out(&dir, &["check-ref-format", &format!("refs/heads/{new}")])?.ok();
	let dash = dash && git_out(&dir, &["update-ref", &format!("refs/heads/{new}"), &h.commits[0].hash])?.ok();
	if dash {
		ctx.label("branch with a dash");
	}
	// Certainly not a commit, neither here nor at the remote.
	let remote_refs = refs(&remote)?;
	let invalid = |s: &str| -> Result<bool, Fail> {
		if s.contains('\0') {
			return Ok(true)
		}
		for name in [s.to_string(), format!("origin/{s}"), format!("refs/heads/{s}")] {
			// Not appended to the name, which may give it another meaning.
			let object = git_out(&dir, &["-c", "core.disambiguate=committish", "rev-parse", "--verify", "--quiet", "--end-of-options", &name])?;
			let hash = object.stdout.trim().trim_start_matches('^').to_string();
			if object.ok() && !name.starts_with('^') && git_out(&dir, &["cat-file", "-e", &format!("{hash}^{{commit}}")])?.ok() {
				return Ok(false)
			}
		}
		if c.pull {
			let known = |n: String| remote_refs.contains_key(&n);
			if s.is_empty() {
				return Ok(true)
			}
			if s == "HEAD" || ["", "refs/", "refs/heads/", "refs/tags/"].iter().any(|p| known(format!("{p}{s}"))) {
				return Ok(false)
			}
			// What `fetch` itself understands as a single name.
			if s.len() == 40 && git_out(&remote, &["cat-file", "-e", &format!("{s}^{{commit}}")])?.ok() {
				return Ok(false)
			}
		}
		Ok(true)
	};
	let refused = invalid(&old)? || invalid(&new)?;
	let before = state(&dir)?;
	let remote_before = refs(&remote)?;
	let params = git_params(0, c.ignore, c.pull, c.force);
	let what = format!("{old:?} against {new:?} (pull {}, force {}, dirty {})", c.pull, c.force, c.dirty);
	let cli = c.cli && !old.contains('\0') && !new.contains('\0');
	let failed = if cli {
		let mut args: Vec<String> = ["compare", "commits", "--method=base", "--threshold=0", "--format=csv", "--path-pattern=**/*.rs"].map(String::from).to_vec();
		args.push(format!("--repo={}", dir.display()));
		for (on, name) in [(c.ignore, "--ignore-errors"), (c.pull, "--git-pull"), (c.force, "--git-force")] {
			if on {
				args.push(name.into());
			}
		}
		args.extend(["--".into(), old.clone(), new.clone()]);
		let o = subweight(&args, &tmp.0)?;
		o.no_panic(&what)?;
		if o.ok() {
			None
		} else {
			o.refused(&what)?;
			Some(o.stderr)
		}
	} else {
		compare_commits(&dir, &old, &new, &params, &no_filter(), "**/*.rs", usize::MAX).err().map(|e| e.to_string())
	};
	ensure!(!canary.exists(), "{what} created a file of its choice");
	let strangers: Vec<_> = harness(std::fs::read_dir(&tmp.0), "dir")?
		.filter_map(|e| Some(e.ok()?.file_name().to_string_lossy().into_owned()))
		.filter(|n| n != "repo" && n != "remote.git")
		.collect();
	ensure!(strangers.is_empty(), "{what} created {strangers:?}");
	ensure_eq!(refs(&remote)?, remote_before, "remote after {}", what);
	let after = state(&dir)?;
	ensure_eq!(after.heads, before.heads, "branches after {}", what);
	ensure_eq!(after.config, before.config, "configuration after {}", what);
	ensure_eq!(after.stash, before.stash, "stash after {}", what);
	// Fetching follows tags, but never moves or removes one.
	for (t, hash) in &before.tags {
		ensure_eq!(after.tags.get(t), Some(hash), "tag {} after {}", t, what);
	}
	if !c.pull {
		ensure_eq!(after.tags, before.tags, "tags after {}", what);
	}
	if refused {
		ctx.nontrivial();
		ctx.label("not a commit");
		let Some(msg) = failed else {
			return Err(Fail::Violation(format!("{what} succeeded although one of them is not a commit")))
		};
		ensure!(!msg.trim().is_empty(), "{what}: empty error");
		ensure_eq!(after.head, before.head, "HEAD after {} was refused", what);
		ensure_eq!(after.index, before.index, "index after {} was refused", what);
		ensure_eq!(after.files, before.files, "working tree after {} was refused", what);
	} else {
		ctx.label("possibly a commit");
		if failed.is_none() {
			ctx.label("succeeded");
			// A checkout that took it for an option may even leave no commit at all.
			if dash && !c.pull {
				ctx.nontrivial();
				let head = git_out(&dir, &["rev-parse", "--verify", "--quiet", "HEAD"])?;
				ensure_eq!(head.stdout.trim(), h.commits[0].hash, "what is checked out after {}", what);
			}
		}
		if c.dirty & 4 != 0 {
			ensure_eq!(after.files.get("untracked.txt").map(|v| &v[..]), Some(&b"mine"[..]), "untracked file after {}", what);
		}
		let known: BTreeSet<&str> = before.files.keys().map(|s| s.as_str()).chain(["pallet_a.rs", "weights/pallet_b.rs", "README.md"]).collect();
		for f in after.files.keys() {
			ensure!(known.contains(f.as_str()), "{what} created {f}");
		}
	}
	Ok(())
}

pub fn c22() -> Prop {
	Prop {
		id: "C22",
		rels: vec![rel_slow(
			"revisions",
			"option-, path-, refspec- and shell-like revision strings and random compositions of their parts, as old, new or both, in a clone with uncommitted changes; non-trivial: one of them denotes no commit",
			900,
			25_000,
			200,
			rev_case,
			check_revs,
		)],
		assumptions: vec![
			"git itself decides which strings denote a commit",
			"fetching may add tags and update remote-tracking branches",
		],
	}
}
