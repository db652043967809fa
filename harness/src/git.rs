//! Scratch git repositories with generated histories.

use crate::{
	props::{cli::run_cmd, parse::Tmp},
	run::*,
};
use serde::{Deserialize, Serialize};
use std::{
	collections::BTreeMap,
	io::Write,
	path::{Path, PathBuf},
	process::{Command, Stdio},
};

/// Keeps git away from the configuration of this machine.
pub fn isolate() {
	for (k, v) in [
		("GIT_CONFIG_GLOBAL", "/dev/null"),
		("GIT_CONFIG_SYSTEM", "/dev/null"),
		("GIT_CONFIG_NOSYSTEM", "1"),
		("GIT_TERMINAL_PROMPT", "0"),
		("GIT_PAGER", "cat"),
		("GIT_AUTHOR_NAME", "A"),
		("GIT_AUTHOR_EMAIL", "a@example.org"),
		("GIT_COMMITTER_NAME", "A"),
		("GIT_COMMITTER_EMAIL", "a@example.org"),
		("LC_ALL", "C.UTF-8"),
	] {
		std::env::set_var(k, v);
	}
	for k in ["GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_NAMESPACE", "GIT_SSH_COMMAND", "GIT_TRACE"] {
		std::env::remove_var(k);
	}
}

pub fn git_out(dir: &Path, args: &[&str]) -> Result<crate::props::cli::Out, Fail> {
	run_cmd(Command::new("git").args(args).current_dir(dir))
}

/// Runs a git command that has to succeed.
pub fn git(dir: &Path, args: &[&str]) -> Result<String, Fail> {
	let o = git_out(dir, args)?;
	if !o.ok() {
		return Err(Fail::Harness(format!("git {args:?} in {}: {}", dir.display(), o.stderr)))
	}
	Ok(o.stdout.trim_end().to_string())
}

pub type Tree = BTreeMap<String, String>;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Commit {
	pub parents: Vec<usize>,
	pub tree: Tree,
	/// Filled in when written.
	pub hash: String,
}

/// A history, and the names in it.
#[derive(Debug, Clone, Default)]
pub struct History {
	pub commits: Vec<Commit>,
	pub branches: BTreeMap<String, usize>,
	/// The flag says whether it is annotated.
	pub tags: BTreeMap<String, (usize, bool)>,
	pub written: usize,
	pub written_tags: Vec<String>,
}

impl History {
	pub fn index_of(&self, hash: &str) -> Option<usize> {
		self.commits.iter().position(|c| c.hash == hash)
	}
	/// The `n`th first-parent ancestor.
	pub fn ancestor(&self, mut c: usize, n: usize) -> Option<usize> {
		for _ in 0..n {
			c = *self.commits[c].parents.first()?;
		}
		Some(c)
	}
	/// Brings the repository up to date with what was added since the last write.
	pub fn write(&mut self, dir: &Path) -> Result<(), Fail> {
		let mut s: Vec<u8> = vec![];
		let who = |i: usize| format!("A <a@example.org> {} +0000", 1_700_000_000 + i);
		for i in self.written..self.commits.len() {
			let c = &self.commits[i];
			// A scratch name: the real names are set below.
			s.extend(format!("reset refs/verif/tmp\n\ncommit refs/verif/tmp\nmark :{}\ncommitter {}\ndata <<EOM\ncommit number {i}\nEOM\n", i + 1, who(i)).bytes());
			for (k, p) in c.parents.iter().enumerate() {
				let p = if *p < self.written { self.commits[*p].hash.clone() } else { format!(":{}", p + 1) };
				s.extend(format!("{} {p}\n", if k == 0 { "from" } else { "merge" }).bytes());
			}
			s.extend(b"deleteall\n");
			for (path, content) in &c.tree {
				s.extend(format!("M 100644 inline {}\ndata {}\n", quote(path), content.len()).bytes());
				s.extend(content.bytes());
				s.push(b'\n');
			}
			s.push(b'\n');
		}
		let at = |c: usize, written: usize, hash: &str| {
			if c < written { hash.to_string() } else { format!(":{}", c + 1) }
		};
		for (b, c) in &self.branches {
			s.extend(format!("reset refs/heads/{b}\nfrom {}\n\n", at(*c, self.written, &self.commits[*c].hash)).bytes());
		}
		for (t, (c, annotated)) in &self.tags {
			if self.written_tags.contains(t) {
				continue
			}
			let from = at(*c, self.written, &self.commits[*c].hash);
			if *annotated {
				s.extend(format!("tag {t}\nfrom {from}\ntagger {}\ndata 1\nt\n", who(*c)).bytes());
			} else {
				s.extend(format!("reset refs/tags/{t}\nfrom {from}\n\n").bytes());
			}
		}
		s.extend(b"reset refs/verif/tmp\nfrom 0000000000000000000000000000000000000000\n\ndone\n");
		let marks = dir.join("verif-marks");
		let mut child = harness(
			Command::new("git")
				.args(["fast-import", "--quiet", "--force", "--done"])
				.arg(format!("--export-marks={}", marks.display()))
				.current_dir(dir)
				.stdin(Stdio::piped())
				.stdout(Stdio::null())
				.stderr(Stdio::piped())
				.spawn(),
			"fast-import",
		)?;
		let _ = child.stdin.take().unwrap().write_all(&s);
		let out = harness(child.wait_with_output(), "fast-import")?;
		if !out.status.success() {
			return Err(Fail::Harness(format!("fast-import: {}", String::from_utf8_lossy(&out.stderr))))
		}
		for l in harness(std::fs::read_to_string(&marks), "marks")?.lines() {
			let (m, h) = l.trim_start_matches(':').split_once(' ').unwrap_or(("0", ""));
			let i = m.parse::<usize>().unwrap_or(0);
			if i > 0 && i <= self.commits.len() {
				self.commits[i - 1].hash = h.to_string();
			}
		}
		let _ = std::fs::remove_file(&marks);
		self.written = self.commits.len();
		self.written_tags = self.tags.keys().cloned().collect();
		Ok(())
	}
}

fn quote(p: &str) -> String {
	format!("\"{}\"", p.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}

/// A repository without a remote, with `branch` checked out.
pub fn local(tmp: &Tmp, name: &str, h: &mut History, branch: &str) -> Result<PathBuf, Fail> {
	let dir = tmp.0.join(name);
	harness(std::fs::create_dir_all(&dir), "scratch directory")?;
	git(&dir, &["init", "-q", "-b", branch])?;
	h.write(&dir)?;
	git(&dir, &["reset", "-q", "--hard"])?;
	Ok(dir)
}

/// A bare repository to clone from.
pub fn bare(tmp: &Tmp, name: &str, h: &mut History, branch: &str) -> Result<PathBuf, Fail> {
	let dir = tmp.0.join(name);
	harness(std::fs::create_dir_all(&dir), "scratch directory")?;
	git(&dir, &["init", "-q", "--bare", "-b", branch])?;
	h.write(&dir)?;
	Ok(dir)
}

/// All refs with what they point to.
pub fn refs(dir: &Path) -> Result<BTreeMap<String, String>, Fail> {
	Ok(git(dir, &["for-each-ref", "--format=%(refname) %(objectname) %(symref)"])?
		.lines()
		.filter_map(|l| l.split_once(' '))
		.map(|(a, b)| (a.to_string(), b.to_string()))
		.collect())
}

/// Every file of the working tree.
pub fn files(dir: &Path) -> Result<BTreeMap<String, Vec<u8>>, Fail> {
	fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) -> std::io::Result<()> {
		for e in std::fs::read_dir(d)? {
			let e = e?;
			let p = e.path();
			let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
			if rel == ".git" {
				continue
			}
			if e.file_type()?.is_dir() {
				walk(base, &p, out)?;
			} else {
				out.insert(rel, std::fs::read(&p)?);
			}
		}
		Ok(())
	}
	let mut out = BTreeMap::new();
	harness(walk(dir, dir, &mut out), "reading the working tree")?;
	Ok(out)
}

// -------------------------------------------------------------------------------------- Globs

/// Whether a path of `/`-separated names matches a glob: `*`, `?`, `[..]` within a name, `**` for
/// any number of directories.
pub fn glob_match(pattern: &str, path: &str) -> bool {
	fn comps(p: &[&str], t: &[&str]) -> bool {
		match p.split_first() {
			None => t.is_empty(),
			// Only ever stands for directories.
			Some((&"**", rest)) if rest.is_empty() => false,
			Some((&"**", rest)) => (0..t.len()).any(|i| comps(rest, &t[i..])),
			Some((c, rest)) => t.first().is_some_and(|n| name(&c.chars().collect::<Vec<_>>(), &n.chars().collect::<Vec<_>>())) && comps(rest, &t[1..]),
		}
	}
	fn name(p: &[char], t: &[char]) -> bool {
		match p.split_first() {
			None => t.is_empty(),
			Some(('*', rest)) => (0..=t.len()).any(|i| name(rest, &t[i..])),
			Some(('?', rest)) => !t.is_empty() && name(rest, &t[1..]),
			Some(('[', rest)) => {
				let Some(&c) = t.first() else { return false };
				let (neg, rest) = match rest.split_first() {
					Some(('!', r)) => (true, r),
					_ => (false, rest),
				};
				// The first character of a class is always a member.
				let end = 1 + rest[1..].iter().position(|c| *c == ']').unwrap();
				let set = &rest[..end];
				let mut hit = false;
				let mut i = 0;
				while i < set.len() {
					if i + 2 < set.len() && set[i + 1] == '-' {
						hit |= set[i] <= c && c <= set[i + 2];
						i += 3;
					} else {
						hit |= set[i] == c;
						i += 1;
					}
				}
				hit != neg && name(&rest[end + 1..], &t[1..])
			},
			Some((c, rest)) => t.first() == Some(c) && name(rest, &t[1..]),
		}
	}
	let p: Vec<&str> = pattern.split('/').filter(|c| *c != ".").collect();
	let t: Vec<&str> = path.split('/').collect();
	comps(&p, &t)
}

/// The files that a pattern list selects, in order.
pub fn select_files<'a>(patterns: &str, paths: impl Iterator<Item = &'a String>) -> Vec<&'a String> {
	paths
		.filter(|p| p.rsplit('/').next() != Some("mod.rs"))
		.filter(|p| patterns.split(',').any(|g| glob_match(g, p)))
		.collect()
}
