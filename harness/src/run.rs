//! The check runner: drives proptest strategies through checks, in parallel, with fixed work and a
//! fixed seed; shrinks failures into replay files; counts what was covered.

use proptest::{
	strategy::{BoxedStrategy, Strategy, ValueTree},
	test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	fmt::Debug,
	hash::{Hash, Hasher},
	panic::{catch_unwind, AssertUnwindSafe},
	path::PathBuf,
	sync::{
		atomic::{AtomicBool, Ordering},
		Mutex,
	},
	time::{Duration, Instant},
};

#[derive(Debug, Clone)]
pub enum Fail {
	/// The code under test breaks the property.
	Violation(String),
	/// The check itself could not do its work.
	Harness(String),
}

impl From<String> for Fail {
	fn from(s: String) -> Self {
		Fail::Violation(s)
	}
}

pub type Check = Result<(), Fail>;

pub fn harness<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, Fail> {
	r.map_err(|e| Fail::Harness(format!("{what}: {e}")))
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($f:tt)*) => {
		if !$c {
			return Err($crate::run::Fail::Violation(format!($($f)*)));
		}
	};
}

#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($f:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if a != b {
			return Err($crate::run::Fail::Violation(format!(
				"{}: got {:?}, expected {:?}", format!($($f)*), a, b
			)));
		}
	}};
}

/// Per-case bookkeeping that a check fills in.
#[derive(Default)]
pub struct Ctx {
	pub labels: BTreeMap<String, u64>,
	nontrivial: bool,
	evals: u64,
	sample: Option<Value>,
}

impl Ctx {
	pub fn label(&mut self, l: impl Into<String>) {
		*self.labels.entry(l.into()).or_default() += 1;
	}
	/// Marks the case as non-trivial by the rule of the relation.
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
	/// Counts oracle evaluations beyond the one per case.
	pub fn evals(&mut self, n: u64) {
		self.evals += n;
	}
	/// What to write into the evidence as a sample instead of the raw input.
	pub fn sample(&mut self, v: Value) {
		self.sample = Some(v);
	}
}

thread_local! {
	static LAST_PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
		// The harness is compiled from its own directory, hence relative paths.
		let own = loc.0.starts_with("src/");
		let msg = info
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| info.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let msg = format!("panic at {}:{}: {}", loc.0, loc.1, msg);
		if std::env::var("VERIF_DEBUG").is_ok() {
			eprintln!("{msg}\n{}", std::backtrace::Backtrace::force_capture());
		}
		LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, own)));
	}));
}

/// Runs a check; a panic of the code under test is a violation, one of the harness is not.
pub fn guarded(f: impl FnOnce() -> Check) -> Check {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(_) => {
			let (msg, own) =
				LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("unknown panic".into(), true));
			Err(if own { Fail::Harness(msg) } else { Fail::Violation(msg) })
		},
	}
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
	Quick,
	Thorough,
}

pub struct ShardOut {
	pub cases: u64,
	pub evals: u64,
	pub nontrivial: HashSet<u64>,
	pub labels: BTreeMap<String, u64>,
	pub samples: Vec<Value>,
	pub fail: Option<(Value, Fail)>,
}

pub trait Rel: Send + Sync {
	fn name(&self) -> &'static str;
	fn rule(&self) -> &'static str;
	fn cases(&self, t: Tier) -> u64;
	fn max_threads(&self) -> usize;
	fn shard(&self, seed: [u8; 32], cases: u64, stop: &AtomicBool) -> ShardOut;
	fn replay(&self, v: &Value) -> Check;
	fn gen_samples(&self, n: usize) -> Vec<Value>;
}

pub struct Relation<T> {
	pub name: &'static str,
	/// How cases are made and what makes one non-trivial.
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub threads: usize,
	pub shrink: u32,
	/// A case that computes for so many seconds hangs. Only for cases that need milliseconds and no processes.
	pub limit: Option<u64>,
	pub strategy: fn() -> BoxedStrategy<T>,
	pub check: fn(&T, &mut Ctx) -> Check,
}

/// A relation over cheap in-process cases.
pub fn rel<T: Serialize + DeserializeOwned + Clone + Debug + Send + 'static>(
	name: &'static str,
	rule: &'static str,
	quick: u64,
	thorough: u64,
	strategy: fn() -> BoxedStrategy<T>,
	check: fn(&T, &mut Ctx) -> Check,
) -> Box<dyn Rel> {
	Box::new(Relation { name, rule, quick, thorough, threads: 8, shrink: 3000, limit: Some(100), strategy, check })
}

/// A relation whose cases run processes.
pub fn rel_slow<T: Serialize + DeserializeOwned + Clone + Debug + Send + 'static>(
	name: &'static str,
	rule: &'static str,
	quick: u64,
	thorough: u64,
	shrink: u32,
	strategy: fn() -> BoxedStrategy<T>,
	check: fn(&T, &mut Ctx) -> Check,
) -> Box<dyn Rel> {
	Box::new(Relation { name, rule, quick, thorough, threads: 8, shrink, limit: None, strategy, check })
}

impl<T: Serialize + DeserializeOwned + Clone + Debug + Send + 'static> Rel for Relation<T> {
	fn name(&self) -> &'static str {
		self.name
	}
	fn rule(&self) -> &'static str {
		self.rule
	}
	fn cases(&self, t: Tier) -> u64 {
		if t == Tier::Quick {
			self.quick
		} else {
			self.thorough
		}
	}
	fn max_threads(&self) -> usize {
		self.threads
	}
	fn gen_samples(&self, n: usize) -> Vec<Value> {
		let mut runner = TestRunner::new_with_rng(
			Config::default(),
			TestRng::from_seed(RngAlgorithm::ChaCha, &[7; 32]),
		);
		let s = (self.strategy)();
		(0..n)
			.map(|_| serde_json::to_value(s.new_tree(&mut runner).unwrap().current()).unwrap())
			.collect()
	}
	fn shard(&self, seed: [u8; 32], cases: u64, stop: &AtomicBool) -> ShardOut {
		let out = RefCell::new(ShardOut {
			cases: 0,
			evals: 0,
			nontrivial: HashSet::new(),
			labels: BTreeMap::new(),
			samples: vec![],
			fail: None,
		});
		let failed = RefCell::new(None::<Fail>);
		let cfg = Config {
			cases: cases as u32,
			failure_persistence: None,
			max_shrink_iters: self.shrink,
			max_shrink_time: 120_000,
			max_global_rejects: 10_000_000,
			max_local_rejects: 10_000_000,
			..Config::default()
		};
		let mut runner =
			TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
		// (number of the case, its input)
		let slot = Mutex::new((0u64, None::<T>));
		let over = AtomicBool::new(false);
		let me = std::fs::read_link("/proc/thread-self").map(|p| PathBuf::from("/proc").join(p).join("stat"));
		let res = std::thread::scope(|s| {
			let monitor = s.spawn(|| {
				let mut seen = (0, 0);
				while !over.load(Ordering::Relaxed) {
					std::thread::park_timeout(Duration::from_millis(1000));
					let (Some(limit), Some(cpu)) = (self.limit, me.as_ref().ok().and_then(|m| cpu_seconds(m))) else { continue };
					let s = slot.lock().unwrap();
					if seen.0 != s.0 {
						seen = (s.0, cpu);
					} else if let (Some(v), true) = (&s.1, cpu - seen.1 >= limit) {
						report_hang(self.name, serde_json::to_value(v).expect("serialisable"), limit)
					}
				}
			});
			let res = runner.run(&(self.strategy)(), |v| {
			if failed.borrow().is_none() && stop.load(Ordering::Relaxed) {
				return Ok(())
			}
			// Once a harness error happened there is nothing left to learn.
			if matches!(*failed.borrow(), Some(Fail::Harness(_))) {
				return Ok(())
			}
			let mut ctx = Ctx::default();
			{
				let mut s = slot.lock().unwrap();
				*s = (s.0 + 1, Some(v.clone()));
			}
			let r = guarded(|| (self.check)(&v, &mut ctx));
			{
				let mut s = slot.lock().unwrap();
				*s = (s.0 + 1, None);
			}
			if failed.borrow().is_none() {
				let mut o = out.borrow_mut();
				o.cases += 1;
				o.evals += ctx.evals;
				for (k, n) in ctx.labels {
					*o.labels.entry(k).or_default() += n;
				}
				if ctx.nontrivial {
					let val = serde_json::to_value(&v).expect("serialisable");
					let mut h = std::collections::hash_map::DefaultHasher::new();
					self.name.hash(&mut h);
					val.to_string().hash(&mut h);
					if o.nontrivial.insert(h.finish()) && o.samples.len() < 3 {
						o.samples.push(ctx.sample.unwrap_or(val));
					}
				}
			}
			match r {
				Ok(()) => Ok(()),
				Err(f) => {
					// While shrinking, a harness error is not a smaller violation.
					if matches!(f, Fail::Harness(_)) && failed.borrow().is_some() {
						return Ok(())
					}
					*failed.borrow_mut() = Some(f.clone());
					stop.store(true, Ordering::Relaxed);
					Err(TestCaseError::fail(format!("{f:?}")))
				},
			}
		});
			over.store(true, Ordering::Relaxed);
			monitor.thread().unpark();
			res
		});
		let mut o = out.into_inner();
		match res {
			Ok(()) => {},
			Err(TestError::Fail(_, v)) => {
				let input = serde_json::to_value(&v).unwrap();
				let first = failed.into_inner().unwrap_or(Fail::Harness("lost failure".into()));
				// The message belongs to the shrunk input.
				let f = match first {
					Fail::Harness(m) => Fail::Harness(m),
					v1 => match guarded(|| (self.check)(&v, &mut Ctx::default())) {
						Err(f @ Fail::Violation(_)) => f,
						_ => v1,
					},
				};
				o.fail = Some((input, f));
			},
			Err(TestError::Abort(r)) => {
				o.fail = Some((Value::Null, Fail::Harness(format!("generator gave up: {r}"))))
			},
		}
		o
	}
	fn replay(&self, v: &Value) -> Check {
		let v: T = harness(serde_json::from_value(v.clone()), "bad replay input")?;
		let (tx, rx) = std::sync::mpsc::channel();
		let check = self.check;
		std::thread::Builder::new()
			.stack_size(256 << 20)
			.spawn(move || tx.send(guarded(|| check(&v, &mut Ctx::default()))))
			.expect("threads can be spawned");
		// A thread's own time is gone with it, but nothing else computes here.
		let me = PathBuf::from("/proc/self/stat");
		let start = cpu_seconds(&me);
		loop {
			match rx.recv_timeout(Duration::from_millis(500)) {
				Ok(r) => return r,
				Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return Err(Fail::Harness("the check ended without a result".into())),
				Err(_) => {},
			}
			if let (Some(limit), Some(a), Some(b)) = (self.limit, start, cpu_seconds(&me)) {
				if b - a >= limit {
					return Err(Fail::Violation(format!("no result after {limit}s of computing")))
				}
			}
		}
	}
}

pub struct Prop {
	pub id: &'static str,
	pub rels: Vec<Box<dyn Rel>>,
	pub assumptions: Vec<&'static str>,
}

fn root() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()))
}

/// The processor time that a process or thread has used, from its `stat` file.
pub fn cpu_seconds(stat: &std::path::Path) -> Option<u64> {
	let s = std::fs::read_to_string(stat).ok()?;
	let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
	// In ticks, of which Linux has 100 per second.
	Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
}

/// Ends the run: the code under test did not come back from this input.
fn report_hang(rel: &str, input: Value, secs: u64) -> ! {
	let (prop, tier, seed) = *CURRENT.lock().unwrap();
	let text = format!("no result after {secs}s of computing");
	let coverage = json!({
		"evaluations": 1, "distinct_nontrivial": 0, "rule": "the run ended with the first hang", "samples": [],
		"per_relation": {}, "labels": {},
	});
	write_evidence_for(prop, tier, seed, coverage, secs as f64, 1, &[]);
	violation_line(prop, rel, &input, &text);
	std::process::exit(1)
}

static CURRENT: Mutex<(&str, Tier, u64)> = Mutex::new(("", Tier::Quick, 0));

fn violation_line(id: &str, rel: &str, input: &Value, msg: &str) {
	let dir = root().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let mut h = std::collections::hash_map::DefaultHasher::new();
	input.to_string().hash(&mut h);
	let file = dir.join(format!("{}-{:016x}.json", id, h.finish()));
	let body = json!({"property": id, "relation": rel, "message": msg, "input": input});
	std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap() + "\n").expect("replay must be writable");
	eprintln!("{} / {}: {}", id, rel, msg);
	println!("VIOLATION property={} replay={}", id, file.display());
}

fn seed_for(seed: u64, id: &str, rel: &str, shard: usize) -> [u8; 32] {
	let mut out = [0u8; 32];
	for i in 0..4u64 {
		// FNV-1a over the parts: stable across toolchains, unlike the std hasher.
		let mut h: u64 = 0xcbf29ce484222325 ^ (i.wrapping_mul(0x9e3779b97f4a7c15));
		for b in format!("{seed}/{id}/{rel}/{shard}/{i}").bytes() {
			h = (h ^ b as u64).wrapping_mul(0x100000001b3);
		}
		out[(i as usize) * 8..][..8].copy_from_slice(&h.to_le_bytes());
	}
	out
}

/// Cuts long strings and lists so that the evidence file stays small.
fn trim(v: Value, budget: usize) -> Value {
	let s = v.to_string();
	if s.len() <= budget {
		return v
	}
	let mut end = budget;
	while !s.is_char_boundary(end) {
		end -= 1;
	}
	json!(format!("{}… ({} bytes)", &s[..end], s.len()))
}

pub fn replay_input(prop: &Prop, rel: &str, input: &Value) -> Check {
	let r = prop
		.rels
		.iter()
		.find(|r| r.name() == rel)
		.ok_or_else(|| Fail::Harness(format!("no relation {rel}")))?;
	r.replay(input)
}

/// Known findings: lines `finding: property=<id> sig=<signature> <text>`.
fn known(id: &str) -> Vec<(String, String)> {
	let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
	text.lines()
		.filter_map(|l| l.strip_prefix("finding: "))
		.filter_map(|l| {
			let rest = l.strip_prefix(&format!("property={id} sig="))?;
			let (sig, text) = rest.split_once(' ')?;
			Some((sig.to_string(), text.to_string()))
		})
		.collect()
}

fn write_evidence(prop: &Prop, tier: Tier, seed: u64, coverage: Value, wall: f64, violations: u64) {
	write_evidence_for(prop.id, tier, seed, coverage, wall, violations, &prop.assumptions)
}

fn write_evidence_for(id: &str, tier: Tier, seed: u64, coverage: Value, wall: f64, violations: u64, assumptions: &[&str]) {
	let dir = root().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	let e = json!({
		"property": id,
		"tier": if tier == Tier::Quick { "quick" } else { "thorough" },
		"seed": seed,
		"level": "exploration",
		"coverage": coverage,
		"assumptions": assumptions,
		"wall_s": (wall * 1000.0).round() / 1000.0,
		"violations": violations,
	});
	std::fs::write(
		dir.join(format!("{id}.json")),
		serde_json::to_string_pretty(&e).unwrap() + "\n",
	)
	.expect("evidence must be writable");
}

pub fn run(prop: &Prop, tier: Tier, seed: u64) -> i32 {
	let start = Instant::now();
	*CURRENT.lock().unwrap() = (prop.id, tier, seed);
	let only = std::env::var("VERIF_ONLY").ok();
	let (mut evals, mut labels, mut samples, mut rules, mut per) =
		(0u64, BTreeMap::new(), vec![], vec![], BTreeMap::new());
	let mut nontrivial: HashSet<u64> = HashSet::new();
	let mut violation: Option<(String, Value, String)> = None;

	for (sig, text) in known(prop.id) {
		// A listed finding names its exact input: `sig` is the file of the replay.
		let file = root().join("findings").join(format!("{sig}.json"));
		let still = std::fs::read_to_string(&file)
			.ok()
			.and_then(|s| serde_json::from_str::<Value>(&s).ok())
			.map(|v| replay_input(prop, v["relation"].as_str().unwrap_or(""), &v["input"]));
		if let Some(Err(Fail::Violation(_))) = still {
			println!("KNOWN-FINDING: property={} {}", prop.id, text);
		}
	}

	// Saved inputs of earlier failures: a plain regression tier that bypasses the generators.
	let dir = root().join("regressions").join(prop.id);
	let mut files: Vec<_> = std::fs::read_dir(&dir)
		.map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
		.unwrap_or_default();
	files.sort();
	let mut n_reg = 0u64;
	for f in files {
		if only.is_some() {
			break
		}
		let Ok(v) = std::fs::read_to_string(&f)
			.map_err(|e| e.to_string())
			.and_then(|s| serde_json::from_str::<Value>(&s).map_err(|e| e.to_string()))
		else {
			eprintln!("unreadable regression {}", f.display());
			return 2
		};
		n_reg += 1;
		match replay_input(prop, v["relation"].as_str().unwrap_or(""), &v["input"]) {
			Ok(()) => {},
			Err(Fail::Violation(m)) => {
				violation = Some((v["relation"].as_str().unwrap_or("").into(), v["input"].clone(), m));
				break
			},
			Err(Fail::Harness(m)) => {
				eprintln!("regression {} could not be decided: {m}", f.display());
				return 2
			},
		}
	}
	evals += n_reg;
	per.insert("saved inputs".to_string(), json!(n_reg));

	for r in &prop.rels {
		if violation.is_some() {
			break
		}
		if only.as_ref().is_some_and(|o| o != r.name()) {
			continue
		}
		if r.cases(tier) == 0 {
			continue
		}
		let t0 = Instant::now();
		let scale: f64 =
			std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
		let total = ((r.cases(tier) as f64 * scale) as u64).max(1);
		// A fixed number of shards, so that the cases do not depend on the machine.
		let shards = r.max_threads() as u64;
		let stop = AtomicBool::new(false);
		let outs = Mutex::new(Vec::new());
		std::thread::scope(|s| {
			for i in 0..shards {
				let (outs, stop, r) = (&outs, &stop, r.as_ref());
				let n = total / shards + u64::from(i < total % shards);
				if n == 0 {
					continue
				}
				std::thread::Builder::new()
					.stack_size(256 << 20)
					.spawn_scoped(s, move || {
						let o = r.shard(seed_for(seed, prop.id, r.name(), i as usize), n, stop);
						outs.lock().unwrap().push((i, o));
					})
					.expect("threads can be spawned");
			}
		});
		let mut outs = outs.into_inner().unwrap();
		outs.sort_by_key(|(i, _)| *i);
		let mut cases = 0;
		let mut nt = 0;
		let mut rel_samples = vec![];
		for (_, o) in outs {
			cases += o.cases;
			evals += o.cases + o.evals;
			nt += o.nontrivial.len();
			nontrivial.extend(o.nontrivial);
			for (k, n) in o.labels {
				*labels.entry(format!("{}: {}", r.name(), k)).or_insert(0u64) += n;
			}
			rel_samples.extend(o.samples);
			if let Some((input, f)) = o.fail {
				match f {
					Fail::Harness(m) => {
						eprintln!("{} / {}: the check could not decide: {m}", prop.id, r.name());
						if violation.is_none() {
							return 2
						}
					},
					Fail::Violation(m) => {
						if violation.is_none() {
							violation = Some((r.name().into(), input, m));
						}
					},
				}
			}
		}
		for s in rel_samples.into_iter().take(2) {
			samples.push(json!({"relation": r.name(), "case": trim(s, 1200)}));
		}
		rules.push(format!("{}: {}", r.name(), r.rule()));
		per.insert(r.name().to_string(), json!({"cases": cases, "nontrivial": nt}));
		eprintln!(
			"{} / {}: {} cases, {} non-trivial, {:.1}s",
			prop.id,
			r.name(),
			cases,
			nt,
			t0.elapsed().as_secs_f64()
		);
	}

	let coverage = json!({
		"evaluations": evals,
		"distinct_nontrivial": nontrivial.len(),
		"rule": rules.join(" | "),
		"samples": samples,
		"per_relation": per,
		"labels": labels,
	});
	write_evidence(
		prop,
		tier,
		seed,
		coverage,
		start.elapsed().as_secs_f64(),
		u64::from(violation.is_some()),
	);
	if let Some((rel, input, msg)) = violation {
		violation_line(prop.id, &rel, &input, &msg);
		return 1
	}
	0
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
	s.boxed()
}
