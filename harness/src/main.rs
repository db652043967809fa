mod git;
mod lang;
mod props;
mod run;
mod web;

use run::*;

fn main() {
	install_panic_hook();
	let args: Vec<String> = std::env::args().collect();
	let usage = || -> ! {
		eprintln!("usage: verif run <ID> | replay <ID> <file> | sample <ID> <relation> <n> | list");
		std::process::exit(2)
	};
	let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
	if cmd == "list" {
		for p in props::all() {
			let p = p();
			println!("{}: {}", p.id, p.rels.iter().map(|r| r.name()).collect::<Vec<_>>().join(", "));
		}
		return
	}
	if cmd == "exercise" {
		let mut t = String::new();
		std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("text");
		let _ = std::panic::catch_unwind(|| props::parse::exercise_here(&t, &mut Ctx::default()));
		return
	}
	if cmd == "probe" {
		// For files on which the parser may not return: it is done in a process that can be ended.
		let mut t = String::new();
		std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("text");
		let _ = std::panic::catch_unwind(|| props::parse::only_parse(&t));
		return
	}
	let Some(id) = args.get(2) else { usage() };
	let Some(prop) = props::all().into_iter().map(|p| p()).find(|p| p.id == id) else {
		eprintln!("unknown property {id}");
		std::process::exit(2)
	};
	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
	let tier = match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => Tier::Thorough,
		_ => Tier::Quick,
	};
	// A hang is not a verdict: end with an error well before anybody else's limit.
	let limit = if tier == Tier::Quick { 800 } else { 6 * 3600 };
	std::thread::spawn(move || {
		std::thread::sleep(std::time::Duration::from_secs(limit));
		eprintln!("watchdog: no result after {limit}s");
		std::process::exit(4);
	});
	git::isolate();
	// Whatever the code under test does relative to the current directory must not reach anything.
	if std::env::var("VERIF_ROOT").is_err() {
		std::env::set_var("VERIF_ROOT", std::env::current_dir().expect("cwd"));
	}
	let file = args.get(3).map(|f| std::path::absolute(f).expect("absolute path"));
	let cwd = props::parse::Tmp::new("cwd").expect("scratch directory");
	std::env::set_current_dir(&cwd.0).expect("scratch directory");
	let code = match cmd {
		"run" => run(&prop, tier, seed),
		"replay" => {
			let Some(f) = file else { usage() };
			let f = f.display();
			let v: serde_json::Value =
				serde_json::from_str(&std::fs::read_to_string(f.to_string()).expect("readable replay")).expect("JSON");
			match replay_input(&prop, v["relation"].as_str().unwrap_or(""), &v["input"]) {
				Ok(()) => {
					println!("holds for {f}");
					0
				},
				Err(Fail::Violation(m)) => {
					eprintln!("{m}");
					println!("VIOLATION property={id} replay={f}");
					1
				},
				Err(Fail::Harness(m)) => {
					eprintln!("could not decide: {m}");
					2
				},
			}
		},
		"sample" => {
			let rel = args.get(3).cloned().unwrap_or_default();
			let n = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(3);
			for r in prop.rels.iter().filter(|r| r.name() == rel || rel.is_empty()) {
				for v in r.gen_samples(n) {
					println!("{} {}", r.name(), v);
				}
			}
			0
		},
		_ => usage(),
	};
	drop(cwd);
	std::process::exit(code);
}
