//! Coverage-guided part of C05: any text through all parsers, and what they accept through display, evaluation,
//! comparison, filtering and sorting. What this finds is judged by the relations of the harness (`tools/fuzz.sh`).
#![no_main]
use libfuzzer_sys::fuzz_target;
use subweight_core::{parse::*, scope::*, term::*, *};

fuzz_target!(|data: &[u8]| {
	let Ok(text) = std::str::from_utf8(data) else { return };
	// Deep nesting overflows the stack of the parser library: a known finding.
	let mut depth = 0i32;
	for b in data {
		match b {
			b'(' | b'[' | b'{' | b'<' | b'!' | b'-' | b'*' | b'&' | b'|' | b'=' => depth += 1,
			b')' | b']' | b'}' => depth -= 1,
			_ => {},
		}
		if depth > 80 {
			return
		}
	}
	if ["return", "break", "else", "move", "yield", "dyn", "ref", "mut", "if", "box"].iter().any(|w| text.matches(w).count() > 40) {
		return
	}
	if let Ok(w) = storage::parse_content(text.to_string()) {
		let scope = SimpleScope::from_substrate();
		let _ = (w.weights.read.to_string(), w.weights.write.to_string(), w.weights.read.eval(&scope), w.weights.write.eval(&scope));
	}
	if let Ok(overhead::Weight::ExtrinsicBase(t) | overhead::Weight::BlockExecution(t)) = overhead::parse_content(text.to_string()) {
		for unit in Dimension::all() {
			let s = t.simplify(unit).unwrap();
			let _ = (s.to_string(), s.eval(&SimpleScope::from_substrate()));
		}
	}
	let Ok(exts) = pallet::parse_content("p".into(), text.to_string()) else { return };
	let filter = FilterParams { threshold: 1.0, change: None, extrinsic: None, pallet: None };
	for method in CompareMethod::all() {
		for unit in Dimension::all() {
			let params = CompareParams { method, unit, ignore_errors: false, git_pull: false, git_force: false, offline: true };
			for (old, new) in [(exts.clone(), exts.clone()), (exts.clone(), vec![]), (vec![], exts.clone())] {
				let mut diff = filter_changes(compare_files(old, new, &params, &filter).unwrap(), &filter);
				sort_changes(&mut diff);
				for t in diff.iter().filter_map(|r| r.term()) {
					let _ = (t.old.as_ref().map(|t| t.to_string()), t.new.as_ref().map(|t| t.to_string()), t.scope.to_string());
					let _ = (t.old_v.map(|v| unit.fmt_value(v)), t.new_v.map(|v| unit.fmt_value(v)));
				}
			}
		}
	}
});
