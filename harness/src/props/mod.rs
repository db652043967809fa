pub mod cli;
pub mod compare;
pub mod forms;
pub mod gitprops;
pub mod names;
pub mod parse;
pub mod term;
pub mod webprops;

use crate::run::Prop;

pub fn all() -> Vec<fn() -> Prop> {
	vec![
		parse::c01, parse::c02, parse::c03, parse::c04, parse::c05, term::c06, term::c07, term::c08,
		compare::c09, compare::c10, compare::c11, compare::c12, compare::c13, compare::c14,
		compare::c15, compare::c16, compare::c17, cli::c18, cli::c19, gitprops::c20, gitprops::c21, gitprops::c22, webprops::c23, webprops::c24, webprops::c25, webprops::c26, webprops::c27, names::c28, forms::c29,
	]
}
