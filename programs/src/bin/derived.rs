//! The codec recorder on generated declarations.
#![allow(unused, unused_parens, non_camel_case_types, non_snake_case, non_upper_case_globals)]
use oct_verif_harness::cases;
use oct_verif_harness::gen::G;
use oct_verif_harness::json::J;
use oct_verif_harness::model::{var, M};
use oct_verif_harness::reg::Case;
use oct_verif_harness::rng::R;
use oct_verif_harness::types::{enm, strct, variant};
mod programs { include!(concat!(env!("PROGRAMS"), "/decl.rs")); }
include!(concat!(env!("PROGRAMS"), "/glue.rs"));
fn main() { oct_verif_harness::codec::main(all()) }
