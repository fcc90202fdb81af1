//! Records codec and stream traces of the registered types.
fn main() { oct_verif_harness::codec::main(oct_verif_harness::types::all()) }
