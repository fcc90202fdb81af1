//! Declarations generated by tools/derive.py.
#![allow(dead_code, unused, non_camel_case_types, non_snake_case, non_upper_case_globals, unreachable_code, unreachable_patterns, overflowing_literals, unused_parens)]
include!(concat!(env!("PROGRAMS"), "/decl.rs"));
