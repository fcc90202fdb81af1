//! Records codec and stream traces.
//!   codec types OUT
//!   codec rand OUT SEED COUNT [TAG]    random stream sessions
//!   codec huge OUT PART PARTS                     collections around the length limit
//!   codec script IN OUT                sessions generated from the specification
use crate::json::i;
use crate::json::s;
use crate::reg::{Case, Obj, U, W};
use crate::rng::R;
use crate::session::{InS, OutS};
use crate::trace::{call, T};
use crate::types;
use oct::encode::Output;
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::CString;

fn scratch(o: &dyn Obj, buf: &mut [u8]) -> Option<usize> {
	call(|| { let mut out = Output::new(buf); o.enc(&mut out).ok().map(|()| out.position()) }).flatten()
}

enum Item { Val(usize, Box<dyn Obj>), Raw(Vec<u8>), View }
enum Seg { Val(usize, usize), Raw(usize) }

struct Ctx<'a> { cs: &'a [Case], pool: Vec<usize>, groups: Vec<Vec<usize>>, buf: Vec<u8> }

/// Types that share an encoding: sequences of the same items, texts and bytes.
fn session(t: &mut T, c: &mut Ctx, r: &mut R) {
	r.bad = if r.one_in(5) { 3 } else { 0 };
	r.long = r.one_in(8);
	r.big = r.one_in(40);
	let n = r.pick(&[1, 1, 2, 2, 3, 5]);
	let mut items = Vec::new();
	let mut total = 0;
	for _ in 0..n {
		let ci = c.pool[r.below(c.pool.len() as u64) as usize];
		let Some(g) = c.cs[ci].gen else { continue };
		let Some(o) = call(|| g(r)) else { continue };
		if r.one_in(3) { let d: Vec<u8> = (0..r.below(6)).map(|_| r.u64() as u8).collect(); total += d.len(); items.push(Item::Raw(d)); }
		total += scratch(&*o, &mut c.buf).unwrap_or(0);
		if r.one_in(6) { items.push(Item::View) }
		items.push(Item::Val(ci, o));
	}
	r.bad = 0;
	let cap = match r.below(8) {
		0 => total + r.below(9) as usize,
		1 => total.saturating_sub(1),
		2 => r.below(total as u64 + 1) as usize,
		_ => total,
	};
	let mut out = OutS::new(t, cap);
	let mut segs = Vec::new();
	let mut k = 0;
	for it in &items {
		let p0 = out.out.position();
		match it {
			Item::View => out.view(t),
			Item::Raw(d) => { out.write(t, d); let p1 = out.out.position(); if p1 > p0 { segs.push(Seg::Raw(p1 - p0)) } }
			Item::Val(ci, o) => {
				k += 1;
				out.enc(t, c.cs[*ci].name, &**o);
				let p1 = out.out.position();
				segs.push(if out.last_ok { Seg::Val(*ci, k) } else { Seg::Raw(p1.saturating_sub(p0)) });
			}
		}
		if out.dead() { break }
	}
	if r.one_in(3) && !out.dead() { let room = out.out.remaining(); let d = vec![0xA5; room.min(100) + r.below(2) as usize]; out.write(t, &d); }
	if !out.dead() { out.view(t) }
	let written = out.end(t);
	// Read it back, followed by whatever.
	let mut b = written.clone();
	for _ in 0..r.pick(&[0, 0, 1, 3, 9]) { b.push(r.u64() as u8) }
	let cut = r.one_in(8);
	if cut { b.truncate(r.below(b.len() as u64 + 1) as usize) }
	let mut inp = InS::new(t, &b, if cut { "cut" } else { "out" });
	for g in &segs {
		let before = inp.inp.position();
		match g {
			Seg::Raw(n) => if r.one_in(2) { inp.read(t, *n) } else { inp.read_into(t, *n) },
			Seg::Val(ci, k) => {
				let mut di = *ci;
				if r.one_in(3) {
					let grp = c.groups.iter().find(|g| g.contains(ci)).unwrap();
					di = r.pick(grp);
				}
				match c.cs[di].dec {
					Some(dec) => {
						let same = c.cs[di].ty == c.cs[*ci].ty;
						let k = if cut { 0 } else { *k };
						if inp.dec(t, c.cs[di].name, dec, k, i64::from(!same)).is_none() { break }
						if inp.inp.position() < before { break }
					}
					None => break,
				}
			}
		}
	}
	match r.below(5) {
		0 => { let n = inp.inp.remaining(); inp.read_into(t, n.min(5000)); }
		1 => { let n = inp.inp.remaining() + r.pick(&[0, 1, 2, 1000]); if n < 5000 { inp.read_into(t, n); inp.read(t, n); } }
		2 => { inp.read(t, r.pick(&[usize::MAX, usize::MAX - 7, 1 << 63, 1 << 32])); inp.read(t, 1); }
		3 => { inp.read(t, 0); inp.read_into(t, 0); }
		_ => {}
	}
	// Mutations of one encoded value, decoded and encoded again.
	if !r.one_in(3) { return }
	for it in items.iter().rev().take(1) {
		if let Item::Val(ci, o) = it {
			let Some(n) = scratch(&**o, &mut c.buf) else { continue };
			if n > 2000 { continue }
			let base = c.buf[..n].to_vec();
			for _ in 0..3 {
				let mut m = base.clone();
				match r.below(7) {
					0 => { m.truncate(r.below(n as u64 + 1) as usize); }
					1 => { let at = r.below(m.len() as u64 + 1) as usize; m.insert(at, r.u64() as u8); }
					2 => { for _ in 0..2 { if !m.is_empty() { let at = r.below(m.len() as u64) as usize; m[at] = r.u64() as u8; } } }
					3 => { if !m.is_empty() { let at = r.below(m.len().min(4) as u64) as usize; m[at] = r.pick(&[0, 1, 2, 3, 4, 6, 0x7F, 0x80, 0xFF, 0xD8, 0xDC, 0xDE, 0xDF, 0xE0]); } }
					4 => { if !m.is_empty() { let at = r.below(m.len() as u64) as usize; m[at] = r.pick(&[0, 1, 0x7F, 0x80, 0xC0, 0xC2, 0xED, 0xF4, 0xF5, 0xFF, 0xD9, 0xDE]); } }
					5 => { if !m.is_empty() { let at = r.below(m.len() as u64) as usize; m[at] ^= 1 << r.below(8); } }
					_ => { m = (0..r.below(24)).map(|_| r.pick(&[0u8, 0, 1, 1, 2, 0x80, 0xC3, 0xA9, 0xFF, 0x41])).collect(); }
				}
				reencode(t, c, *ci, &m);
			}
		}
	}
}

fn reencode(t: &mut T, c: &mut Ctx, ci: usize, m: &[u8]) {
	let Some(dec) = c.cs[ci].dec else { return };
	let mut inp = InS::new(t, m, "raw");
	if let Some(o) = inp.dec(t, c.cs[ci].name, dec, 0, 0) {
		if c.cs[ci].gen.is_none() { return }
		let cap = scratch(&*o, &mut c.buf).unwrap_or(3);
		let mut out = OutS::new(t, cap);
		out.enc(t, c.cs[ci].name, &*o);
		out.end(t);
	}
}

fn one(t: &mut T, c: &mut Ctx, name: &str, o: Box<dyn Obj>) {
	let ci = c.cs.iter().position(|c| c.name == name).unwrap_or_else(|| panic!("no type {name}"));
	let n = scratch(&*o, &mut c.buf);
	let mut out = OutS::new(t, n.unwrap_or(2000));
	out.enc(t, name, &*o);
	let ok = out.last_ok;
	let b = out.end(t);
	if !ok { return }
	if let Some(dec) = c.cs[ci].dec {
		let mut inp = InS::new(t, &b, "out");
		inp.dec(t, name, dec, 1, 0);
	}
}

fn huge(t: &mut T, c: &mut Ctx, part: u32, parts: u32) {
	let mut count = 0;
	let mut mine = || { count += 1; count % parts == part };
	macro_rules! go { ($name:literal, $e:expr) => { if mine() { one(t, c, $name, Box::new(W($e))) } } }
	macro_rules! gu { ($name:literal, $e:expr) => { if mine() { one(t, c, $name, Box::new(U($e))) } } }
	for n in [65535, 65536, 65537, 131072] {
		go!("Vec<()>", vec![(); n]);
		gu!("[()]", vec![(); n].into_boxed_slice());
	}
	go!("Vec<u8>", (0..65535u32).map(|x| (x * 7) as u8).collect::<Vec<u8>>());
	go!("Vec<u8>", vec![3u8; 65536]);
	go!("LinkedList<()>", (0..65535).map(|_| ()).collect::<LinkedList<()>>());
	go!("LinkedList<()>", (0..65536).map(|_| ()).collect::<LinkedList<()>>());
	go!("String", format!("{}\u{20AC}", "a".repeat(65532)));
	go!("String", format!("{}\u{20AC}", "a".repeat(65533)));
	gu!("str", "b".repeat(65536).into_boxed_str());
	go!("CString", CString::new(vec![7u8; 65535]).unwrap());
	go!("CString", CString::new(vec![7u8; 65536]).unwrap());
	gu!("CStr", CString::new(vec![7u8; 65537]).unwrap().into_boxed_c_str());
	go!("HashSet<u32>", (0..65536u32).collect::<HashSet<u32>>());
	go!("HashMap<u16, Option<u8>>", (0..=65535u16).map(|x| (x, None)).collect::<HashMap<u16, Option<u8>>>());
	go!("SizedSlice<(), 70000>", (0..65535).map(|_| ()).collect::<oct::SizedSlice<(), 70000>>());
	go!("SizedSlice<(), 70000>", (0..65536).map(|_| ()).collect::<oct::SizedSlice<(), 70000>>());
	go!("SizedStr<70000>", "c".repeat(65535).parse::<oct::SizedStr<70000>>().unwrap());
	go!("SizedStr<70000>", "c".repeat(65536).parse::<oct::SizedStr<70000>>().unwrap());
	go!("[(); 70000]", [(); 70000]);
	go!("Vec<usize>", { let mut v = vec![1usize; 1000]; v[700] = 70000; v });
	go!("Box<Vec<u16>>", Box::new(vec![0x1234u16; 3000]));
}

/// Long values with an item without an encoding somewhere in them, and long encodings with something wrong somewhere.
fn far(t: &mut T, c: &mut Ctx, r: &mut R) {
	let n = r.pick(&[200, 255, 256, 257, 258, 300, 300, 400, 511, 513, 700]);
	let at = match r.below(4) { 0 => n - 1, 1 => r.pick(&[0, 1, 127, 128, 199]), _ => r.pick(&[254, 255, 256, 257, 270]).min(n - 1) };
	let big = r.pick(&[65536usize, 70000, usize::MAX, 1 << 32]);
	let neg = r.pick(&[32768isize, -32769, isize::MAX, isize::MIN]);
	let bad = !r.one_in(4);
	let u = |k: usize| if bad && k == at { big } else { k * 257 % 65536 };
	let i = |k: usize| if bad && k == at { neg } else { k as isize - 128 };
	let long = |k: usize| if bad && k == at { "x".repeat(65536) } else { format!("{k}") };
	// Encoded.
	match r.below(14) {
		0 => one(t, c, "Vec<usize>", Box::new(W((0..n).map(u).collect::<Vec<usize>>()))),
		1 => one(t, c, "Vec<isize>", Box::new(W((0..n).map(i).collect::<Vec<isize>>()))),
		2 => one(t, c, "LinkedList<usize>", Box::new(W((0..n).map(u).collect::<LinkedList<usize>>()))),
		3 => one(t, c, "SizedSlice<usize, 700>", Box::new(W((0..n).map(u).collect::<oct::SizedSlice<usize, 700>>()))),
		4 => one(t, c, "[usize; 300]", Box::new(W(core::array::from_fn::<usize, 300, _>(|k| u(k))))),
		5 => one(t, c, "[usize]", Box::new(U((0..n).map(u).collect::<Vec<usize>>().into_boxed_slice()))),
		6 => one(t, c, "HashSet<usize>", Box::new(W((0..n).map(u).collect::<HashSet<usize>>()))),
		7 => one(t, c, "HashMap<usize, usize>", Box::new(W((0..n).map(|k| (k, u(k))).collect::<HashMap<usize, usize>>()))),
		8 => one(t, c, "HashMap<usize, usize>", Box::new(W((0..n).map(|k| (u(k), k)).collect::<HashMap<usize, usize>>()))),
		9 => one(t, c, "Vec<String>", Box::new(W((0..n).map(long).collect::<Vec<String>>()))),
		10 => one(t, c, "LinkedList<String>", Box::new(W((0..n).map(long).collect::<LinkedList<String>>()))),
		11 => one(t, c, "Vec<Vec<usize>>", Box::new(W((0..n).map(|k| if k == at { (0..n).map(u).collect() } else { vec![k] }).collect::<Vec<Vec<usize>>>()))),
		12 => one(t, c, "HashMap<u8, u16>", Box::new(W((0..=255u8).map(|k| (k, u16::from(k) * 257)).collect::<HashMap<u8, u16>>()))),
		_ => one(t, c, "HashSet<u32>", Box::new(W((0..n as u32).map(|k| k.wrapping_mul(0x0101_0101)).collect::<HashSet<u32>>()))),
	}
	// Texts with wide characters around round lengths.
	let edge = r.pick(&[64usize, 128, 256, 256, 512, 1024, 1024, 2048, 4096]);
	let wide = r.pick(&['\u{E9}', '\u{20AC}', '\u{1F600}', '\u{7FF}', '\u{FFFF}']);
	let before = edge - r.below(4) as usize;
	let txt = format!("{}{wide}{}", "t".repeat(before), if r.one_in(2) { "u".repeat(r.below(40) as usize) } else { wide.to_string().repeat(r.below(40) as usize) });
	match r.below(6) {
		0 => one(t, c, "str", Box::new(U(txt.clone().into_boxed_str()))),
		1 => one(t, c, "SizedStr<70000>", Box::new(W(txt.parse::<oct::SizedStr<70000>>().unwrap()))),
		2 => one(t, c, "Vec<String>", Box::new(W(vec![txt.clone(), wide.to_string(), txt.clone()]))),
		_ => one(t, c, "String", Box::new(W(txt.clone()))),
	}
	let mut m = (txt.len() as u16).to_le_bytes().to_vec();
	m.extend_from_slice(txt.as_bytes());
	let k = (2 + before + r.below(6) as usize).min(m.len() - 1);
	m[k] = r.pick(&[0x80, 0xFF, 0xC3, 0xED, b'v']);
	let name = r.pick(&["String", "SizedStr<70000>"]);
	let ci = c.cs.iter().position(|c| c.name == name).unwrap();
	reencode(t, c, ci, &m);
	// Long writes and reads.
	let mut some = |r: &mut R, most: usize| (match r.below(4) { 0 => r.pick(&[0, 1, 7, 8, 9]), 1 => r.below(most as u64 + 3) as usize, 2 => most.saturating_add(r.below(3) as usize).saturating_sub(1), _ => r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024]) });
	let cap = r.pick(&[100usize, 256, 300, 600, 1030]);
	let mut out = OutS::new(t, cap);
	for _ in 0..1 + r.below(6) {
		let len = some(r, cap - out.out.position());
		let x = r.u64();
		out.write(t, &(0..len).map(|k| (x >> (k % 57)) as u8).collect::<Vec<_>>());
		if out.dead() { break }
	}
	let b = out.end(t);
	let mut inp = InS::new(t, &b, "out");
	for _ in 0..1 + r.below(6) {
		let len = some(r, b.len() - inp.inp.position().min(b.len()));
		if r.one_in(2) { inp.read(t, len) } else { inp.read_into(t, len) }
	}
	// Decoded: an encoding, written down here, with something wrong in one place.
	fn seq<X>(n: usize, f: impl Fn(usize) -> X) -> Vec<u8> where X: AsRef<[u8]> { let mut b = (n as u16).to_le_bytes().to_vec(); for k in 0..n { b.extend_from_slice(f(k).as_ref()) } b }
	let wrong = r.pick(&[0xD800u32, 0xDFFF, 0x110000, 0xFFFF_FFFF]);
	let ch = |k: usize| if k == at { wrong } else { 0x10FF00 + (k as u32 & 0xFF) }.to_le_bytes();
	let flag = r.pick(&[2u8, 3, 0x80, 0xFF]);
	let text = r.pick(&[0xFFu8, 0x80, 0xC3, 0xE2, 0xED, 0xF4]);
	let zero = r.one_in(2);
	let ascii = |k: usize| [if k == at { text } else { 97 + (k % 26) as u8 }];
	let (name, mut b) = match r.below(15) {
		0 => ("Vec<char>", seq(n, ch)),
		1 => ("LinkedList<char>", seq(n, ch)),
		2 => ("HashSet<char>", seq(n, ch)),
		3 => ("Vec<bool>", seq(n, |k| [if k == at { flag } else { (k % 2) as u8 }])),
		4 => ("Vec<NonZero<u32>>", seq(n, |k| if k == at { 0u32 } else { (k as u32) << 8 | 1 }.to_le_bytes())),
		5 => ("String", seq(n, ascii)),
		6 => ("SizedStr<300>", seq(n, ascii)),
		7 => ("SizedStr<300>", seq(n, |k| [97 + (k % 26) as u8])),
		8 => ("SizedSlice<u8, 300>", seq(n, |k| [k as u8])),
		9 => ("CString", seq(n, |k| [if k == at && zero { 0 } else { (k % 255) as u8 + 1 }])),
		10 => ("Vec<Option<u16>>", seq(n, |k| [if k == at { flag } else { 1 }, k as u8, (k >> 8) as u8])),
		11 => ("HashMap<u16, Option<u8>>", seq(n, |k| [k as u8, (k >> 8) as u8, if k == at { flag } else { 1 }, k as u8])),
		12 => ("Vec<String>", seq(n, |k| if k == at { vec![2, 0, b'a', text] } else { vec![1, 0, b'b'] })),
		13 => ("[char; 300]", (0..300).flat_map(ch).collect()),
		_ => ("Vec<u128>", seq(n, |k| (k as u128 * 0x0101_0101_0101_0101).to_le_bytes())),
	};
	match r.below(4) { 0 => { b.truncate(b.len() - r.pick(&[1usize, 2, 17, 100])); } 1 => b.extend_from_slice(&[9, 9, 9]), _ => {} }
	let ci = c.cs.iter().position(|c| c.name == name).unwrap_or_else(|| panic!("no type {name}"));
	reencode(t, c, ci, &b);
}

/// Streams beyond 65536 bytes.
fn distant(t: &mut T, c: &mut Ctx, r: &mut R) {
	let cap = r.pick(&[65536usize, 65540, 65600, 66000, 131080]);
	let first = r.pick(&[65530usize, 65530, 65535, 65536, 65537, 60000]).min(cap - 2);
	let mut out = OutS::new(t, cap);
	let x = r.u64();
	out.write(t, &(0..first).map(|k| (x >> (k % 57)) as u8).collect::<Vec<_>>());
	let types = ["u16", "u64", "String", "Vec<u8>", "usize", "bool", "(u8, u16, bool)"];
	let mut vals = vec![];
	for k in 0..6 {
		if out.dead() { break }
		if k == 2 && cap > 70000 { out.write(t, &vec![7; 65536 - r.below(9) as usize]); continue }
		let Some(ci) = c.cs.iter().position(|c| c.name == types[r.below(7) as usize]) else { continue };
		let o = (c.cs[ci].gen.unwrap())(r);
		if scratch(&*o, &mut c.buf).unwrap_or(0) > out.out.remaining() { out.write(t, &[1, 2, 3]); continue }
		out.enc(t, c.cs[ci].name, &*o);
		vals.push(ci);
	}
	if r.one_in(2) && !out.dead() { out.view(t) }
	let b = out.end(t);
	let mut inp = InS::new(t, &b, "out");
	if r.one_in(2) { inp.read(t, first) } else { inp.read_into(t, first) }
	if cap < 70000 { for ci in vals { if let Some(d) = c.cs[ci].dec { inp.dec(t, c.cs[ci].name, d, 0, 0); } } }
	else { inp.read(t, 60000); inp.read_into(t, 9); inp.read(t, 6000); inp.read(t, 3); }
	inp.read(t, 5);
	inp.read_into(t, 2);
}

fn script(t: &mut T, c: &mut Ctx, path: &str) {
	let text = std::fs::read_to_string(path).unwrap();
	let mut out: Option<OutS> = None;
	let mut written: Vec<u8> = vec![];
	let mut inp: Option<InS> = None;
	for line in text.lines().flat_map(|l| l.split('~')) {
		let (cmd, rest) = line.split_once(' ').unwrap_or((line, ""));
		let nums = || rest.split_whitespace().map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
		let bytes = || nums().iter().map(|x| *x as u8).collect::<Vec<u8>>();
		match cmd {
			"O" => { if let Some(o) = out.take() { written = o.end(t) } inp = None; out = Some(OutS::new(t, nums()[0])) }
			"W" => if let Some(o) = &mut out { if !o.dead() { o.write(t, &bytes()) } },
			"V" => if let Some(o) = &mut out { if !o.dead() { o.view(t) } },
			"E" => if let Some(o) = out.take() { written = o.end(t) },
			// A value given by its encoding (decoded outside of the trace).
			"P" => if let Some(o) = &mut out {
				let (name, b) = rest.split_once(" |").unwrap();
				let b: Vec<u8> = b.split_whitespace().map(|x| x.parse().unwrap()).collect();
				let case = c.cs.iter().find(|c| c.name == name).unwrap();
				let Some(dec) = case.dec else { continue };
				if case.gen.is_none() { continue }
				if let Some(Ok(x)) = call(|| dec(&mut oct::decode::Input::new(&b))) { if !o.dead() { o.enc(t, name, &*x) } }
			},
			"N" => { let b: &'static [u8] = Box::leak(written.clone().into_boxed_slice()); inp = Some(InS::new(t, b, "out")) }
			"I" => { let b: &'static [u8] = Box::leak(bytes().into_boxed_slice()); inp = Some(InS::new(t, b, "raw")) }
			"R" => if let Some(x) = &mut inp { x.read(t, nums()[0]) },
			"M" => if let Some(x) = &mut inp { x.read_into(t, nums()[0]) },
			"D" => if let Some(x) = &mut inp { if let Some(dec) = c.cs.iter().find(|c| c.name == rest).unwrap().dec { x.dec(t, rest, dec, 0, 0); } },
			// Decode these bytes alone and encode the result again.
			"X" => {
				let (name, b) = rest.split_once(" |").unwrap();
				let b: Vec<u8> = b.split_whitespace().map(|x| x.parse().unwrap()).collect();
				let ci = c.cs.iter().position(|c| c.name == name).unwrap();
				reencode(t, c, ci, &b);
			}
			"" => {}
			_ => panic!("bad script line {line}"),
		}
	}
	if let Some(o) = out.take() { o.end(t); }
}

pub fn main(cs: Vec<Case>) {
	let a: Vec<String> = std::env::args().collect();
	if a[1] == "types" { std::fs::write(&a[2], types::types_json(&cs)).unwrap(); return }
	let tag = if a[1] == "rand" { a.get(5).map(String::as_str).unwrap_or("any") } else { "any" };
	let has = |c: &Case, x: &str| c.tags.iter().any(|t| *t == x);
	let pool: Vec<usize> = (0..cs.len()).filter(|n| cs[*n].gen.is_some() && !has(&cs[*n], "huge") && (tag == "any" || has(&cs[*n], tag))).collect();
	let mut groups: Vec<(String, Vec<usize>)> = vec![];
	for (n, x) in cs.iter().enumerate() {
		if x.dec.is_none() && x.gen.is_none() { continue }
		let key = types::group_key(&x.ty);
		match groups.iter_mut().find(|g| g.0 == key) { Some(g) => g.1.push(n), None => groups.push((key, vec![n])) }
	}
	let groups = groups.into_iter().map(|g| g.1).collect();
	let mut c = Ctx { cs: &cs, pool, groups, buf: vec![0; 1 << 18] };
	match a[1].as_str() {
		"rand" => {
			let mut t = T::new(&a[2]);
			let seed: u64 = a[3].parse().unwrap();
			let n: u64 = a[4].parse().unwrap();
			let mut r = R::new(seed);
			for x in &cs {
				if let (Some(m), Some(sl)) = (x.max, x.slot) { t.ev("tmax", vec![("t", s(x.name)), ("max", i(m)), ("slot", i(sl))]); }
			}
			while (t.n as u64) < n { session(&mut t, &mut c, &mut r) }
			t.end();
		}
		"huge" => { let mut t = T::new(&a[2]); huge(&mut t, &mut c, a[3].parse().unwrap(), a[4].parse().unwrap()); t.end() }
		"far" => { let mut t = T::new(&a[2]); let mut r = R::new(a[3].parse().unwrap()); for k in 0..a[4].parse::<u32>().unwrap() { far(&mut t, &mut c, &mut r); if k % 25 == 0 { distant(&mut t, &mut c, &mut r) } } t.end() }
		"all" => { let mut t = T::new(&a[2]); let mut r = R::new(a[3].parse().unwrap()); crate::sweep::all(&mut t, &cs, &mut r, a[4].parse().unwrap(), a.get(5).map_or("any", String::as_str)); t.end() }
		"sweep" => {
			let mut t = T::new(&a[2]);
			let mut r = R::new(a[3].parse().unwrap());
			crate::sweep::runs(&mut t, &cs, &mut r, a[4] == "1");
			crate::sweep::ints(&mut t, &mut r);
			crate::sweep::lens(&mut t, &mut r, a[4] == "1");
			t.end()
		}
		"script" => { let mut t = T::new(&a[3]); script(&mut t, &mut c, &a[2]); t.end() }
		_ => std::process::exit(2),
	}
}
