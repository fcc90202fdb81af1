//! Stream sessions: one output stream, then one input stream over what was written.
use crate::errs::E;
use crate::json::{bytes, i, s, J};
use crate::reg::{DecFn, Obj};
use crate::trace::{call, T};
use oct::decode::Input;
use oct::encode::Output;

pub const GUARD: usize = 16;
/// What fresh memory around and inside buffers is filled with.
pub fn pat(j: usize) -> u8 { ((j * 37 + 101) % 256) as u8 }
pub fn region(cap: usize) -> Vec<u8> { (0..cap + 2 * GUARD).map(pat).collect() }

pub struct OutS<'a> { reg: *mut Vec<u8>, pub out: Output<'a>, dead: bool, pub last_ok: bool }

impl OutS<'_> {
	pub fn new(t: &mut T, cap: usize) -> Self {
		let reg = Box::into_raw(Box::new(region(cap)));
		let out = unsafe { Output::new(&mut (&mut *reg)[GUARD..GUARD + cap]) };
		t.ev("onew", vec![("cap", i(cap)), ("pos", i(out.position())), ("rem", i(out.remaining())), ("capn", i(out.capacity()))]);
		OutS { reg, out, dead: false, last_ok: false }
	}
	pub fn dead(&self) -> bool { self.dead }
	fn reg(&self) -> &[u8] { unsafe { &*self.reg } }
	fn tail(&self, mut f: Vec<(&'static str, J)>, r: &str, e: E, p0: usize) -> Vec<(&'static str, J)> {
		let p1 = self.out.position();
		f.push(("r", s(r)));
		f.push(("pos", J::I(p1.min(1 << 30) as i64)));
		if r == "ok" {
			let b = if p1 >= p0 && p1 <= self.out.capacity() { &self.reg()[GUARD + p0..GUARD + p1] } else { &[] };
			f.push(("b", bytes(b)));
		} else {
			f.push(("e", e.j()));
			f.push(("reg", bytes(self.reg())));
		}
		f
	}
	pub fn write(&mut self, t: &mut T, d: &[u8]) {
		let p0 = self.out.position();
		t.begin(&format!("Output::write {} bytes at {p0} of {}", d.len(), self.out.capacity()));
		let (r, e) = match call(|| self.out.write(d)) {
			None => { self.dead = true; ("panic", E::none()) }
			Some(Ok(())) => ("ok", E::none()),
			Some(Err(x)) => ("err", E::root("output", J::A(vec![i(x.capacity), i(x.position), i(x.count)]))),
		};
		let f = self.tail(vec![("d", bytes(d))], r, e, p0);
		t.ev("owrite", f);
	}
	pub fn enc(&mut self, t: &mut T, name: &str, o: &dyn Obj) {
		let v = o.val();
		let p0 = self.out.position();
		t.begin(&format!("encode {name} at {p0} of {}", self.out.capacity()));
		let (r, e) = match call(|| o.enc(&mut self.out)) {
			None => { self.dead = true; ("panic", E::none()) }
			Some(Ok(())) => ("ok", E::none()),
			Some(Err(e)) => ("err", e),
		};
		self.last_ok = r == "ok";
		// The value must not have been changed by encoding it.
		let v2 = o.val();
		let same = i64::from(v2 == v);
		let f = self.tail(vec![("t", s(name)), ("v", v), ("same", J::I(same))], r, e, p0);
		t.ev("oenc", f);
	}
	pub fn view(&mut self, t: &mut T) {
		let w = self.out.as_slice().to_vec();
		let a: &[u8] = self.out.as_ref();
		let b: &[u8] = std::borrow::Borrow::borrow(&self.out);
		let mut other = w.clone();
		let eq1 = self.out == *other.as_slice();
		let eq2 = self.out == other.as_slice();
		let eq3 = self.out == other.as_mut_slice();
		other.push(0);
		let ne = !(self.out == *other.as_slice());
		let mut flipped = w.clone();
		let ne2 = if let Some(x) = flipped.last_mut() { *x ^= 1; !(self.out == flipped.as_slice()) } else { true };
		// What lies behind the written part, or short of it, takes no part.
		let all = unsafe { std::slice::from_raw_parts(self.out.as_ptr(), self.out.capacity()) };
		let ends = (0..=all.len()).filter(|n| *n <= 8 || n.abs_diff(w.len()) <= 2 || *n == all.len());
		let mut room = vec![0xEE; 2 * w.len() + 20];
		let fair = ends.map(|n| all[..n].to_vec()).chain([other.clone(), flipped.clone()]).chain(crate::neighbours(&w)).all(|mut x| {
			let e = x == w;
			let both = x.len() > room.len() || { let mut o = Output::new(&mut room); o.write(&x).is_ok() && (self.out == o) == e && (o == self.out) == e && (self.out != o) != e };
			both && (self.out == *x.as_slice()) == e && (self.out == x.as_slice()) == e && (self.out == x.as_mut_slice()) == e
				&& (self.out != *x.as_slice()) != e && (self.out != x.as_slice()) != e && (self.out != x.as_mut_slice()) != e
		});
		// Another stream with the same written part, but another capacity and remainder.
		let mut buf = vec![0xEE; w.len() + 3];
		let mut o2 = Output::new(&mut buf);
		let eq4 = o2.write(&w).is_ok() && self.out == o2;
		let ne3 = o2.write(&[9]).is_ok() && self.out != o2;
		// And one whose written part differs.
		let mut o3 = Output::new(&mut other);
		let ne4 = if w.is_empty() { true } else { o3.write(&flipped).is_ok() && self.out != o3 && !(o3 == self.out) };
		let f = vec![
			("s", bytes(&w)), ("a", bytes(a)), ("bo", bytes(b)),
			("p", bytes(unsafe { std::slice::from_raw_parts(self.out.as_ptr(), w.len()) })),
			("cmp", J::A([eq1, eq2, eq3, eq4, ne, ne2, ne3, ne4, fair].iter().map(|x| J::I(i64::from(*x))).collect())),
			("pos", i(self.out.position())), ("rem", J::I(self.out.remaining().min(1 << 30) as i64)), ("capn", i(self.out.capacity())),
		];
		t.ev("oview", f);
	}
	/// Ends the stream; returns what was written.
	pub fn end(self, t: &mut T) -> Vec<u8> {
		let p = self.out.position().min(self.out.capacity());
		let w = self.reg()[GUARD..GUARD + p].to_vec();
		t.ev("oend", vec![("reg", bytes(self.reg()))]);
		drop(unsafe { Box::from_raw(self.reg) });
		w
	}
}

pub struct InS<'a> { buf: &'a [u8], pub inp: Input<'a> }
impl<'a> InS<'a> {
	/// `src`: "out" when the bytes start with what the preceding output stream wrote.
	pub fn new(t: &mut T, buf: &'a [u8], src: &str) -> Self {
		let inp = Input::new(buf);
		t.ev("inew", vec![("b", bytes(buf)), ("src", s(src)), ("pos", i(inp.position())), ("rem", i(inp.remaining())), ("capn", i(inp.capacity()))]);
		InS { buf, inp }
	}
	fn tail(&self, mut f: Vec<(&'static str, J)>) -> Vec<(&'static str, J)> {
		f.push(("pos", J::I(self.inp.position().min(1 << 30) as i64)));
		f.push(("rem", J::I(self.inp.remaining().min(1 << 30) as i64)));
		f.push(("capn", J::I(self.inp.capacity().min(1 << 30) as i64)));
		f
	}
	pub fn read(&mut self, t: &mut T, n: usize) {
		t.begin(&format!("Input::read {n} at {} of {}", self.inp.position(), self.buf.len()));
		let mut f = vec![("n", crate::json::big(n))];
		match call(|| self.inp.read(n)) {
			None => { f.push(("r", s("panic"))); }
			Some(Ok(d)) => {
				let off = (d.as_ptr() as usize).wrapping_sub(self.buf.as_ptr() as usize);
				f.push(("r", s("ok")));
				if d.len() <= self.buf.len() && off <= self.buf.len() - d.len() {
					f.push(("d", bytes(d)));
					f.push(("off", i(off)));
				} else {
					// Outside of the buffer: do not look at it.
					f.push(("d", J::A(vec![J::I(-1), i(d.len())])));
					f.push(("off", J::I(if d.is_empty() { self.inp.position() as i64 } else { -1 })));
				}
			}
			Some(Err(x)) => {
				f.push(("r", s("err")));
				f.push(("e", J::A(vec![i(x.capacity), i(x.position)])));
				f.push(("ec", crate::json::big(x.count)));
			}
		}
		let f = self.tail(f);
		t.ev("iread", f);
	}
	pub fn read_into(&mut self, t: &mut T, n: usize) {
		t.begin(&format!("Input::read_into {n} at {} of {}", self.inp.position(), self.buf.len()));
		let mut reg = region(n);
		let mut f = vec![("n", i(n))];
		match call(|| self.inp.read_into(&mut reg[GUARD..GUARD + n])) {
			None => { f.push(("r", s("panic"))); }
			Some(Ok(())) => { f.push(("r", s("ok"))); }
			Some(Err(x)) => {
				f.push(("r", s("err")));
				f.push(("e", J::A(vec![i(x.capacity), i(x.position), i(x.count)])));
			}
		}
		f.push(("reg", bytes(&reg)));
		let f = self.tail(f);
		t.ev("iinto", f);
	}
	/// `k`: the ordinal of the encoded value this should give back (0: none).
	/// `x`: 1 when it was encoded as a different, equivalent type.
	pub fn dec(&mut self, t: &mut T, name: &str, dec: DecFn, k: usize, x: i64) -> Option<Box<dyn Obj>> {
		t.begin(&format!("decode {name} at {} of {:?}", self.inp.position(), &self.buf[..self.buf.len().min(80)]));
		let mut f = vec![("t", s(name)), ("k", i(k)), ("x", J::I(x))];
		let mut got = None;
		match call(|| dec(&mut self.inp)) {
			None => { f.push(("r", s("panic"))); }
			Some(Ok(o)) => { f.push(("r", s("ok"))); f.push(("v", o.val())); got = Some(o); }
			Some(Err(e)) => { f.push(("r", s("err"))); f.push(("e", e.j())); }
		}
		let f = self.tail(f);
		t.ev("idec", f);
		got
	}
}
