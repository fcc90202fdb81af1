//! Records histories over values behind locks, cells and lazy initialisers.
//!   cells script IN OUT
//!   cells race OUT SEED COUNT
//! A history: `kind v1 v2 ip ; step ; step ...`.  The content's own `encode`
//! stops before each of its two parts, so that other steps happen meanwhile.
use oct::encode::{Encode, Output};
use oct_verif_harness::errs::{E, EE};
use oct_verif_harness::item::BadItem;
use oct_verif_harness::json::{bytes, i, s, J};
use oct_verif_harness::rng::R;
use oct_verif_harness::trace::{call, T};
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::*;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, LazyLock, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError};
use std::thread::JoinHandle;
use std::time::Duration;

const SOON: Duration = Duration::from_millis(4);
const EVER: Duration = Duration::from_secs(20);

/// What the content's `encode` does before each part: tell, then wait.
type Stop = Box<dyn FnMut(&'static str)>;
thread_local! {
	static STOP: RefCell<Option<Stop>> = const { RefCell::new(None) };
	static MODE: Cell<i64> = const { Cell::new(0) };
}
fn stop(at: &'static str) { let f = STOP.with(|x| x.borrow_mut().take()); if let Some(mut f) = f { f(at); STOP.with(|x| { let mut y = x.borrow_mut(); if y.is_none() { *y = Some(f) } }) } }

/// Somebody is blocked for good: nothing more is recorded.
static STUCK: AtomicBool = AtomicBool::new(false);

/// A value of two parts.
#[derive(Clone, Copy, Debug)]
struct Two([u8; 2]);
impl Encode for Two {
	type Error = BadItem;
	fn encode(&self, o: &mut Output) -> Result<(), BadItem> {
		stop("enter");
		o.write(&[std::hint::black_box(self).0[0]]).unwrap();
		stop("mid");
		match MODE.with(Cell::get) { 1 => return Err(BadItem), 2 => panic!("content"), _ => {} }
		o.write(&[std::hint::black_box(self).0[1]]).unwrap();
		Ok(())
	}
}
static INITS: AtomicUsize = AtomicUsize::new(0);
static INITV: AtomicUsize = AtomicUsize::new(0);
/// The initialiser of the lazy ones; `INITV` says of what, and whether it panics.
fn init() -> Two {
	let x = INITV.load(Ordering::SeqCst);
	let (v, ip) = ([x as u8, (x >> 8) as u8], x >> 16 == 1);
	 INITS.fetch_add(1, Ordering::SeqCst); if ip { panic!("init") } Two(v) }

struct Out { r: &'static str, b: Vec<u8>, e: E }
fn encode<X: Encode<Error: EE> + ?Sized>(x: &X) -> Out {
	let mut buf = [0xD5u8; 16];
	let mut o = Output::new(&mut buf);
	o.write(&[0xA1]).unwrap();
	match call(|| x.encode(&mut o)) {
		None => Out { r: "panic", b: vec![], e: E::none() },
		Some(Ok(())) => { let b = o.as_slice()[1..].to_vec(); Out { r: "ok", b, e: E::none() } }
		Some(Err(e)) => { let b = o.as_slice()[1..].to_vec(); Out { r: "err", b, e: e.ee() } }
	}
}

enum Guard { M(MutexGuard<'static, Two>), W(RwLockWriteGuard<'static, Two>) }
enum Msg { At(&'static str), Done(Out) }
struct Job { rx: Receiver<Msg>, go: Sender<()>, h: JoinHandle<()> }

#[derive(Clone, Copy)]
enum K { Mutex(&'static Mutex<Two>), ArcMutex(&'static Arc<Mutex<Two>>), DynMutex(&'static Mutex<[Two]>), Rw(&'static RwLock<Two>), BoxRw(&'static Box<RwLock<Two>>), Lazy(&'static LazyLock<Two>) }

/// Shared containers: the encoder has a thread of its own.
struct Shared { k: K, w: Option<Guard>, dynw: Option<MutexGuard<'static, [Two]>>, rd: Vec<RwLockReadGuard<'static, Two>>, job: Option<Job>, waiting: bool }
fn leak<X>(x: X) -> &'static X { Box::leak(Box::new(x)) }
fn unpoison<G>(r: Result<G, TryLockError<G>>) -> Option<G> { match r { Ok(g) => Some(g), Err(TryLockError::Poisoned(p)) => Some(p.into_inner()), Err(TryLockError::WouldBlock) => None } }

impl Shared {
	fn new(kind: &str, v: [u8; 2]) -> Shared {
		let k = match kind {
			"mutex" => K::Mutex(leak(Mutex::new(Two(v)))),
			"arcmutex" => K::ArcMutex(leak(Arc::new(Mutex::new(Two(v))))),
			"dynmutex" => { let b: Box<Mutex<[Two]>> = Box::new(Mutex::new([Two(v)])); K::DynMutex(Box::leak(b)) }
			"rwlock" => K::Rw(leak(RwLock::new(Two(v)))),
			"boxrwlock" => K::BoxRw(leak(Box::new(RwLock::new(Two(v))))),
			"lazylock" => K::Lazy(leak(LazyLock::new(init))),
			_ => panic!("kind {kind}"),
		};
		Shared { k, w: None, dynw: None, rd: vec![], job: None, waiting: false }
	}
	fn m(&self) -> Option<&'static Mutex<Two>> { match self.k { K::Mutex(m) => Some(m), K::ArcMutex(m) => Some(m), _ => None } }
	fn rw(&self) -> Option<&'static RwLock<Two>> { match self.k { K::Rw(m) => Some(m), K::BoxRw(m) => Some(m), _ => None } }
	/// Could a writer (reader) get in now?
	fn free(&self) -> (i64, i64) {
		if self.w.is_some() || self.dynw.is_some() || self.waiting { return (-1, -1) }
		if let K::DynMutex(m) = self.k { return (i64::from(unpoison(m.try_lock()).is_some()), -1) }
		if let Some(m) = self.m() { return (i64::from(unpoison(m.try_lock()).is_some()), -1) }
		if let Some(l) = self.rw() { let w = unpoison(l.try_write()).is_some();
			let r = unpoison(l.try_read()).is_some();
			return (i64::from(w), i64::from(r));
		}
		(-1, -1)
	}
	fn wait(&mut self, how_long: Duration) -> (&'static str, Out) {
		let none = nothing();
		let job = self.job.as_ref().unwrap();
		match job.rx.recv_timeout(how_long) {
			Ok(Msg::At(x)) => { self.waiting = false; (x, none) }
			Ok(Msg::Done(o)) => { self.waiting = false; let j = self.job.take().unwrap(); let _ = j.h.join(); (o.r, o) }
			Err(RecvTimeoutError::Timeout) => { self.waiting = true; if how_long == EVER { STUCK.store(true, Ordering::SeqCst) } ("wait", none) }
			Err(RecvTimeoutError::Disconnected) => ("lost", none),
		}
	}
	fn step(&mut self, op: &str, n: &[i64], expect_wait: bool) -> Option<(&'static str, Out)> {
		let none = |r| Some((r, nothing()));
		let at = |k: usize| n.get(k).copied().unwrap_or(0);
		match op {
			"wlock" => {
				if self.w.is_some() || self.dynw.is_some() || self.waiting { return None }
				if let K::DynMutex(m) = self.k { self.dynw = unpoison(m.try_lock()); return none(if self.dynw.is_some() { "got" } else { "held" }) }
				self.w = if let Some(m) = self.m() { unpoison(m.try_lock()).map(Guard::M) } else { unpoison(self.rw()?.try_write()).map(Guard::W) };
				none(if self.w.is_some() { "got" } else { "held" })
			}
			"wset" => {
				let (k, v) = (at(0) as usize, at(1) as u8);
				if let Some(g) = &mut self.dynw { g[0].0[k] = v; return none("ok") }
				match self.w.as_mut()? { Guard::M(g) => g.0[k] = v, Guard::W(g) => g.0[k] = v }
				none("ok")
			}
			"wunlock" | "wpanic" => {
				let (g, d) = (self.w.take(), self.dynw.take());
				if g.is_none() && d.is_none() { return None }
				let _ = catch_unwind(AssertUnwindSafe(move || { let _g = (g, d); if op == "wpanic" { panic!("holder") } }));
				// The encoder that was waiting gets in.
				if self.waiting { let (x, o) = self.wait(EVER); return Some((x, o)) }
				none("ok")
			}
			"rlock" => { let g = unpoison(self.rw()?.try_read()); let r = g.is_some(); self.rd.extend(g); none(if r { "got" } else { "held" }) }
			"runlock" => { self.rd.pop()?; none("ok") }
			"force" => { if self.job.is_some() { return None } let K::Lazy(x) = self.k else { return None }; let r = call(|| LazyLock::force(x).0); none(if r.is_some() { "ok" } else { "panic" }) }
			"start" => {
				if self.job.is_some() { return None }
				let mode = at(0);
				let (tx, rx) = channel();
				let (go, gr) = channel::<()>();
				let (k, t2) = (self.k, tx.clone());
				let h = std::thread::spawn(move || {
					MODE.with(|m| m.set(mode));
					STOP.with(|x| *x.borrow_mut() = Some(Box::new(move |w| { let _ = t2.send(Msg::At(w)); let _ = gr.recv(); })));
					let o = match k { K::Mutex(x) => encode(x), K::ArcMutex(x) => encode(x), K::DynMutex(x) => encode_dyn(x), K::Rw(x) => encode(x), K::BoxRw(x) => encode(x), K::Lazy(x) => encode(x) };
					let _ = tx.send(Msg::Done(o));
				});
				self.job = Some(Job { rx, go, h });
				Some(self.wait(if expect_wait { SOON } else { EVER }))
			}
			"go" => { if self.waiting { return None } let j = self.job.as_ref()?; let _ = j.go.send(()); Some(self.wait(EVER)) }
			_ => panic!("bad step {op}"),
		}
	}
	fn end(&mut self) {
		self.w = None;
		self.dynw = None;
		self.rd.clear();
		while let Some(j) = &self.job { let _ = j.go.send(()); if self.wait(EVER).0 == "wait" { return } }
	}
}
/// A slice of one item: its length prefix is taken off.
fn encode_dyn(m: &Mutex<[Two]>) -> Out { let mut o = encode(m); if o.b.len() >= 2 && o.b[..2] == [1, 0] { o.b.drain(..2); } if o.r == "err" && o.e.p == [0] { o.e.p.clear() } o }

/// Containers of one thread: the steps in between run inside the content's `encode`.
#[derive(Clone, Copy)]
enum L { Ref(&'static RefCell<Two>), Cell(&'static Cell<Two>), Lazy(&'static LazyCell<Two>), LazyLock(&'static LazyLock<Two>) }

struct Rec<'a> { t: &'a mut T, q: VecDeque<(String, Vec<i64>)>, l: L, w: Option<std::cell::RefMut<'static, Two>>, rd: Vec<std::cell::Ref<'static, Two>>, busy: bool, entered: bool }
fn ev(t: &mut T, op: &str, n: &[i64], x: &'static str, o: Out, free: (i64, i64)) {
	t.ev("c", vec![("op", s(op)), ("n", J::A(n.iter().map(|x| J::I(*x)).collect())), ("x", s(x)), ("b", bytes(&o.b)), ("e", o.e.j()), ("w", J::I(free.0)), ("rd", J::I(free.1)), ("inits", i(INITS.load(Ordering::SeqCst)))]);
}
impl Rec<'_> {
	fn free(&self) -> (i64, i64) {
		let L::Ref(c) = self.l else { return (-1, -1) };
		if self.w.is_some() { return (-1, -1) }
		let w = c.try_borrow_mut().is_ok();
		let r = c.try_borrow().is_ok();
		(i64::from(w), i64::from(r))
	}
	/// Runs steps; inside an encoding until the next "go".
	fn run(&mut self, inside: bool) {
		while let Some((op, n)) = self.q.pop_front() {
			if op == "go" { if inside { return } continue }
			let at = |k: usize| n.get(k).copied().unwrap_or(0);
			let x = match (op.as_str(), self.l) {
				("wlock", L::Ref(c)) => { if self.w.is_some() { continue } self.w = c.try_borrow_mut().ok(); if self.w.is_some() { "got" } else { "held" } }
				("wset", L::Ref(_)) => { let Some(g) = &mut self.w else { continue }; g.0[at(0) as usize] = at(1) as u8; "ok" }
				("wset", L::Cell(c)) => { let mut v = c.get(); v.0[at(0) as usize] = at(1) as u8; c.set(v); "ok" }
				("wunlock" | "wpanic", L::Ref(_)) => { if self.w.take().is_none() { continue } "ok" }
				("rlock", L::Ref(c)) => { let g = c.try_borrow().ok(); let r = g.is_some(); self.rd.extend(g); if r { "got" } else { "held" } }
				("runlock", L::Ref(_)) => { if self.rd.pop().is_none() { continue } "ok" }
				("force", L::Lazy(c)) => if self.busy { continue } else if call(|| LazyCell::force(c).0).is_some() { "ok" } else { "panic" },
				("force", L::LazyLock(c)) => if self.busy { continue } else if call(|| LazyLock::force(c).0).is_some() { "ok" } else { "panic" },
				("start", _) => { if self.busy { continue } self.start(&n); continue }
				_ => continue,
			};
			let f = self.free();
			ev(self.t, &op, &n, x, nothing(), f);
		}
	}
	fn start(&mut self, n: &[i64]) {
		MODE.with(|m| m.set(n.first().copied().unwrap_or(0)));
		self.busy = true;
		self.entered = false;
		let me: *mut Rec<'static> = std::ptr::from_mut(self).cast();
		let n2 = n.to_vec();
		STOP.with(|x| *x.borrow_mut() = Some(Box::new(move |w| {
			// Only one of them runs at any time.
			let me = unsafe { &mut *me };
			let f = me.free();
			let (op, n): (_, &[i64]) = if me.entered { ("go", &[]) } else { ("start", &n2) };
			ev(me.t, op, n, w, nothing(), f);
			me.entered = true;
			me.run(true);
		})));
		let o = match self.l { L::Ref(c) => encode(c), L::Cell(c) => encode(c), L::Lazy(c) => encode(c), L::LazyLock(c) => encode(c) };
		STOP.with(|x| x.borrow_mut().take());
		self.busy = false;
		let f = self.free();
		let (op, n): (_, &[i64]) = if self.entered { ("go", &[]) } else { ("start", n) };
		ev(self.t, op, n, o.r, o, f);
	}
}
fn nothing() -> Out { Out { r: "", b: vec![], e: E::none() } }

fn history(t: &mut T, line: &str) {
	let mut steps = line.split(';').map(str::trim);
	let w: Vec<&str> = steps.next().unwrap().split_whitespace().collect();
	let (kind, v, ip): (&str, [u8; 2], bool) = (w[0], [w[1].parse().unwrap(), w[2].parse().unwrap()], w[3] == "1");
	let q: VecDeque<(String, Vec<i64>)> = steps.filter(|x| !x.is_empty()).map(|x| { let mut y = x.split_whitespace(); (y.next().unwrap().to_string(), y.map(|z| z.parse().unwrap()).collect()) }).collect();
	INITS.store(0, Ordering::SeqCst);
	INITV.store(usize::from(v[0]) | usize::from(v[1]) << 8 | usize::from(ip) << 16, Ordering::SeqCst);
	t.begin(line);
	t.ev("cnew", vec![("kind", s(kind)), ("v", bytes(&v)), ("ip", i(usize::from(ip)))]);
	let l = match kind {
		"refcell" => L::Ref(leak(RefCell::new(Two(v)))),
		"cell" => L::Cell(leak(Cell::new(Two(v)))),
		"lazycell" => L::Lazy(leak(LazyCell::new(init))),
		"lazylock1" => L::LazyLock(leak(LazyLock::new(init))),
		_ => {
			let mut z = Shared::new(kind, v);
			for (op, n) in q {
				let held = z.w.is_some() || z.dynw.is_some();
				let Some((x, o)) = z.step(&op, &n, held) else { continue };
				let f = z.free();
				ev(t, &op, &n, x, o, f);
				if STUCK.load(Ordering::SeqCst) { break }
			}
			if !STUCK.load(Ordering::SeqCst) { z.end() }
			return;
		}
	};
	let mut z = Rec { t, q, l, w: None, rd: vec![], busy: false, entered: false };
	z.run(false);
}

/// Encoders against writers that change the value all the time.
fn race(t: &mut T, r: &mut R) {
	macro_rules! atomic { ($k:literal, $a:ty, $p:ty) => {{
		let (x, y) = (r.u64() as $p, r.u64() as $p);
		let a = leak(<$a>::new(x));
		running(t, $k, vec![x.to_le_bytes().to_vec(), y.to_le_bytes().to_vec()], move || encode(a), move |k| a.store(if k % 2 == 0 { y } else { x }, Ordering::Relaxed));
	}} }
	macro_rules! wide { ($k:literal, $a:ty, $p:ty) => {{
		// Only values that fit sixteen bits are encodable.
		let (x, y) = (r.u64() as u16 as i16 as $p & 0x7FFF, r.u64() as u16 as i16 as $p & 0x7FFF);
		let a = leak(<$a>::new(x));
		running(t, $k, vec![(x as i16).to_le_bytes().to_vec(), (y as i16).to_le_bytes().to_vec()], move || encode(a), move |k| a.store(if k % 2 == 0 { y } else { x }, Ordering::Relaxed));
	}} }
	let (v, w) = (std::array::from_fn(|_| r.u64() as u8), std::array::from_fn(|_| r.u64() as u8));
	match r.below(15) {
		0 => atomic!("AtomicU8", AtomicU8, u8),
		1 => atomic!("AtomicU16", AtomicU16, u16),
		2 => atomic!("AtomicU32", AtomicU32, u32),
		3 => atomic!("AtomicU64", AtomicU64, u64),
		4 => atomic!("AtomicI8", AtomicI8, i8),
		5 => atomic!("AtomicI16", AtomicI16, i16),
		6 => atomic!("AtomicI32", AtomicI32, i32),
		7 => atomic!("AtomicI64", AtomicI64, i64),
		8 => wide!("AtomicUsize", AtomicUsize, usize),
		9 => wide!("AtomicIsize", AtomicIsize, isize),
		10 => { let a = leak(AtomicBool::new(false)); running(t, "AtomicBool", vec![vec![0], vec![1]], move || encode(a), move |k| a.store(k % 2 == 0, Ordering::Relaxed)) }
		11 => { let a = leak(Mutex::new(Two(v))); running(t, "mutex", vec![v.to_vec(), w.to_vec()], move || encode(a), move |k| { let mut g = a.lock().unwrap(); g.0[0] = [v, w][k % 2][0]; g.0[1] = [v, w][k % 2][1] }) }
		12 => { let a = leak(RwLock::new(Two(v))); running(t, "rwlock", vec![v.to_vec(), w.to_vec()], move || encode(a), move |k| { let mut g = a.write().unwrap(); g.0[0] = [v, w][k % 2][0]; g.0[1] = [v, w][k % 2][1] }) }
		13 => { let a = leak(Arc::new(Mutex::new(vec![v, w]))); let (x, y): (Vec<u8>, Vec<u8>) = ([2u16.to_le_bytes(), v, w].concat(), [1u16.to_le_bytes(), w].concat()); running(t, "mutex", vec![x, y], move || encode(a), move |k| { let mut g = a.lock().unwrap(); *g = if k % 2 == 0 { vec![w] } else { vec![v, w] } }) }
		_ => {
			INITV.store(usize::from(v[0]) | usize::from(v[1]) << 8, Ordering::SeqCst);
			let a = leak(LazyLock::<Two>::new(init));
			running(t, "lazylock", vec![v.to_vec()], move || encode(a), |_| {});
		}
	}
}
fn running(t: &mut T, kind: &str, vals: Vec<Vec<u8>>, enc: impl Fn() -> Out + Send + Copy + 'static, set: impl Fn(usize) + Send + 'static) {
	INITS.store(0, Ordering::SeqCst);
	t.begin(kind);
	let go = Arc::new(std::sync::Barrier::new(4));
	let over = Arc::new(AtomicBool::new(false));
	let writer = { let (go, over) = (go.clone(), over.clone()); std::thread::spawn(move || { go.wait(); let mut k = 0; while !over.load(Ordering::Relaxed) { set(k); k += 1; if k % 64 == 0 { std::thread::yield_now() } } }) };
	let hs: Vec<JoinHandle<Vec<(String, Vec<u8>)>>> = (0..3).map(|_| { let go = go.clone(); std::thread::spawn(move || { go.wait(); let mut seen: Vec<(String, Vec<u8>)> = vec![]; for _ in 0..300 { let o = enc(); let x = (o.r.to_string(), o.b); if !seen.contains(&x) { seen.push(x) } } seen }) }).collect();
	let mut outs: Vec<(String, Vec<u8>)> = vec![];
	for h in hs { for x in h.join().unwrap() { if !outs.contains(&x) { outs.push(x) } } }
	over.store(true, Ordering::Relaxed);
	let wr = writer.join().is_ok();
	outs.truncate(40);
	t.ev("crace", vec![("kind", s(kind)), ("vals", J::A(vals.iter().map(|x| bytes(x)).collect())), ("outs", J::A(outs.iter().map(|(r, b)| J::O(vec![("x", s(r)), ("b", bytes(b))])).collect())), ("inits", i(INITS.load(Ordering::SeqCst))), ("wr", i(usize::from(wr)))]);
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	match a[1].as_str() {
		"script" => { let mut t = T::new(&a[3]); for line in std::fs::read_to_string(&a[2]).unwrap().lines() { if !STUCK.load(Ordering::SeqCst) { history(&mut t, line) } } t.end(); std::process::exit(0) }
		"race" => { let mut t = T::new(&a[2]); let mut r = R::new(a[3].parse().unwrap()); for _ in 0..a[4].parse().unwrap() { race(&mut t, &mut r) } t.end() }
		_ => std::process::exit(2),
	}
}
