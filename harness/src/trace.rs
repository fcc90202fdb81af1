//! Writing the trace: one NDJSON event per call of the library, flushed at
//! once, and a side file naming the call in progress (for calls that never return).
use crate::json::{s, J};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct T {
	out: Box<dyn Write>,
	cur: Option<File>,
	pub n: usize,
}

impl T {
	pub fn new(path: &str) -> T {
		std::panic::set_hook(Box::new(|_| {}));
		if path == "-" { return T { out: Box::new(std::io::stdout()), cur: None, n: 0 } }
		T { out: Box::new(std::io::BufWriter::with_capacity(1 << 16, File::create(path).unwrap())), cur: Some(File::create(format!("{path}.cur")).unwrap()), n: 0 }
	}
	pub fn ev(&mut self, ev: &str, mut f: Vec<(&'static str, J)>) {
		f.insert(0, ("ev", s(ev)));
		writeln!(self.out, "{}", J::O(f)).unwrap();
		self.n += 1;
	}
	/// Announces a call; if the process dies in it, this is what the driver reports.
	pub fn begin(&mut self, what: &str) {
		self.out.flush().unwrap();
		if let Some(f) = &mut self.cur {
			let _ = f.seek(SeekFrom::Start(0));
			let mut line = what.as_bytes().to_vec();
			line.truncate(400);
			line.resize(400, b' ');
			let _ = f.write_all(&line);
		}
	}
	pub fn end(mut self) {
		self.out.flush().unwrap();
		if let Some(f) = &self.cur { let _ = f.set_len(0); }
	}
}

/// `None`: the call panicked.
pub fn call<X>(f: impl FnOnce() -> X) -> Option<X> { catch_unwind(AssertUnwindSafe(f)).ok() }
