//! A global allocator that notices writes outside of allocations, allocations
//! and frees that break the allocator's contract, and uses of freed memory
//! (freed and fresh memory is overwritten).  It never stops the process: what
//! it noticed is counted and becomes part of the recorded events.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Redzone;
const PAD: usize = 64;
const MAGIC: u64 = 0x5AFE_B10C_C0DE_F00D;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
static FAULTS: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);

/// Faults noticed so far.
pub fn faults() -> usize { FAULTS.load(SeqCst) }
/// Bytes currently allocated.
pub fn live() -> usize { LIVE.load(SeqCst) }

#[repr(C)]
#[derive(Clone, Copy)]
struct Head { magic: u64, size: usize, align: usize }

fn pad(l: &Layout) -> usize { PAD.max(l.align()) }
fn whole(l: &Layout) -> Layout { Layout::from_size_align(l.size() + 2 * pad(l), pad(l)).unwrap() }

unsafe impl GlobalAlloc for Redzone {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() == 0 { FAULTS.fetch_add(1, SeqCst); }
		let p = pad(&l);
		let base = System.alloc(whole(&l));
		if base.is_null() { return base }
		base.write_bytes(0xFB, p);
		base.cast::<Head>().write(Head { magic: MAGIC, size: l.size(), align: l.align() });
		base.add(p).write_bytes(0xAE, l.size());
		base.add(p + l.size()).write_bytes(0xFB, p);
		LIVE.fetch_add(l.size(), SeqCst);
		base.add(p)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let x = self.alloc(l);
		if !x.is_null() { x.write_bytes(0, l.size()) }
		x
	}
	unsafe fn dealloc(&self, x: *mut u8, l: Layout) {
		let p = pad(&l);
		let base = x.sub(p);
		let h = base.cast::<Head>().read();
		if h.magic != MAGIC || h.size != l.size() || h.align != l.align() {
			// Not ours, freed already, or with another layout: leave it alone.
			FAULTS.fetch_add(1, SeqCst);
			return;
		}
		let lo = std::slice::from_raw_parts(base.add(size_of::<Head>()), p - size_of::<Head>());
		let hi = std::slice::from_raw_parts(x.add(l.size()), p);
		if lo.iter().chain(hi).any(|b| *b != 0xFB) { FAULTS.fetch_add(1, SeqCst); }
		base.cast::<u64>().write(FREED);
		x.write_bytes(0xDF, l.size());
		LIVE.fetch_sub(l.size(), SeqCst);
		System.dealloc(base, whole(&l));
	}
}

/// Does anything follow this allocation that does not belong there?
/// `x` must be an allocation of this allocator of `size` bytes and alignment 1.
pub unsafe fn tail_ok(x: *const u8, size: usize) -> bool { size == 0 || std::slice::from_raw_parts(x.add(size), PAD).iter().all(|b| *b == 0xFB) }
