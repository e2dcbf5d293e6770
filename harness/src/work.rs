//! Counts the basic blocks a program built to report them executes, and the bytes it copies.
#![allow(unexpected_cfgs)]
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

const SLOTS: usize = 64;
#[repr(align(128))]
struct Slot {
	blocks: AtomicU64,
	bytes: AtomicU64,
}
static COUNTS: [Slot; SLOTS] = [const { Slot { blocks: AtomicU64::new(0), bytes: AtomicU64::new(0) } }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local!(static MINE: Cell<usize> = const { Cell::new(usize::MAX) });

#[inline(always)]
fn mine() -> &'static Slot {
	let mut i = MINE.get();
	if i >= SLOTS {
		i = NEXT.fetch_add(1, Relaxed) % SLOTS;
		MINE.set(i);
	}
	&COUNTS[i]
}
/// Called by every basic block of code compiled to do so, which this crate is not.
#[cfg_attr(counted, unsafe(no_mangle))]
pub extern "C" fn __sanitizer_cov_trace_pc() {
	mine().blocks.fetch_add(1, Relaxed);
}
#[inline(never)]
pub fn copied(n: usize) {
	mine().bytes.fetch_add(n as u64, Relaxed);
}
/// Blocks executed and bytes copied so far.
pub fn done() -> (u64, u64) {
	COUNTS.iter().fold((0, 0), |(a, b), s| (a + s.blocks.load(Relaxed), b + s.bytes.load(Relaxed)))
}
