//! Allocator that watches over what is allocated: blocks are released with the layout they were
//! allocated with and nothing is written right before or past them. New and released memory is
//! overwritten. No block is aligned better than asked for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Watched;

static WRONG: AtomicU64 = AtomicU64::new(0);
static KIND: AtomicU64 = AtomicU64::new(0);
static GOT: AtomicU64 = AtomicU64::new(0);
static WANT: AtomicU64 = AtomicU64::new(0);
static BLOCKS: AtomicU64 = AtomicU64::new(0);

const MAGIC: u64 = 0x5EED_B10C_5EED_B10C;
const GONE: u64 = 0xDEAD_B10C_DEAD_B10C;
const EDGE: usize = 32;

/// Blocks released so far.
pub fn blocks() -> u64 {
	BLOCKS.load(Relaxed)
}

/// What went wrong first.
pub fn wrong() -> Option<String> {
	if WRONG.load(Relaxed) == 0 {
		return None;
	}
	let (got, want) = (GOT.load(Relaxed), WANT.load(Relaxed));
	Some(match KIND.load(Relaxed) {
		1 => format!("a block of {want} bytes was released as one of {got} bytes"),
		2 => format!("a block aligned to {want} was released as one aligned to {got}"),
		3 => format!("memory right past a block of {want} bytes was written"),
		4 => "memory right before a block was written, or what was released is none".into(),
		_ => "a block was released twice".into(),
	})
}
fn fail(kind: u64, got: u64, want: u64) {
	if WRONG.fetch_add(1, Relaxed) == 0 {
		KIND.store(kind, Relaxed);
		GOT.store(got, Relaxed);
		WANT.store(want, Relaxed);
	}
}
fn front(align: usize) -> usize {
	EDGE.next_multiple_of(2 * align) + align
}
fn outer(size: usize, align: usize) -> Layout {
	unsafe { Layout::from_size_align_unchecked(front(align) + size + EDGE, 2 * align.max(8)) }
}

unsafe impl GlobalAlloc for Watched {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		unsafe {
			let b = System.alloc(outer(l.size(), l.align()));
			if b.is_null() {
				return b;
			}
			let p = b.add(front(l.align()));
			let h = p.sub(EDGE) as *mut u64;
			h.write_unaligned(l.size() as u64);
			h.add(1).write_unaligned(l.align() as u64);
			h.add(2).write_unaligned(MAGIC ^ p as u64);
			h.add(3).write_unaligned(MAGIC);
			p.write_bytes(0xA5, l.size().min(1 << 12));
			p.add(l.size()).write_bytes(0xC7, EDGE);
			p
		}
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		unsafe {
			let h = p.sub(EDGE) as *mut u64;
			let (size, align) = (h.read_unaligned(), h.add(1).read_unaligned());
			if h.add(2).read_unaligned() != MAGIC ^ p as u64 || h.add(3).read_unaligned() != MAGIC {
				// Not released: there is no knowing what it is.
				return fail(if h.add(3).read_unaligned() == GONE { 5 } else { 4 }, 0, 0);
			}
			BLOCKS.fetch_add(1, Relaxed);
			if size != l.size() as u64 {
				fail(1, l.size() as u64, size);
			}
			if align != l.align() as u64 {
				fail(2, l.align() as u64, align);
			}
			let (size, align) = (size as usize, align as usize);
			if (0..EDGE).any(|i| p.add(size + i).read() != 0xC7) {
				fail(3, 0, size as u64);
			}
			h.add(3).write_unaligned(GONE);
			p.write_bytes(0xDD, size.min(1 << 12));
			System.dealloc(p.sub(front(align)), outer(size, align));
		}
	}
}

/// Has a workload use it, unless a sanitizer or interpreter does better.
#[macro_export]
macro_rules! watch_alloc {
	() => {
		#[allow(unexpected_cfgs)]
		mod watched {
			#[cfg(not(any(miri, sanitized)))]
			#[global_allocator]
			static WATCHED: $crate::alloc::Watched = $crate::alloc::Watched;
		}
	};
}
