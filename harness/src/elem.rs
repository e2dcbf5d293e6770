//! Instrumented element types. All are ordered by `key` only; `id` tells ties apart.
use crate::hook::{self, note_pair, see, tick};
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed, Ordering::SeqCst};

pub trait El: Ord + Send + 'static {
	const NAME: &'static str;
	/// Exclusive bound on keys.
	const MAXKEY: u32;
	/// Exclusive bound on lengths (identities).
	const MAXLEN: usize;
	fn mk(key: u32, id: u32) -> Self;
	fn key(&self) -> u32;
	/// Identity; canaries have identities from `CAN` up.
	fn id(&self) -> u32;
	/// Changes the element through shared access, where its type allows.
	fn touch(&self) {}
	/// Payload integrity.
	fn ok(&self) -> bool {
		true
	}
}

/// What every comparison form ends in.
#[inline]
pub fn cmp_el<T: El>(a: &T, b: &T) -> Ordering {
	see(a.id(), a.ok());
	see(b.id(), b.ok());
	note_pair(a.id(), b.id());
	a.touch();
	b.touch();
	tick();
	hook::answer(a.key().cmp(&b.key()), a.key(), b.key())
}

/// Implements the ordering traits through `cmp_el`.
#[macro_export]
macro_rules! ord_el {
	($t:ty) => {
		impl Ord for $t {
			#[inline]
			fn cmp(&self, o: &Self) -> std::cmp::Ordering {
				$crate::elem::cmp_el(self, o)
			}
		}
		impl PartialOrd for $t {
			#[inline]
			fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
				Some(self.cmp(o))
			}
		}
		impl Eq for $t {}
		impl PartialEq for $t {
			#[inline]
			fn eq(&self, o: &Self) -> bool {
				self.cmp(o).is_eq()
			}
		}
	};
}
use crate::ord_el as ord;

/// Two plain words.
#[derive(Clone, Copy, Debug)]
pub struct P8 {
	key: u32,
	id: u32,
}
impl El for P8 {
	const NAME: &'static str = "P8";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = CANL;
	fn mk(key: u32, id: u32) -> Self {
		P8 { key, id }
	}
	#[inline]
	fn key(&self) -> u32 {
		self.key
	}
	#[inline]
	fn id(&self) -> u32 {
		self.id
	}
}
ord!(P8);
const CANL: usize = crate::hook::CAN as usize;

/// Odd size, byte alignment.
#[derive(Clone, Copy, Debug)]
pub struct B3([u8; 3]);
impl El for B3 {
	const NAME: &'static str = "B3";
	const MAXKEY: u32 = 256;
	const MAXLEN: usize = 60000;
	fn mk(key: u32, id: u32) -> Self {
		debug_assert!(key < 256);
		let i = if id >= crate::hook::CAN {
			60000 + ((id - crate::hook::CAN) % 5000) as u16
		} else {
			id as u16
		};
		B3([key as u8, i as u8, (i >> 8) as u8])
	}
	#[inline]
	fn key(&self) -> u32 {
		self.0[0] as u32
	}
	#[inline]
	fn id(&self) -> u32 {
		let i = self.0[1] as u32 | (self.0[2] as u32) << 8;
		if i >= 60000 {
			crate::hook::CAN + i - 60000
		} else {
			i
		}
	}
}
ord!(B3);

/// The size of a word without its alignment.
#[derive(Clone, Copy, Debug)]
pub struct Y8([u8; 8]);
impl El for Y8 {
	const NAME: &'static str = "Y8";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = CANL;
	fn mk(key: u32, id: u32) -> Self {
		Y8((id as u64 | (key as u64) << 32).to_le_bytes())
	}
	#[inline]
	fn key(&self) -> u32 {
		(u64::from_le_bytes(self.0) >> 32) as u32
	}
	#[inline]
	fn id(&self) -> u32 {
		u64::from_le_bytes(self.0) as u32
	}
}
ord!(Y8);

/// `8 + 8 * P` bytes, with a payload that exposes torn copies.
#[derive(Clone, Copy, Debug)]
pub struct Wn<const P: usize> {
	key: u32,
	id: u32,
	pad: [u64; P],
}
pub type W16 = Wn<1>;
pub type W24 = Wn<2>;
pub type W72 = Wn<8>;
pub type W136 = Wn<16>;
pub type W264 = Wn<32>;
pub type W1k = Wn<130>;
pub type W4k = Wn<515>;
impl<const P: usize> Wn<P> {
	#[inline]
	fn word(key: u32, id: u32, i: usize) -> u64 {
		(id as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i as u64 ^ ((key as u64) << 32)
	}
}
impl<const P: usize> El for Wn<P> {
	const NAME: &'static str = match P {
		1 => "W16",
		2 => "W24",
		8 => "W72",
		16 => "W136",
		32 => "W264",
		130 => "W1k",
		515 => "W4k",
		_ => "Wn",
	};
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = CANL;
	fn mk(key: u32, id: u32) -> Self {
		Wn { key, id, pad: std::array::from_fn(|i| Self::word(key, id, i)) }
	}
	#[inline]
	fn key(&self) -> u32 {
		self.key
	}
	#[inline]
	fn id(&self) -> u32 {
		self.id
	}
	#[inline]
	fn ok(&self) -> bool {
		[0, P / 2, P - 1].iter().all(|&i| self.pad[i] == Self::word(self.key, self.id, i))
	}
}
impl<const P: usize> Ord for Wn<P> {
	#[inline]
	fn cmp(&self, o: &Self) -> Ordering {
		cmp_el(self, o)
	}
}
impl<const P: usize> PartialOrd for Wn<P> {
	#[inline]
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl<const P: usize> Eq for Wn<P> {}
impl<const P: usize> PartialEq for Wn<P> {
	#[inline]
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}

/// Heap-owning.
#[derive(Debug)]
pub struct Hb(Box<(u32, u32)>);
impl El for Hb {
	const NAME: &'static str = "Box";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = CANL;
	fn mk(key: u32, id: u32) -> Self {
		Hb(Box::new((key, id)))
	}
	#[inline]
	fn key(&self) -> u32 {
		self.0.0
	}
	#[inline]
	fn id(&self) -> u32 {
		self.0.1
	}
}
ord!(Hb);

/// Over-aligned.
#[derive(Clone, Copy, Debug)]
#[repr(align(64))]
pub struct A64 {
	key: u32,
	id: u32,
}
impl El for A64 {
	const NAME: &'static str = "A64";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = CANL;
	fn mk(key: u32, id: u32) -> Self {
		A64 { key, id }
	}
	#[inline]
	fn key(&self) -> u32 {
		self.key
	}
	#[inline]
	fn id(&self) -> u32 {
		self.id
	}
	#[inline]
	fn ok(&self) -> bool {
		(self as *const Self as usize) % 64 == 0
	}
}
ord!(A64);

/// Bound on identities with a ledger entry.
pub const LEDGER: usize = 1 << 17;
static DROPS: [AtomicU32; LEDGER] = [const { AtomicU32::new(0) }; LEDGER];
static HITS: [AtomicU32; LEDGER] = [const { AtomicU32::new(0) }; LEDGER];
pub fn clear_ledgers(n: usize) {
	for i in 0..n {
		DROPS[i].store(0, Relaxed);
		HITS[i].store(0, Relaxed);
	}
}
pub fn drops(id: usize) -> u32 {
	DROPS[id].load(SeqCst)
}
pub fn hits(id: usize) -> u32 {
	HITS[id].load(SeqCst)
}

/// Counts its drops by identity.
#[derive(Debug)]
pub struct D {
	key: u32,
	id: u32,
}
impl Drop for D {
	fn drop(&mut self) {
		if (self.id as usize) < LEDGER {
			DROPS[self.id as usize].fetch_add(1, Relaxed);
		}
	}
}
impl El for D {
	const NAME: &'static str = "Dropped";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = LEDGER;
	fn mk(key: u32, id: u32) -> Self {
		D { key, id }
	}
	#[inline]
	fn key(&self) -> u32 {
		self.key
	}
	#[inline]
	fn id(&self) -> u32 {
		self.id
	}
}
ord!(D);
/// Every identity below `n` was dropped this often.
pub fn dropped(n: usize, times: u32) -> Result<(), String> {
	match (0..n).find(|&i| drops(i) != times) {
		Some(i) => Err(format!("element {i} was dropped {} times instead of {times}", drops(i))),
		None => Ok(()),
	}
}

/// Carries changes made through shared access.
#[derive(Debug)]
pub struct Mt {
	key: u32,
	id: u32,
	front: AtomicU32,
	pad: [u32; 3],
	back: AtomicU32,
}
impl El for Mt {
	const NAME: &'static str = "Touched";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = LEDGER;
	fn mk(key: u32, id: u32) -> Self {
		Mt { key, id, front: AtomicU32::new(0), pad: [id; 3], back: AtomicU32::new(0) }
	}
	#[inline]
	fn key(&self) -> u32 {
		self.key
	}
	#[inline]
	fn id(&self) -> u32 {
		self.id
	}
	fn touch(&self) {
		self.front.fetch_add(1, Relaxed);
		self.back.fetch_add(1, Relaxed);
		if let Some(h) = HITS.get(self.id as usize) {
			h.fetch_add(1, Relaxed);
		}
	}
	fn ok(&self) -> bool {
		self.pad == [self.id; 3]
	}
}
ord!(Mt);
impl Mt {
	/// Changes it carries; `None` if torn.
	pub fn carried(&self) -> Option<u32> {
		let (a, b) = (self.front.load(SeqCst), self.back.load(SeqCst));
		(a == b).then_some(a)
	}
}

/// Changes through a `Cell`, only sendable.
#[derive(Debug)]
pub struct Ct {
	key: u32,
	id: u32,
	n: Cell<u32>,
}
impl El for Ct {
	const NAME: &'static str = "Cell";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = LEDGER;
	fn mk(key: u32, id: u32) -> Self {
		Ct { key, id, n: Cell::new(0) }
	}
	#[inline]
	fn key(&self) -> u32 {
		self.key
	}
	#[inline]
	fn id(&self) -> u32 {
		self.id
	}
	fn touch(&self) {
		self.n.set(self.n.get() + 1);
		if let Some(h) = HITS.get(self.id as usize) {
			h.fetch_add(1, Relaxed);
		}
	}
}
ord!(Ct);
impl Ct {
	pub fn carried(&self) -> u32 {
		self.n.get()
	}
}

/// Key extracted by the `_by_key` forms. Its comparisons count as callback calls on request.
#[derive(Clone, Copy, Debug, Hash)]
pub struct Key(pub u32);
impl Ord for Key {
	#[inline]
	fn cmp(&self, o: &Self) -> Ordering {
		hook::key_tick();
		hook::key_answer(self.0.cmp(&o.0), self.0, o.0)
	}
}
impl PartialOrd for Key {
	#[inline]
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Eq for Key {}
impl PartialEq for Key {
	#[inline]
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}
#[inline]
pub fn key_el<T: El>(a: &T) -> Key {
	see(a.id(), a.ok());
	note_pair(a.id(), u32::MAX);
	a.touch();
	tick();
	Key(hook::bend(a.key()))
}

/// Key whose destructor is a callback of its own.
pub struct Kd(pub u32);
impl Drop for Kd {
	fn drop(&mut self) {
		if !std::thread::panicking() {
			tick();
		}
	}
}
impl PartialEq for Kd {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl Eq for Kd {}
impl PartialOrd for Kd {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Kd {
	fn cmp(&self, o: &Self) -> Ordering {
		self.0.cmp(&o.0)
	}
}
