//! Adaptive adversary (after McIlroy, "A killer adversary for quicksort"): decides the order of
//! elements only while being asked, so as to make every partition lopsided. The order it commits
//! to is a plain input that hurts the very same code again.
use crate::elem::{El, P8};
use crate::hook;
use crate::ndarray::ArrayViewMut1;
use crate::rng::Rng;
use std::cmp::Ordering;
use std::sync::Mutex;

const GAS: u32 = u32::MAX;

pub struct Adv {
	val: Vec<u32>,
	solid: u32,
	cand: u32,
	/// Elements frozen per freeze; > 1 makes ties.
	group: u32,
	frozen: u32,
	rev: bool,
}

impl Adv {
	pub fn new(n: usize, group: u32, rev: bool) -> Self {
		Adv { val: vec![GAS; n], solid: 0, cand: 0, group: group.max(1), frozen: 0, rev }
	}
	fn freeze(&mut self, x: u32) {
		self.val[x as usize] = self.solid;
		self.frozen += 1;
		if self.frozen % self.group == 0 {
			self.solid += 1;
		}
	}
	pub fn cmp(&mut self, x: u32, y: u32) -> Ordering {
		let (xi, yi) = (x as usize, y as usize);
		if x == y {
			return Ordering::Equal;
		}
		if self.val[xi] == GAS && self.val[yi] == GAS {
			if x == self.cand {
				self.freeze(x);
			} else {
				self.freeze(y);
			}
		}
		if self.val[xi] == GAS {
			self.cand = x;
		} else if self.val[yi] == GAS {
			self.cand = y;
		}
		let o = self.val[xi].cmp(&self.val[yi]);
		if self.rev { o.reverse() } else { o }
	}
	/// The committed order as keys.
	pub fn keys(mut self, r: &mut Rng) -> Vec<u32> {
		let top = self.solid + 1;
		let spread = r.below(3);
		let mut c = 0;
		for v in &mut self.val {
			if *v == GAS {
				*v = top
					+ match spread {
						0 => 0,
						1 => {
							c += 1;
							c
						}
						_ => r.below(1000) as u32,
					};
			}
		}
		if self.rev {
			let hi = self.val.iter().copied().max().unwrap_or(0);
			for v in &mut self.val {
				*v = hi - *v;
			}
		}
		self.val
	}
}

/// How many elements tie: from none to runs longer than a pivot sample.
fn gen_group(r: &mut Rng) -> u32 {
	match r.below(8) {
		0..=3 => 1,
		4 => r.range(2, 5) as u32,
		5 | 6 => r.range(5, 34) as u32,
		_ => r.range(34, 130) as u32,
	}
}

/// Runs `op` against the adversary on `n` elements and returns the committed keys and the number
/// of comparisons.
pub fn record(
	r: &mut Rng,
	n: usize,
	rev: bool,
	op: impl FnOnce(&mut ArrayViewMut1<P8>, &(dyn Fn(&P8, &P8) -> Ordering + Sync)),
) -> (Vec<u32>, u64) {
	let group = gen_group(r);
	let adv = Mutex::new(Adv::new(n, group, rev));
	let mut a: Vec<P8> = (0..n).map(|i| P8::mk(0, i as u32)).collect();
	let mut v = ArrayViewMut1::from(&mut a[..]);
	let before = hook::calls();
	op(&mut v, &|a: &P8, b: &P8| {
		hook::tick();
		adv.lock().unwrap_or_else(|e| e.into_inner()).cmp(a.id(), b.id())
	});
	let calls = hook::calls() - before;
	(adv.into_inner().unwrap_or_else(|e| e.into_inner()).keys(r), calls)
}

static ADV: Mutex<Option<Adv>> = Mutex::new(None);
/// Key ordered by the adversary.
#[derive(Debug, Clone, Copy)]
pub struct AdvKey(pub u32);
impl Ord for AdvKey {
	fn cmp(&self, o: &Self) -> Ordering {
		hook::tick();
		ADV.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap().cmp(self.0, o.0)
	}
}
impl PartialOrd for AdvKey {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Eq for AdvKey {}
impl PartialEq for AdvKey {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}
/// Same for operations on keys: `op` orders elements by `AdvKey(id)`.
pub fn record_keys(r: &mut Rng, n: usize, rev: bool, op: impl FnOnce(&mut ArrayViewMut1<P8>)) -> (Vec<u32>, u64) {
	let group = gen_group(r);
	*ADV.lock().unwrap_or_else(|e| e.into_inner()) = Some(Adv::new(n, group, rev));
	let mut a: Vec<P8> = (0..n).map(|i| P8::mk(0, i as u32)).collect();
	let mut v = ArrayViewMut1::from(&mut a[..]);
	let before = hook::calls();
	op(&mut v);
	let calls = hook::calls() - before;
	let adv = ADV.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
	(adv.keys(r), calls)
}
