//! C10: deduplicating partition keeps the first of every run, in order.
use harness::elem::{A64, B3, El, Hb, P8, W72};
use harness::host::{Host, Layout, gen_layout};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::addrs;
use harness::sortcase::{hash_layout, small_keys, small_space, table};
use harness::{Slice1Ext, genk, hook, oracle, zst};
use std::cell::RefCell;

thread_local! {
	static PAIRS: RefCell<Vec<(u32, u32)>> = const { RefCell::new(vec![]) };
}

/// The relation asked: by key, by coarsened key, or something that is no equivalence at all.
#[derive(Clone, Copy, Debug)]
enum Rel {
	Key,
	Coarse(u32),
	Near(u32),
	Hash(u64, u64),
	Always,
	Never,
}
impl Rel {
	fn ask(self, a: (u32, u32), b: (u32, u32)) -> bool {
		match self {
			Rel::Key => a.0 == b.0,
			Rel::Coarse(d) => a.0 / d == b.0 / d,
			Rel::Near(d) => a.0.abs_diff(b.0) <= d,
			Rel::Hash(s, m) => mix(s ^ ((a.1 as u64) << 32 | b.1 as u64)) % m == 0,
			Rel::Always => true,
			Rel::Never => false,
		}
	}
}

/// Retained identities and the sequence of questions the definition gives.
fn model(keys: &[u32], rel: Rel) -> (Vec<u32>, Vec<(u32, u32)>) {
	let mut kept = vec![];
	let mut asked = vec![];
	for i in 0..keys.len() {
		let Some(&l) = kept.last() else {
			kept.push(0);
			continue;
		};
		asked.push((i as u32, l));
		if !rel.ask((keys[i], i as u32), (keys[l as usize], l)) {
			kept.push(i as u32);
		}
	}
	(kept, asked)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Api {
	Eq,
	By,
	Key,
}

/// Element with marks that only the predicate sets.
trait Mark: El {
	fn mark(&mut self) {}
	/// How many, up to a modulus.
	fn marks(&self) -> Option<(u32, u32)> {
		None
	}
}
impl Mark for P8 {}
impl Mark for B3 {}
impl Mark for W72 {}
impl Mark for Hb {}
impl Mark for A64 {}
struct M(u32, u32, u32, Box<u32>);
harness::ord_el!(M);
impl El for M {
	const NAME: &'static str = "Marked";
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = hook::CAN as usize;
	fn mk(key: u32, id: u32) -> Self {
		M(key, id, 0, Box::new(0))
	}
	fn key(&self) -> u32 {
		self.0
	}
	fn id(&self) -> u32 {
		self.1
	}
}
impl Mark for M {
	fn mark(&mut self) {
		self.2 += 1;
		*self.3 += 1;
	}
	fn marks(&self) -> Option<(u32, u32)> {
		Some((if self.2 == *self.3 { self.2 } else { u32::MAX }, 1 << 31))
	}
}
/// Plain words that count, from 8 bytes on.
#[derive(Clone, Copy)]
struct Mp<const W: usize>([u32; W]);
impl<const W: usize> Ord for Mp<W> {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		harness::elem::cmp_el(self, o)
	}
}
impl<const W: usize> PartialOrd for Mp<W> {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl<const W: usize> Eq for Mp<W> {}
impl<const W: usize> PartialEq for Mp<W> {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}
impl<const W: usize> El for Mp<W> {
	const NAME: &'static str = match W {
		2 => "8 counting bytes",
		4 => "16 counting bytes",
		_ => "many counting bytes",
	};
	const MAXKEY: u32 = (1 << 20) - 1;
	const MAXLEN: usize = hook::CAN as usize;
	fn mk(key: u32, id: u32) -> Self {
		let mut w = [0; W];
		w[0] = id;
		w[1] = key;
		Mp(w)
	}
	fn key(&self) -> u32 {
		self.0[1] & Self::MAXKEY
	}
	fn id(&self) -> u32 {
		self.0[0]
	}
}
/// The count is above the key in the second word and, beyond two words, in the last as well.
impl<const W: usize> Mark for Mp<W> {
	fn mark(&mut self) {
		self.0[1] = self.0[1].wrapping_add(1 << 20);
		if W > 2 {
			self.0[W - 1] = self.0[W - 1].wrapping_add(1);
		}
	}
	fn marks(&self) -> Option<(u32, u32)> {
		let c = self.0[1] >> 20;
		Some((if W > 2 && self.0[W - 1] % 4096 != c { u32::MAX } else { c }, 4096))
	}
}

fn case<T: Mark>(ctx: &mut Ctx, keys: &[u32], rel: Rel, api: Api, lay: Layout, what: &str) -> Res {
	let n = keys.len();
	let rel = match (api, rel) {
		(Api::Eq, _) => Rel::Key,
		(Api::Key, Rel::Near(d)) => Rel::Coarse(d + 1),
		(Api::Key, Rel::Hash(..) | Rel::Never) => Rel::Key,
		(_, r) => r,
	};
	let mut host = Host::<T>::new(lay, keys);
	let at = addrs(&host.view());
	ctx.begin(format_args!("partition_dedup {api:?} {rel:?} on {} n={n} {lay:?} content={what}", T::NAME));
	let (kept, asked) = model(keys, rel);
	PAIRS.with(|p| p.borrow_mut().clear());
	let push = |a: u32, b: u32| PAIRS.with(|p| p.borrow_mut().push((a, b)));
	hook::reset();
	hook::cap(4 * n as u64 + 100);
	hook::pairs(api == Api::Eq, |a, b| PAIRS.with(|p| p.borrow_mut().push((a, b))));
	let res = {
		let mut v = host.view_mut();
		guard(|| {
			let (d, e) = match api {
				Api::Eq => v.partition_dedup(),
				Api::By => v.partition_dedup_by(|a, b| {
					hook::tick();
					hook::see(a.id(), a.ok());
					hook::see(b.id(), b.ok());
					push(a.id(), b.id());
					a.mark();
					b.mark();
					rel.ask((a.key(), a.id()), (b.key(), b.id()))
				}),
				Api::Key => v.partition_dedup_by_key(|a| {
					hook::tick();
					hook::see(a.id(), a.ok());
					push(a.id(), u32::MAX);
					a.mark();
					match rel {
						Rel::Coarse(d) => a.key() / d,
						Rel::Always => 0,
						_ => a.key(),
					}
				}),
			};
			(addrs(&d.view()), addrs(&e.view()))
		})
	};
	hook::pairs(false, |_, _| ());
	let (da, ea) = match res {
		Err(p) => return Err(payload(&*p)),
		Ok(x) => x,
	};
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	if da.len() + ea.len() != n || da[..] != at[..da.len()] || ea[..] != at[da.len()..] {
		return Err(format!("the returned views ({} and {} elements) are not the two parts of the view of {n}", da.len(), ea.len()));
	}
	if da.len() != kept.len() {
		return Err(format!("{} elements retained, there are {} runs", da.len(), kept.len()));
	}
	let out = host.out();
	for (p, &k) in kept.iter().enumerate() {
		if out[p].1 != k {
			return Err(format!("retained position {p} holds element {} instead of {k}", out[p].1));
		}
	}
	oracle::conserved(keys, &out)?;
	host.check_canaries()?;
	let got = PAIRS.with(|p| p.borrow().clone());
	match api {
		Api::Key => {
			if got.len() > 2 * asked.len() {
				return Err(format!("key function called {} times for {n} elements", got.len()));
			}
		}
		_ => {
			if got.len() != asked.len() {
				return Err(format!("predicate called {} times instead of {}", got.len(), asked.len()));
			}
			if let Some(i) = (0..got.len()).find(|&i| got[i] != asked[i]) {
				return Err(format!("call {i} got elements {:?} instead of {:?}", got[i], asked[i]));
			}
		}
	}
	if api != Api::Eq {
		let mut want = vec![0u32; n];
		for &(a, b) in &got {
			want[a as usize] += 1;
			if b != u32::MAX {
				want[b as usize] += 1;
			}
		}
		for (p, e) in host.view().iter().enumerate() {
			if let Some((m, modulus)) = e.marks() {
				if m != want[e.id() as usize] % modulus {
					return Err(format!("element {} at position {p} carries {m} changes, {} were made", e.id(), want[e.id() as usize]));
				}
				ctx.ev("marked elements checked", 1);
			}
		}
	}
	let mut sig = oracle::digest_keys(keys) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(api as u64 + 5);
	sig = mix(sig ^ hash_str(&format!("{rel:?}")));
	ctx.eval(sig, n >= 2 && kept.len() < n && kept.len() > 1);
	ctx.ev("predicate calls", got.len() as u64);
	ctx.ev("runs", kept.len() as u64);
	Ok(())
}

fn gen_rel(r: &mut Rng) -> Rel {
	match r.below(10) {
		0 => Rel::Coarse(r.pick(&[2, 3, 10, 100])),
		1 | 2 => Rel::Near(r.pick(&[0, 1, 2, 10, 1000])),
		3 | 4 => Rel::Hash(r.next(), r.pick(&[2, 2, 3, 10, 100])),
		5 if r.chance(1, 3) => Rel::Always,
		6 if r.chance(1, 3) => Rel::Never,
		_ => Rel::Key,
	}
}
fn any(ctx: &mut Ctx, r: &mut Rng, ty: usize, mut keys: Vec<u32>, api: Api, what: &str) -> Res {
	let rel = gen_rel(r);
	let lay = gen_layout(r, keys.len());
	macro_rules! go {
		($t:ty) => {{
			genk::squeeze(&mut keys, <$t>::MAXKEY);
			case::<$t>(ctx, &keys, rel, api, lay, what)
		}};
	}
	match if keys.len() > 50_000 { [0, 6, 7][ty % 3] } else { ty % 9 } {
		0 => go!(P8),
		1 => go!(B3),
		2 => go!(W72),
		3 => go!(Hb),
		4 => go!(A64),
		5 => go!(M),
		6 => go!(Mp<2>),
		7 => go!(Mp<4>),
		_ => go!(Mp<35>),
	}
}
const APIS: [Api; 3] = [Api::Eq, Api::By, Api::Key];

fn main() {
	let mut ctx = Ctx::new("C10");
	let th = ctx.thorough;
	let space = small_space(if th { 7 } else { 6 });
	let total = space.last().unwrap().2;
	ctx.fixed("small", total, |ctx, r, i| {
		let keys = small_keys(&space, i);
		any(ctx, r, i as usize / 3, keys, APIS[i as usize % 3], "exhaustive")
	});
	let tab = table(0, 20_001);
	ctx.fixed("table", tab.len() as u64 * 3, |ctx, r, i| {
		let (p, n) = tab[i as usize / 3];
		let keys = genk::pattern(r, n, p);
		let ty = r.below(9);
		any(ctx, r, ty, keys, APIS[i as usize % 3], &format!("pattern{p}"))
	});
	ctx.fixed("zst", 100, |ctx, r, i| {
		let r = &mut r.clone();
		zst::check(ctx, i as usize, "partition_dedup", |v| {
			let n = v.len();
			let k = r.range(1, 5);
			let mut c = 0;
			let (d, e) = if i % 3 == 0 {
				v.partition_dedup()
			} else {
				v.partition_dedup_by(|_, _| {
					c += 1;
					c % k == 0
				})
			};
			assert!(d.len() + e.len() == n, "zero-sized elements lost");
			if i % 3 == 0 {
				assert!(d.len() == n.min(1));
			} else if n > 0 {
				assert!(c == n - 1 && e.len() == (n - 1) / k, "wrong split of zero-sized elements");
			}
		})
	});
	ctx.timed("random", 1.0, 400, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 300_000 } else { 40_000 });
		let (mut keys, p) = genk::gen_keys(r, n);
		if r.chance(1, 2) {
			// Stretch into runs of random lengths.
			let mut i = 0;
			let w = r.range(1, 40);
			while i < n {
				let k = keys[i];
				let l = r.range(1, w).min(n - i);
				keys[i..i + l].fill(k);
				i += l;
			}
		}
		let ty = r.below(9);
		let api = r.pick(&[Api::Eq, Api::By, Api::By, Api::Key]);
		any(ctx, r, ty, keys, api, &format!("pattern{p}"))
	});
	ctx.finish();
}
