//! C03: cached-key sorting is stable and calls the key function at most once per element.
use harness::elem::{B3, El, Hb, P8, W72};
use harness::host::{Host, gen_layout};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::hash_layout;
use harness::{Slice1Ext, genk, hook, oracle, par, zst};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering::Relaxed, Ordering::SeqCst};

/// Key types, made from the element's key without changing its order (beyond coarsening).
trait K: Ord + Send + Debug + Sized {
	const NAME: &'static str;
	/// Exclusive bound on usable keys.
	const MAX: u32;
	fn of(k: u32, id: u32) -> Self;
}
macro_rules! int {
	($($t:ty),*) => { $(impl K for $t {
		const NAME: &'static str = stringify!($t);
		const MAX: u32 = if (<$t>::MAX as u128) < (1 << 24) { <$t>::MAX as u32 } else { 1 << 24 };
		fn of(k: u32, _: u32) -> Self { k as $t }
	})* };
}
int!(u8, i8, u16, u32, u64, u128);
impl K for () {
	const NAME: &'static str = "()";
	const MAX: u32 = 1;
	fn of(_: u32, _: u32) -> Self {}
}
impl K for bool {
	const NAME: &'static str = "bool";
	const MAX: u32 = 2;
	fn of(k: u32, _: u32) -> Self {
		k != 0
	}
}
impl K for [u8; 3] {
	const NAME: &'static str = "[u8;3]";
	const MAX: u32 = 1 << 24;
	fn of(k: u32, _: u32) -> Self {
		[(k >> 16) as u8, (k >> 8) as u8, k as u8]
	}
}
impl K for [u16; 3] {
	const NAME: &'static str = "[u16;3]";
	const MAX: u32 = 1 << 24;
	fn of(k: u32, _: u32) -> Self {
		[0, (k >> 12) as u16, (k & 0xfff) as u16]
	}
}
static LIVE: AtomicI64 = AtomicI64::new(0);
/// Owns memory, ordered by the number only, carries something ordering ignores.
#[derive(Debug)]
struct Owned(String, u32);
impl Drop for Owned {
	fn drop(&mut self) {
		LIVE.fetch_sub(1, Relaxed);
	}
}
impl PartialEq for Owned {
	fn eq(&self, o: &Self) -> bool {
		self.1 == o.1
	}
}
impl Eq for Owned {}
impl Ord for Owned {
	fn cmp(&self, o: &Self) -> Ordering {
		self.1.cmp(&o.1)
	}
}
impl PartialOrd for Owned {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl K for Owned {
	const NAME: &'static str = "Owned";
	const MAX: u32 = 1 << 24;
	fn of(k: u32, id: u32) -> Self {
		LIVE.fetch_add(1, Relaxed);
		Owned(format!("{}", u32::MAX - id), k)
	}
}
/// Reversed order.
impl K for std::cmp::Reverse<u16> {
	const NAME: &'static str = "Reverse<u16>";
	const MAX: u32 = 65535;
	fn of(k: u32, _: u32) -> Self {
		std::cmp::Reverse(65535 - k as u16)
	}
}

/// Wide keys, of which the order is decided at the very end.
impl<const N: usize> K for [u64; N] {
	const NAME: &'static str = "[u64;N]";
	const MAX: u32 = 1 << 24;
	fn of(k: u32, _: u32) -> Self {
		std::array::from_fn(|i| if i + 1 == N { k as u64 } else { 7 })
	}
}
/// Over-aligned.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
struct Far(u16);
impl K for Far {
	const NAME: &'static str = "align(64)";
	const MAX: u32 = 65536;
	fn of(k: u32, _: u32) -> Self {
		Far(k as u16)
	}
}

fn case<T: El + Sync, Q: K>(ctx: &mut Ctx, r: &mut Rng, n: usize, parallel: bool) -> Res {
	let n = n.min(T::MAXLEN - 1);
	let (mut keys, p) = genk::gen_keys(r, n);
	genk::squeeze(&mut keys, T::MAXKEY.min(Q::MAX));
	let lay = gen_layout(r, n);
	let how = par::gen_how(r);
	let mut host = Host::<T>::new(lay, &keys);
	let name = if parallel { "par_sort_by_cached_key" } else { "sort_by_cached_key" };
	ctx.begin(format_args!("{name} on {} key {} n={n} {lay:?} content=pattern{p} {how:?}", T::NAME, Q::NAME));
	let seen: Vec<AtomicU8> = (0..n).map(|_| AtomicU8::new(0)).collect();
	hook::reset();
	if parallel {
		hook::delay(how.delay);
	}
	let live = LIVE.load(SeqCst);
	let f = |e: &T| {
		hook::tick();
		hook::see(e.id(), e.ok());
		if let Some(s) = seen.get(e.id() as usize) {
			s.fetch_add(1, Relaxed);
		}
		Q::of(e.key(), e.id())
	};
	let res = {
		let mut v = host.view_mut();
		guard(|| {
			if parallel {
				par::run(how, &mut || v.par_sort_by_cached_key(f))
			} else {
				v.sort_by_cached_key(f)
			}
		})
	};
	if let Err(p) = res {
		return Err(payload(&*p));
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	if let Some(i) = seen.iter().position(|s| s.load(SeqCst) > 1) {
		return Err(format!("key function called {} times for element {i}", seen[i].load(SeqCst)));
	}
	if LIVE.load(SeqCst) != live {
		return Err("keys leaked or dropped twice".into());
	}
	let out = host.out();
	oracle::conserved(&keys, &out)?;
	oracle::sorted(&out, false)?;
	oracle::stable(&out)?;
	host.check_canaries()?;
	let moved = out.iter().enumerate().any(|(i, e)| e.1 as usize != i);
	let sig = mix(oracle::digest_keys(&keys) ^ hash_str(T::NAME) ^ mix(hash_str(Q::NAME)) ^ mix(hash_layout(lay)) ^ parallel as u64);
	ctx.eval(sig, n >= 2 && moved);
	ctx.ev("key calls observed", hook::calls());
	ctx.ev(if parallel { "parallel runs" } else { "sequential runs" }, 1);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, n: usize, parallel: bool, k: usize) -> Res {
	macro_rules! t {
		($q:ty) => {
			match r.below(if n > 20_000 { 1 } else { 4 }) {
				0 => case::<P8, $q>(ctx, r, n, parallel),
				1 => case::<B3, $q>(ctx, r, n, parallel),
				2 => case::<W72, $q>(ctx, r, n, parallel),
				_ => case::<Hb, $q>(ctx, r, n, parallel),
			}
		};
	}
	match k {
		0 => t!(()),
		1 => t!(bool),
		2 => t!(u8),
		3 => t!(i8),
		4 => t!(u16),
		5 => t!(u32),
		6 => t!(u64),
		7 => t!(u128),
		8 => t!([u8; 3]),
		9 => t!([u16; 3]),
		10 => t!(Owned),
		11 => t!(std::cmp::Reverse<u16>),
		12 => case::<P8, [u64; 5]>(ctx, r, n, parallel),
		13 => case::<P8, Far>(ctx, r, n, parallel),
		14 => case::<W72, [u64; 17]>(ctx, r, n.min(70_000), parallel),
		_ => case::<P8, [u64; 140]>(ctx, r, n.min(6000), parallel),
	}
}
const NK: usize = 16;

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C03");
	let th = ctx.thorough;
	// Every key type around every width switch, both ways.
	let widths = [0usize, 1, 2, 3, 5, 127, 128, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513];
	ctx.fixed("width", (widths.len() * NK * 2 * 6) as u64, |ctx, r, i| {
		let i = i as usize;
		any(ctx, r, widths[i % widths.len()], i / widths.len() % 2 == 1, i / widths.len() / 2 % NK)
	});
	let wide = [32767usize, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 131072];
	ctx.fixed("wide", (wide.len() * NK * 2 * if th { 8 } else { 1 }) as u64, |ctx, r, i| {
		let i = i as usize;
		any(ctx, r, wide[i % wide.len()], i / wide.len() % 2 == 1, i / wide.len() / 2 % NK)
	});
	ctx.fixed("zst", 100, |ctx, _, i| {
		zst::check(ctx, i as usize, "sort_by_cached_key", |v| match i % 3 {
			0 => v.sort_by_cached_key(|_| 1u8),
			1 => v.sort_by_cached_key(|_| ()),
			_ => v.par_sort_by_cached_key(|_| 1u64),
		})
	});
	ctx.timed("random", 1.0, 200, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 140_000 } else { 20_000 });
		let par = r.chance(1, 2);
		let k = r.below(NK);
		any(ctx, r, n, par, k)
	});
	ctx.finish();
}
