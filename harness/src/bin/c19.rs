//! C19: auxiliary memory, watched by a counting allocator.
use harness::anyop::{Op, gen_content};
use harness::direct::{OPS, go};
use harness::elem::{A64, B3, D, El, Hb, Key, P8, W72, clear_ledgers, cmp_el, dropped, key_el};
use harness::host::{Host, gen_layout};
use harness::ndarray::{Array1, ArrayViewMut1};
use harness::ops::{self, FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{Slice1Ext, genk, hook, oracle, par, zst};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cmp::Reverse;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

/// Counts while switched on: everywhere, or on the thread that switched it on.
struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static OWNER: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

/// The address of a thread-local names the thread without allocating.
fn me() -> u64 {
	thread_local!(static ME: u8 = const { 0 });
	ME.try_with(|m| m as *const u8 as u64).unwrap_or(1)
}
fn counted() -> bool {
	if !ON.load(Relaxed) {
		return false;
	}
	let o = OWNER.load(Relaxed);
	o == 0 || me() == o
}
fn plus(size: usize) {
	COUNT.fetch_add(1, Relaxed);
	let now = LIVE.fetch_add(size as i64, Relaxed) + size as i64;
	PEAK.fetch_max(now, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if counted() {
			plus(l.size());
		}
		unsafe { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if counted() {
			LIVE.fetch_sub(l.size() as i64, Relaxed);
		}
		unsafe { System.dealloc(p, l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if counted() {
			// Old and new may exist at once.
			plus(new);
			LIVE.fetch_sub(l.size() as i64, Relaxed);
		}
		unsafe { System.realloc(p, l, new) }
	}
}
#[global_allocator]
static COUNTING: Counting = Counting;

#[derive(Clone, Copy, Debug)]
struct Seen {
	count: u64,
	peak: i64,
	left: i64,
}
fn watch<R>(all: bool, f: impl FnOnce() -> R) -> (R, Seen) {
	LIVE.store(0, SeqCst);
	PEAK.store(0, SeqCst);
	COUNT.store(0, SeqCst);
	OWNER.store(if all { 0 } else { me() }, SeqCst);
	ON.store(true, SeqCst);
	let r = f();
	ON.store(false, SeqCst);
	(r, Seen { count: COUNT.load(SeqCst), peak: PEAK.load(SeqCst), left: LIVE.load(SeqCst) })
}


/// What rayon may keep or use for its own queues, whatever is being sorted.
const RAYON: i64 = 128 << 10;
const KEPT: i64 = 32 << 10;

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, panic: bool) -> Res {
	with::<T>(ctx, r, op, form, n, panic, None)
}
fn with<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, panic: bool, given: Option<Vec<u32>>) -> Res {
	let n = n.min(T::MAXLEN - 2);
	if n == 0 && op == Op::Select {
		return Ok(());
	}
	let (keys, p) = if let Some(k) = given {
		(k, 998)
	} else if op.sorts() && r.chance(1, 4) || matches!(op, Op::Select | Op::Many) && r.chance(1, 4) {
		let mut k = killer(r, op, n, form.rev());
		genk::squeeze(&mut k, T::MAXKEY);
		(k, 999)
	} else {
		gen_content(r, op, form, n, T::MAXKEY)
	};
	let lay = gen_layout(r, n);
	let index = if n == 0 { 0 } else { harness::selcase::gen_index(r, n) };
	// Few indices, so that memory per index and memory per element can be told apart.
	let mut ix = genk::gen_indices(r, n);
	let most = r.pick(&[1, 2, 10, 50]);
	while ix.len() > most {
		let i = r.below(ix.len());
		ix.remove(i);
	}
	let m = ix.len();
	let ix = Array1::from_vec(ix);
	let target = T::mk(if n == 0 { 0 } else { keys[r.below(n)] }, T::MAXLEN as u32 - 1);
	let pool = r.below(par::pools().len());
	let mut host = Host::<T>::new(lay, &keys);
	if T::NAME == D::NAME {
		clear_ledgers(n);
	}
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} m={m} {lay:?} content=pattern{p} panic={panic}", T::NAME));
	hook::reset();
	if panic {
		let total = match op {
			Op::Bin | Op::Point => log2(n) as usize + 2,
			Op::Dedup | Op::Contains | Op::IsSorted | Op::Cached | Op::ParCached => n.max(1),
			Op::Select | Op::Many | Op::ParMany => 2 * n + 1,
			_ => n * log2(n) as usize / 2 + 2,
		};
		hook::panic_at(r.below(total) as u64, false);
	}
	let (res, seen) = {
		let v = host.view_mut();
		let tr = &target;
		let ixr = &ix;
		watch(op.par(), move || guard(|| go(op, form, v, index, ixr, tr, m, &par::pools()[pool])).map_err(|p| p.downcast_ref::<hook::Injected>().is_some().then_some(()).ok_or_else(|| payload(&*p))))
	};
	let fired = hook::fired() > 0;
	hook::reset();
	if let Err(Err(m)) = res {
		return Err(m);
	}
	if res.is_err() != fired {
		return Err("the injected panic did not reach the caller".into());
	}
	oracle::conserved(&keys, &host.out())?;
	if T::NAME == D::NAME {
		dropped(n, 0)?;
	}
	let size = size_of::<T>() as i64;
	let nn = n as i64;
	// What a panic's payload takes.
	let extra = if fired { 512 } else { 0 };
	let refs = match op {
		Op::Many => (m * size_of::<(usize, &T)>()) as i64,
		Op::ParMany => (m * size_of::<&T>()) as i64,
		_ => 0,
	};
	let limit = extra
		+ match op {
			Op::SortS if n <= 10 => 0,
			Op::SortS => nn / 2 * size + 1024 + 128 * log2(n) as i64,
			Op::Cached => nn * size_of::<(Key, usize)>() as i64 + 1024,
			Op::Many => refs + 1024 + 64 * m as i64,
			Op::ParU => RAYON,
			Op::ParMany => refs + RAYON + 64 * m as i64,
			Op::ParS | Op::ParCached => i64::MAX / 2,
			_ => 0,
		};
	if seen.peak > limit {
		return Err(format!("{} bytes were allocated at once, at most {limit} may be ({} elements of {size} bytes)", seen.peak, n));
	}
	if limit == 0 && seen.count > 0 {
		return Err(format!("{} allocations where none is allowed", seen.count));
	}
	let slack = if op.par() { KEPT } else { 0 };
	if seen.left > slack || (!op.par() && seen.left != 0) {
		return Err(format!("{} bytes were not released", seen.left));
	}
	ctx.ev("allocations seen", seen.count);
	ctx.ev_max(&format!("peak bytes of {op:?}"), (seen.peak - refs).max(0) as u64);
	ctx.ev_max(&format!("bytes kept after {op:?}"), seen.left.max(0) as u64);
	if fired {
		ctx.ev("panics injected", 1);
	}
	ctx.ev(&format!("runs of {op:?}"), 1);
	let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50) ^ mix(ix.iter().fold(index as u64, |h, &i| mix(h ^ i as u64)));
	ctx.eval(sig, n >= 2);
	Ok(())
}

fn killer(r: &mut Rng, op: Op, n: usize, rev: bool) -> Vec<u32> {
	if n < 2 || n > 4000 {
		return (0..n as u32).collect();
	}
	let k = r.below(n);
	harness::adv::record(r, n, rev, |v, c| match op {
		Op::Select | Op::Many => {
			let _ = v.select_nth_unstable_by(k, c);
		}
		_ => v.sort_unstable_by(c),
	})
	.0
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, panic: bool) -> Res {
	match if n > 40_000 { 0 } else { r.below(6) } {
		0 => case::<P8>(ctx, r, op, form, n, panic),
		1 => case::<D>(ctx, r, op, form, n, panic),
		2 => case::<B3>(ctx, r, op, form, n, panic),
		3 => case::<W72>(ctx, r, op, form, n, panic),
		4 => case::<A64>(ctx, r, op, form, n, panic),
		_ => case::<Hb>(ctx, r, op, form, n, panic),
	}
}

/// Keys that own memory: whatever the key function allocates is released with the keys.
fn owning_keys(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
	let n = genk::gen_len(r, 1500).max(1);
	let (keys, p) = genk::gen_keys(r, n);
	let op = i % 6;
	let fire = if r.chance(1, 3) { r.below(2 * n) as u64 } else { u64::MAX };
	let mut a: Array1<u32> = Array1::from_vec(keys.clone());
	let k = r.below(n);
	ctx.begin(format_args!("operation {op} with owning keys n={n} content=pattern{p} panic at {fire}"));
	hook::reset();
	hook::panic_at(fire, false);
	let f = |x: &u32| {
		hook::tick();
		vec![*x; 1 + *x as usize % 5]
	};
	let pools = par::pools();
	let (res, seen) = {
		let a = &mut a;
		watch(op >= 4, move || {
			guard(|| match op {
				0 => a.sort_unstable_by_key(f),
				1 => a.sort_by_key(f),
				2 => a.sort_by_cached_key(f),
				3 => {
					let _ = a.select_nth_unstable_by_key(k, f);
				}
				4 => pools[1].install(|| a.par_sort_by_cached_key(f)),
				_ => pools[2].install(|| a.par_sort_by_key(f)),
			})
			.map_err(|p| payload(&*p))
		})
	};
	let fired = hook::fired() > 0;
	hook::reset();
	// The text of the payload is still held when counting ends.
	let held = res.as_ref().err().map_or(0, |m| m.capacity() as i64);
	if let (Err(m), false) = (&res, fired) {
		return Err(m.clone());
	}
	let left = seen.left - held;
	if left > if op >= 4 { KEPT } else { 0 } || (op < 4 && left != 0) {
		return Err(format!("{left} bytes were not released"));
	}
	let (mut x, mut y) = (a.to_vec(), keys);
	x.sort_unstable();
	y.sort_unstable();
	if x != y {
		return Err("the values are not the previous ones".into());
	}
	ctx.ev("allocations of owning keys", seen.count);
	ctx.eval(mix(r.next()), n >= 2);
	Ok(())
}

/// Memory kept per call would add up.
fn adding_up(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
	let op = [Op::ParU, Op::ParS, Op::ParCached, Op::ParMany][i as usize % 4];
	let n = r.pick(&[4500usize, 6000]);
	let form = pick_form(r);
	let keys = genk::pattern(r, n, 0);
	let mut host = Host::<P8>::new(gen_layout(r, n), &keys);
	let ix = Array1::from_vec(vec![0, n / 3, n / 2, n - 1]);
	let t = P8::mk(0, 0);
	let pool = r.below(par::pools().len());
	let rounds = 40;
	ctx.begin(format_args!("{op:?} {form:?} on P8 n={n} {rounds} times on pool {pool}"));
	hook::reset();
	let (res, seen) = {
		let mut v = host.view_mut();
		watch(true, || {
			guard(|| {
				for k in 0..rounds {
					go(op, form, v.view_mut(), 0, &ix, &t, 4, &par::pools()[pool]);
					v.swap(k, n - 1 - k);
				}
			})
			.map_err(|p| payload(&*p))
		})
	};
	res?;
	if seen.left > KEPT {
		return Err(format!("{} bytes were not released in {rounds} calls", seen.left));
	}
	ctx.ev_max("bytes kept after repeated parallel calls", seen.left.max(0) as u64);
	ctx.eval(mix(r.next()), true);
	Ok(())
}

fn main() {
	let mut ctx = Ctx::new("C19");
	let th = ctx.thorough;
	// First uses of pools, thread-locals and panics allocate for good.
	for p in par::pools() {
		p.install(|| {
			let mut a = Array1::from_iter((0..20_000u32).map(|i| i.wrapping_mul(2_654_435_761)));
			a.par_sort();
			a.par_sort_unstable_by(|a, b| b.cmp(a));
			a.par_sort_by_cached_key(|a| a.wrapping_mul(77));
		});
		let _ = guard(|| p.install(|| std::panic::panic_any(hook::Injected(0))));
	}
	let _ = guard(|| std::panic::panic_any(hook::Injected(0)));
	let lens = [0usize, 1, 2, 3, 5, 8, 10, 11, 15, 20, 21, 22, 30, 49, 50, 51, 100, 127, 128, 129, 256, 300, 513, 1000, 1025, 2001, 2100, 4100, 5001, 10_100, 30_000];
	ctx.fixed("table", (OPS.len() * lens.len() * 5 * if th { 20 } else { 1 }) as u64, |ctx, r, i| {
		let i = i as usize;
		let op = OPS[i % OPS.len()];
		let n = lens[i / OPS.len() % lens.len()];
		let form = FORMS[i / OPS.len() / lens.len() % 5];
		let panic = n > 1 && op != Op::Reverse && r.chance(1, 4);
		any(ctx, r, op, form, n, panic)
	});
	ctx.fixed("long", if th { 200 } else { 16 }, |ctx, r, i| {
		let op = [Op::Select, Op::SortU, Op::Many, Op::SortS, Op::ParU, Op::ParMany, Op::Dedup, Op::Cached][i as usize % 8];
		let form = FORMS[r.below(5)];
		any(ctx, r, op, form, 140_000, false)
	});
	// The stack of pending runs outgrows its first allocation.
	ctx.fixed("pending", if th { 200 } else { 16 }, |ctx, r, i| {
		let keys = genk::pending(r, 17 + i as usize / 8 % 2);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		with::<P8>(ctx, r, Op::SortS, form, keys.len(), r.clone().chance(1, 3), Some(keys))
	});
	ctx.fixed("owning", if th { 20_000 } else { 1200 }, owning_keys);
	ctx.fixed("repeated", if th { 400 } else { 32 }, adding_up);
	ctx.fixed("nothing", 90, |ctx, r, i| {
		let op = [0, 1, 2, 3, 4, 5][i as usize / 15];
		let _ = r;
		let mut bad = None;
		zst::check(ctx, i as usize, &format!("operation {op}"), |v| {
			let n = v.len();
			let ((), seen) = watch(false, || match op {
				0 => v.sort_unstable(),
				1 => v.sort(),
				2 if n > 0 => {
					let _ = v.select_nth_unstable(n / 2);
				}
				3 => {
					let _ = v.partition_dedup();
				}
				4 => v.reverse(),
				_ => {
					let _ = v.is_sorted();
				}
			});
			if seen.count > 0 {
				bad = Some(seen);
			}
		})?;
		match bad {
			Some(s) => Err(format!("allocated for zero-sized elements: {s:?}")),
			None => Ok(()),
		}
	});
	ctx.timed("random", 1.0, 200, |ctx, r, _| {
		let op = r.pick(OPS);
		let n = if r.chance(1, 30) { r.range(2001, if th { 120_000 } else { 30_000 }) } else { genk::gen_len(r, 2500) };
		let form = pick_form(r);
		let panic = n > 1 && op != Op::Reverse && r.chance(1, 3);
		any(ctx, r, op, form, n, panic)
	});
	ctx.finish();
}

fn log2(n: usize) -> u32 {
	usize::BITS - n.leading_zeros()
}
