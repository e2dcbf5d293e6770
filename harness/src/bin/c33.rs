//! C33: parallel operations run on the current thread pool and are spread over it.
use harness::anyop::Op;
use harness::host::{Host, gen_layout, layout_class};
use harness::elem::{B3, El, P8, W72};
use harness::ndarray::{Array1, ArrayViewMut1};
use harness::ops::Form;
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{Slice1Ext, genk, oracle};
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::cell::Cell;
use std::cmp::{Ordering, Reverse};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::time::Duration;

/// The last one is the global pool, used from outside of it.
const SIZES: [usize; 5] = [1, 4, 6, 8, 5];
const GLOBAL: usize = 4;
/// Each pool's threads carry the pool's number.
fn pools() -> &'static [ThreadPool] {
	static POOLS: OnceLock<Vec<ThreadPool>> = OnceLock::new();
	POOLS.get_or_init(|| {
		ThreadPoolBuilder::new().num_threads(SIZES[GLOBAL]).start_handler(|i| ME.set((GLOBAL + 1, i))).build_global().unwrap();
		SIZES[..GLOBAL]
			.iter()
			.enumerate()
			.map(|(p, &n)| ThreadPoolBuilder::new().num_threads(n).start_handler(move |i| ME.set((p + 1, i))).build().unwrap())
			.collect()
	})
}
thread_local!(static ME: Cell<(usize, usize)> = const { Cell::new((0, 0)) });
thread_local!(static CALLER: Cell<bool> = const { Cell::new(false) });
static ON: AtomicBool = AtomicBool::new(false);
static POOL: AtomicU64 = AtomicU64::new(0);
static EVERY: AtomicU64 = AtomicU64::new(1);
static FOREIGN: AtomicU64 = AtomicU64::new(0);
static CALLS: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];

/// A callback that takes its time.
fn slow() {
	if !ON.load(Relaxed) {
		return;
	}
	let (mut p, mut i) = ME.get();
	let pool = POOL.load(Relaxed);
	if pool == GLOBAL as u64 + 1 && CALLER.get() {
		// The calling thread takes part until the work is divided.
		(p, i) = (GLOBAL + 1, 7);
	}
	if p as u64 != pool {
		FOREIGN.fetch_add(1, Relaxed);
		return;
	}
	let c = CALLS[i].fetch_add(1, Relaxed);
	if c % EVERY.load(Relaxed) == 0 {
		std::thread::sleep(Duration::from_micros(40));
	}
}
#[derive(Clone, Copy)]
struct Slow(u32);
impl Ord for Slow {
	fn cmp(&self, o: &Self) -> Ordering {
		slow();
		self.0.cmp(&o.0)
	}
}
impl PartialOrd for Slow {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Eq for Slow {}
impl PartialEq for Slow {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}

fn go<T: El + Sync>(op: Op, form: Form, v: &mut ArrayViewMut1<T>, ix: &Array1<usize>) {
	let rev = form.rev();
	let by = move |a: &T, b: &T| {
		slow();
		if rev { b.key().cmp(&a.key()) } else { a.key().cmp(&b.key()) }
	};
	let keyed = matches!(form, Form::Key | Form::KeyRev | Form::Ord);
	match op {
		Op::ParU if keyed && rev => v.par_sort_unstable_by_key(|a| Reverse(Slow(a.key()))),
		Op::ParU if keyed => v.par_sort_unstable_by_key(|a| Slow(a.key())),
		Op::ParU => v.par_sort_unstable_by(by),
		Op::ParS if keyed && rev => v.par_sort_by_key(|a| Reverse(Slow(a.key()))),
		Op::ParS if keyed => v.par_sort_by_key(|a| Slow(a.key())),
		Op::ParS => v.par_sort_by(by),
		// The key function takes its time, or comparing keys does.
		Op::ParCached if rev => v.par_sort_by_cached_key(|a| Reverse(Slow(a.key()))),
		Op::ParCached => v.par_sort_by_cached_key(|a| {
			slow();
			a.key()
		}),
		_ => {
			let mut c = Vec::with_capacity(ix.len());
			if keyed && rev {
				v.par_select_many_nth_unstable_by_key(ix, &mut c, |a| Reverse(Slow(a.key())));
			} else if keyed {
				v.par_select_many_nth_unstable_by_key(ix, &mut c, |a| Slow(a.key()));
			} else {
				v.par_select_many_nth_unstable_by(ix, &mut c, by);
			}
		}
	}
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, n: usize) -> Res {
	let n = n.min(T::MAXLEN - 2);
	let form = pick_form(r);
	let lay = if r.chance(1, 2) { layout_class(r.below(2)) } else { gen_layout(r, n) };
	let d = r.pick(&[n / 4, n, 8 * n]) as u32;
	let what = r.below(3);
	let mut keys: Vec<u32> = match what {
		0 => (0..n).map(|_| r.below(d as usize) as u32).collect(),
		1 => {
			let mut k: Vec<u32> = (0..n as u32).collect();
			for i in (1..n).rev() {
				k.swap(i, r.below(i + 1));
			}
			k
		}
		// Short stretches.
		_ => (0..n as u32).map(|i| mix(i as u64 / 5) as u32 / 2 + i % 5).collect(),
	};
	genk::squeeze(&mut keys, T::MAXKEY);
	let m = r.pick(&[n / 2, n / 8, n / 16]);
	let mut ix: Vec<usize> = (0..m).map(|i| i * n / m + r.below((n / m).max(1))).collect();
	ix.sort_unstable();
	ix.dedup();
	let ix = Array1::from_vec(ix);
	let p = r.pick(&[0, 1, 2, 3, 3, 4]);
	let every = match op {
		Op::ParCached if !form.rev() => 4,
		_ => 24,
	};
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} m={m} {lay:?} content={what}/{d} threads={}", T::NAME, SIZES[p]));
	let mut best = u64::MAX;
	for attempt in 0..4 {
		let mut host = Host::<T>::new(lay, &keys);
		CALLS.iter().for_each(|c| c.store(0, SeqCst));
		FOREIGN.store(0, SeqCst);
		POOL.store(p as u64 + 1, SeqCst);
		EVERY.store(if p == 0 { u64::MAX / 2 } else { every }, SeqCst);
		ON.store(true, SeqCst);
		let res = {
			let mut v = host.view_mut();
			let (v, ix) = (&mut v, &ix);
			let pools = pools();
			if p == GLOBAL { guard(|| go(op, form, v, ix)) } else { pools[p].install(|| guard(|| go(op, form, v, ix))) }
		};
		ON.store(false, SeqCst);
		res.map_err(|p| payload(&*p))?;
		oracle::conserved(&keys, &host.out())?;
		if op.sorts() {
			oracle::sorted(&host.out(), form.rev())?;
		}
		if FOREIGN.load(SeqCst) > 0 {
			return Err(format!("{} callbacks ran on threads outside of the current pool", FOREIGN.load(SeqCst)));
		}
		let c: Vec<u64> = CALLS.iter().map(|c| c.load(SeqCst)).collect();
		let all: u64 = c.iter().sum();
		let most = *c.iter().max().unwrap();
		let share = most * 100 / all.max(1);
		best = best.min(share);
		ctx.ev("callbacks", all);
		ctx.ev("threads that took part", c.iter().filter(|&&c| c > 0).count() as u64);
		let mut h = 0;
		for c in c {
			h = mix(h ^ c);
		}
		ctx.sched(h);
		if p == 0 || share <= if SIZES[p] < 6 { 60 } else { 50 } {
			break;
		}
		ctx.ev("repeated", 1);
		if attempt == 3 {
			return Err(format!("one thread made at least {best} of 100 callbacks in each of four runs though {} were idle", SIZES[p] - 1));
		}
	}
	if p > 0 {
		ctx.ev_max(&format!("share of the busiest thread in {op:?} on {} threads, percent", SIZES[p]), best);
	}
	let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50) ^ mix(p as u64 + 70);
	ctx.eval(sig, p > 0);
	Ok(())
}

const OPS: [Op; 4] = [Op::ParU, Op::ParS, Op::ParCached, Op::ParMany];
fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, n: usize) -> Res {
	match r.below(4) {
		0 => case::<W72>(ctx, r, op, n),
		1 => case::<B3>(ctx, r, op, n),
		_ => case::<P8>(ctx, r, op, n),
	}
}
fn main() {
	CALLER.set(true);
	let mut ctx = Ctx::new("C33");
	let th = ctx.thorough;
	let lens = [16_000usize, 16_384, 20_000, 30_000, 40_000, 65_535, 65_536, 65_537, 70_000];
	ctx.fixed("table", (OPS.len() * lens.len() * if th { 60 } else { 4 }) as u64, |ctx, r, i| any(ctx, r, OPS[i as usize % 4], lens[i as usize / 4 % lens.len()]));
	ctx.timed("random", 1.0, 4, |ctx, r, _| {
		let op = r.pick(&OPS);
		let n = r.range(16_000, if th { 200_000 } else { 50_000 });
		any(ctx, r, op, n)
	});
	ctx.finish();
}
