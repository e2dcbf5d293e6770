//! C26: parallel operations are free of data races. Elements are only sendable and change through a
//! `Cell` on every callback; a monitor watches that none is with two threads at once. The same
//! workload runs under ThreadSanitizer, so the monitor orders nothing between threads (relaxed
//! atomics only).
use harness::adv;
use harness::anyop::{Op, gen_arg};
use harness::elem::{El, clear_ledgers};
use harness::host::{Host, gen_layout, layout_class};
use harness::ndarray::{Array1, ArrayViewMut1};
use harness::ops::Form;
use harness::par::{self, How, gen_how};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::par_select_killer;
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{Slice1Ext, genk, hook, oracle};
use std::cell::Cell;
use std::cmp::{Ordering, Reverse};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

const MOST: usize = 1 << 17;
static USER: [AtomicU32; MOST] = [const { AtomicU32::new(0) }; MOST];
static MADE: [AtomicU32; MOST] = [const { AtomicU32::new(0) }; MOST];
/// Callbacks that met an element in use by another thread; the element.
static SHARED: AtomicU64 = AtomicU64::new(0);
static SHARED_ID: AtomicU64 = AtomicU64::new(0);
/// Most threads inside callbacks at once, and how often there were several.
static INSIDE: AtomicU32 = AtomicU32::new(0);
static MOST_INSIDE: AtomicU32 = AtomicU32::new(0);
static OVERLAPS: AtomicU64 = AtomicU64::new(0);

fn enter(id: u32) -> bool {
	let me = hook::tid() as u32;
	let Some(u) = USER.get(id as usize) else { return false };
	match u.compare_exchange(0, me, Relaxed, Relaxed) {
		Ok(_) => true,
		Err(t) if t == me => false,
		Err(_) => {
			SHARED.fetch_add(1, Relaxed);
			SHARED_ID.store(id as u64, Relaxed);
			false
		}
	}
}
/// Holds elements for the time of a callback, also when it panics.
struct Held(u32, u32, bool, bool);
impl Held {
	fn new(a: u32, b: u32) -> Self {
		let n = INSIDE.fetch_add(1, Relaxed) + 1;
		if n > 1 {
			MOST_INSIDE.fetch_max(n, Relaxed);
			OVERLAPS.fetch_add(1, Relaxed);
		}
		Held(a, b, enter(a), a != b && enter(b))
	}
}
impl Drop for Held {
	fn drop(&mut self) {
		if self.2 {
			USER[self.0 as usize].store(0, Relaxed);
		}
		if self.3 {
			USER[self.1 as usize].store(0, Relaxed);
		}
		INSIDE.fetch_sub(1, Relaxed);
	}
}

/// Sendable, not shareable.
#[derive(Debug)]
struct Ex<const P: usize> {
	key: u32,
	id: u32,
	n: Cell<u32>,
	pad: [u32; P],
	back: Cell<u32>,
}
impl<const P: usize> El for Ex<P> {
	const NAME: &'static str = if P > 2 { "WideExclusive" } else { "Exclusive" };
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = MOST;
	fn mk(key: u32, id: u32) -> Self {
		Ex { key, id, n: Cell::new(0), pad: [!id; P], back: Cell::new(0) }
	}
	fn key(&self) -> u32 {
		self.key
	}
	fn id(&self) -> u32 {
		self.id
	}
	fn touch(&self) {
		self.n.set(self.n.get() + 1);
		if let Some(m) = MADE.get(self.id as usize) {
			m.fetch_add(1, Relaxed);
		}
	}
	fn ok(&self) -> bool {
		self.pad == [!self.id; P]
	}
}
fn done<const P: usize>(e: &Ex<P>) {
	e.back.set(e.back.get() + 1);
}
fn cmp_ex<const P: usize>(a: &Ex<P>, b: &Ex<P>) -> Ordering {
	let _h = Held::new(a.id, b.id);
	hook::see(a.id, a.ok());
	hook::see(b.id, b.ok());
	a.touch();
	b.touch();
	struct Done<'a, const P: usize>(&'a Ex<P>, &'a Ex<P>);
	impl<const P: usize> Drop for Done<'_, P> {
		fn drop(&mut self) {
			done(self.0);
			done(self.1);
		}
	}
	let _d = Done(a, b);
	hook::tick();
	a.key.cmp(&b.key)
}
fn key_ex<const P: usize>(a: &Ex<P>) -> u32 {
	let _h = Held::new(a.id, a.id);
	hook::see(a.id, a.ok());
	a.touch();
	struct Done<'a, const P: usize>(&'a Ex<P>);
	impl<const P: usize> Drop for Done<'_, P> {
		fn drop(&mut self) {
			done(self.0);
		}
	}
	let _d = Done(a);
	hook::tick();
	a.key
}
impl<const P: usize> Ord for Ex<P> {
	fn cmp(&self, o: &Self) -> Ordering {
		cmp_ex(self, o)
	}
}
impl<const P: usize> PartialOrd for Ex<P> {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl<const P: usize> Eq for Ex<P> {}
impl<const P: usize> PartialEq for Ex<P> {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}

/// Key that is only sendable, too: an `Ex` apart from the array's.
fn key_of(e: &harness::elem::P8) -> Ex<2> {
	hook::tick();
	Ex::mk(e.key(), e.id())
}

const OPS: &[Op] = &[Op::ParU, Op::ParS, Op::ParMany];

fn call<const P: usize>(op: Op, form: Form, v: &mut ArrayViewMut1<Ex<P>>, ix: &Array1<usize>) {
	let rev = |a: &Ex<P>, b: &Ex<P>| cmp_ex(a, b).reverse();
	let rkey = |a: &Ex<P>| Reverse(key_ex(a));
	match (op, form) {
		(Op::ParU, Form::Ord) => v.par_sort_unstable(),
		(Op::ParU, Form::By) => v.par_sort_unstable_by(cmp_ex),
		(Op::ParU, Form::ByRev) => v.par_sort_unstable_by(rev),
		(Op::ParU, Form::Key) => v.par_sort_unstable_by_key(key_ex),
		(Op::ParU, Form::KeyRev) => v.par_sort_unstable_by_key(rkey),
		(Op::ParS, Form::Ord) => v.par_sort(),
		(Op::ParS, Form::By) => v.par_sort_by(cmp_ex),
		(Op::ParS, Form::ByRev) => v.par_sort_by(rev),
		(Op::ParS, Form::Key) => v.par_sort_by_key(key_ex),
		(Op::ParS, Form::KeyRev) => v.par_sort_by_key(rkey),
		(_, Form::Ord) => v.par_select_many_nth_unstable(ix, &mut vec![]),
		(_, Form::By) => v.par_select_many_nth_unstable_by(ix, &mut vec![], cmp_ex),
		(_, Form::ByRev) => v.par_select_many_nth_unstable_by(ix, &mut vec![], rev),
		(_, Form::Key) => v.par_select_many_nth_unstable_by_key(ix, &mut vec![], key_ex),
		(_, Form::KeyRev) => v.par_select_many_nth_unstable_by_key(ix, &mut vec![], rkey),
	}
}

fn prepare(n: usize, how: How, k: u64, all: bool) {
	MADE[..n].iter().for_each(|m| m.store(0, Relaxed));
	clear_ledgers(n);
	SHARED.store(0, SeqCst);
	OVERLAPS.store(0, SeqCst);
	hook::reset();
	hook::cap(loop_cap(n));
	hook::delay(how.delay);
	hook::trace(true);
	hook::panic_at(k, all);
}

/// Judges what the monitor saw of one operation and returns whether several threads took part.
fn judge(ctx: &mut Ctx, op: Op, res: Result<(), Box<dyn std::any::Any + Send>>, calls: u64) -> Result<(bool, u64), String> {
	let (sched, switches) = hook::sched();
	let fired = hook::fired();
	match res {
		Err(p) if p.is::<hook::Injected>() => ctx.ev("ended by an injected panic", 1),
		Err(p) => return Err(payload(&*p)),
		Ok(()) => ctx.ev(&format!("runs of {op:?}"), 1),
	}
	let shared = SHARED.load(SeqCst);
	if shared > 0 {
		return Err(format!("{shared} callbacks met an element in use by another thread (the last one {})", SHARED_ID.load(SeqCst)));
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	if fired > 0 || calls % 7 == 0 {
		std::thread::yield_now();
		std::thread::sleep(std::time::Duration::from_micros(calls % 200));
	}
	if hook::calls() != calls {
		return Err(format!("{} callback calls happened after the operation had returned", hook::calls() - calls));
	}
	let over = OVERLAPS.load(SeqCst);
	ctx.ev("callback calls watched", calls);
	ctx.ev("callbacks overlapping another thread's", over);
	ctx.ev_max("threads inside callbacks at once", MOST_INSIDE.load(SeqCst) as u64);
	if switches > 1 {
		ctx.sched(sched);
	}
	Ok((over > 0 || switches > 1, sched))
}

#[allow(clippy::too_many_arguments)]
fn case<const P: usize>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], how: How, k: u64, what: &str) -> Res {
	let n = keys.len();
	let lay = if n > 2000 && r.chance(1, 2) { layout_class(r.below(3)) } else { gen_layout(r, n) };
	let arg = gen_arg(r, keys);
	let ix = Array1::from_vec(arg.many.clone());
	let all = r.chance(1, 3);
	let mut host = Host::<Ex<P>>::new(lay, keys);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} m={} {lay:?} {how:?} panic at call {k} content={what}", Ex::<P>::NAME, arg.many.len()));
	prepare(n, how, k, all);
	let (res, calls) = {
		let mut v = host.view_mut();
		(guard(|| par::run(how, &mut || call(op, form, &mut v, &ix))), hook::calls())
	};
	let (both, sched) = judge(ctx, op, res, calls)?;
	hook::reset();
	oracle::conserved(keys, &host.out())?;
	for e in host.view().iter() {
		let m = MADE[e.id as usize].load(Relaxed);
		if e.n.get() != m || e.back.get() != m {
			return Err(format!("element {} carries {} and {} changes, {m} were made", e.id, e.n.get(), e.back.get()));
		}
	}
	host.check_canaries()?;
	let sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50) ^ mix(P as u64 + 9) ^ mix(sched);
	ctx.eval(sig, both);
	Ok(())
}

/// Keys of the cached sort are only sendable.
fn cached(ctx: &mut Ctx, r: &mut Rng, keys: &[u32], how: How, k: u64, what: &str) -> Res {
	let n = keys.len();
	let lay = gen_layout(r, n);
	let mut host = Host::<harness::elem::P8>::new(lay, keys);
	ctx.begin(format_args!("ParCached n={n} {lay:?} {how:?} panic at call {k} content={what}"));
	prepare(n, how, k, false);
	let (res, calls) = {
		let mut v = host.view_mut();
		(guard(|| par::run(how, &mut || v.par_sort_by_cached_key(key_of))), hook::calls())
	};
	let (both, sched) = judge(ctx, Op::ParCached, res, calls)?;
	hook::reset();
	oracle::conserved(keys, &host.out())?;
	let sig = oracle::digest_keys(keys) ^ mix(hash_layout(lay)) ^ mix(sched) ^ hash_str("cached");
	ctx.eval(sig, both);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], what: &str) -> Res {
	let mut how = gen_how(r);
	if how.pool == 0 {
		how.pool = 3;
	}
	let n = keys.len();
	let k = if r.chance(1, 6) { r.logu(n * 12 + 2) as u64 } else { u64::MAX };
	match op {
		Op::ParCached => cached(ctx, r, keys, how, k, what),
		_ if r.chance(1, 3) => case::<30>(ctx, r, op, form, keys, how, k, what),
		_ => case::<2>(ctx, r, op, form, keys, how, k, what),
	}
}

fn main() {
	let mut ctx = Ctx::new("C26");
	let th = ctx.thorough;
	let slow = ctx.slow;
	let pick_op = |r: &mut Rng| if r.chance(1, 8) { Op::ParCached } else { r.pick(OPS) };
	// Edges of the sequential parts of each operation.
	let edges: &[usize] = &[2001, 2049, 4001, 5001, 6000, 8200, 20_000, 70_000];
	let some = if slow { 5 } else { edges.len() };
	let mut tab = vec![];
	for p in 0..genk::NPAT {
		for &n in &edges[..some] {
			for &op in OPS {
				tab.push((p, n, op));
			}
		}
	}
	let len = if th { tab.len() * 4 } else if slow { tab.len() / 6 } else { tab.len() };
	ctx.fixed("table", len as u64, |ctx, r, i| {
		let (p, n, op) = tab[if slow && !th { r.below(tab.len()) } else { i as usize % tab.len() }];
		let keys = genk::pattern(r, n, p);
		let form = pick_form(r);
		any(ctx, r, op, form, &keys, &format!("pattern{p}"))
	});
	ctx.fixed("adversary", if th { 400 } else if slow { 16 } else { 80 }, |ctx, r, i| {
		let n = r.range(2100, 9000);
		let rev = r.chance(1, 2);
		ctx.begin(format_args!("recording n={n} rev={rev}"));
		let keys = match i % 3 {
			0 => adv::record(r, n, rev, |v, f| v.par_sort_unstable_by(|a, b| f(a, b))).0,
			1 => adv::record(r, n, rev, |v, f| v.par_sort_by(|a, b| f(a, b))).0,
			_ => {
				let ix = genk::gen_indices(r, n);
				par_select_killer(r, n, &ix, rev)
			}
		};
		let form = pick_form(r);
		any(ctx, r, OPS[i as usize % 3], form, &keys, "adversary")
	});
	ctx.timed("random", 1.0, 8, |ctx, r, _| {
		let op = pick_op(r);
		let n = if r.chance(1, 6) { genk::gen_len(r, 2000) } else { r.range(2000, if slow { 7000 } else { 30_000 }) };
		let (keys, p) = genk::gen_keys(r, n);
		let form = pick_form(r);
		any(ctx, r, op, form, &keys, &format!("pattern{p}"))
	});
	ctx.finish();
}
