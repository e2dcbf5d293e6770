//! C29: operations called from within the callbacks of others behave as when called alone.
use harness::anyop::{Arg, Op, PAR, SEQ, gen_arg, gen_content, run_how};
use harness::elem::{El, cmp_el};
use harness::host::{Host, Layout, gen_layout};
use harness::ops::Form;
use harness::par;
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{genk, hook, oracle};
use std::any::Any;
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};

/// Calls an operation on another array once in a while when it is compared or asked for its key.
#[derive(Debug)]
struct N<const P: usize> {
	key: u32,
	id: u32,
	/// Panics about once in so many callbacks; never if zero.
	boom: u32,
	/// Where to note being asked about; nowhere if zero.
	slot: u32,
	pad: [u32; P],
}
impl<const P: usize> El for N<P> {
	const NAME: &'static str = if P > 1 { "WideNest" } else { "Nest" };
	const MAXKEY: u32 = u32::MAX;
	const MAXLEN: usize = 1 << 20;
	fn mk(key: u32, id: u32) -> Self {
		N { key, id, boom: 0, slot: 0, pad: [!id; P] }
	}
	fn key(&self) -> u32 {
		self.key
	}
	fn id(&self) -> u32 {
		self.id
	}
	fn touch(&self) {
		if self.slot != 0 {
			// In order, as only sequential operations get a slot.
			let s = &SLOTS[self.slot as usize];
			s.store(mix(s.load(Relaxed) ^ self.id as u64), Relaxed);
		}
		nest(self.boom);
	}
	fn ok(&self) -> bool {
		self.pad == [!self.id; P]
	}
}
type Small = N<1>;
type Wide = N<17>;
impl<const P: usize> Ord for N<P> {
	fn cmp(&self, o: &Self) -> Ordering {
		cmp_el(self, o)
	}
}
impl<const P: usize> PartialOrd for N<P> {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl<const P: usize> Eq for N<P> {}
impl<const P: usize> PartialEq for N<P> {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}

/// Digests of what sequential operations under way asked about, in that order.
static SLOTS: [AtomicU64; 4096] = [const { AtomicU64::new(0) }; 4096];
static NEXT: AtomicU32 = AtomicU32::new(0);
fn slot(op: Op) -> u32 {
	if op.par() {
		return 0;
	}
	let s = 1 + NEXT.fetch_add(1, Relaxed) % 4095;
	SLOTS[s as usize].store(1, Relaxed);
	s
}
fn asked(slot: u32) -> u64 {
	SLOTS[slot as usize].load(Relaxed)
}

/// An operation called from callbacks, with what it gives when called alone on a fresh thread.
struct Job {
	op: Op,
	form: Form,
	arg: Arg,
	keys: Vec<u32>,
	lay: Layout,
	pool: usize,
	boom: u32,
	wide: bool,
	ret: Vec<i64>,
	out: Vec<(u32, u32)>,
	asked: u64,
}
static JOBS: OnceLock<Vec<Job>> = OnceLock::new();
static ON: AtomicBool = AtomicBool::new(false);
static PERIOD: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU64 = AtomicU64::new(0);
static DEEP: AtomicU64 = AtomicU64::new(0);
static BROKEN: AtomicU64 = AtomicU64::new(0);
static WRONG: Mutex<Option<String>> = Mutex::new(None);
struct Boom;

thread_local! {
	/// What runs on this thread, outermost first.
	static DEPTH: Cell<u64> = const { Cell::new(0) };
}
struct Deeper;
impl Deeper {
	fn new() -> Self {
		DEPTH.set(DEPTH.get() + 1);
		Deeper
	}
}
impl Drop for Deeper {
	fn drop(&mut self) {
		DEPTH.set(DEPTH.get() - 1);
	}
}

fn wrong(s: String) {
	WRONG.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(s);
}

fn nest(boom: u32) {
	if !ON.load(Relaxed) {
		return;
	}
	let c = TICK.fetch_add(1, Relaxed);
	let h = mix(c);
	if boom > 0 && h % boom as u64 == 0 && !std::thread::panicking() {
		std::panic::panic_any(Boom);
	}
	let d = DEPTH.get();
	if d >= 3 || (h >> 20) % (PERIOD.load(Relaxed) << (3 * d)).max(1) != 0 {
		return;
	}
	if LEFT.load(Relaxed) == 0 || LEFT.fetch_sub(1, Relaxed) > 1 << 30 {
		return;
	}
	let jobs = JOBS.get().unwrap();
	let _d = Deeper::new();
	let j = &jobs[(h >> 40) as usize % jobs.len()];
	if let Err(e) = if j.wide { inner::<Wide>(j) } else { inner::<Small>(j) } {
		wrong(format!("{:?} {:?} n={} {:?} called from a callback at depth {}: {e}", j.op, j.form, j.keys.len(), j.lay, d + 1));
	}
	DONE.fetch_add(1, Relaxed);
	DEEP.fetch_max(d + 1, Relaxed);
}
/// Runs a job on an array of its own.
fn inner<T: Nest>(j: &Job) -> Res {
	let mut host = Host::<T>::new(j.lay, &j.keys);
	let slot = slot(j.op);
	host.view_mut().iter_mut().for_each(|e| e.arm(j.boom, slot));
	let got = {
		let mut v = host.view_mut();
		guard(|| run_how(j.op, j.form, &mut v, &j.arg, j.pool))
	};
	let out = host.out();
	oracle::conserved(&j.keys, &out)?;
	host.check_canaries()?;
	match got {
		Ok(ret) if ret != j.ret => Err(format!("returned {ret:?}, alone {:?}", j.ret)),
		Ok(_) if out != j.out => {
			let at = (0..out.len()).find(|&i| out[i] != j.out[i]).unwrap();
			Err(format!("element {:?} at position {at}, alone {:?}", out[at], j.out[at]))
		}
		Ok(_) if asked(slot) != j.asked => Err("calls its callbacks for other elements or in another order than alone".into()),
		Ok(_) => Ok(()),
		Err(p) if j.boom > 0 && p.is::<Boom>() => {
			BROKEN.fetch_add(1, Relaxed);
			Ok(())
		}
		Err(p) => Err(payload(&*p)),
	}
}
trait Nest: El + Sync {
	fn arm(&mut self, boom: u32, slot: u32);
}
impl Nest for Small {
	fn arm(&mut self, boom: u32, slot: u32) {
		self.boom = boom;
		self.slot = slot;
	}
}
impl Nest for Wide {
	fn arm(&mut self, boom: u32, slot: u32) {
		self.boom = boom;
		self.slot = slot;
	}
}

type Out = (Result<Vec<i64>, Box<dyn Any + Send>>, Vec<(u32, u32)>, u64);
fn alone<T: Nest>(op: Op, form: Form, keys: &[u32], lay: Layout, arg: &Arg, pool: usize) -> Out {
	let mut host = Host::<T>::new(lay, keys);
	let slot = slot(op);
	host.view_mut().iter_mut().for_each(|e| e.arm(0, slot));
	let ret = std::thread::scope(|s| {
		let mut v = host.view_mut();
		s.spawn(move || guard(|| run_how(op, form, &mut v, arg, pool))).join().unwrap()
	});
	(ret, host.out(), asked(slot))
}

fn jobs(r: &mut Rng, count: usize) -> Result<Vec<Job>, String> {
	let all: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	(0..count)
		.map(|i| {
			let op = all[i % all.len()];
			let form = pick_form(r);
			let n = match r.below(8) {
				0 => r.below(12),
				1..=3 => r.below(60),
				4 | 5 => r.below(300),
				6 if op.par() => r.range(2001, 6000),
				_ => r.range(300, 1500),
			}
			.max(1);
			let (keys, _) = gen_content(r, op, form, n, u32::MAX);
			let arg = gen_arg(r, &keys);
			let lay = gen_layout(r, n);
			let pool = if r.chance(1, 3) { usize::MAX } else { r.below(par::pools().len()) };
			let boom = if r.chance(1, 4) { r.range(20, 2000) as u32 } else { 0 };
			let wide = r.chance(1, 3);
			let (ret, out, asked) = if wide { alone::<Wide>(op, form, &keys, lay, &arg, pool) } else { alone::<Small>(op, form, &keys, lay, &arg, pool) };
			let ret = ret.map_err(|p| payload(&*p))?;
			Ok(Job { op, form, arg, keys, lay, pool, boom, wide, ret, out, asked })
		})
		.collect()
}

fn case<T: Nest>(ctx: &mut Ctx, r: &mut Rng, op: Op, n: usize) -> Res {
	let form = pick_form(r);
	let (keys, p) = gen_content(r, op, form, n, u32::MAX);
	let arg = gen_arg(r, &keys);
	let lay = gen_layout(r, n);
	let pool = if r.chance(1, 6) { usize::MAX } else { r.below(par::pools().len()) };
	let boom = if r.chance(1, 5) { r.range(20, 20_000) as u32 } else { 0 };
	let period = r.pick(&[3u64, 30, 200, 1000]).max(n as u64 / 40);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} {lay:?} pool={pool} content=pattern{p} calling others every {period} callbacks, panic={}", T::NAME, boom > 0));
	hook::reset();
	let (want, sorted, calls) = alone::<T>(op, form, &keys, lay, &arg, pool);
	let want = want.map_err(|p| payload(&*p))?;
	let mut host = Host::<T>::new(lay, &keys);
	let slot = slot(op);
	host.view_mut().iter_mut().for_each(|e| e.arm(boom, slot));
	for a in [&DONE, &DEEP, &BROKEN] {
		a.store(0, SeqCst);
	}
	LEFT.store(r.pick(&[1, 5, 40]), SeqCst);
	TICK.store(r.next(), SeqCst);
	PERIOD.store(period, SeqCst);
	let got = {
		let mut v = host.view_mut();
		ON.store(true, SeqCst);
		let g = guard(|| run_how(op, form, &mut v, &arg, pool));
		ON.store(false, SeqCst);
		g
	};
	let (done, deep, broken) = (DONE.load(SeqCst), DEEP.load(SeqCst), BROKEN.load(SeqCst));
	if let Some(w) = WRONG.lock().unwrap_or_else(|e| e.into_inner()).take() {
		return Err(w);
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	let out = host.out();
	oracle::conserved(&keys, &out)?;
	host.check_canaries()?;
	match got {
		Ok(g) if g != want => return Err(format!("returned {g:?}, without calls from its callbacks {want:?}")),
		Ok(_) => {
			if let Some(at) = (0..n).find(|&i| out[i] != sorted[i]) {
				return Err(format!("element {:?} at position {at}, without calls from its callbacks {:?}", out[at], sorted[at]));
			}
			if asked(slot) != calls {
				return Err("calls its callbacks for other elements or in another order than without calls from its callbacks".into());
			}
			ctx.ev("outer operations compared call by call", (slot != 0) as u64);
		}
		Err(p) if boom > 0 && p.is::<Boom>() => ctx.ev("outer operations ended by a panic", 1),
		Err(p) => return Err(payload(&*p)),
	}
	ctx.ev("operations called from callbacks", done);
	ctx.ev("of them ended by a panic", broken);
	ctx.ev_max("deepest nesting", deep);
	let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50) ^ hash_str(T::NAME);
	ctx.eval(mix(sig ^ period), done > 0);
	Ok(())
}
fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, n: usize) -> Res {
	if JOBS.get().is_none() {
		ctx.begin(format_args!("each operation alone"));
		let _ = JOBS.set(jobs(&mut Rng::new(mix(ctx.seed ^ 77)), 150)?);
	}
	if r.chance(1, 3) { case::<Wide>(ctx, r, op, n) } else { case::<Small>(ctx, r, op, n) }
}

fn main() {
	let mut ctx = Ctx::new("C29");
	let th = ctx.thorough;
	let all: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let lens = [2usize, 5, 12, 21, 40, 64, 129, 300, 1000, 2001, 2500, 5001, 9000];
	ctx.fixed("table", (all.len() * lens.len()) as u64 * if th { 40 } else { 4 }, |ctx, r, i| {
		let i = i as usize;
		any(ctx, r, all[i % all.len()], lens[i / all.len() % lens.len()])
	});
	ctx.timed("random", 1.0, 20, |ctx, r, _| {
		let op = if r.chance(1, 2) { r.pick(PAR) } else { r.pick(SEQ) };
		let max = if th { 40_000 } else { 9000 };
		let n = if op.par() && r.chance(1, 2) { genk::gen_len_from(r, 2001, max) } else { genk::gen_len(r, max) }.max(1);
		any(ctx, r, op, n)
	});
	ctx.finish();
}
