//! C32: work in total. This program alone is built with every basic block reporting its execution, and all
//! of the crate is instantiated in it; memory copied by calls is reported by the copying functions.
use harness::anyop::{Op, gen_content};
use harness::cost::log2;
use harness::direct::OPS;
use harness::ndarray::{Array1, ArrayViewMut1, Axis};
use harness::ops::Form;
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, mix};
use harness::sortcase::pick_form;
use harness::work::{copied, done};
use harness::{Slice1Ext, adv, genk, oracle, par};
use std::cmp::{Ordering, Reverse};
use std::ffi::c_void;

/// # Safety
/// As of the C library.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
	copied(n);
	unsafe { std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _) };
	d
}
/// # Safety
/// As of the C library.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
	copied(n);
	unsafe {
		if (d as usize).wrapping_sub(s as usize) >= n {
			std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
		} else {
			std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.byte_add(n).byte_sub(1) => _, inout("rsi") s.byte_add(n).byte_sub(1) => _);
		}
	}
	d
}
/// # Safety
/// As of the C library.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
	copied(n);
	unsafe { std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8) };
	d
}
trait W: Ord + Copy + Send + Sync + 'static {
	const NAME: &'static str;
	const MAX: u32 = u32::MAX;
	fn mk(key: u32) -> Self;
	fn key(&self) -> u32;
}
macro_rules! plain {
	($($t:ident $max:expr),*) => { $(impl W for $t {
		const NAME: &'static str = stringify!($t);
		const MAX: u32 = $max;
		fn mk(key: u32) -> Self {
			key as $t
		}
		fn key(&self) -> u32 {
			*self as u32
		}
	})* };
}
plain!(u8 255, u16 65_535, u32 u32::MAX);
#[derive(Clone, Copy)]
struct P<const N: usize>(u32, [u32; N]);
impl<const N: usize> Ord for P<N> {
	fn cmp(&self, o: &Self) -> Ordering {
		self.0.cmp(&o.0)
	}
}
impl<const N: usize> PartialOrd for P<N> {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl<const N: usize> Eq for P<N> {}
impl<const N: usize> PartialEq for P<N> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<const N: usize> W for P<N> {
	const NAME: &'static str = match N {
		1 => "8 bytes",
		5 => "24 bytes",
		17 => "72 bytes",
		_ => "260 bytes",
	};
	fn mk(key: u32) -> Self {
		P(key, [!key; N])
	}
	fn key(&self) -> u32 {
		self.0
	}
}

fn go<T: W>(op: Op, form: Form, v: &mut ArrayViewMut1<T>, index: usize, ix: &Array1<usize>, target: &T) {
	let fcmp = move |a: &T, b: &T| if form.rev() { b.key().cmp(&a.key()) } else { a.key().cmp(&b.key()) };
	macro_rules! forms {
		($ord:ident, $by:ident, $key:ident $(, $arg:expr)*) => {
			match form {
				Form::Ord => v.$ord($($arg),*),
				Form::By | Form::ByRev => v.$by($($arg,)* fcmp),
				Form::Key => v.$key($($arg,)* |a: &T| a.key()),
				Form::KeyRev => v.$key($($arg,)* |a: &T| Reverse(a.key())),
			}
		};
	}
	match op {
		Op::SortU => forms!(sort_unstable, sort_unstable_by, sort_unstable_by_key),
		Op::SortS => forms!(sort, sort_by, sort_by_key),
		Op::ParU => forms!(par_sort_unstable, par_sort_unstable_by, par_sort_unstable_by_key),
		Op::ParS => forms!(par_sort, par_sort_by, par_sort_by_key),
		Op::Cached if form.rev() => v.sort_by_cached_key(|a| Reverse(a.key())),
		Op::Cached => v.sort_by_cached_key(|a| a.key()),
		Op::ParCached if form.rev() => v.par_sort_by_cached_key(|a| Reverse(a.key())),
		Op::ParCached => v.par_sort_by_cached_key(|a| a.key()),
		Op::Select => drop(forms!(select_nth_unstable, select_nth_unstable_by, select_nth_unstable_by_key, index)),
		Op::Many => {
			let mut c = Vec::with_capacity(ix.len());
			let c = &mut c;
			forms!(select_many_nth_unstable, select_many_nth_unstable_by, select_many_nth_unstable_by_key, ix, c)
		}
		Op::ParMany => {
			let mut c = Vec::with_capacity(ix.len());
			let c = &mut c;
			forms!(par_select_many_nth_unstable, par_select_many_nth_unstable_by, par_select_many_nth_unstable_by_key, ix, c)
		}
		Op::Dedup => {
			let _ = match form {
				Form::Ord => v.partition_dedup(),
				Form::By | Form::ByRev => v.partition_dedup_by(|a, b| a == b),
				_ => v.partition_dedup_by_key(|a| a.key()),
			};
		}
		Op::Bin => {
			let _ = match form {
				Form::Ord => v.binary_search(target),
				Form::By | Form::ByRev => v.binary_search_by(|a| fcmp(a, target)),
				Form::Key => v.binary_search_by_key(&target.key(), |a| a.key()),
				Form::KeyRev => v.binary_search_by_key(&Reverse(target.key()), |a| Reverse(a.key())),
			};
		}
		Op::Point => {
			let _ = v.partition_point(|a| a < target);
		}
		Op::Contains => {
			let _ = v.contains(target);
		}
		Op::IsSorted => {
			let _ = match form {
				Form::Ord => v.is_sorted(),
				Form::By | Form::ByRev => v.is_sorted_by(|a, b| fcmp(a, b).is_le()),
				Form::Key => v.is_sorted_by_key(|a| a.key()),
				Form::KeyRev => v.is_sorted_by_key(|a| Reverse(a.key())),
			};
		}
		Op::Reverse => v.reverse(),
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
	/// Nobody arranged it against the code.
	Any,
	/// Recorded from an adversary.
	Attack,
	/// One stretch, ascending, strictly descending or constant.
	Stretch,
}

/// What the work is to be in proportion to, the factor, and what it is called. The factors lie three to
/// four times above what is seen, as compilers and harmless changes split blocks differently.
fn bound(op: Op, kind: Kind, n: usize, m: usize) -> (f64, f64, &'static str) {
	let nl = n as f64;
	let lg = log2(n.max(2));
	let lm = 1.0 + log2(m + 2);
	match op {
		_ if op.sorts() && kind == Kind::Stretch && op != Op::ParCached => (nl, 60.0, "n"),
		_ if op.sorts() => (nl * lg, 55.0, "n log n"),
		Op::Select if kind == Kind::Attack => (nl, 600.0, "n"),
		Op::Select => (nl, 120.0, "n"),
		Op::Many | Op::ParMany if kind == Kind::Attack => (nl * lm, 200.0, "n log m"),
		Op::Many | Op::ParMany => (nl * lm, 80.0, "n log m"),
		Op::Bin | Op::Point => (lg, 20.0, "log n"),
		Op::Dedup => (nl, 40.0, "n"),
		Op::Reverse => (nl, 20.0, "n"),
		_ => (nl, 12.0, "n"),
	}
}

struct Plan {
	op: Op,
	form: Form,
	keys: Vec<u32>,
	kind: Kind,
	what: String,
	index: usize,
	ix: Vec<usize>,
}

fn case<T: W>(ctx: &mut Ctx, r: &mut Rng, mut p: Plan) -> Res {
	let n = p.keys.len();
	if T::MAX < u32::MAX {
		genk::squeeze(&mut p.keys, T::MAX);
	}
	// Backwards or with gaps, or in one piece.
	let step = r.pick(&[1isize, 1, 1, -1, 2, -2, 3, 7]);
	let gap = step.unsigned_abs();
	let gap = if size_of::<T>() * n > 1 << 23 { 1 } else { gap };
	let mut cells: Vec<T> = (0..n * gap).map(|i| T::mk(p.keys[i / gap])).collect();
	let target = T::mk(if n == 0 { 0 } else { p.keys[r.below(n)] });
	let ix = Array1::from_vec(p.ix.clone());
	let pool = r.below(par::pools().len());
	let (op, form) = (p.op, p.form);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} m={} index={} gap={} content={} pool={pool}", T::NAME, ix.len(), p.index, gap as isize * step.signum(), p.what));
	let mut all = ArrayViewMut1::from_shape([n * gap], &mut cells).unwrap();
	let mut v = all.slice_axis_mut(Axis(0), harness::ndarray::Slice::new(0, None, gap as isize));
	if step < 0 {
		v.invert_axis(Axis(0));
		let mut k = 0;
		v.iter_mut().for_each(|e| {
			*e = T::mk(p.keys[k]);
			k += 1;
		});
	}
	let index = p.index;
	let before = done();
	let res = if op.par() {
		let (v, ix, target) = (&mut v, &ix, &target);
		par::pools()[pool].install(|| guard(|| go(op, form, v, index, ix, target)))
	} else {
		guard(|| go(op, form, &mut v, index, &ix, &target))
	};
	let after = done();
	res.map_err(|p| payload(&*p))?;
	if op.sorts() {
		let wrong = |a: &T, b: &T| if form.rev() { a < b } else { a > b };
		if (1..n).any(|i| wrong(&v[i - 1], &v[i])) {
			return Err("not sorted".into());
		}
	}
	let blocks = after.0 - before.0;
	let moved = (after.1 - before.1) / size_of::<T>().max(16) as u64;
	let work = blocks + moved;
	let (unit, most, name) = bound(op, p.kind, n, ix.len());
	let limit = (unit * most) as u64 + 3000;
	if work > limit {
		return Err(format!("{blocks} steps and {moved} moves in calls for {n} elements and {} indices, at most {limit} are in proportion to {name}", ix.len()));
	}
	if n >= 256 {
		let kind = if op.sorts() || matches!(op, Op::Select | Op::Many | Op::ParMany) { format!(" {:?}", p.kind) } else { String::new() };
		ctx.ev_max(&format!("steps of {op:?}{kind} per {name}, hundredths"), (work as f64 * 100.0 / unit) as u64);
	}
	ctx.ev("steps", blocks);
	ctx.ev("bytes copied by calls", after.1 - before.1);
	let sig = oracle::digest_keys(&p.keys) ^ mix(form as u64) ^ mix(size_of::<T>() as u64) ^ mix(step as u64 + 99) ^ mix(op as u64 + 50);
	ctx.eval(mix(sig ^ p.ix.iter().fold(p.index as u64, |h, &i| mix(h ^ i as u64))), n >= 2);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, kind: Kind) -> Res {
	let (mut keys, what) = match kind {
		Kind::Any => {
			let (k, p) = if n > 0 && r.chance(1, 5) { (genk::outliers(r, n).0, 997) } else { gen_content(r, op, form, n, u32::MAX) };
			(k, format!("pattern{p}"))
		}
		Kind::Stretch => {
			let w = r.pick(&[1u32, 1, 2, 7, 100]);
			let c = r.below(4);
			let nn = n as u32;
			let k = match c {
				0 => (0..nn).map(|i| i / w).collect(),
				1 => (0..nn).rev().collect(),
				2 => vec![7; n],
				_ => (0..nn).collect(),
			};
			(k, format!("stretch{c}/{w}"))
		}
		Kind::Attack => {
			let k = r.below(n.max(1));
			let (k, _) = adv::record(r, n, form.rev(), |v, c| match op {
				Op::SortS | Op::ParS => v.sort_by(c),
				Op::Select | Op::Many | Op::ParMany => {
					let _ = v.select_nth_unstable_by(k, c);
				}
				Op::ParU | Op::ParCached => {
					let mut v = Some(v);
					par::pools()[0].install(|| v.take().unwrap().par_sort_unstable_by(c))
				}
				_ => v.sort_unstable_by(c),
			});
			(k, "attack".into())
		}
	};
	if kind == Kind::Stretch && form.rev() {
		let hi = keys.iter().copied().max().unwrap_or(0);
		keys.iter_mut().for_each(|x| *x = hi - *x);
	}
	let index = if n == 0 { 0 } else { harness::selcase::gen_index(r, n) };
	let ix = genk::gen_indices_of(r, &keys);
	if n == 0 && op == Op::Select {
		return Ok(());
	}
	let p = Plan { op, form, keys, kind, what, index, ix };
	let strict = kind == Kind::Stretch;
	match if n > 100_000 { 5 } else { r.below(8) } {
		// Fewer keys would break up strictly descending stretches.
		0 if !strict => case::<u8>(ctx, r, p),
		1 if !strict => case::<u16>(ctx, r, p),
		2 => case::<u32>(ctx, r, p),
		3 => case::<P<5>>(ctx, r, p),
		4 => case::<P<17>>(ctx, r, p),
		6 => case::<P<64>>(ctx, r, p),
		_ => case::<P<1>>(ctx, r, p),
	}
}

fn main() {
	let mut ctx = Ctx::new("C32");
	let th = ctx.thorough;
	for p in par::pools() {
		p.install(|| rayon::join(|| (), || ()));
	}
	{
		// Without reports there is nothing to judge.
		let before = done();
		Array1::from_iter((0..1000u32).rev()).sort_unstable();
		if done().0 - before.0 < 500 {
			ctx.inconclusive("blocks do not report");
		}
	}
	let lens = [0usize, 1, 2, 20, 21, 50, 100, 128, 255, 256, 1000, 1024, 2001, 2049, 4097, 10_001, 20_000, 65_537, 140_000, 400_000];
	let kinds = [Kind::Any, Kind::Stretch, Kind::Attack];
	let mut tab = vec![];
	for &n in &lens {
		for &op in OPS {
			for kind in kinds {
				let ranked = op.sorts() || matches!(op, Op::Select | Op::Many | Op::ParMany);
				if kind == Kind::Any || ranked && n >= 2 && (kind == Kind::Stretch && op.sorts() || kind == Kind::Attack && n <= 20_000) {
					tab.push((n, op, kind));
				}
			}
		}
	}
	ctx.fixed("table", (tab.len() * if th { 40 } else { 3 }) as u64, |ctx, r, i| {
		let (n, op, kind) = tab[i as usize % tab.len()];
		let form = pick_form(r);
		any(ctx, r, op, form, n, kind)
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(OPS);
		let n = if r.chance(1, 8) { r.range(2001, if th { 400_000 } else { 60_000 }) } else { genk::gen_len(r, 5000) };
		let form = pick_form(r);
		let kind = if !op.sorts() && !matches!(op, Op::Select | Op::Many | Op::ParMany) { Kind::Any } else { r.pick(&kinds) };
		let kind = match kind {
			Kind::Stretch if !op.sorts() || n < 2 => Kind::Any,
			Kind::Attack if n < 2 || n > 20_000 => Kind::Any,
			k => k,
		};
		any(ctx, r, op, form, n, kind)
	});
	ctx.finish();
}
