//! Judging one sort of one input in one layout.
use crate::adv;
use crate::elem::{A64, B3, El, Hb, P8, W1k, W4k, W16, W24, W72, W264};
use crate::genk::{self, EDGES, NPAT};
use crate::hook;
use crate::host::{Host, Layout, gen_layout};
use crate::ndarray::ArrayViewMut1;
use crate::ops::{FORMS, Form};
use crate::oracle;
use crate::report::{Ctx, Res, guard, payload};
use crate::rng::{Rng, mix};

pub type SortFn<T> = fn(Form, &mut ArrayViewMut1<T>);

/// Generous bound against endless loops (not a complexity check).
pub fn loop_cap(n: usize) -> u64 {
	10_000 + 8 * (n as u64).saturating_mul(n as u64)
}

pub struct Case<'a> {
	pub op: &'a str,
	pub stable: bool,
	pub delay: u64,
}

pub fn sort_case<T: El>(
	ctx: &mut Ctx,
	case: &Case,
	keys: &[u32],
	layout: Layout,
	form: Form,
	what: &str,
	op: impl FnOnce(Form, &mut ArrayViewMut1<T>),
) -> Res {
	let n = keys.len();
	let mut host = Host::<T>::new(layout, keys);
	ctx.begin(format_args!(
		"{} {:?} on {} n={n} {:?} content={what}",
		case.op,
		form,
		T::NAME,
		layout
	));
	hook::reset();
	hook::cap(loop_cap(n));
	hook::delay(case.delay);
	let r = {
		let mut v = host.view_mut();
		guard(|| op(form, &mut v))
	};
	let calls = hook::calls();
	hook::cap(u64::MAX);
	if let Err(p) = r {
		return Err(payload(&*p));
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	let out = host.out();
	oracle::conserved(keys, &out)?;
	oracle::sorted(&out, form.rev())?;
	if case.stable {
		oracle::stable(&out)?;
	}
	let can = host.check_canaries()?;
	let mut sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ crate::rng::hash_str(T::NAME);
	sig = mix(sig ^ mix(hash_layout(layout)) ^ crate::rng::hash_str(case.op));
	let moved = out.iter().enumerate().any(|(i, e)| e.1 as usize != i);
	ctx.eval(sig, n >= 2 && moved);
	ctx.ev("callback calls", calls);
	ctx.ev("elements sorted", n as u64);
	ctx.ev("canary cells checked", can as u64);
	if case.delay != 0 {
		let (s, w) = hook::sched();
		ctx.ev("thread switches inside callbacks", w);
		if w > 1 {
			ctx.sched(s);
		}
	}
	Ok(())
}

pub fn hash_layout(l: Layout) -> u64 {
	use std::hash::{Hash, Hasher};
	let mut h = std::collections::hash_map::DefaultHasher::new();
	l.hash(&mut h);
	h.finish()
}

/// Exhaustive small contents: every key sequence of length `n` over `0..base`.
pub fn small_space(max_n: usize) -> Vec<(usize, u64, u64)> {
	// (n, base, first global index)
	let mut v = vec![];
	let mut at = 0u64;
	for n in 0..=max_n {
		let base = n.max(1) as u64;
		v.push((n, base, at));
		at += base.pow(n as u32);
	}
	// Zero/one sequences beyond.
	for n in max_n + 1..=13 {
		v.push((n, 2, at));
		at += 1u64 << n;
	}
	v.push((usize::MAX, 0, at));
	v
}
pub fn small_keys(space: &[(usize, u64, u64)], i: u64) -> Vec<u32> {
	let k = space.iter().rposition(|x| x.2 <= i).unwrap();
	let (n, base, at) = space[k];
	let mut c = i - at;
	(0..n)
		.map(|_| {
			let d = c % base;
			c /= base;
			d as u32
		})
		.collect()
}

/// Workload of one family of sorts (same code under all forms) on all element types.
pub struct Family<'a> {
	pub op: &'a str,
	pub stable: bool,
	pub par: bool,
	pub max: usize,
	pub p8: SortFn<P8>,
	pub b3: SortFn<B3>,
	pub w72: SortFn<W72>,
	pub hb: SortFn<Hb>,
	pub a64: SortFn<A64>,
	/// Elements of more sizes.
	pub more: (SortFn<W16>, SortFn<W24>, SortFn<W264>, SortFn<W1k>, SortFn<W4k>),
}

impl Family<'_> {
	pub fn dispatch(
		&self,
		ctx: &mut Ctx,
		ty: usize,
		mut keys: Vec<u32>,
		layout: Layout,
		form: Form,
		what: &str,
		delay: u64,
		wrap: &dyn Fn(&mut (dyn FnMut() + Send)),
	) -> Res {
		let c = Case { op: self.op, stable: self.stable, delay };
		macro_rules! go {
			($t:ty, $f:expr) => {{
				if keys.len() >= <$t>::MAXLEN {
					keys.truncate(<$t>::MAXLEN - 1);
				}
				genk::squeeze(&mut keys, <$t>::MAXKEY);
				sort_case::<$t>(ctx, &c, &keys, layout, form, what, |form, v| {
					let mut v = Some(v);
					wrap(&mut || ($f)(form, v.take().unwrap()))
				})
			}};
		}
		// The larger ones are slow to move.
		let ty = match ty % 10 {
			7..=9 if keys.len() > 6000 => 5 + ty % 2,
			t => t,
		};
		match ty {
			5 => go!(W16, self.more.0),
			6 => go!(W24, self.more.1),
			7 => go!(W264, self.more.2),
			8 => go!(W1k, self.more.3),
			9 => go!(W4k, self.more.4),
			0 => go!(P8, self.p8),
			1 => go!(B3, self.b3),
			2 => go!(W72, self.w72),
			3 => go!(Hb, self.hb),
			_ => go!(A64, self.a64),
		}
	}

	pub fn killer(&self, r: &mut Rng, n: usize, rev: bool, wrap: &dyn Fn(&mut (dyn FnMut() + Send)), by: fn(&mut ArrayViewMut1<P8>, &(dyn Fn(&P8, &P8) -> std::cmp::Ordering + Sync))) -> Vec<u32> {
		let (mut keys, _) = adv::record(r, n, rev, |v, f| {
			let mut v = Some(v);
			wrap(&mut || by(v.take().unwrap(), f))
		});
		match r.below(6) {
			0 => keys.iter_mut().for_each(|k| *k /= 2),
			1 if n > 0 => {
				for _ in 0..3 {
					let (a, b) = (r.below(n), r.below(n));
					keys.swap(a, b);
				}
			}
			_ => {}
		}
		keys
	}
}

/// Pattern table: every pattern at every edge length up to `max`.
pub fn table(lo: usize, max: usize) -> Vec<(usize, usize)> {
	let mut t = vec![];
	for p in 0..NPAT {
		for &e in EDGES {
			if e >= lo && e <= max {
				t.push((p, e));
			}
		}
	}
	t
}

pub fn pick_form(r: &mut Rng) -> Form {
	r.pick(&FORMS)
}
pub fn pick_layout(r: &mut Rng, n: usize) -> Layout {
	gen_layout(r, n)
}

/// The workload shared by the sequential sorts.
pub fn seq_sort_workload(
	ctx: &mut Ctx,
	fam: &Family,
	by: fn(&mut ArrayViewMut1<P8>, &(dyn Fn(&P8, &P8) -> std::cmp::Ordering + Sync)),
) {
	let th = ctx.thorough;
	let direct: &dyn Fn(&mut (dyn FnMut() + Send)) = &|f| f();
	let space = small_space(if th { 7 } else { 5 });
	let total = space.last().unwrap().2;
	ctx.fixed("small", total, |ctx, r, i| {
		let keys = small_keys(&space, i);
		let lay = gen_layout(r, keys.len());
		let form = FORMS[(i % 5) as usize];
		fam.dispatch(ctx, i as usize / 5, keys, lay, form, "exhaustive", 0, direct)
	});
	let tab = table(2, if th { 200_000 } else { 20_001 });
	ctx.fixed("table", tab.len() as u64 * 2, |ctx, r, i| {
		let (p, n) = tab[i as usize / 2];
		let n = if i % 2 == 0 { n } else { n + r.below(n / 4 + 2) };
		let keys = genk::pattern(r, n, p);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = if n > 10_000 { 0 } else { r.below(10) };
		fam.dispatch(ctx, ty, keys, lay, form, &format!("pattern{p}"), 0, direct)
	});
	ctx.fixed("killer", if th { 4000 } else { 800 }, |ctx, r, i| {
		let n = if i % 8 == 0 { r.range(300, 6000) } else { r.range(21, 900) };
		ctx.begin(format_args!("{} against adaptive adversary n={n}", fam.op));
		hook::cap(loop_cap(n));
		let rev = r.chance(1, 2);
		let keys = fam.killer(r, n, rev, direct, by);
		ctx.ev("adversarial inputs recorded", 1);
		for _ in 0..2 {
			let lay = gen_layout(r, n);
			// The recorded order hurts in the direction it was recorded in.
			let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
			let ty = r.pick(&[0, 2, 3, 4, 5, 7]);
			fam.dispatch(ctx, ty, keys.clone(), lay, form, "killer", 0, direct)?;
		}
		Ok(())
	});
}

/// Random part of the same, until the time is used up.
pub fn seq_sort_random(ctx: &mut Ctx, fam: &Family) {
	let direct: &dyn Fn(&mut (dyn FnMut() + Send)) = &|f| f();
	let max = fam.max;
	ctx.timed("random", 1.0, 200, |ctx, r, _| {
		let n = genk::gen_len(r, max);
		let (keys, p) = genk::gen_keys(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = r.below(10);
		fam.dispatch(ctx, ty, keys, lay, form, &format!("pattern{p}"), 0, direct)
	});
}

/// Sorting plain values must agree with the standard library's sort of a copy.
pub fn plain<V: Ord + Clone + std::fmt::Debug>(
	ctx: &mut Ctx,
	keys: &[u32],
	p: usize,
	f: impl Fn(u32) -> V,
	op: impl FnOnce(&mut ArrayViewMut1<V>, usize),
) -> Res {
	use crate::ndarray::{Array1, s};
	let n = keys.len();
	let mut a: Array1<V> = keys.iter().flat_map(|&k| [f(k), f(k)]).collect();
	let mut want: Vec<V> = keys.iter().map(|&k| f(k)).collect();
	want.sort();
	ctx.begin(format_args!("plain {} n={n} pattern{p}", std::any::type_name::<V>()));
	let r = guard(|| op(&mut a.slice_mut(s![..;-2]), n));
	if let Err(e) = r {
		return Err(payload(&*e));
	}
	let got = a.slice(s![..;-2]);
	if let Some(i) = (0..n).find(|&i| got[i] != want[i]) {
		return Err(format!("position {i} holds {:?}, sorted content has {:?}", got[i], want[i]));
	}
	let rest = a.slice(s![..;2]);
	if let Some(i) = (0..n).find(|&i| rest[i] != f(keys[i])) {
		return Err(format!("cell {} outside the view changed", 2 * i));
	}
	ctx.eval(oracle::digest_keys(keys) ^ crate::rng::hash_str(std::any::type_name::<V>()), n >= 2);
	Ok(())
}

/// The workload shared by the parallel sorts.
#[cfg(feature = "par")]
pub fn par_sort_workload(
	ctx: &mut Ctx,
	fam: &Family,
	by: fn(&mut ArrayViewMut1<P8>, &(dyn Fn(&P8, &P8) -> std::cmp::Ordering + Sync)),
) {
	use crate::par::{self, How};
	let th = ctx.thorough;
	let space = small_space(4);
	let total = space.last().unwrap().2;
	ctx.fixed("small", total.min(3000), |ctx, r, i| {
		let keys = small_keys(&space, i);
		let lay = gen_layout(r, keys.len());
		let how = How { pool: r.below(3), mode: 0, delay: 0 };
		fam.dispatch(ctx, i as usize / 5, keys, lay, FORMS[(i % 5) as usize], "exhaustive", 0, &|f| par::run(how, f))
	});
	let tab = table(2, if th { 200_000 } else { 16_384 });
	ctx.fixed("table", tab.len() as u64, |ctx, r, i| {
		let (p, n) = tab[i as usize];
		let keys = genk::pattern(r, n, p);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = if n > 10_000 { 0 } else { r.below(10) };
		let how = par::gen_how(r);
		fam.dispatch(ctx, ty, keys, lay, form, &format!("pattern{p} {how:?}"), how.delay, &|f| par::run(how, f))
	});
	// Structure at the scale of internal chunks and fork thresholds.
	ctx.fixed("chunks", if th { 6000 } else { 700 }, |ctx, r, i| {
		let n = match i % 4 {
			0 => r.range(1990, 2010) + 2000 * r.below(6),
			1 => r.range(4990, 5010) + r.below(2) * 5000,
			2 => r.range(2001, 14_000),
			_ => r.range(2001, 40_000),
		};
		let p = r.pick(&[18, 18, 18, 18, 16, 28, 23, 31, 32, 13, 14, 1, 36, 37, 37]);
		let keys = genk::pattern(r, n, p);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = r.pick(&[0, 0, 2, 3]);
		let how = par::gen_how(r);
		fam.dispatch(ctx, ty, keys, lay, form, &format!("pattern{p} {how:?}"), how.delay, &|f| par::run(how, f))
	});
	// As many stretches in order as there are threads.
	ctx.fixed("shares", if th { 1200 } else { 150 }, |ctx, r, i| {
		let mut how = par::gen_how(r);
		how.pool = 1 + i as usize % (par::pools().len() - 1);
		let k = par::SIZES[how.pool] * if r.chance(1, 4) { 2 } else { 1 };
		let n = r.range(2001, 12_000);
		let keys = genk::shares(r, n, k);
		let lay = gen_layout(r, n);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		let ty = r.pick(&[0, 0, 2, 3]);
		fam.dispatch(ctx, ty, keys, lay, form, &format!("shares {k} {how:?}"), how.delay, &|f| par::run(how, f))
	});
	ctx.fixed("killer", if th { 1500 } else { 200 }, |ctx, r, i| {
		let n = if i % 4 == 0 { r.range(2100, 9000) } else { r.range(21, 900) };
		ctx.begin(format_args!("{} against adaptive adversary n={n}", fam.op));
		hook::cap(loop_cap(n));
		let rev = r.chance(1, 2);
		let one = How { pool: 0, mode: 0, delay: 0 };
		let keys = fam.killer(r, n, rev, &|f| par::run(one, f), by);
		ctx.ev("adversarial inputs recorded", 1);
		for _ in 0..2 {
			let lay = gen_layout(r, n);
			let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
			let ty = r.pick(&[0, 2, 3, 4, 5, 7]);
			let how = par::gen_how(r);
			fam.dispatch(ctx, ty, keys.clone(), lay, form, "killer", how.delay, &|f| par::run(how, f))?;
		}
		Ok(())
	});
}

#[cfg(feature = "par")]
pub fn par_sort_random(ctx: &mut Ctx, fam: &Family) {
	use crate::par;
	let max = fam.max;
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let n = if r.chance(1, 3) { genk::gen_len(r, max) } else { genk::gen_len_from(r, 2001, max) };
		let (keys, p) = genk::gen_keys(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = if n > 20_000 { 0 } else { r.below(10) };
		let how = par::gen_how(r);
		fam.dispatch(ctx, ty, keys, lay, form, &format!("pattern{p} {how:?}"), how.delay, &|f| par::run(how, f))
	});
}
