//! Judging one selection or bulk selection.
use crate::Slice1Ext;
use crate::adv;
use crate::elem::{El, P8};
use crate::hook;
use crate::host::{Host, Layout};
use crate::ndarray::{Array1, ArrayView1, ArrayViewMut1, CowArray, s};
use crate::ops::{self, Form};
use crate::oracle;
use crate::report::{Ctx, Res, guard, payload};
use crate::rng::{Rng, hash_str, mix};
use crate::sortcase::{hash_layout, loop_cap};
use std::collections::{BTreeMap, VecDeque};

/// Address of every logical position.
pub fn addrs<T>(v: &ArrayView1<T>) -> Vec<usize> {
	v.iter().map(|e| e as *const T as usize).collect()
}

fn fin<T: El>(ctx: &mut Ctx, host: &Host<T>, keys: &[u32], cuts: &[usize], form: Form, op: &str, extra: u64) -> Res {
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	let out = host.out();
	oracle::conserved(keys, &out)?;
	oracle::selected(&out, cuts, form.rev())?;
	host.check_canaries()?;
	let mut sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ hash_str(T::NAME);
	sig = mix(sig ^ mix(hash_layout(host.layout())) ^ hash_str(op) ^ mix(extra));
	for &c in cuts {
		sig = mix(sig ^ c as u64);
	}
	let moved = out.iter().enumerate().any(|(i, e)| e.1 as usize != i);
	ctx.eval(sig, keys.len() >= 2 && !cuts.is_empty() && moved);
	ctx.ev("callback calls", hook::calls());
	ctx.ev("indices selected", cuts.len() as u64);
	Ok(())
}

pub fn select_case<T: El>(ctx: &mut Ctx, keys: &[u32], index: usize, layout: Layout, form: Form, what: &str) -> Res {
	let n = keys.len();
	let mut host = Host::<T>::new(layout, keys);
	let at = addrs(&host.view());
	ctx.begin(format_args!("select {form:?} index {index} on {} n={n} {layout:?} content={what}", T::NAME));
	hook::reset();
	hook::cap(loop_cap(n));
	{
		let mut v = host.view_mut();
		let r = guard(|| {
			let (l, m, r) = ops::select(form, &mut v, index);
			if l.len() != index || r.len() != n - 1 - index {
				return Err(format!("returned views of lengths {} and {} for index {index} of {n}", l.len(), r.len()));
			}
			if m as *mut T as usize != at[index] {
				return Err("returned reference is not the element at the index".into());
			}
			let (la, ra) = (addrs(&l.view()), addrs(&r.view()));
			if la[..] != at[..index] || ra[..] != at[index + 1..] {
				return Err("returned views are not the elements before and after the index".into());
			}
			Ok(())
		});
		match r {
			Err(p) => return Err(payload(&*p)),
			Ok(Err(m)) => return Err(m),
			Ok(Ok(())) => {}
		}
	}
	hook::cap(u64::MAX);
	fin(ctx, &host, keys, &[index], form, "select", 0)
}

/// Index arrays in several storages and layouts.
pub fn with_indices<R>(style: usize, idx: &[usize], f: impl FnOnce(&dyn AnyIdx) -> R) -> R {
	match style % 5 {
		0 => f(&Owned(Array1::from_vec(idx.to_vec()))),
		1 => {
			let spread: Array1<usize> = idx.iter().flat_map(|&i| [i, usize::MAX, 0]).collect();
			f(&View(spread.slice(s![..;3])))
		}
		2 => {
			let back: Array1<usize> = idx.iter().rev().copied().collect();
			f(&View(back.slice(s![..;-1])))
		}
		3 => f(&Shared(Array1::from_vec(idx.to_vec()).into_shared())),
		_ => {
			let a = Array1::from_vec(idx.to_vec());
			f(&Cow(CowArray::from(a.view())))
		}
	}
}
pub struct Owned(pub Array1<usize>);
pub struct View<'a>(pub ArrayView1<'a, usize>);
pub struct Shared(pub crate::ndarray::ArcArray1<usize>);
pub struct Cow<'a>(pub CowArray<'a, usize, crate::ndarray::Ix1>);

pub trait AnyIdx: Sync {
	fn kind(&self) -> usize;
	fn owned(&self) -> &Array1<usize> {
		unreachable!()
	}
	fn view(&self) -> ArrayView1<'_, usize>;
	fn shared(&self) -> &crate::ndarray::ArcArray1<usize> {
		unreachable!()
	}
}
impl AnyIdx for Owned {
	fn kind(&self) -> usize {
		0
	}
	fn owned(&self) -> &Array1<usize> {
		&self.0
	}
	fn view(&self) -> ArrayView1<'_, usize> {
		self.0.view()
	}
}
impl AnyIdx for View<'_> {
	fn kind(&self) -> usize {
		1
	}
	fn view(&self) -> ArrayView1<'_, usize> {
		self.0.view()
	}
}
impl AnyIdx for Shared {
	fn kind(&self) -> usize {
		2
	}
	fn shared(&self) -> &crate::ndarray::ArcArray1<usize> {
		&self.0
	}
	fn view(&self) -> ArrayView1<'_, usize> {
		self.0.view()
	}
}
impl AnyIdx for Cow<'_> {
	fn kind(&self) -> usize {
		3
	}
	fn view(&self) -> ArrayView1<'_, usize> {
		self.0.view()
	}
}

fn judge_pairs(got: &[(usize, usize)], idx: &[usize], at: &[usize]) -> Res {
	if got.len() != idx.len() {
		return Err(format!("{} entries collected for {} indices", got.len(), idx.len()));
	}
	for (k, (&(i, a), &w)) in got.iter().zip(idx).enumerate() {
		if i != w {
			return Err(format!("entry {k} is for index {i}, not {w}"));
		}
		if a != at[w] {
			return Err(format!("entry {k} does not refer to the element at index {w}"));
		}
	}
	Ok(())
}

/// Target collections with different ways to take items in.
enum Coll<'a, T> {
	Vec(Vec<(usize, &'a mut T)>),
	Deque(VecDeque<(usize, &'a mut T)>),
	Map(BTreeMap<usize, &'a mut T>),
	/// One by one.
	Log(Vec<(usize, &'a mut T)>),
}
impl<'a, T> Extend<(usize, &'a mut T)> for Coll<'a, T> {
	fn extend<I: IntoIterator<Item = (usize, &'a mut T)>>(&mut self, it: I) {
		match self {
			Coll::Vec(c) => c.extend(it),
			Coll::Deque(c) => c.extend(it),
			Coll::Map(c) => c.extend(it),
			Coll::Log(c) => {
				for x in it {
					c.push(x);
				}
			}
		}
	}
}

#[allow(clippy::too_many_arguments)]
pub fn many_case<T: El>(
	ctx: &mut Ctx,
	r: &mut Rng,
	keys: &[u32],
	idx: &[usize],
	layout: Layout,
	form: Form,
	what: &str,
) -> Res {
	let n = keys.len();
	let style = r.below(5);
	let coll = r.below(4);
	let prior = r.below(4);
	let mut host = Host::<T>::new(layout, keys);
	let at = addrs(&host.view());
	ctx.begin(format_args!(
		"select_many {form:?} {} indices on {} n={n} {layout:?} index style {style} collection {coll} prior {prior} content={what}",
		idx.len(),
		T::NAME
	));
	let mut before: Vec<T> = (0..prior as u32).map(|i| T::mk(i, i)).collect();
	let old: Vec<usize> = before.iter().map(|e| e as *const T as usize).collect();
	hook::reset();
	hook::cap(loop_cap(n));
	let res = {
		let mut v = host.view_mut();
		let vm = &mut v;
		with_indices(style, idx, |ix| {
			guard(move || {
				let a = |t: &mut T| t as *mut T as usize;
				let items = before.iter_mut().enumerate().map(|(i, e)| (i + 7, e));
				let mut held = vec![];
				let mut c = match coll {
					0 => Coll::Vec(items.collect()),
					1 => Coll::Deque(items.collect()),
					2 => {
						held = items.map(|(i, e)| (i, a(e))).collect();
						Coll::Map(BTreeMap::new())
					}
					_ => Coll::Log(items.collect()),
				};
				match ix.kind() {
					0 => ops::select_many(form, vm, ix.owned(), &mut c),
					1 => ops::select_many(form, vm, &ix.view(), &mut c),
					2 => ops::select_many(form, vm, ix.shared(), &mut c),
					_ => ops::select_many(form, vm, &CowArray::from(ix.view()), &mut c),
				}
				let got: Vec<(usize, usize)> = match c {
					Coll::Vec(c) | Coll::Log(c) => c.into_iter().map(|(i, e)| (i, a(e))).collect(),
					Coll::Deque(c) => c.into_iter().map(|(i, e)| (i, a(e))).collect(),
					Coll::Map(c) => c.into_iter().map(|(i, e)| (i, a(e))).collect(),
				};
				held.into_iter().chain(got).collect::<Vec<_>>()
			})
		})
	};
	let got = res.map_err(|p| payload(&*p))?;
	hook::cap(u64::MAX);
	if got.len() < prior || (0..prior).any(|i| got[i] != (i + 7, old[i])) {
		return Err("prior content of the collection changed".into());
	}
	judge_pairs(&got[prior..], idx, &at)?;
	fin(ctx, &host, keys, idx, form, "select_many", style as u64)
}

#[cfg(feature = "par")]
#[allow(clippy::too_many_arguments)]
pub fn par_many_case<T: El>(
	ctx: &mut Ctx,
	r: &mut Rng,
	keys: &[u32],
	idx: &[usize],
	layout: Layout,
	form: Form,
	what: &str,
	how: crate::par::How,
) -> Res {
	let n = keys.len();
	let style = r.below(5);
	let prior = r.below(4);
	let spare = r.pick(&[0, 0, 1, idx.len(), idx.len() + 5]);
	let mut host = Host::<T>::new(layout, keys);
	let at = addrs(&host.view());
	ctx.begin(format_args!(
		"par_select_many {form:?} {} indices on {} n={n} {layout:?} index style {style} prior {prior} spare {spare} {how:?} content={what}",
		idx.len(),
		T::NAME
	));
	let mut before: Vec<T> = (0..prior as u32).map(|i| T::mk(i, i)).collect();
	let old: Vec<usize> = before.iter().map(|e| e as *const T as usize).collect();
	hook::reset();
	hook::cap(loop_cap(n));
	hook::delay(how.delay);
	let res = {
		let mut v = host.view_mut();
		let vm = &mut v;
		with_indices(style, idx, |ix| {
			guard(move || {
				let mut c: Vec<&mut T> = Vec::with_capacity(prior + spare);
				c.extend(before.iter_mut());
				let mut slot = Some(vm);
				let cr = &mut c;
				let mut cs = Some(cr);
				crate::par::run(how, &mut || {
					let vm = slot.take().unwrap();
					let c = cs.take().unwrap();
					match ix.kind() {
						0 => ops::par_select_many(form, vm, ix.owned(), c),
						1 => ops::par_select_many(form, vm, &ix.view(), c),
						2 => ops::par_select_many(form, vm, ix.shared(), c),
						_ => ops::par_select_many(form, vm, &CowArray::from(ix.view()), c),
					}
				});
				c.into_iter().map(|e| e as *mut T as usize).collect::<Vec<_>>()
			})
		})
	};
	let got = res.map_err(|p| payload(&*p))?;
	hook::cap(u64::MAX);
	if how.delay != 0 {
		let (s, w) = hook::sched();
		ctx.ev("thread switches inside callbacks", w);
		if w > 1 {
			ctx.sched(s);
		}
	}
	if got.len() < prior || got[..prior] != old[..] {
		return Err("prior content of the vector changed".into());
	}
	if got.len() != prior + idx.len() {
		return Err(format!("{} entries collected for {} indices", got.len() - prior, idx.len()));
	}
	for (k, &w) in idx.iter().enumerate() {
		if got[prior + k] != at[w] {
			return Err(format!("entry {k} does not refer to the element at index {w}"));
		}
	}
	fin(ctx, &host, keys, idx, form, "par_select_many", style as u64)
}

/// Adversarial content for selecting `index`.
pub fn select_killer(r: &mut Rng, n: usize, index: usize, rev: bool) -> Vec<u32> {
	hook::cap(loop_cap(n));
	let (keys, _) = adv::record(r, n, rev, |v: &mut ArrayViewMut1<P8>, f| {
		let _ = v.select_nth_unstable_by(index, |a, b| f(a, b));
	});
	keys
}
#[cfg(feature = "par")]
pub fn par_select_killer(r: &mut Rng, n: usize, idx: &[usize], rev: bool) -> Vec<u32> {
	hook::cap(loop_cap(n));
	let ix = Array1::from_vec(idx.to_vec());
	let (keys, _) = adv::record(r, n, rev, |v: &mut ArrayViewMut1<P8>, f| {
		let mut c = vec![];
		crate::par::pools()[0].install(|| v.par_select_many_nth_unstable_by(&ix, &mut c, |a, b| f(a, b)));
	});
	keys
}

/// Any index, with a taste for the ends of groups of ties.
pub fn gen_index_of(r: &mut Rng, keys: &[u32]) -> usize {
	if keys.len() < 10_000 && r.chance(1, 4) {
		let ix = crate::genk::gen_indices_of(r, keys);
		if !ix.is_empty() {
			return r.pick(&ix);
		}
	}
	gen_index(r, keys.len())
}

pub fn gen_index(r: &mut Rng, n: usize) -> usize {
	match r.below(8) {
		0 => 0,
		1 => n - 1,
		2 => n / 2,
		3 => (1).min(n - 1),
		4 => n.saturating_sub(2),
		_ => r.below(n),
	}
}
