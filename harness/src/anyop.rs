//! Any operation of the crate under one roof, over any storage, with its return value as data.
use crate::Slice1Ext;
use crate::elem::{El, cmp_el, key_el};
use crate::ndarray::{Array1, ArrayBase, DataMut, Ix1};
use crate::ops::Form;
use crate::rng::Rng;
use std::cmp::Reverse as Rev;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	SortU,
	SortS,
	Cached,
	Select,
	Many,
	Dedup,
	Bin,
	Point,
	Contains,
	IsSorted,
	Reverse,
	ParU,
	ParS,
	ParCached,
	ParMany,
}
use Op::*;
/// Sequential operations that rearrange.
pub const SEQ_MUT: &[Op] = &[
	SortU,
	#[cfg(feature = "alloc")]
	SortS,
	#[cfg(feature = "std")]
	Cached,
	Select,
	Many,
	Dedup,
];
pub const SEARCH: &[Op] = &[Bin, Point, Contains, IsSorted];
pub const SEQ: &[Op] = &[
	SortU,
	#[cfg(feature = "alloc")]
	SortS,
	#[cfg(feature = "std")]
	Cached,
	Select,
	Many,
	Dedup,
	Bin,
	Point,
	Contains,
	IsSorted,
	Reverse,
];
pub const PAR: &[Op] = &[
	#[cfg(feature = "par")]
	ParU,
	#[cfg(feature = "par")]
	ParS,
	#[cfg(feature = "par")]
	ParCached,
	#[cfg(feature = "par")]
	ParMany,
];

impl Op {
	pub fn par(self) -> bool {
		matches!(self, ParU | ParS | ParCached | ParMany)
	}
	/// The outcome is fixed by content and order alone.
	pub fn stable(self) -> bool {
		matches!(self, SortS | Cached | ParS | ParCached)
	}
	pub fn sorts(self) -> bool {
		matches!(self, SortU | SortS | Cached | ParU | ParS | ParCached)
	}
}

/// Arguments beyond the view.
#[derive(Clone, Debug, Default)]
pub struct Arg {
	/// Index of a single selection.
	pub index: usize,
	/// Strictly increasing set of indices of a bulk selection.
	pub many: Vec<usize>,
	/// Key looked for.
	pub target: u32,
}
pub fn gen_arg(r: &mut Rng, keys: &[u32]) -> Arg {
	let n = keys.len();
	Arg {
		index: if n == 0 { 0 } else { crate::selcase::gen_index(r, n) },
		many: crate::genk::gen_indices_of(r, keys),
		target: match r.below(4) {
			0 => 0,
			1 if n > 0 => keys[r.below(n)].saturating_add(1),
			_ if n > 0 => keys[r.below(n)],
			_ => 5,
		},
	}
}

fn at<T>(base: &[usize], e: *const T) -> i64 {
	let e = e as usize;
	base.iter().position(|&b| b == e).map_or(-1, |p| p as i64)
}

/// Runs `op`. The result encodes what it returned, references as logical positions.
pub fn run_op<T, S>(op: Op, form: Form, v: &mut ArrayBase<S, Ix1>, arg: &Arg) -> Vec<i64>
where
	T: El + Sync,
	S: DataMut<Elem = T>,
{
	let rev = form.rev();
	let target = arg.target.min(T::MAXKEY - 1);
	let fcmp = move |a: &T, b: &T| {
		let o = cmp_el(a, b);
		if rev { o.reverse() } else { o }
	};
	let res = |r: Result<usize, usize>| match r {
		Ok(i) => vec![1, i as i64],
		Err(i) => vec![0, i as i64],
	};
	macro_rules! forms {
		($ord:ident, $by:ident, $key:ident $(, $arg:expr)*) => {
			match form {
				Form::Ord => v.$ord($($arg),*),
				Form::By | Form::ByRev => v.$by($($arg,)* fcmp),
				Form::Key => v.$key($($arg,)* |a: &T| key_el(a)),
				Form::KeyRev => v.$key($($arg,)* |a: &T| Rev(key_el(a))),
			}
		};
	}
	macro_rules! unit {
		($e:expr) => {{
			$e;
			vec![]
		}};
	}
	let bases = |v: &ArrayBase<S, Ix1>| v.iter().map(|e| e as *const T as usize).collect::<Vec<_>>();
	match op {
		SortU => unit!(forms!(sort_unstable, sort_unstable_by, sort_unstable_by_key)),
		#[cfg(feature = "alloc")]
		SortS => unit!(forms!(sort, sort_by, sort_by_key)),
		#[cfg(feature = "std")]
		Cached => unit!(if rev { v.sort_by_cached_key(|a: &T| Rev(key_el(a))) } else { v.sort_by_cached_key(|a: &T| key_el(a)) }),
		Select => {
			// A first mutable access unshares copy-on-write storage, so that addresses are final.
			let _ = v.view_mut();
			let base = bases(v);
			let (l, m, r) = forms!(select_nth_unstable, select_nth_unstable_by, select_nth_unstable_by_key, arg.index);
			let lp = l.first().map_or(-2, |e| at(&base, e));
			let rp = r.first().map_or(-2, |e| at(&base, e));
			vec![l.len() as i64, at(&base, m), r.len() as i64, lp, rp]
		}
		Many => {
			let _ = v.view_mut();
			let base: std::collections::HashMap<usize, i64> =
				v.iter().enumerate().map(|(i, e)| (e as *const T as usize, i as i64)).collect();
			let ix = Array1::from_vec(arg.many.clone());
			let mut c: Vec<(usize, &mut T)> = vec![];
			forms!(select_many_nth_unstable, select_many_nth_unstable_by, select_many_nth_unstable_by_key, &ix, &mut c);
			c.iter()
				.flat_map(|(i, e)| [*i as i64, base.get(&(&**e as *const T as usize)).copied().unwrap_or(-1)])
				.collect()
		}
		Dedup => {
			let _ = v.view_mut();
			let base = bases(v);
			let (d, e) = match form {
				Form::Ord => v.partition_dedup(),
				Form::By | Form::ByRev => v.partition_dedup_by(|a, b| fcmp(a, b).is_eq()),
				Form::Key | Form::KeyRev => v.partition_dedup_by_key(|a| key_el(a)),
			};
			let dp = d.first().map_or(-2, |e| at(&base, e));
			let ep = e.first().map_or(-2, |e| at(&base, e));
			vec![d.len() as i64, e.len() as i64, dp, ep]
		}
		Bin => res(match form {
			Form::Ord => v.binary_search(&T::mk(target, T::MAXLEN as u32 - 1)),
			Form::By | Form::ByRev => {
				let t = T::mk(target, T::MAXLEN as u32 - 1);
				v.binary_search_by(|a| fcmp(a, &t))
			}
			Form::Key => v.binary_search_by_key(&crate::elem::Key(target), |a| key_el(a)),
			Form::KeyRev => v.binary_search_by_key(&Rev(crate::elem::Key(target)), |a| Rev(key_el(a))),
		}),
		Point => vec![v.partition_point(|a| {
			let k = key_el(a).0;
			if rev { k > target } else { k < target }
		}) as i64],
		Contains => vec![v.contains(&T::mk(target, T::MAXLEN as u32 - 1)) as i64],
		IsSorted => vec![match form {
			Form::Ord => v.is_sorted(),
			Form::By | Form::ByRev => v.is_sorted_by(|a, b| fcmp(a, b).is_le()),
			Form::Key => v.is_sorted_by_key(|a| key_el(a)),
			Form::KeyRev => v.is_sorted_by_key(|a| Rev(key_el(a))),
		} as i64],
		Op::Reverse => unit!(v.reverse()),
		#[cfg(feature = "par")]
		ParU => unit!(forms!(par_sort_unstable, par_sort_unstable_by, par_sort_unstable_by_key)),
		#[cfg(feature = "par")]
		ParS => unit!(forms!(par_sort, par_sort_by, par_sort_by_key)),
		#[cfg(feature = "par")]
		ParCached => unit!(if rev {
			v.par_sort_by_cached_key(|a: &T| Rev(key_el(a)))
		} else {
			v.par_sort_by_cached_key(|a: &T| key_el(a))
		}),
		#[cfg(feature = "par")]
		ParMany => {
			let _ = v.view_mut();
			let base: std::collections::HashMap<usize, i64> =
				v.iter().enumerate().map(|(i, e)| (e as *const T as usize, i as i64)).collect();
			let ix = Array1::from_vec(arg.many.clone());
			let mut c: Vec<&mut T> = vec![];
			forms!(
				par_select_many_nth_unstable,
				par_select_many_nth_unstable_by,
				par_select_many_nth_unstable_by_key,
				&ix,
				&mut c
			);
			c.iter().map(|e| base.get(&(&**e as *const T as usize)).copied().unwrap_or(-1)).collect()
		}
		#[allow(unreachable_patterns)]
		_ => unreachable!("not in this configuration"),
	}
}

/// `run_op` on the host's view; parallel ones inside `how`.
pub fn run_how<T, S>(op: Op, form: Form, v: &mut ArrayBase<S, Ix1>, arg: &Arg, pool: usize) -> Vec<i64>
where
	T: El + Sync,
	S: DataMut<Elem = T> + Send,
{
	#[cfg(feature = "par")]
	if op.par() {
		return if pool == usize::MAX {
			run_op(op, form, v, arg)
		} else {
			crate::par::pools()[pool % crate::par::pools().len()].install(|| run_op(op, form, v, arg))
		};
	}
	let _ = pool;
	run_op(op, form, v, arg)
}

/// Content suited to the operation: searches need order, deduplication needs runs.
pub fn gen_content(r: &mut Rng, op: Op, form: Form, n: usize, max: u32) -> (Vec<u32>, usize) {
	let (mut keys, p) = crate::genk::gen_keys(r, n);
	crate::genk::squeeze(&mut keys, max);
	match op {
		Bin | Point => {
			keys.sort_unstable();
			if form.rev() {
				keys.reverse();
			}
		}
		IsSorted | Contains if r.chance(1, 2) => {
			keys.sort_unstable();
			if form.rev() {
				keys.reverse();
			}
			if n > 2 && r.chance(1, 2) {
				let i = r.below(n - 1);
				keys.swap(i, i + 1);
			}
		}
		Dedup => {
			let d = r.pick(&[1u32, 2, 4, 16]);
			let w = r.range(1, 6);
			let src = keys.clone();
			for (i, k) in keys.iter_mut().enumerate() {
				*k = src[i / w] / d;
			}
		}
		_ => {}
	}
	(keys, p)
}
