//! Operations as a user calls them: nothing of the harness allocates or records in between.
use crate::Slice1Ext;
use crate::anyop::Op;
use crate::elem::{El, Key, cmp_el, key_el};
use crate::ndarray::{Array1, ArrayViewMut1};
use crate::ops::{self, Form};
use rayon::ThreadPool;
use std::cmp::Reverse;

/// The operation itself, without an allocation of the harness's own.
#[allow(clippy::too_many_arguments)]
pub fn go<T: El + Sync>(op: Op, form: Form, mut v: ArrayViewMut1<T>, index: usize, ix: &Array1<usize>, target: &T, room: usize, pool: &ThreadPool) {
	let v = &mut v;
	let fcmp = move |a: &T, b: &T| if form.rev() { cmp_el(a, b).reverse() } else { cmp_el(a, b) };
	match op {
		Op::SortU => ops::sort_unstable(form, v),
		Op::SortS => ops::sort_stable(form, v),
		Op::Cached => ops::sort_cached(form, v),
		Op::Select => {
			let _ = ops::select(form, v, index);
		}
		Op::Many => {
			let mut c: Vec<(usize, &mut T)> = Vec::with_capacity(room);
			ops::select_many(form, v, ix, &mut c);
		}
		Op::Dedup => {
			let _ = match form {
				Form::Ord => v.partition_dedup(),
				Form::By | Form::ByRev => v.partition_dedup_by(|a, b| cmp_el(a, b).is_eq()),
				Form::Key | Form::KeyRev => v.partition_dedup_by_key(|a| key_el(a)),
			};
		}
		Op::Bin => {
			let _ = match form {
				Form::Ord => v.binary_search(target),
				Form::By | Form::ByRev => v.binary_search_by(|a| fcmp(a, target)),
				Form::Key => v.binary_search_by_key(&Key(target.key()), |a| key_el(a)),
				Form::KeyRev => v.binary_search_by_key(&Reverse(Key(target.key())), |a| Reverse(key_el(a))),
			};
		}
		Op::Point => {
			let _ = v.partition_point(|a| key_el(a).0 < target.key());
		}
		Op::Contains => {
			let _ = v.contains(target);
		}
		Op::IsSorted => {
			let _ = match form {
				Form::Ord => v.is_sorted(),
				Form::By | Form::ByRev => v.is_sorted_by(|a, b| fcmp(a, b).is_le()),
				Form::Key => v.is_sorted_by_key(|a| key_el(a)),
				Form::KeyRev => v.is_sorted_by_key(|a| Reverse(key_el(a))),
			};
		}
		Op::Reverse => v.reverse(),
		Op::ParU => pool.install(|| ops::par_sort_unstable(form, v)),
		Op::ParS => pool.install(|| ops::par_sort_stable(form, v)),
		Op::ParCached => pool.install(|| ops::par_sort_cached(form, v)),
		Op::ParMany => {
			let mut c: Vec<&mut T> = Vec::with_capacity(room);
			pool.install(|| ops::par_select_many(form, v, ix, &mut c));
		}
	}
}

pub const OPS: &[Op] = &[
	Op::SortU, Op::SortS, Op::Cached, Op::Select, Op::Many, Op::Dedup, Op::Bin, Op::Point, Op::Contains, Op::IsSorted, Op::Reverse, Op::ParU, Op::ParS,
	Op::ParCached, Op::ParMany,
];
