//! The crate's operations in all their forms over instrumented elements.
use crate::Slice1Ext;
use crate::elem::{El, Key, cmp_el, key_el};
use crate::ndarray::ArrayViewMut1;
use std::cmp::Reverse;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
	/// Natural order.
	Ord,
	/// Comparator.
	By,
	/// Reversing comparator.
	ByRev,
	/// Key function.
	Key,
	/// Reversing key function.
	KeyRev,
}
pub const FORMS: [Form; 5] = [Form::Ord, Form::By, Form::ByRev, Form::Key, Form::KeyRev];
impl Form {
	pub fn rev(self) -> bool {
		matches!(self, Form::ByRev | Form::KeyRev)
	}
}

macro_rules! forms {
	($v:ident, $form:ident, $ord:ident, $by:ident, $key:ident $(, $arg:expr)*) => {
		match $form {
			Form::Ord => $v.$ord($($arg),*),
			Form::By => $v.$by($($arg,)* |a: &T, b: &T| cmp_el(a, b)),
			Form::ByRev => $v.$by($($arg,)* |a: &T, b: &T| cmp_el(a, b).reverse()),
			Form::Key => $v.$key($($arg,)* |a: &T| key_el(a)),
			Form::KeyRev => $v.$key($($arg,)* |a: &T| Reverse(key_el(a))),
		}
	};
}

pub fn sort_unstable<T: El>(form: Form, v: &mut ArrayViewMut1<T>) {
	forms!(v, form, sort_unstable, sort_unstable_by, sort_unstable_by_key)
}
#[cfg(feature = "alloc")]
pub fn sort_stable<T: El>(form: Form, v: &mut ArrayViewMut1<T>) {
	forms!(v, form, sort, sort_by, sort_by_key)
}
#[cfg(feature = "std")]
pub fn sort_cached<T: El>(form: Form, v: &mut ArrayViewMut1<T>) {
	if form.rev() {
		v.sort_by_cached_key(|a: &T| Reverse(key_el(a)))
	} else {
		v.sort_by_cached_key(|a: &T| key_el(a))
	}
}
#[cfg(feature = "par")]
pub fn par_sort_unstable<T: El>(form: Form, v: &mut ArrayViewMut1<T>) {
	forms!(v, form, par_sort_unstable, par_sort_unstable_by, par_sort_unstable_by_key)
}
#[cfg(feature = "par")]
pub fn par_sort_stable<T: El>(form: Form, v: &mut ArrayViewMut1<T>) {
	forms!(v, form, par_sort, par_sort_by, par_sort_by_key)
}
#[cfg(feature = "par")]
pub fn par_sort_cached<T: El + Sync>(form: Form, v: &mut ArrayViewMut1<T>) {
	if form.rev() {
		v.par_sort_by_cached_key(|a: &T| Reverse(key_el(a)))
	} else {
		v.par_sort_by_cached_key(|a: &T| key_el(a))
	}
}

pub fn select<'a, T: El>(
	form: Form,
	v: &'a mut ArrayViewMut1<T>,
	i: usize,
) -> (ArrayViewMut1<'a, T>, &'a mut T, ArrayViewMut1<'a, T>) {
	forms!(v, form, select_nth_unstable, select_nth_unstable_by, select_nth_unstable_by_key, i)
}

pub fn select_many<'a, T, S2, E>(
	form: Form,
	v: &'a mut ArrayViewMut1<T>,
	idx: &crate::ndarray::ArrayBase<S2, crate::ndarray::Ix1>,
	coll: &mut E,
) where
	T: El,
	S2: crate::ndarray::Data<Elem = usize>,
	E: Extend<(usize, &'a mut T)>,
{
	forms!(
		v, form, select_many_nth_unstable, select_many_nth_unstable_by,
		select_many_nth_unstable_by_key, idx, coll
	)
}

#[cfg(feature = "par")]
pub fn par_select_many<'a, T, S2>(
	form: Form,
	v: &'a mut ArrayViewMut1<T>,
	idx: &crate::ndarray::ArrayBase<S2, crate::ndarray::Ix1>,
	coll: &mut Vec<&'a mut T>,
) where
	T: El,
	S2: crate::ndarray::Data<Elem = usize> + Sync,
{
	forms!(
		v, form, par_select_many_nth_unstable, par_select_many_nth_unstable_by,
		par_select_many_nth_unstable_by_key, idx, coll
	)
}

#[allow(unused)]
fn _k(_: Key) {}
