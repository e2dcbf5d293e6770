//! Counting what an operation asks its callbacks.
use crate::anyop::{Arg, Op, run_how};
use crate::elem::{El, P8};
use crate::hook;
use crate::host::Host;
use crate::ndarray::Array1;
use crate::ops::Form;
use crate::report::{guard, payload};
use crate::{Slice1Ext, adv, oracle, par};
use crate::rng::Rng;

/// Comparisons from callback calls: key forms call the key function twice and compare once.
pub fn comparisons(op: Op, form: Form, n: usize, calls: u64) -> u64 {
	match op {
		Op::Cached | Op::ParCached => calls.saturating_sub(n as u64),
		Op::Point | Op::Contains | Op::Reverse => calls,
		_ => match form {
			Form::Key | Form::KeyRev => calls.div_ceil(3),
			_ => calls,
		},
	}
}

pub fn log2(n: usize) -> f64 {
	(n.max(2) as f64).log2()
}

/// Runs the operation, stopped at `stop` comparisons, and returns how many it made.
pub fn count<T: El + Sync>(op: Op, form: Form, host: &mut Host<T>, keys: &[u32], arg: &Arg, pool: usize, stop: u64) -> Result<u64, String> {
	let n = keys.len();
	hook::reset();
	hook::key_ticks(true);
	hook::cap(stop.saturating_mul(4) + n as u64);
	let res = {
		let mut v = host.view_mut();
		guard(|| run_how(op, form, &mut v, arg, pool))
	};
	let calls = hook::calls();
	hook::reset();
	if let Err(p) = res {
		if p.downcast_ref::<hook::CapExceeded>().is_some() {
			return Ok(stop.saturating_add(1));
		}
		return Err(payload(&*p));
	}
	oracle::conserved(keys, &host.out())?;
	Ok(comparisons(op, form, n, calls))
}

/// Lets the adversary answer `op` directly; returns the keys it committed to and the comparisons.
pub fn attack(r: &mut Rng, op: Op, n: usize, rev: bool, arg: &Arg, pool: usize, stop: u64) -> Result<(Vec<u32>, u64), String> {
	hook::reset();
	hook::cap(stop);
	let ix = Array1::from_vec(arg.many.clone());
	let res = guard(|| {
		#[cfg(feature = "std")]
		if op == Op::Cached {
			return adv::record_keys(r, n, rev, |v| v.sort_by_cached_key(|e| adv::AdvKey(e.id())));
		}
		#[cfg(feature = "par")]
		if op == Op::ParCached {
			return adv::record_keys(r, n, rev, |v| {
				let mut v = Some(v);
				par::pools()[pool % par::pools().len()].install(|| v.take().unwrap().par_sort_by_cached_key(|e| adv::AdvKey(e.id())))
			});
		}
		adv::record(r, n, rev, |v, f| {
			let mut v = Some(v);
			let mut go = || {
				let v = v.take().unwrap();
				let f = |a: &P8, b: &P8| f(a, b);
				match op {
					Op::SortU => v.sort_unstable_by(f),
					#[cfg(feature = "alloc")]
					Op::SortS => v.sort_by(f),
					Op::Select => {
						let _ = v.select_nth_unstable_by(arg.index, f);
					}
					Op::Many => v.select_many_nth_unstable_by(&ix, &mut vec![], f),
					Op::ParU => v.par_sort_unstable_by(f),
					Op::ParS => v.par_sort_by(f),
					Op::ParMany => v.par_select_many_nth_unstable_by(&ix, &mut vec![], f),
					_ => unreachable!(),
				}
			};
			if op.par() { par::pools()[pool % par::pools().len()].install(go) } else { go() }
		})
	});
	hook::reset();
	match res {
		Ok(x) => Ok(x),
		Err(p) if p.downcast_ref::<hook::CapExceeded>().is_some() => Ok((vec![], stop.saturating_add(1))),
		Err(p) => Err(payload(&*p)),
	}
}
