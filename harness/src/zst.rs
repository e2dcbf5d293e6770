//! Zero-sized elements: nothing to order, nothing to lose, nothing to crash on.
use crate::ndarray::{Array1, ArrayViewMut1, s};
use crate::report::{Ctx, Res, guard, payload};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

static LIVE: AtomicI64 = AtomicI64::new(0);

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Z;
impl Z {
	pub fn new() -> Self {
		LIVE.fetch_add(1, SeqCst);
		Z
	}
}
impl Drop for Z {
	fn drop(&mut self) {
		LIVE.fetch_sub(1, SeqCst);
	}
}
pub fn live() -> i64 {
	LIVE.load(SeqCst)
}

pub fn check(ctx: &mut Ctx, i: usize, what: &str, op: impl FnOnce(&mut ArrayViewMut1<Z>)) -> Res {
	let n = [0, 1, 2, 3, 10, 11, 20, 21, 50, 100, 300, 1000, 2001, 4001, 5001][i % 15];
	let mut a: Array1<Z> = (0..n).map(|_| Z::new()).collect();
	ctx.begin(format_args!("{what} on {n} zero-sized elements"));
	let before = live();
	let r = guard(|| {
		if i % 2 == 0 || n < 4 {
			op(&mut a.view_mut());
		} else {
			op(&mut a.slice_mut(s![1..;-2]));
		}
	});
	if let Err(p) = r {
		return Err(payload(&*p));
	}
	if live() != before || a.len() != n {
		return Err(format!("{} zero-sized elements live before, {} after", before, live()));
	}
	drop(a);
	if live() != before - n as i64 {
		return Err("zero-sized elements leaked or dropped twice".into());
	}
	ctx.eval(crate::rng::hash_str(what) ^ i as u64, false);
	ctx.ev("zero-sized element runs", 1);
	Ok(())
}
