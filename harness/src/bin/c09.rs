//! C09: invalid selection requests are rejected without corrupting anything.
use harness::elem::{B3, El, Hb, P8, W264, W72};
use harness::host::{Host, Layout, gen_layout};
use harness::ndarray::Array1;
use harness::ops::{self, FORMS, Form};
use harness::report::{Ctx, Res, guard};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{genk, hook, oracle, par};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
	Select,
	Many,
	ParMany,
}
use What::*;

/// An index list that is not a strictly increasing sequence below `n`.
fn bad_indices(r: &mut Rng, n: usize) -> (Vec<usize>, &'static str) {
	loop {
		let mut v = genk::gen_indices(r, n);
		let far = r.pick(&[n, n + 1, 2 * n + 3, usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX / 8, usize::MAX / 2]);
		let k = match r.below(9) {
			0 => {
				v.push(far);
				"past the end, last"
			}
			1 => {
				let i = r.below(v.len() + 1);
				v.insert(i, far);
				"past the end, somewhere"
			}
			2 => {
				v = vec![far];
				"past the end, alone"
			}
			3 if !v.is_empty() => {
				let i = r.below(v.len());
				let x = v[i];
				v.insert(i, x);
				"duplicate"
			}
			4 if v.len() >= 2 => {
				let i = r.below(v.len() - 1);
				v.swap(i, i + 1);
				"swapped neighbours"
			}
			5 if v.len() >= 2 => {
				v.reverse();
				"reversed"
			}
			6 if v.len() >= 3 => {
				r.shuffle(&mut v);
				"shuffled"
			}
			7 if n > 0 && !v.is_empty() => {
				v.push(r.below(n));
				"appended"
			}
			8 if n > 0 && v.len() > 2 => {
				let i = r.below(v.len());
				v[i] = r.below(n);
				"replaced"
			}
			_ => continue,
		};
		let good = v.windows(2).all(|w| w[0] < w[1]) && v.iter().all(|&i| i < n);
		if !good {
			return (v, k);
		}
	}
}

fn case<T: El>(ctx: &mut Ctx, r: &mut Rng, what: What, keys: &[u32], idx: &[usize], why: &str, lay: Layout, form: Form) -> Res {
	let n = keys.len();
	let mut host = Host::<T>::new(lay, keys);
	let short: Vec<usize> = idx.iter().copied().take(12).collect();
	ctx.begin(format_args!("{what:?} {form:?} on {} n={n} {lay:?} {} indices {short:?} ({why})", T::NAME, idx.len()));
	let prior = r.below(4);
	let spare = r.pick(&[0, 0, 1, idx.len(), idx.len() + 5]);
	let pool = r.below(par::pools().len());
	let ix = Array1::from_vec(idx.to_vec());
	let mut before: Vec<T> = (0..prior as u32).map(|i| T::mk(i, i)).collect();
	let old: Vec<usize> = before.iter().map(|e| e as *const T as usize).collect();
	hook::reset();
	hook::cap(harness::sortcase::loop_cap(n));
	// References the collection holds afterwards, as addresses, and the view's addresses.
	let mut held: Vec<(usize, usize)> = vec![];
	let inside: std::collections::HashMap<usize, usize> = host.view().iter().enumerate().map(|(i, e)| (e as *const T as usize, i)).collect();
	let res = {
		let mut v = host.view_mut();
		let v = &mut v;
		let held = &mut held;
		match what {
			Select => guard(|| {
				let (l, _, r) = ops::select(form, v, idx[0]);
				format!("returned views of {} and {}", l.len(), r.len())
			}),
			Many => {
				let mut c: Vec<(usize, &mut T)> = before.iter_mut().enumerate().map(|(i, e)| (i + 7, e)).collect();
				let cr = &mut c;
				let x = guard(move || {
					ops::select_many(form, v, &ix, cr);
					format!("returned {} pairs", cr.len())
				});
				*held = c.into_iter().map(|(i, e)| (i, e as *mut T as usize)).collect();
				x
			}
			ParMany => {
				let mut c: Vec<&mut T> = Vec::with_capacity(prior + spare);
				c.extend(before.iter_mut());
				let mut slot = Some((v, &mut c));
				let x = guard(|| {
					par::pools()[pool].install(|| {
						let (v, c) = slot.take().unwrap();
						ops::par_select_many(form, v, &ix, c)
					});
					"returned normally".to_string()
				});
				drop(slot);
				*held = c.into_iter().enumerate().map(|(i, e)| (i + 7, e as *mut T as usize)).collect();
				x
			}
		}
	};
	match res {
		Ok(m) => return Err(format!("not rejected: {m}")),
		Err(p) if p.is::<hook::CapExceeded>() => return Err("not rejected: ran on and on".into()),
		Err(_) => {}
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	if held.len() < prior && what != Select {
		return Err(format!("target collection lost entries: {} of {prior} left", held.len()));
	}
	for (k, &(i, a)) in held.iter().enumerate() {
		if k < prior {
			if (i, a) != (k + 7, old[k]) {
				return Err(format!("entry {k} held before changed"));
			}
		} else if what == ParMany || !inside.contains_key(&a) {
			return Err(format!("entry {k} of the target collection dangles or was never initialised"));
		} else if inside[&a] != i {
			return Err(format!("entry {k} is for index {i} but refers to position {}", inside[&a]));
		}
	}
	let out = host.out();
	oracle::conserved(keys, &out)?;
	host.check_canaries()?;
	let mut sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(what as u64 + 77);
	for &i in idx {
		sig = mix(sig ^ i as u64);
	}
	ctx.eval(sig, n >= 1);
	ctx.ev(&format!("rejected: {what:?} {why}"), 1);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, what: What, mut keys: Vec<u32>, idx: &[usize], why: &str, form: Form) -> Res {
	let lay = gen_layout(r, keys.len());
	macro_rules! go {
		($t:ty) => {{
			genk::squeeze(&mut keys, <$t>::MAXKEY);
			case::<$t>(ctx, r, what, &keys, idx, why, lay, form)
		}};
	}
	match if keys.len() > 50_000 { 0 } else { r.below(5) } {
		0 => go!(P8),
		1 => go!(B3),
		2 => go!(W72),
		3 => go!(Hb),
		_ => go!(W264),
	}
}

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C09");
	let th = ctx.thorough;
	// Every bad index for short views, single and as the only one in bulk.
	ctx.fixed("single", 60 * 5 * 3, |ctx, r, i| {
		let n = i as usize / 15;
		let what = [Select, Many, ParMany][i as usize % 3];
		let form = FORMS[i as usize / 3 % 5];
		for bad in [n, n + 1, n + 2, n + 64, 2 * n + 7, usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX / 2 - n] {
			let (keys, _) = genk::gen_keys(r, n);
			any(ctx, r, what, keys, &[bad], "past the end, alone", form)?;
		}
		Ok(())
	});
	// Every index list of up to three entries over a short view.
	ctx.fixed("lists", 5 * 216, |ctx, r, i| {
		let n = 1 + i as usize % 5;
		let c = i as usize / 5;
		let mut idx = vec![c % 6, c / 6 % 6, c / 36];
		idx.truncate(1 + r.below(3));
		if idx.windows(2).all(|w| w[0] < w[1]) && idx.iter().all(|&i| i < n) {
			return Ok(());
		}
		for what in [Many, ParMany] {
			for form in FORMS {
				let (keys, _) = genk::gen_keys(r, n);
				any(ctx, r, what, keys, &idx, "short list", form)?;
			}
		}
		Ok(())
	});
	let max = if th { 100_000 } else { 12_000 };
	ctx.timed("random", 1.0, 400, |ctx, r, i| {
		let n = genk::gen_len(r, max);
		let (keys, _) = genk::gen_keys(r, n);
		let form = pick_form(r);
		if i % 4 == 0 {
			let (a, b, c) = (r.below(1000), r.below(5), r.range(1, 9));
			let bad = r.pick(&[n, n + 1, n + a, usize::MAX - b, usize::MAX / c]).max(n);
			return any(ctx, r, Select, keys, &[bad], "past the end", form);
		}
		let (idx, why) = bad_indices(r, n);
		let what = if i % 2 == 0 { Many } else { ParMany };
		any(ctx, r, what, keys, &idx, why, form)
	});
	ctx.finish();
}
