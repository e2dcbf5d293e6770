//! C12: sortedness queries and reversal are exact.
use harness::elem::{A64, B3, El, Hb, P8, W16, W264, W72, cmp_el, key_el};
use harness::host::{Host, Layout, gen_layout};
use harness::ndarray::{Array1, s};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form, small_keys, small_space};
use harness::{Slice1Ext, genk, hook, oracle, zst};
use std::cmp::Reverse;

fn sortedness<T: El>(ctx: &mut Ctx, r: &mut Rng, keys: &[u32], lay: Layout, form: Form, what: &str) -> Res {
	let n = keys.len();
	let host = Host::<T>::new(lay, keys);
	ctx.begin(format_args!("is_sorted {form:?} on {} n={n} {lay:?} content={what}", T::NAME));
	let before: Vec<(u32, u32)> = host.cells().iter().map(|c| (c.key(), c.id())).collect();
	let v = host.view();
	hook::reset();
	hook::cap(10 * n as u64 + 100);
	let (s, m) = (r.next(), r.pick(&[2u64, 10, 100, 1000, 1 << 40]));
	// A relation without any structure, and strict order.
	let odd = r.below(3);
	let rel = |a: (u32, u32), b: (u32, u32)| match odd {
		0 => mix(s ^ ((a.1 as u64) << 32 | b.1 as u64)) % m != 0,
		1 => a.0 < b.0,
		_ => a.0 == b.0,
	};
	let got = guard(|| match form {
		Form::Ord => v.is_sorted(),
		Form::By => v.is_sorted_by(|a, b| cmp_el(a, b).is_le()),
		Form::ByRev => v.is_sorted_by(|a, b| {
			hook::tick();
			hook::see(a.id(), a.ok());
			hook::see(b.id(), b.ok());
			rel((a.key(), a.id()), (b.key(), b.id()))
		}),
		Form::Key => v.is_sorted_by_key(|a| key_el(a)),
		Form::KeyRev => v.is_sorted_by_key(|a| Reverse(key_el(a))),
	})
	.map_err(|p| payload(&*p))?;
	let ids = |i: usize| (keys[i], i as u32);
	let want = (1..n).all(|i| match form {
		Form::ByRev => rel(ids(i - 1), ids(i)),
		Form::KeyRev => keys[i - 1] >= keys[i],
		_ => keys[i - 1] <= keys[i],
	});
	if got != want {
		let i = (1..n).find(|&i| match form {
			Form::ByRev => !rel(ids(i - 1), ids(i)),
			Form::KeyRev => keys[i - 1] < keys[i],
			_ => keys[i - 1] > keys[i],
		});
		return Err(format!("answers {got}; first violating pair ends at {i:?}"));
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	let after: Vec<(u32, u32)> = host.cells().iter().map(|c| (c.key(), c.id())).collect();
	if before != after {
		return Err("a query changed the array".into());
	}
	let sig = oracle::digest_keys(keys) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(form as u64 + 9) ^ mix(s % 7);
	ctx.eval(sig, n >= 2);
	ctx.ev(if got { "answered sorted" } else { "answered unsorted" }, 1);
	Ok(())
}

fn reversal<T: El>(ctx: &mut Ctx, keys: &[u32], lay: Layout, what: &str) -> Res {
	let n = keys.len();
	let mut host = Host::<T>::new(lay, keys);
	ctx.begin(format_args!("reverse on {} n={n} {lay:?} content={what}", T::NAME));
	hook::reset();
	let res = {
		let mut v = host.view_mut();
		guard(|| v.reverse())
	};
	res.map_err(|p| payload(&*p))?;
	let out = host.out();
	for p in 0..n {
		if out[p] != (keys[n - 1 - p], (n - 1 - p) as u32) {
			return Err(format!("position {p} holds element {} instead of {}", out[p].1, n - 1 - p));
		}
	}
	host.check_canaries()?;
	let sig = oracle::digest_keys(keys) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(1234);
	ctx.eval(sig, n >= 2);
	ctx.ev("reversals", 1);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, ty: usize, mut keys: Vec<u32>, form: Form, what: &str) -> Res {
	let lay = gen_layout(r, keys.len());
	macro_rules! go {
		($t:ty) => {{
			keys.truncate(<$t>::MAXLEN - 1);
			genk::squeeze(&mut keys, <$t>::MAXKEY);
			sortedness::<$t>(ctx, r, &keys, lay, form, what)?;
			reversal::<$t>(ctx, &keys, lay, what)
		}};
	}
	match ty % 7 {
		0 => go!(P8),
		1 => go!(B3),
		2 => go!(W72),
		3 => go!(Hb),
		4 => go!(A64),
		5 => go!(W16),
		_ => go!(W264),
	}
}

fn main() {
	let mut ctx = Ctx::new("C12");
	let th = ctx.thorough;
	let space = small_space(if th { 7 } else { 6 });
	let total = space.last().unwrap().2;
	ctx.fixed("small", total, |ctx, r, i| {
		let keys = small_keys(&space, i);
		any(ctx, r, i as usize / 5, keys, FORMS[i as usize % 5], "exhaustive")
	});
	// One flaw at every position of a sorted view.
	let top = if th { 400 } else { 150 };
	ctx.fixed("flaw", top, |ctx, r, i| {
		let n = i as usize + 2;
		for p in 0..n {
			let form = pick_form(r);
			let mut keys: Vec<u32> = (0..n as u32).map(|k| 10 + k / 2).collect();
			if form == Form::KeyRev {
				keys.reverse();
			}
			keys[p] = r.pick(&[0, 9, 10 + n as u32, keys[p]]);
			let ty = r.below(7);
			any(ctx, r, ty, keys, form, "one flaw")?;
		}
		Ok(())
	});
	// Large arrays: reversal, and sortedness with at most one flaw next to a seam.
	let lens = [65_535usize, 65_536, 65_537, 100_003, 131_071, 131_073, 200_003, 200_004, 262_147, 300_001, 524_290, (1 << 20) + 3, (1 << 20) + 6, 1_500_001];
	ctx.fixed("large", lens.len() as u64 * if th { 24 } else { 6 }, |ctx, r, i| {
		let n = lens[i as usize / 6 % lens.len()];
		let step = [1, -1, 2, -2, 3, -3][i as usize % 6];
		let lay = if step == 1 { Layout::Owned } else { Layout::Step { off: r.below(3), step, tail: r.below(3) } };
		let mut keys: Vec<u32> = (0..n as u32).map(|k| k + 1).collect();
		reversal::<P8>(ctx, &keys, lay, "ascending")?;
		// Plain words, where moving them in blocks pays.
		let mut a: Array1<u32> = (0..n * step.unsigned_abs()).map(|p| p as u32).collect();
		let mut want = a.clone();
		a.slice_mut(s![..;step]).reverse();
		let st = step.unsigned_abs();
		let at: Vec<usize> = (0..n).map(|i| if step > 0 { i * st } else { n * st - 1 - i * st }).collect();
		for (i, &p) in at.iter().enumerate() {
			want[p] = at[n - 1 - i] as u32;
		}
		if a != want {
			let p = a.iter().zip(&want).position(|(a, b)| a != b);
			return Err(format!("reversed {n} words in steps of {step}: cell {p:?} is wrong"));
		}
		for j in 0..8 {
			let form = FORMS[r.below(5)];
			keys = (0..n as u32).map(|k| if form == Form::KeyRev { n as u32 - k } else { k + 1 }).collect();
			if j > 0 {
				let p = genk::seam_at(r, n).max(1);
				match r.below(3) {
					0 => keys.swap(p - 1, p),
					1 => keys[p] = keys[p - 1],
					_ => keys[p] = if form == Form::KeyRev { n as u32 + 1 } else { 0 },
				}
			}
			sortedness::<P8>(ctx, r, &keys, lay, form, "one flaw next to a seam")?;
			let got = Array1::from_vec(keys.clone()).is_sorted();
			if got != keys.is_sorted() {
				return Err(format!("answers {got} on {n} words"));
			}
		}
		ctx.ev("large arrays", 1);
		Ok(())
	});
	ctx.fixed("floats", if th { 20_000 } else { 4000 }, |ctx, r, i| {
		let n = r.below(40);
		let mut f: Vec<f64> = (0..n).map(|k| (k / 2) as f64).collect();
		for _ in 0..r.below(3) {
			if n > 0 {
				let p = r.below(n);
				f[p] = r.pick(&[f64::NAN, -0.0, 0.0, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]);
			}
		}
		ctx.begin(format_args!("is_sorted on floats {f:?}"));
		let spread: Array1<f64> = f.iter().flat_map(|&x| [x, f64::NAN]).collect();
		let back: Array1<f64> = f.iter().rev().copied().collect();
		let want = f.windows(2).all(|w| w[0] <= w[1]);
		let got = [
			Array1::from_vec(f.clone()).is_sorted(),
			spread.slice(s![..;2]).is_sorted(),
			back.slice(s![..;-1]).is_sorted(),
			Array1::from_vec(f.clone()).is_sorted_by(|a, b| a <= b),
			spread.slice(s![..;2]).is_sorted_by_key(|&a| a),
			back.slice(s![..;-1]).is_sorted_by_key(|a| a + 1.0),
		];
		if let Some(k) = got.iter().position(|&g| g != want) {
			return Err(format!("query {k} answers {}", !want));
		}
		ctx.eval(mix(i) ^ mix(f.iter().fold(0, |h, x| mix(h ^ x.to_bits()))), n >= 2);
		ctx.ev("float queries", 6);
		Ok(())
	});
	ctx.fixed("zst", 100, |ctx, _, i| {
		zst::check(ctx, i as usize, "reverse and is_sorted", |v| {
			v.reverse();
			assert!(v.is_sorted() && v.is_sorted_by(|_, _| true) && v.is_sorted_by_key(|_| 0));
			assert!(v.is_sorted_by(|_, _| false) == (v.len() < 2));
		})
	});
	ctx.timed("random", 1.0, 300, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 300_000 } else { 40_000 });
		let (mut keys, p) = genk::gen_keys(r, n);
		let form = pick_form(r);
		if r.chance(2, 3) {
			keys.sort_unstable();
			if form == Form::KeyRev {
				keys.reverse();
			}
			if n > 1 && r.chance(1, 2) {
				let i = r.pick(&[0, n / 2, n - 2]).min(n - 2);
				let i = if r.chance(1, 2) { i } else { r.below(n - 1) };
				keys.swap(i, i + 1);
			}
		}
		let ty = if n > 20_000 { 0 } else { r.below(7) };
		any(ctx, r, ty, keys, form, &format!("pattern{p}"))
	});
	ctx.finish();
}
