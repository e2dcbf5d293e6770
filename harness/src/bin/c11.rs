//! C11: searching a sorted view is exact and logarithmic.
use harness::elem::{A64, B3, El, Hb, Key, P8, W16, W264, W72};
use harness::host::{Host, Layout, gen_layout};
use harness::ndarray::{Array1, ArrayBase, ArrayView1, CowArray, Data, Ix1};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{Slice1Ext, genk, hook, oracle};
use std::cmp::Ordering::{self, *};
use std::cmp::Reverse;

fn lg(n: usize) -> u64 {
	(usize::BITS - n.leading_zeros()) as u64
}
/// What counts as logarithmic.
fn allowed(n: usize) -> u64 {
	3 * lg(n) + 6
}

fn judge(got: Result<usize, usize>, n: usize, ord: &dyn Fn(usize) -> Ordering) -> Res {
	let lo = (0..n).take_while(|&i| ord(i) == Less).count();
	let hi = lo + (lo..n).take_while(|&i| ord(i) == Equal).count();
	match got {
		Ok(i) if i >= n => Err(format!("found at {i} in a view of {n}")),
		Ok(i) if ord(i) != Equal => Err(format!("index {i} does not match (first match at {lo}, {} matches)", hi - lo)),
		Ok(_) => Ok(()),
		Err(i) if hi > lo => Err(format!("not found (insert at {i}) although {lo}..{hi} match")),
		Err(i) if i != lo => Err(format!("insertion index {i} instead of {lo}")),
		Err(_) => Ok(()),
	}
}

fn probes(n: usize, what: &str) -> Result<u64, String> {
	let c = hook::calls();
	if c > allowed(n) {
		return Err(format!("{what} made {c} probes on {n} elements"));
	}
	Ok(c)
}

fn search<T: El, S: Data<Elem = T>>(ctx: &mut Ctx, v: &ArrayBase<S, Ix1>, keys: &[u32], target: u32, form: Form, sorted: bool) -> Res {
	let n = keys.len();
	let rev = form.rev();
	let ord = |i: usize| if rev { target.cmp(&keys[i]) } else { keys[i].cmp(&target) };
	let mark = T::MAXLEN as u32 - 1;
	if sorted {
		hook::reset();
		hook::cap(20 * n as u64 + 1000);
		let r = match form {
			Form::Ord => guard(|| v.binary_search(&T::mk(target, mark))),
			Form::By | Form::ByRev => guard(|| {
				v.binary_search_by(|e| {
					hook::tick();
					hook::see(e.id(), e.ok());
					if rev { target.cmp(&e.key()) } else { e.key().cmp(&target) }
				})
			}),
			Form::Key => guard(|| v.binary_search_by_key(&Key(target), |e| harness::elem::key_el(e))),
			Form::KeyRev => guard(|| v.binary_search_by_key(&Reverse(Key(target)), |e| Reverse(harness::elem::key_el(e)))),
		};
		let r = r.map_err(|p| payload(&*p))?;
		judge(r, n, &ord)?;
		let c = probes(n, "binary search")?;
		ctx.ev("binary searches", 1);
		ctx.ev("probes", c);
		ctx.ev_max("probes of one search", c);
		for strict in [false, true] {
			hook::reset();
			hook::cap(20 * n as u64 + 1000);
			let pred = |k: u32| if rev { if strict { k > target } else { k >= target } } else if strict { k < target } else { k <= target };
			let r = guard(|| {
				v.partition_point(|e| {
					hook::tick();
					hook::see(e.id(), e.ok());
					pred(e.key())
				})
			});
			let r = r.map_err(|p| payload(&*p))?;
			let want = keys.iter().take_while(|&&k| pred(k)).count();
			if r != want {
				return Err(format!("partition point {r} instead of {want}"));
			}
			probes(n, "partition point")?;
			ctx.ev("partition points", 1);
		}
	}
	hook::reset();
	let r = guard(|| v.contains(&T::mk(target, mark))).map_err(|p| payload(&*p))?;
	if r != keys.contains(&target) {
		return Err(format!("contains answers {r}"));
	}
	if hook::calls() > n as u64 {
		return Err(format!("contains made {} comparisons on {n} elements", hook::calls()));
	}
	ctx.ev(if r { "contained" } else { "not contained" }, 1);
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	Ok(())
}

fn case<T: El>(ctx: &mut Ctx, r: &mut Rng, keys: &mut Vec<u32>, lay: Layout, form: Form, sorted: bool, what: &str) -> Res {
	genk::squeeze(keys, T::MAXKEY - 1);
	if sorted {
		keys.sort_unstable();
		if form.rev() {
			keys.reverse();
		}
	}
	let n = keys.len();
	let host = Host::<T>::new(lay, keys);
	let before: Vec<(u32, u32)> = host.cells().iter().map(|c| (c.key(), c.id())).collect();
	let mut targets = vec![0, T::MAXKEY - 1];
	for _ in 0..if n < 100 { 4 } else { 8 } {
		if n > 0 {
			let i = match r.below(4) {
				0 => r.below(n.min(3)),
				1 => n - 1 - r.below(n.min(3)),
				_ => r.below(n),
			};
			let k = keys[i];
			targets.push(match r.below(4) {
				0 => k.saturating_sub(1),
				1 => (k + 1).min(T::MAXKEY - 1),
				_ => k,
			});
		}
	}
	for t in targets {
		ctx.begin(format_args!("search {form:?} for {t} on {} n={n} {lay:?} sorted={sorted} content={what}", T::NAME));
		search::<T, _>(ctx, &host.view(), keys, t, form, sorted)?;
		let sig = oracle::digest_keys(keys) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(form as u64 + 9) ^ mix(t as u64 ^ 0x5555);
		ctx.eval(sig, n >= 2);
	}
	let after: Vec<(u32, u32)> = host.cells().iter().map(|c| (c.key(), c.id())).collect();
	if before != after {
		return Err("a search changed the array".into());
	}
	host.check_canaries()?;
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, ty: usize, mut keys: Vec<u32>, form: Form, sorted: bool, what: &str) -> Res {
	let lay = gen_layout(r, keys.len());
	keys.truncate(if ty % 7 == 1 { B3::MAXLEN - 2 } else { usize::MAX });
	match ty % 7 {
		0 => case::<P8>(ctx, r, &mut keys, lay, form, sorted, what),
		1 => case::<B3>(ctx, r, &mut keys, lay, if form == Form::Ord { Form::By } else { form }, sorted, what),
		2 => case::<W72>(ctx, r, &mut keys, lay, form, sorted, what),
		3 => case::<Hb>(ctx, r, &mut keys, lay, form, sorted, what),
		4 => case::<A64>(ctx, r, &mut keys, lay, form, sorted, what),
		5 => case::<W16>(ctx, r, &mut keys, lay, form, sorted, what),
		_ => case::<W264>(ctx, r, &mut keys, lay, form, sorted, what),
	}
}

fn main() {
	let mut ctx = Ctx::new("C11");
	let th = ctx.thorough;
	// Every length, every split into less, equal and greater.
	let top = if th { 70 } else { 40 };
	ctx.fixed("splits", top + 1, |ctx, r, i| {
		let n = i as usize;
		for a in 0..=n {
			for b in a..=n {
				// Disordered inside the segments.
				let mut keys: Vec<u32> = (0..n).map(|i| if i < a { i as u32 * 7 % 50 } else if i < b { 60 } else { 70 + i as u32 * 5 % 50 }).collect();
				if r.chance(1, 2) {
					keys.iter_mut().for_each(|k| *k = if *k < 60 { 1 } else { *k });
				}
				let lay = gen_layout(r, n);
				let host = Host::<P8>::new(lay, &keys);
				ctx.begin(format_args!("search in {a} less, {} equal, {} greater {lay:?}", b - a, n - b));
				let v = host.view();
				hook::reset();
				hook::cap(20 * n as u64 + 1000);
				let got = guard(|| {
					v.binary_search_by(|e| {
						hook::tick();
						hook::see(e.id(), true);
						e.key().cmp(&60)
					})
				})
				.map_err(|p| payload(&*p))?;
				judge(got, n, &|i| keys[i].cmp(&60))?;
				probes(n, "binary search")?;
				let got = v.binary_search_by_key(&60, |e| e.key());
				judge(got, n, &|i| keys[i].cmp(&60))?;
				let got = v.partition_point(|e| {
					hook::see(e.id(), true);
					e.key() < 60
				});
				if got != a {
					return Err(format!("partition point {got} instead of {a}"));
				}
				let got = v.partition_point(|e| e.key() <= 60);
				if got != b {
					return Err(format!("partition point {got} instead of {b}"));
				}
				if let Some(f) = hook::foreign_seen() {
					return Err(f);
				}
				ctx.eval(mix((n * 10_000 + a * 100 + b) as u64), n >= 2);
				ctx.ev("splits", 1);
			}
		}
		Ok(())
	});
	// Longer lengths, every boundary position.
	let lens = [63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025];
	ctx.fixed("boundaries", lens.len() as u64 * 4, |ctx, r, i| {
		let n = lens[i as usize / 4];
		let lay = gen_layout(r, n);
		let form = FORMS[1 + i as usize % 4];
		let keys: Vec<u32> = (0..n as u32).map(|k| 2 * if form.rev() { n as u32 - 1 - k } else { k } + 1).collect();
		let host = Host::<P8>::new(lay, &keys);
		for t in 0..=2 * n as u32 + 1 {
			ctx.begin(format_args!("search {form:?} for {t} in odd numbers n={n} {lay:?}"));
			search::<P8, _>(ctx, &host.view(), &keys, t, form, true)?;
			ctx.eval(mix((n as u64) << 32 | t as u64), true);
		}
		Ok(())
	});
	// Large arrays, targets at the ends, next to seams, and in between.
	let lens = [40_000usize, 65_535, 65_536, 65_537, 65_600, 70_001, 100_003, 131_071, 131_072, 131_085, 200_017, 262_143, 300_001, 524_289, (1 << 20) - 1, 1 << 20, (1 << 20) + 5];
	ctx.fixed("large", lens.len() as u64 * if th { 36 } else { 9 }, |ctx, r, i| {
		let n = lens[i as usize / 9 % lens.len()];
		let step = [1, -1, 2, -2, 3, -3, 1, 2, 1][i as usize % 9];
		let form = FORMS[i as usize % 5];
		let dup = r.pick(&[1u32, 1, 1, 2, 7, 1000, 70_000]);
		let keys: Vec<u32> = (0..n as u32).map(|k| 2 * (if form.rev() { n as u32 - 1 - k } else { k } / dup) + 1).collect();
		let lay = if step == 1 { Layout::Owned } else { Layout::Step { off: r.below(3), step, tail: r.below(3) } };
		let host = Host::<P8>::new(lay, &keys);
		for j in 0..60 {
			let at = match j {
				0..20 => n - 1 - j,
				20..24 => j - 20,
				_ => genk::seam_at(r, n),
			};
			let t = keys[at] + 1 - r.below(5).min(2) as u32;
			ctx.begin(format_args!("search {form:?} for {t} n={n} {lay:?} content={dup} each"));
			// Membership is linear, so for some only.
			let rev = form.rev();
			hook::reset();
			let got = guard(|| {
				host.view().binary_search_by(|e| {
					hook::tick();
					hook::see(e.id(), e.ok());
					if rev { t.cmp(&e.key()) } else { e.key().cmp(&t) }
				})
			})
			.map_err(|p| payload(&*p))?;
			let lo = keys.partition_point(|&k| if rev { k > t } else { k < t });
			let hi = keys.partition_point(|&k| if rev { k >= t } else { k <= t });
			match got {
				Ok(i) if i >= lo && i < hi => {}
				Err(i) if i == lo && lo == hi => {}
				_ => return Err(format!("search gives {got:?}, matches are at {lo}..{hi}")),
			}
			probes(n, "binary search")?;
			if j % 6 == 0 {
				search::<P8, _>(ctx, &host.view(), &keys, t, form, true)?;
			}
			ctx.eval(mix((n as u64) << 32 | t as u64) ^ mix(dup as u64) ^ mix(hash_layout(lay)), true);
			ctx.ev("searches in large arrays", 1);
		}
		host.check_canaries()?;
		Ok(())
	});
	// Views that repeat one element, and elements without size: only the count of probes and the
	// bounds can be judged.
	ctx.fixed("huge", 64 * 4, |ctx, r, i| {
		let n = match i / 4 {
			0 => 0,
			k @ 1..63 => (1usize << k) - (i as usize % 3) % (1 << k).min(3),
			_ => isize::MAX as usize,
		}
		.min(isize::MAX as usize);
		let one = Array1::from_vec(vec![5u64]);
		let v: ArrayView1<u64> = one.broadcast(n).unwrap();
		let z = vec![(); n];
		let zv: ArrayView1<()> = ArrayView1::from(&z[..]);
		let m = r.range(1, 3) as u64;
		let s = r.next();
		ctx.begin(format_args!("search in {n} repetitions"));
		for kind in 0..6 {
			let calls = std::cell::Cell::new(0u64);
			let f = || {
				calls.set(calls.get() + 1);
				if calls.get() > 1000 {
					std::panic::panic_any(hook::CapExceeded(1000));
				}
			};
			let ans = |c: u64| if mix(s ^ c) % (m + 1) == 0 { Greater } else { Less };
			let got = guard(|| match kind {
				0 => (v.binary_search(&4), Err(0)),
				1 => (v.binary_search(&6), Err(n)),
				2 => (v.binary_search(&5).map(|_| 0), if n > 0 { Ok(0) } else { Err(0) }),
				3 => (Err(v.partition_point(|_| { f(); true })), Err(n)),
				4 => (Err(zv.partition_point(|_| { f(); false })), Err(0)),
				_ => {
					// Answers at random: any index in bounds.
					let x = zv.binary_search_by(|_| { f(); ans(calls.get()) });
					(x.or_else(|i| if i <= n { Err(0) } else { Err(i) }), Err(0))
				}
			})
			.map_err(|p| payload(&*p))?;
			if got.0 != got.1 {
				return Err(format!("search of kind {kind} in {n} repetitions gives {:?} instead of {:?}", got.0, got.1));
			}
			if calls.get() > allowed(n) {
				return Err(format!("search of kind {kind} in {n} repetitions made {} probes", calls.get()));
			}
			ctx.eval(mix(mix(n as u64) ^ kind), n >= 2);
			ctx.ev("searches in repeated elements", 1);
		}
		if n < 1000 {
			let c = zv.contains(&());
			if c != (n > 0) || v.contains(&4) || v.contains(&5) != (n > 0) {
				return Err("contains is wrong on repeated elements".into());
			}
		}
		Ok(())
	});
	// Partially comparable elements and other storage.
	ctx.fixed("storage", 400, |ctx, r, _| {
		let n = r.below(60);
		let f: Vec<f64> = (0..n).map(|_| if r.chance(1, 8) { f64::NAN } else { r.below(20) as f64 * if r.chance(1, 9) { -0.0 } else { 1.0 } }).collect();
		let a = Array1::from_vec(f.clone());
		ctx.begin(format_args!("contains on floats n={n}"));
		for t in [f64::NAN, 0.0, -0.0, 3.0, 19.0, 20.0] {
			if a.contains(&t) != f.contains(&t) || a.slice(harness::ndarray::s![..;-1]).contains(&t) != f.contains(&t) {
				return Err(format!("contains is wrong for {t}"));
			}
			ctx.eval(mix(r.next()), n >= 2);
		}
		let mut keys: Vec<u32> = (0..n).map(|_| r.below(30) as u32).collect();
		keys.sort();
		let mk = || -> Vec<P8> { keys.iter().enumerate().map(|(i, &k)| P8::mk(k, i as u32)).collect() };
		let own = Array1::from_vec(mk());
		for t in 0..31 {
			ctx.begin(format_args!("search for {t} in other storage n={n}"));
			search::<P8, _>(ctx, &own, &keys, t, Form::Ord, true)?;
			search::<P8, _>(ctx, &CowArray::from(own.view()), &keys, t, Form::By, true)?;
			search::<P8, _>(ctx, &own.to_shared(), &keys, t, Form::Key, true)?;
			ctx.eval(mix(oracle::digest_keys(&keys) ^ t as u64), n >= 2);
		}
		Ok(())
	});
	ctx.timed("random", 1.0, 300, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 300_000 } else { 60_000 });
		let (keys, p) = genk::gen_keys(r, n);
		let form = pick_form(r);
		let ty = if n > 20_000 { 0 } else { r.below(7) };
		let sorted = r.chance(4, 5);
		any(ctx, r, ty, keys, form, sorted, &format!("pattern{p}"))
	});
	ctx.finish();
}
