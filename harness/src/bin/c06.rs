//! C06: selection places the ranked element and partitions the view around it.
use harness::elem::{A64, B3, El, Hb, P8, W16, W264, W72};
use harness::host::{Layout, gen_layout};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res};
use harness::selcase::*;
use harness::sortcase::{pick_form, small_keys, small_space, table};
use harness::{Slice1Ext, genk, hook, zst};

fn any(ctx: &mut Ctx, ty: usize, mut keys: Vec<u32>, index: usize, lay: Layout, form: Form, what: &str) -> Res {
	macro_rules! go {
		($t:ty) => {{
			keys.truncate(<$t>::MAXLEN - 1);
			genk::squeeze(&mut keys, <$t>::MAXKEY);
			let index = index.min(keys.len() - 1);
			select_case::<$t>(ctx, &keys, index, lay, form, what)
		}};
	}
	match if ty % 7 == 6 && keys.len() > 6000 { 5 } else { ty % 7 } {
		0 => go!(P8),
		1 => go!(B3),
		2 => go!(W72),
		3 => go!(Hb),
		4 => go!(A64),
		5 => go!(W16),
		_ => go!(W264),
	}
}

fn main() {
	let mut ctx = Ctx::new("C06");
	let th = ctx.thorough;
	let space = small_space(if th { 7 } else { 5 });
	let total = space.last().unwrap().2;
	ctx.fixed("small", total, |ctx, r, i| {
		let keys = small_keys(&space, i);
		for index in 0..keys.len() {
			let lay = gen_layout(r, keys.len());
			any(ctx, i as usize / 5 + index, keys.clone(), index, lay, FORMS[(i % 5) as usize], "exhaustive")?;
		}
		Ok(())
	});
	let tab = table(2, if th { 200_000 } else { 20_001 });
	ctx.fixed("table", tab.len() as u64, |ctx, r, i| {
		let (p, n) = tab[i as usize];
		for _ in 0..if n < 3000 { 6 } else { 2 } {
			let keys = genk::pattern(r, n, p);
			let lay = gen_layout(r, n);
			let form = pick_form(r);
			let index = gen_index_of(r, &keys);
			let ty = if n > 10_000 { 0 } else { r.below(7) };
			any(ctx, ty, keys, index, lay, form, &format!("pattern{p}"))?;
		}
		Ok(())
	});
	let seq: &[(u64, usize, usize)] =
		if th { &[(20_000, 11, 700), (6000, 700, 6000), (200, 6000, 140_000), (40, 131_000, 200_000)] } else { &[(3200, 11, 700), (480, 700, 4000), (16, 6000, 60_000), (8, 131_200, 150_000)] };
	for (k, &(count, lo, hi)) in seq.iter().enumerate() {
		ctx.fixed(&format!("killer{k}"), count, |ctx, r, _| {
			let n = r.range(lo, hi);
			let index = gen_index(r, n);
			let rev = r.chance(1, 2);
			ctx.begin(format_args!("select against adaptive adversary n={n} index={index}"));
			let mut keys = select_killer(r, n, index, rev);
			ctx.ev("adversarial inputs recorded", 1);
			if r.chance(1, 5) {
				keys.iter_mut().for_each(|k| *k /= 2);
			}
			let lay = gen_layout(r, n);
			let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
			let ty = r.pick(&[0, 0, 2, 3, 4]);
			any(ctx, if n > 20_000 { 0 } else { ty }, keys.clone(), index, lay, form, "killer")?;
			// The same content at a neighbouring rank.
			let other = if index > 0 { index - 1 } else { (index + 1).min(n - 1) };
			any(ctx, 0, keys, other, lay, form, "killer")
		});
	}
	ctx.fixed("outliers", if th { 5000 } else { 800 }, |ctx, r, _| {
		let n = if r.chance(1, 4) { r.range(2, 60) } else { r.range(60, 2500) };
		let (keys, idx) = genk::outliers(r, n);
		for index in idx {
			let lay = gen_layout(r, n);
			let form = pick_form(r);
			let ty = r.below(7);
			any(ctx, ty, keys.clone(), index, lay, form, "outliers")?;
		}
		Ok(())
	});
	ctx.fixed("zst", 150, |ctx, _, i| {
		zst::check(ctx, i as usize, "select_nth_unstable", |v| {
			if v.len() > 0 {
				let k = i as usize * 7 % v.len();
				let n = v.len();
				let (l, _, r) = v.select_nth_unstable(k);
				assert!(l.len() == k && r.len() == n - 1 - k, "wrong split of zero-sized elements");
			}
		})
	});
	ctx.timed("random", 1.0, 200, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 200_000 } else { 30_000 }).max(1);
		let (keys, p) = genk::gen_keys(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let index = gen_index_of(r, &keys);
		let ty = r.below(7);
		any(ctx, ty, keys, index, lay, form, &format!("pattern{p}"))
	});
	let _ = hook::calls();
	ctx.finish();
}
