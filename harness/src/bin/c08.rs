//! C08: parallel bulk selection ranks every requested index under any schedule.
use harness::elem::{B3, El, Hb, P8, W16, W264, W72};
use harness::host::{Layout, gen_layout};
use harness::ndarray::Array1;
use harness::ops::{FORMS, Form};
use harness::par::{How, gen_how};
use harness::report::{Ctx, Res};
use harness::rng::Rng;
use harness::selcase::*;
use harness::sortcase::{pick_form, small_keys, small_space, table};
use harness::{Slice1Ext, genk, zst};

#[allow(clippy::too_many_arguments)]
fn any(ctx: &mut Ctx, r: &mut Rng, ty: usize, mut keys: Vec<u32>, idx: &[usize], lay: Layout, form: Form, what: &str, how: How) -> Res {
	macro_rules! go {
		($t:ty) => {{
			genk::squeeze(&mut keys, <$t>::MAXKEY);
			par_many_case::<$t>(ctx, r, &keys, idx, lay, form, what, how)
		}};
	}
	match if keys.len() >= B3::MAXLEN { 0 } else { if ty % 6 == 5 && keys.len() > 6000 { 4 } else { ty % 6 } } {
		0 => go!(P8),
		1 => go!(B3),
		2 => go!(W72),
		3 => go!(Hb),
		4 => go!(W16),
		_ => go!(W264),
	}
}

fn main() {
	let mut ctx = Ctx::new("C08");
	let th = ctx.thorough;
	let space = small_space(4);
	let total = space.last().unwrap().2;
	ctx.fixed("small", total.min(if th { 1000 } else { 400 }), |ctx, r, i| {
		let keys = small_keys(&space, i);
		let n = keys.len();
		if n > 8 {
			return Ok(());
		}
		for m in 0..1usize << n {
			let idx: Vec<usize> = (0..n).filter(|k| m >> k & 1 == 1).collect();
			let lay = gen_layout(r, n);
			let how = How { pool: r.below(3), mode: 0, delay: 0 };
			any(ctx, r, m, keys.clone(), &idx, lay, FORMS[(i as usize + m) % 5], "exhaustive", how)?;
		}
		Ok(())
	});
	let tab = table(2, if th { 131_073 } else { 10_001 });
	ctx.fixed("table", tab.len() as u64, |ctx, r, i| {
		let (p, n) = tab[i as usize];
		let keys = genk::pattern(r, n, p);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let idx = genk::gen_indices_of(r, &keys);
		let ty = r.below(6);
		let how = gen_how(r);
		any(ctx, r, ty, keys, &idx, lay, form, &format!("pattern{p}"), how)
	});
	// Around the lengths and index positions where the work is forked.
	ctx.fixed("fork", if th { 6000 } else { 800 }, |ctx, r, _| {
		let n = r.range(2001, 16_000);
		let (keys, p) = genk::gen_keys(r, n);
		let mut idx = match r.below(3) {
			0 => {
				let m = r.range(2, 9);
				let mut v: Vec<usize> = (0..m).map(|_| r.below(n)).collect();
				v.push(r.range(1998, 2003).min(n - 1));
				v.push(r.range(3999, 4003).min(n - 1));
				v
			}
			1 => (0..n).step_by(r.range(1, 1500)).collect(),
			_ => genk::gen_indices_of(r, &keys),
		};
		idx.sort_unstable();
		idx.dedup();
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = r.below(6);
		let how = gen_how(r);
		any(ctx, r, ty, keys, &idx, lay, form, &format!("pattern{p}"), how)
	});
	ctx.fixed("outliers", if th { 8000 } else { 1000 }, |ctx, r, _| {
		let n = if r.chance(1, 2) { r.range(2, 2000) } else { r.range(2001, 9000) };
		let (keys, idx) = genk::outliers(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = r.below(6);
		let how = gen_how(r);
		any(ctx, r, ty, keys, &idx, lay, form, "outliers", how)
	});
	ctx.fixed("killer", if th { 6000 } else { 800 }, |ctx, r, _| {
		let n = if r.chance(1, 10) { r.range(2001, 8000) } else { r.range(60, 1500) };
		let index = gen_index(r, n);
		let idx = if r.chance(1, 3) { vec![index] } else { genk::gen_indices(r, n).into_iter().take(9).collect() };
		ctx.begin(format_args!("par_select_many against adaptive adversary n={n} {} indices", idx.len()));
		let rev = r.chance(1, 2);
		let keys = par_select_killer(r, n, &idx, rev);
		ctx.ev("adversarial inputs recorded", 1);
		let lay = gen_layout(r, n);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		let how = gen_how(r);
		any(ctx, r, 0, keys, &idx, lay, form, "killer", how)
	});
	// Long enough for the sparsest sampling of pivots.
	ctx.fixed("far", if th { 60 } else { 8 }, |ctx, r, _| {
		let n = r.range(131_200, 150_000);
		let index = gen_index(r, n);
		ctx.begin(format_args!("par_select_many against adaptive adversary n={n} index {index}"));
		let keys = par_select_killer(r, n, &[index], r.clone().chance(1, 2));
		ctx.ev("adversarial inputs recorded", 1);
		let how = gen_how(r);
		let lay = gen_layout(r, n);
		any(ctx, r, 0, keys, &[index], lay, Form::By, "killer", how)
	});
	ctx.fixed("zst", 100, |ctx, r, i| {
		let r = &mut r.clone();
		zst::check(ctx, i as usize, "par_select_many_nth_unstable", |v| {
			let idx = genk::gen_indices(r, v.len());
			let mut c = vec![];
			v.par_select_many_nth_unstable(&Array1::from_vec(idx.clone()), &mut c);
			assert!(c.len() == idx.len(), "wrong count for zero-sized elements");
		})
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let max = if th { 200_000 } else { 40_000 };
		let n = if r.chance(1, 3) { genk::gen_len(r, max) } else { genk::gen_len_from(r, 2001, max) };
		let (keys, p) = genk::gen_keys(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let idx = genk::gen_indices_of(r, &keys);
		let ty = r.below(6);
		let how = gen_how(r);
		any(ctx, r, ty, keys, &idx, lay, form, &format!("pattern{p}"), how)
	});
	ctx.finish();
}
