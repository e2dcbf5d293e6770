//! C07: bulk selection ranks every requested index and reports it in order.
use harness::elem::{B3, El, Hb, P8, W16, W264, W72};
use harness::host::{Layout, gen_layout};
use harness::ndarray::Array1;
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res};
use harness::rng::Rng;
use harness::selcase::*;
use harness::sortcase::{pick_form, small_keys, small_space, table};
use harness::{Slice1Ext, genk, zst};

fn any(ctx: &mut Ctx, r: &mut Rng, ty: usize, mut keys: Vec<u32>, idx: &[usize], lay: Layout, form: Form, what: &str) -> Res {
	macro_rules! go {
		($t:ty) => {{
			genk::squeeze(&mut keys, <$t>::MAXKEY);
			many_case::<$t>(ctx, r, &keys, idx, lay, form, what)
		}};
	}
	match if keys.len() >= B3::MAXLEN { 0 } else { if ty % 6 == 5 && keys.len() > 6000 { 4 } else { ty % 6 } } {
		0 => go!(P8),
		1 => go!(B3),
		2 => go!(W72),
		3 => go!(Hb),
		4 => go!(W16),
		_ => go!(W264),
	}
}

fn main() {
	let mut ctx = Ctx::new("C07");
	let th = ctx.thorough;
	// Every content over few keys with every subset of indices.
	let space = small_space(if th { 5 } else { 4 });
	let total = space.last().unwrap().2;
	ctx.fixed("small", total.min(if th { 20_000 } else { 1200 }), |ctx, r, i| {
		let keys = small_keys(&space, i);
		let n = keys.len();
		if n > 8 {
			return Ok(());
		}
		for m in 0..1usize << n {
			let idx: Vec<usize> = (0..n).filter(|k| m >> k & 1 == 1).collect();
			let lay = gen_layout(r, n);
			any(ctx, r, m, keys.clone(), &idx, lay, FORMS[(i as usize + m) % 5], "exhaustive")?;
		}
		Ok(())
	});
	let tab = table(2, if th { 131_073 } else { 10_001 });
	ctx.fixed("table", tab.len() as u64, |ctx, r, i| {
		let (p, n) = tab[i as usize];
		for _ in 0..if n < 3000 { 3 } else { 1 } {
			let keys = genk::pattern(r, n, p);
			let lay = gen_layout(r, n);
			let form = pick_form(r);
			let idx = genk::gen_indices_of(r, &keys);
			let ty = r.below(6);
			any(ctx, r, ty, keys, &idx, lay, form, &format!("pattern{p}"))?;
		}
		Ok(())
	});
	ctx.fixed("outliers", if th { 8000 } else { 1200 }, |ctx, r, _| {
		let n = if r.chance(1, 4) { r.range(2, 60) } else { r.range(60, 2500) };
		let (keys, idx) = genk::outliers(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let ty = r.below(6);
		any(ctx, r, ty, keys, &idx, lay, form, "outliers")
	});
	ctx.fixed("killer", if th { 6000 } else { 800 }, |ctx, r, _| {
		let n = r.range(60, 3000);
		let index = gen_index(r, n);
		ctx.begin(format_args!("select against adaptive adversary n={n} index={index}"));
		let rev = r.chance(1, 2);
		let keys = select_killer(r, n, index, rev);
		ctx.ev("adversarial inputs recorded", 1);
		// The index is met first when it is in the middle of the set.
		let mut idx: Vec<usize> = genk::gen_indices(r, n).into_iter().take(index % 5).filter(|&i| i < index).collect();
		idx.push(index);
		let more = idx.len();
		idx.extend((index + 1..n).take(more.saturating_sub(1)));
		let lay = gen_layout(r, n);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		any(ctx, r, 0, keys, &idx, lay, form, "killer")
	});
	ctx.fixed("zst", 150, |ctx, r, i| {
		let r = &mut r.clone();
		zst::check(ctx, i as usize, "select_many_nth_unstable", |v| {
			let idx = genk::gen_indices(r, v.len());
			let mut c = vec![];
			v.select_many_nth_unstable(&Array1::from_vec(idx.clone()), &mut c);
			assert!(c.iter().map(|x| x.0).eq(idx), "wrong indices for zero-sized elements");
		})
	});
	ctx.timed("random", 1.0, 200, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 200_000 } else { 20_000 });
		let (keys, p) = genk::gen_keys(r, n);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let idx = genk::gen_indices_of(r, &keys);
		let ty = r.below(6);
		any(ctx, r, ty, keys, &idx, lay, form, &format!("pattern{p}"))
	});
	ctx.finish();
}
