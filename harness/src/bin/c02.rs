//! C02: sequential stable sorting yields the unique stable order.
use harness::Slice1Ext;
use harness::genk;
use harness::ops::{Form, sort_stable};
use harness::report::Ctx;
use harness::sortcase::*;
use harness::zst;

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C02");
	let th = ctx.thorough;
	let fam = Family {
		op: "sort",
		stable: true,
		par: false,
		max: if th { 200_000 } else { 30_000 },
		p8: sort_stable,
		b3: sort_stable,
		w72: sort_stable,
		hb: sort_stable,
		a64: sort_stable,
		more: (sort_stable, sort_stable, sort_stable, sort_stable, sort_stable),
	};
	seq_sort_workload(&mut ctx, &fam, |v, f| v.sort_by(|a, b| f(a, b)));
	// Long inputs with deep stacks of pending runs.
	ctx.fixed("runs", if th { 2000 } else { 160 }, |ctx, r, i| {
		let n = r.range(20_000, 120_000);
		let keys = genk::pattern(r, n, if i % 4 == 0 { 16 } else { 17 });
		let lay = pick_layout(r, n);
		let form = pick_form(r);
		fam.dispatch(ctx, 0, keys, lay, form, "runs", 0, &|f| f())
	});
	// More runs pending than there is room for at first.
	ctx.fixed("pending", if th { 400 } else { 32 }, |ctx, r, i| {
		let keys = genk::pending(r, 16 + i as usize / 8 % 4);
		let lay = pick_layout(r, keys.len());
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		fam.dispatch(ctx, if i % 8 == 0 { 2 } else { 0 }, keys, lay, form, "pending", 0, &|f| f())
	});
	ctx.fixed("zst", 200, |ctx, _, i| {
		zst::check(ctx, i as usize, "sort", |v| match i % 3 {
			0 => v.sort(),
			1 => v.sort_by(|a, b| b.cmp(a)),
			_ => v.sort_by_key(|_| 1),
		})
	});
	ctx.fixed("plain", 4000, |ctx, r, _| {
		let n = genk::gen_len(r, 3000);
		let (keys, p) = genk::gen_keys(r, n);
		plain::<u8>(ctx, &keys, p, |k| k as u8, |v, _| v.sort())?;
		plain::<i64>(ctx, &keys, p, |k| (k as i64) * 3 - 20_000, |v, _| v.sort())?;
		plain::<u128>(ctx, &keys, p, |k| (k as u128) << 70, |v, _| v.sort())?;
		plain::<String>(ctx, &keys, p, |k| k.to_string(), |v, _| v.sort())
	});
	seq_sort_random(&mut ctx, &fam);
	ctx.finish();
}
