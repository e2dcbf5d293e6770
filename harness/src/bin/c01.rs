//! C01: sequential unstable sorting yields an ordered permutation.
use harness::genk;
use harness::ops::sort_unstable;
use harness::report::Ctx;
use harness::sortcase::*;
use harness::{Slice1Ext, zst};

fn main() {
	let mut ctx = Ctx::new("C01");
	let th = ctx.thorough;
	let fam = Family {
		op: "sort_unstable",
		stable: false,
		par: false,
		max: if th { 200_000 } else { 30_000 },
		p8: sort_unstable,
		b3: sort_unstable,
		w72: sort_unstable,
		hb: sort_unstable,
		a64: sort_unstable,
		more: (sort_unstable, sort_unstable, sort_unstable, sort_unstable, sort_unstable),
	};
	seq_sort_workload(&mut ctx, &fam, |v, f| v.sort_unstable_by(|a, b| f(a, b)));
	ctx.fixed("zst", 200, |ctx, _, i| {
		zst::check(ctx, i as usize, "sort_unstable", |v| match i % 3 {
			0 => v.sort_unstable(),
			1 => v.sort_unstable_by(|a, b| b.cmp(a)),
			_ => v.sort_unstable_by_key(|_| 1),
		})
	});
	// Plain integers, through the optimiser's eyes.
	ctx.fixed("plain", 4000, |ctx, r, _| {
		let n = genk::gen_len(r, 3000);
		let (keys, p) = genk::gen_keys(r, n);
		plain::<u8>(ctx, &keys, p, |k| k as u8, |v, _| v.sort_unstable())?;
		plain::<i64>(ctx, &keys, p, |k| (k as i64) * 3 - 20_000, |v, _| v.sort_unstable())?;
		plain::<u128>(ctx, &keys, p, |k| (k as u128) << 70, |v, _| v.sort_unstable())?;
		plain::<String>(ctx, &keys, p, |k| k.to_string(), |v, _| v.sort_unstable())
	});
	seq_sort_random(&mut ctx, &fam);
	ctx.finish();
}
