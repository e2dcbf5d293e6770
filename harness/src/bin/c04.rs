//! C04: parallel sorting, judged under many schedules.
use harness::Slice1Ext;
use harness::ops::par_sort_unstable;
use harness::report::Ctx;
use harness::sortcase::*;
use harness::zst;

fn main() {
	let mut ctx = Ctx::new("C04");
	let th = ctx.thorough;
	let fam = Family {
		op: "par_sort_unstable",
		stable: false,
		par: true,
		max: if th { 400_000 } else { 60_000 },
		p8: par_sort_unstable,
		b3: par_sort_unstable,
		w72: par_sort_unstable,
		hb: par_sort_unstable,
		a64: par_sort_unstable,
		more: (par_sort_unstable, par_sort_unstable, par_sort_unstable, par_sort_unstable, par_sort_unstable),
	};
	par_sort_workload(&mut ctx, &fam, |v, f| v.par_sort_unstable_by(|a, b| f(a, b)));
	ctx.fixed("zst", 100, |ctx, _, i| {
		zst::check(ctx, i as usize, "par_sort_unstable", |v| match i % 3 {
			0 => v.par_sort_unstable(),
			1 => v.par_sort_unstable_by(|a, b| b.cmp(a)),
			_ => v.par_sort_unstable_by_key(|_| 1),
		})
	});
	par_sort_random(&mut ctx, &fam);
	ctx.finish();
}
