//! C20: O(n log n) comparisons in the worst case.
use harness::anyop::{Arg, Op};
use harness::cost::{attack, count, log2};
use harness::elem::{El, P8, W72};
use harness::host::{Host, gen_layout};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{genk, oracle, par};

const OPS: &[Op] = &[Op::SortU, Op::SortS, Op::ParU, Op::ParS, Op::Cached, Op::ParCached];

/// What counts as proportional to n log n: well above what any of the algorithms needs (heap sort
/// about 2, after as many wasted partitions 3), far below what a quadratic one takes.
fn bound(n: usize) -> u64 {
	(6.0 * n as f64 * log2(n)) as u64 + 200
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], what: &str) -> Res {
	let n = keys.len();
	let lay = if n > 2000 && r.chance(3, 4) { harness::host::layout_class(r.below(2)) } else { gen_layout(r, n) };
	let pool = r.below(par::pools().len());
	let mut host = Host::<T>::new(lay, keys);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} {lay:?} content={what}", T::NAME));
	let c = count(op, form, &mut host, keys, &Arg::default(), pool, bound(n) * 2)?;
	oracle::sorted(&host.out(), form.rev())?;
	judge(ctx, op, n, c, what)?;
	let sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	ctx.eval(sig, n >= 2);
	Ok(())
}

fn judge(ctx: &mut Ctx, op: Op, n: usize, c: u64, what: &str) -> Res {
	if c > bound(n) {
		return Err(format!("{c} comparisons (or more) for {n} elements, at most {} are proportional to n log n", bound(n)));
	}
	if n >= 64 {
		let kind = if what.starts_with("pattern") { "inputs" } else { "attacks" };
		ctx.ev_max(&format!("comparisons of {op:?} on {kind} per n log2 n, percent"), (c as f64 * 100.0 / n as f64 / log2(n)) as u64);
	}
	ctx.ev("comparisons", c);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], what: &str) -> Res {
	if r.chance(2, 3) || keys.len() > 40_000 { case::<P8>(ctx, r, op, form, keys, what) } else { case::<W72>(ctx, r, op, form, keys, what) }
}

fn main() {
	let mut ctx = Ctx::new("C20");
	let th = ctx.thorough;
	let mut tab = vec![];
	for p in 0..genk::NPAT {
		for n in [65usize, 130, 300, 1000, 2500, 5100, 20_000] {
			for &op in OPS {
				tab.push((p, n, op));
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (p, n, op) = tab[i as usize % tab.len()];
		let keys = genk::pattern(r, n, p);
		let form = FORMS[r.below(5)];
		any(ctx, r, op, form, &keys, &format!("pattern{p}"))
	});
	ctx.fixed("large", genk::NPAT as u64 * if th { 12 } else { 2 }, |ctx, r, i| {
		let op = [Op::SortU, Op::SortS][i as usize % 2];
		let p = i as usize / 2 % genk::NPAT;
		let keys = genk::pattern(r, if th { 1_000_000 } else { 200_000 }, p);
		case::<P8>(ctx, r, op, Form::By, &keys, &format!("pattern{p}"))
	});
	// The adversary decides the order while the sort asks; then the order it settled on is sorted.
	ctx.fixed("adversary", if th { 8000 } else { 960 }, |ctx, r, i| {
		let op = OPS[i as usize % 6];
		let n = match i / 6 % 8 {
			0 => r.range(21, 100),
			1..=3 => r.range(100, 1500),
			4 | 5 => r.range(1500, 6000),
			_ => r.range(6000, if th { 60_000 } else { 20_000 }),
		};
		let rev = r.chance(1, 2);
		let pool = if r.chance(1, 2) { 0 } else { r.below(par::pools().len()) };
		ctx.begin(format_args!("{op:?} answered by the adversary n={n} rev={rev} pool={pool}"));
		let (keys, c) = attack(r, op, n, rev, &Arg::default(), pool, bound(n) * 2)?;
		judge(ctx, op, n, c, "adversary")?;
		ctx.eval(mix(r.next()), true);
		ctx.ev("adversaries played", 1);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		any(ctx, r, op, form, &keys, "recorded")?;
		// What hurts one may hurt another.
		let other = r.pick(OPS);
		any(ctx, r, other, form, &keys, "recorded")
	});
	// Orders that hurt a part of the array hidden in otherwise orderly content.
	ctx.fixed("composed", if th { 2000 } else { 240 }, |ctx, r, i| {
		let op = OPS[i as usize % 6];
		let n = r.range(400, 4000);
		let (bad, _) = attack(r, op, n, false, &Arg::default(), 0, bound(n) * 2)?;
		let k = bad.len() as u32;
		let keys: Vec<u32> = match i / 6 % 4 {
			0 => bad.iter().flat_map(|&b| [b, b + k]).collect(),
			1 => bad.iter().copied().chain(bad.iter().map(|b| b + k)).collect(),
			2 => (0..k).chain(bad.iter().copied()).collect(),
			_ => bad.iter().map(|b| b / 3).collect(),
		};
		any(ctx, r, op, Form::By, &keys, "composed")
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(OPS);
		let n = genk::gen_len(r, if th { 200_000 } else { 30_000 });
		let (keys, p) = genk::gen_keys(r, n);
		let form = pick_form(r);
		any(ctx, r, op, form, &keys, &format!("pattern{p}"))
	});
	ctx.finish();
}
