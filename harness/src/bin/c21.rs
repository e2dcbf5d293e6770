//! C21: linear selection, O(n log m) bulk selection, one callback round per element elsewhere.
use harness::anyop::{Arg, Op, gen_arg, gen_content};
use harness::cost::{attack, count, log2};
use harness::elem::{El, P8, W72};
use harness::host::{Host, gen_layout, layout_class};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::gen_index;
use harness::sortcase::{hash_layout, pick_form};
use harness::{genk, oracle, par};

/// Most comparisons that count as proportional. The bounds for selection lie well above what sixteen
/// wasted partitions and the deterministic fallback take, and far below quadratic ones.
/// Content nobody arranged against the pivots takes about 5; 20 are allowed there.
fn bound(op: Op, n: usize, m: usize, what: &str) -> u64 {
	// Beyond 131072 elements the fallback looks at ever fewer of them (one of a thousand in the end), so
	// that its share to exclude per round, and with it the factor (139 and 180 are seen for 300000 and
	// 600000), is allowed to approach a larger constant there. Quadratic ones start at tens of thousands.
	let far = (n.max(131_072) as f64 / 131_072.0).ln();
	let n = n as u64;
	let c = if what.starts_with("pattern") { 20 } else { 60 + (500.0 * far).min(2000.0) as u64 };
	match op {
		Op::Select => c * n + 500,
		Op::Many | Op::ParMany => ((1.0 + log2(m.max(1) + 1)) * c as f64) as u64 * n + 500,
		// One round per element: the key form asks for two keys and compares them once.
		Op::Dedup | Op::IsSorted => n.saturating_sub(1),
		Op::Contains => n,
		_ => unreachable!(),
	}
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], arg: &Arg, what: &str) -> Res {
	let n = keys.len();
	let lay = if n > 2000 && r.chance(3, 4) { layout_class(r.below(2)) } else { gen_layout(r, n) };
	let pool = r.below(par::pools().len());
	let m = arg.many.len();
	let mut host = Host::<T>::new(lay, keys);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} m={m} index={} {lay:?} content={what}", T::NAME, arg.index));
	let limit = bound(op, n, m, what);
	let c = count(op, form, &mut host, keys, arg, pool, limit * 2 + 100)?;
	judge(ctx, op, n, m, c, what)?;
	let sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	ctx.eval(mix(sig ^ arg.many.iter().fold(arg.index as u64, |h, &i| mix(h ^ i as u64))), n >= 2);
	Ok(())
}

fn judge(ctx: &mut Ctx, op: Op, n: usize, m: usize, c: u64, what: &str) -> Res {
	let limit = bound(op, n, m, what);
	if c > limit {
		return Err(format!("{c} comparisons (or more) for {n} elements and {m} indices, at most {limit} are in proportion"));
	}
	if n >= 64 {
		let kind = if what.starts_with("pattern") { "inputs" } else if n <= 131_072 { "attacks" } else { "far attacks" };
		let per = if matches!(op, Op::Many | Op::ParMany) { 1.0 + log2(m + 1) } else { 1.0 };
		ctx.ev_max(&format!("comparisons of {op:?} on {kind} in proportion, percent"), (c as f64 * 100.0 / n as f64 / per) as u64);
	}
	ctx.ev("comparisons", c);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], arg: &Arg, what: &str) -> Res {
	if r.chance(2, 3) || keys.len() > 40_000 { case::<P8>(ctx, r, op, form, keys, arg, what) } else { case::<W72>(ctx, r, op, form, keys, arg, what) }
}

fn args(r: &mut Rng, keys: &[u32]) -> Arg {
	let mut a = gen_arg(r, keys);
	a.index = gen_index(r, keys.len());
	if r.chance(1, 3) {
		a.many.truncate(r.range(1, 3));
	}
	a
}

const OPS: &[Op] = &[Op::Select, Op::Many, Op::ParMany, Op::Dedup, Op::IsSorted, Op::Contains];
const FREE: &[Op] = &[Op::Select, Op::Many, Op::ParMany];

fn main() {
	let mut ctx = Ctx::new("C21");
	let th = ctx.thorough;
	let mut tab = vec![];
	for p in 0..genk::NPAT {
		for n in [1usize, 2, 11, 65, 300, 1024, 1030, 2500, 20_000] {
			for &op in OPS {
				tab.push((p, n, op));
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (p, n, op) = tab[i as usize % tab.len()];
		let keys = genk::pattern(r, n, p);
		let form = FORMS[r.below(5)];
		let arg = args(r, &keys);
		any(ctx, r, op, form, &keys, &arg, &format!("pattern{p}"))
	});
	ctx.fixed("large", if th { 576 } else { 72 }, |ctx, r, i| {
		let op = [Op::Select, Op::Select, Op::Many, Op::ParMany][i as usize % 4];
		let p = i as usize / 2 % genk::NPAT;
		let keys = genk::pattern(r, if i % 4 == 0 { 300_000 } else { 140_000 }, p);
		let arg = args(r, &keys);
		case::<P8>(ctx, r, op, Form::By, &keys, &arg, &format!("pattern{p}"))
	});
	ctx.fixed("adversary", if th { 9000 } else { 720 }, |ctx, r, i| {
		let op = FREE[i as usize % 3];
		let n = match i / 3 % 8 {
			0 => r.range(12, 100),
			1..=3 => r.range(100, 1500),
			4 | 5 => r.range(1500, 6000),
			6 => r.range(6000, 40_000),
			_ => match i / 24 % 8 {
				0 => r.range(131_072, 150_000),
				4 if i % 3 == 0 || th => r.range(150_000, 320_000),
				_ => r.range(1000, 1100),
			},
		};
		let rev = r.chance(1, 2);
		let pool = if r.chance(1, 2) { 0 } else { r.below(par::pools().len()) };
		let dummy: Vec<u32> = vec![0; n];
		let arg = args(r, &dummy);
		let m = arg.many.len();
		ctx.begin(format_args!("{op:?} answered by the adversary n={n} m={m} index={} rev={rev} pool={pool}", arg.index));
		let (keys, c) = attack(r, op, n, rev, &arg, pool, bound(op, n, m, "adversary") * 2)?;
		judge(ctx, op, n, m, c, "adversary")?;
		ctx.eval(mix(r.next()), true);
		ctx.ev("adversaries played", 1);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		any(ctx, r, op, form, &keys, &arg, "recorded")?;
		let other = r.pick(FREE);
		let arg = args(r, &keys);
		any(ctx, r, other, form, &keys, &arg, "recorded")
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(OPS);
		let n = genk::gen_len(r, if th { 300_000 } else { 30_000 }).max(1);
		let form = pick_form(r);
		let (keys, p) = gen_content(r, op, form, n, u32::MAX);
		let arg = args(r, &keys);
		any(ctx, r, op, form, &keys, &arg, &format!("pattern{p}"))
	});
	ctx.finish();
}
