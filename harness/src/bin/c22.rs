//! C22: linear time on presorted, reversed and all-equal inputs, and on few sorted stretches.
//! Parallel sorting by cached key is left out, as it collects its keys in no particular order.
use harness::anyop::{Arg, Op};
use harness::cost::{count, log2};
use harness::elem::{El, P8, W72};
use harness::host::{Host, gen_layout, layout_class};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::hash_layout;
use harness::{genk, oracle, par};

const OPS: &[Op] = &[Op::SortU, Op::SortS, Op::ParU, Op::ParS, Op::Cached];

/// Ascending in the sense of the form, with ties as told.
fn content(r: &mut Rng, kind: usize, n: usize) -> (Vec<u32>, usize) {
	let nn = n as u32;
	match kind {
		// Non-descending.
		0 => ((0..nn).collect(), 1),
		1 => {
			let w = r.pick(&[2u32, 3, 7, 50, 1000]);
			((0..nn).map(|i| i / w).collect(), 1)
		}
		2 => {
			let d = r.range(1, n + 1);
			let mut v: Vec<u32> = (0..n).map(|_| r.below(d) as u32).collect();
			v.sort_unstable();
			(v, 1)
		}
		// Strictly descending.
		3 => ((0..nn).rev().collect(), 1),
		4 => ((0..nn).rev().map(|i| i * 3 + (i % 2)).collect(), 1),
		// All equal.
		5 => (vec![r.below(100) as u32; n], 1),
		// A few sorted stretches, for the stable sorts.
		_ => {
			let k = r.range(2, 8);
			let mut cuts: Vec<usize> = (1..k).map(|_| r.below(n)).collect();
			cuts.extend([0, n]);
			cuts.sort_unstable();
			let mut v = vec![];
			for w in cuts.windows(2) {
				let len = w[1] - w[0];
				let mut s: Vec<u32> = match r.below(3) {
					0 => (0..len).map(|_| r.below(n) as u32).collect(),
					1 => (0..len as u32).map(|i| i * 2 + w[0] as u32 % 2).collect(),
					_ => {
						let at = r.below(n) as u32;
						(0..len as u32).map(|i| at + i).collect()
					}
				};
				s.sort_unstable();
				if r.chance(1, 4) {
					s.dedup();
					let last = s.last().copied().unwrap_or(0);
					let short = len - s.len();
					s.extend((1..=short as u32).map(|i| last + i));
					s.reverse();
				}
				v.extend(s);
			}
			(v, k)
		}
	}
}

/// Proportional to n. On one stretch one comparison per element is the rule, two are seen where the
/// parallel sort falls short of a second chunk, and anything that grows with n passes two at last.
fn bound(n: usize, k: usize) -> u64 {
	let n = n as u64;
	if k <= 1 { if n < 32_768 { 5 * n / 2 + 300 } else { 2 * n } } else { (2.0 * (log2(k + 1) + 3.0)) as u64 * n + 300 }
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, kind: usize, n: usize) -> Res {
	let (mut keys, k) = content(r, kind, n);
	if form.rev() {
		let hi = keys.iter().copied().max().unwrap_or(0);
		keys.iter_mut().for_each(|x| *x = hi - *x);
	}
	let lay = if n > 5000 { layout_class(r.below(2)) } else { gen_layout(r, n) };
	let pool = r.below(par::pools().len());
	let mut host = Host::<T>::new(lay, &keys);
	let name = ["ascending", "ascending with ties", "ascending at random", "descending", "descending with gaps", "all equal"].get(kind).copied().unwrap_or("stretches");
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} {lay:?} content={name} k={k}", T::NAME));
	let limit = bound(n, k);
	let c = count(op, form, &mut host, &keys, &Arg::default(), pool, limit * 2)?;
	oracle::sorted(&host.out(), form.rev())?;
	if c > limit {
		return Err(format!("{c} comparisons (or more) for {n} elements, at most {limit} are in proportion"));
	}
	if n >= 64 {
		ctx.ev_max(&format!("comparisons of {op:?} per element, {name}, percent"), c * 100 / n as u64);
	}
	ctx.ev("comparisons", c);
	let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	ctx.eval(sig, n >= 2);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, kind: usize, n: usize) -> Res {
	if r.chance(2, 3) || n > 40_000 { case::<P8>(ctx, r, op, form, kind, n) } else { case::<W72>(ctx, r, op, form, kind, n) }
}
fn kind(r: &mut Rng, op: Op) -> usize {
	r.below(if matches!(op, Op::SortS | Op::ParS) { 9 } else { 6 })
}

fn main() {
	let mut ctx = Ctx::new("C22");
	let th = ctx.thorough;
	let mut tab = vec![];
	for kind in 0..9 {
		for &n in genk::EDGES.iter().chain(&[300_000, 524_288, 1_000_000]) {
			for &op in OPS {
				if n >= 2 && (kind < 6 || matches!(op, Op::SortS | Op::ParS)) {
					tab.push((kind, n, op));
				}
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (kind, n, op) = tab[i as usize % tab.len()];
		let form = FORMS[r.below(5)];
		any(ctx, r, op, form, kind, n)
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(OPS);
		let n = genk::gen_len(r, if th { 500_000 } else { 60_000 }).max(2);
		let form = FORMS[r.below(5)];
		let k = kind(r, op);
		any(ctx, r, op, form, k, n)
	});
	ctx.finish();
}
