//! C17: inconsistent orderings cannot lose elements, hang or crash an operation.
use harness::anyop::{Op, PAR, SEQ_MUT, gen_arg, gen_content, run_how};
use harness::elem::{B3, D, El, Hb, W264, W72, clear_ledgers, dropped};
use harness::host::{Host, gen_layout};
use harness::ndarray::{Array1, s};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{Slice1Ext, genk, hook, oracle, par};
use std::cmp::Ordering;

/// Bounded means far below what looping without end makes. Quick selection guided by a lie may need
/// a few times the square of the length.
fn cap(n: usize) -> u64 {
	100_000 + 300 * (n * n) as u64
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, lie: u64) -> Res {
	let mut n = n.min(T::MAXLEN - 2);
	if matches!(op, Op::Select | Op::Many | Op::ParMany) && !matches!(lie, 4 | 7 | 8 | 13) {
		n = n.min(1100);
	}
	if n == 0 && op == Op::Select {
		return Ok(());
	}
	let (keys, p) = gen_content(r, op, form, n, T::MAXKEY);
	let arg = gen_arg(r, &keys);
	let lay = gen_layout(r, n);
	let pool = r.below(par::pools().len());
	let seed = r.next();
	if T::NAME == D::NAME {
		clear_ledgers(n);
	}
	let mut host = Host::<T>::new(lay, &keys);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} {lay:?} content=pattern{p} order lies in mode {lie}", T::NAME));
	hook::reset();
	hook::cap(cap(n));
	hook::answers(lie, seed);
	// Keys may be what is inconsistent: their comparison, or the function giving them.
	let key_lies = r.chance(1, 2);
	hook::key_lies(key_lies);
	let res = {
		let mut v = host.view_mut();
		guard(|| run_how(op, form, &mut v, &arg, pool))
	};
	let calls = hook::calls();
	hook::reset();
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	let ret = match res {
		Ok(r) => r,
		// The standard library, which sorts the cached keys, may report that their order is inconsistent.
		Err(p) if op == Op::Cached && key_lies && payload(&*p).contains("total order") => {
			ctx.ev("inconsistent key orders reported by the standard library", 1);
			vec![]
		}
		Err(p) => return Err(payload(&*p)),
	};
	let out = host.out();
	oracle::conserved(&keys, &out)?;
	host.check_canaries()?;
	if ret.contains(&-1) {
		return Err("a returned view or reference lies outside the view".into());
	}
	if T::NAME == D::NAME {
		dropped(n, 0)?;
		drop(host);
		dropped(n, 1)?;
	}
	let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50) ^ mix(lie << 8);
	let moved = out.iter().enumerate().any(|(i, e)| e.1 as usize != i);
	ctx.eval(mix(sig ^ seed), n >= 2 && moved);
	ctx.ev(&format!("runs of {op:?}"), 1);
	ctx.ev("untrue answers given to", calls);
	ctx.ev_max(&format!("callback calls per n squared of {op:?}, percent"), if n > 300 { calls * 100 / (n as u64 * n as u64) } else { 0 });
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, lie: u64) -> Res {
	match if n > 20_000 { 0 } else { r.below(5) } {
		0 => case::<D>(ctx, r, op, form, n, lie),
		1 => case::<B3>(ctx, r, op, form, n, lie),
		2 => case::<W72>(ctx, r, op, form, n, lie),
		3 => case::<Hb>(ctx, r, op, form, n, lie),
		_ => case::<W264>(ctx, r, op, form, n, lie),
	}
}

/// Floats with values that cannot be ordered, under the comparators people write for them.
fn floats(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
	let n = genk::gen_len(r, 3000).max(1);
	let den = r.pick(&[2, 3, 10, 100]);
	let f: Vec<f64> = (0..n).map(|k| if r.chance(1, den) { f64::from_bits(0x7ff8_0000_0000_0000 | k as u64) } else { r.below(100) as f64 + k as f64 / 1e6 }).collect();
	let mut a: Array1<f64> = f.iter().flat_map(|&x| [x, -1.0]).collect();
	let style = r.below(3);
	let calls = std::sync::atomic::AtomicU64::new(0);
	let cap = cap(n);
	let cmp = |a: &f64, b: &f64| {
		if calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > cap {
			std::panic::panic_any(hook::CapExceeded(cap));
		}
		match style {
			0 => a.partial_cmp(b).unwrap_or(Ordering::Equal),
			1 => a.partial_cmp(b).unwrap_or(Ordering::Less),
			_ => if a < b { Ordering::Less } else { Ordering::Greater },
		}
	};
	let op = i % 7;
	ctx.begin(format_args!("operation {op} on floats with NaN n={n} style={style}"));
	let k = r.below(n.max(1));
	let ix = Array1::from_vec(genk::gen_indices(r, n));
	let res = {
		let mut v = a.slice_mut(s![..;2]);
		guard(|| match op {
			0 => v.sort_unstable_by(cmp),
			1 => v.sort_by(cmp),
			2 => {
				if n > 0 {
					let _ = v.select_nth_unstable_by(k, cmp);
				}
			}
			3 => v.select_many_nth_unstable_by(&ix, &mut vec![], cmp),
			4 => v.par_sort_unstable_by(cmp),
			5 => v.par_sort_by(cmp),
			_ => {
				let _ = v.partition_dedup();
			}
		})
	};
	res.map_err(|p| payload(&*p))?;
	let mut got: Vec<u64> = a.slice(s![..;2]).iter().map(|x| x.to_bits()).collect();
	let mut want: Vec<u64> = f.iter().map(|x| x.to_bits()).collect();
	got.sort_unstable();
	want.sort_unstable();
	if got != want {
		return Err("the values are not the previous ones".into());
	}
	if a.slice(s![1..;2]).iter().any(|&x| x != -1.0) {
		return Err("a value outside the view changed".into());
	}
	ctx.eval(mix(r.next()), n >= 2);
	ctx.ev("float runs", 1);
	Ok(())
}

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C17");
	let th = ctx.thorough;
	let ops: Vec<Op> = SEQ_MUT.iter().chain(PAR).copied().collect();
	let lens = [1usize, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 21, 24, 30, 40, 49, 50, 51, 64, 80, 100, 128, 129, 150, 200, 256, 257, 300, 500, 800, 1025, 2001, 2600, 5001, 6100];
	let total = ops.len() * hook::LIES as usize * lens.len() * if th { 20 } else { 2 };
	ctx.fixed("table", total as u64, |ctx, r, i| {
		let mut i = i as usize;
		let mut take = |k: usize| {
			let x = i % k;
			i /= k;
			x
		};
		let (op, lie, len) = (ops[take(ops.len())], 1 + take(hook::LIES as usize) as u64, lens[take(lens.len())]);
		let form = FORMS[r.below(5)];
		any(ctx, r, op, form, len, lie)
	});
	ctx.fixed("floats", if th { 40_000 } else { 2000 }, floats);
	ctx.timed("random", 1.0, 200, |ctx, r, i| {
		let op = if i % 5 == 0 { r.pick(PAR) } else { r.pick(SEQ_MUT) };
		let max = if th { 40_000 } else { 9000 };
		let n = if op.par() && r.chance(1, 2) { genk::gen_len_from(r, 2001, max) } else { genk::gen_len(r, max) };
		let form = pick_form(r);
		let lie = r.range(1, hook::LIES as usize) as u64;
		any(ctx, r, op, form, n, lie)
	});
	ctx.finish();
}
