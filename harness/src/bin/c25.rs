//! C25: safe calls never cause undefined behaviour. The workload of the sanitizers and of Miri:
//! every operation over every kind of element and layout, with panics and inconsistent orders, and
//! with everything an operation hands out used afterwards. They judge; the workload only checks
//! that no element got lost.
use harness::anyop::{Arg, Op, PAR, SEQ, SEQ_MUT, gen_arg, gen_content, run_how};
use harness::elem::{A64, B3, D, El, Hb, P8, W72, Y8, clear_ledgers, cmp_el, dropped};
use harness::host::{Host, Layout, gen_layout, layout_class};
use harness::ndarray::Array1;
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::{par_select_killer, select_killer};
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{Slice1Ext, adv, genk, hook, oracle, par, zst};

#[derive(Clone, Copy, Debug)]
enum Mode {
	Plain,
	/// The callback panics at this call (and at all later ones).
	Panic(u64, bool),
	/// The order is inconsistent.
	Lie(u64, u64),
}

struct Case<'a> {
	op: Op,
	form: Form,
	keys: &'a [u32],
	arg: &'a Arg,
	lay: Layout,
	mode: Mode,
	pool: usize,
	what: &'a str,
}

fn case<T: El + Sync>(ctx: &mut Ctx, c: &Case) -> Res {
	let n = c.keys.len();
	clear_ledgers(n.min(harness::elem::LEDGER));
	let mut host = Host::<T>::new(c.lay, c.keys);
	ctx.begin(format_args!("{:?} {:?} on {} n={n} {:?} pool {} content={} {:?}", c.op, c.form, T::NAME, c.lay, c.pool, c.what, c.mode));
	hook::reset();
	hook::cap(loop_cap(n));
	match c.mode {
		Mode::Panic(k, all) => hook::panic_at(k, all),
		Mode::Lie(m, s) => {
			hook::cap(60 * (n as u64 + 20) * (n as u64 + 20));
			hook::answers(m, s)
		}
		_ => {}
	}
	let res = {
		let mut v = host.view_mut();
		guard(|| run_how(c.op, c.form, &mut v, c.arg, c.pool))
	};
	let calls = hook::calls();
	let fired = hook::fired() > 0;
	hook::reset();
	match &res {
		Ok(_) => {}
		Err(p) if p.is::<hook::Injected>() => {}
		// How an operation copes with inconsistent orders is judged elsewhere.
		Err(_) if matches!(c.mode, Mode::Lie(..)) => {}
		Err(p) => return Err(payload(&**p)),
	}
	drop(res);
	oracle::conserved(c.keys, &host.out())?;
	if T::NAME == D::NAME {
		drop(host);
		dropped(n, 1)?;
	}
	let sig = oracle::digest_keys(c.keys) ^ mix(c.form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(c.lay)) ^ mix(c.op as u64 + 50);
	ctx.eval(mix(sig ^ hash_str(&format!("{:?}", c.mode))), n >= 2);
	ctx.ev(&format!("runs of {:?}", c.op), 1);
	ctx.ev(&format!("runs on {}", T::NAME), 1);
	ctx.ev("callback calls", calls);
	match c.mode {
		Mode::Panic(..) if fired => ctx.ev("ended by an injected panic", 1),
		Mode::Lie(..) => ctx.ev("run under an inconsistent order", 1),
		_ => {}
	}
	Ok(())
}

fn dispatch(ctx: &mut Ctx, ty: usize, c: &Case) -> Res {
	match ty % 7 {
		0 => case::<P8>(ctx, c),
		1 => case::<B3>(ctx, c),
		2 => case::<W72>(ctx, c),
		3 => case::<Hb>(ctx, c),
		4 => case::<A64>(ctx, c),
		5 => case::<Y8>(ctx, c),
		_ => case::<D>(ctx, c),
	}
}

/// Uses everything handed out, in turns: reads, writes and exchanges elements.
fn used<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, keys: &[u32], lay: Layout) -> Res {
	let n = keys.len();
	let arg = gen_arg(r, keys);
	let pool = r.below(par::pools().len());
	ctx.begin(format_args!("what {op:?} returns is used, on {} n={n} index={} m={} {lay:?}", T::NAME, arg.index, arg.many.len()));
	hook::reset();
	hook::cap(loop_cap(n));
	let mut host = Host::<T>::new(lay, keys);
	fn again<T: El>(e: &mut T) -> u32 {
		let (k, i) = (e.key(), e.id());
		*e = T::mk(k, i);
		i
	}
	let mut v = host.view_mut();
	let mut seen = 0u64;
	match op {
		Op::Select => {
			let (mut l, m, mut rr) = v.select_nth_unstable_by(arg.index, |a: &T, b: &T| cmp_el(a, b));
			for e in &mut l {
				seen += again(e) as u64;
				seen += again(m) as u64;
			}
			for e in &mut rr {
				again(m);
				seen += again(e) as u64;
			}
			if let (Some(a), Some(b)) = (l.first_mut(), rr.first_mut()) {
				std::mem::swap(a, b);
				std::mem::swap(b, m);
			}
		}
		Op::Many => {
			let ix = Array1::from_vec(arg.many.clone());
			let mut c: Vec<(usize, &mut T)> = vec![];
			v.select_many_nth_unstable_by(&ix, &mut c, |a: &T, b: &T| cmp_el(a, b));
			for _ in 0..2 {
				for (_, e) in c.iter_mut() {
					seen += again(*e) as u64;
				}
			}
			if let [a, .., b] = &mut c[..] {
				std::mem::swap(a.1, b.1);
			}
		}
		Op::ParMany => {
			let ix = Array1::from_vec(arg.many.clone());
			let mut c: Vec<&mut T> = vec![];
			par::pools()[pool].install(|| v.par_select_many_nth_unstable_by(&ix, &mut c, |a: &T, b: &T| cmp_el(a, b)));
			for _ in 0..2 {
				for e in c.iter_mut() {
					seen += again(*e) as u64;
				}
			}
			if let [a, .., b] = &mut c[..] {
				std::mem::swap(*a, *b);
			}
		}
		_ => {
			// The predicate writes to both elements.
			let mut turns = 0u64;
			let (mut d, mut e) = if arg.index % 3 == 0 {
				v.partition_dedup_by_key(|a| {
					turns += again(a) as u64;
					a.key()
				})
			} else {
				v.partition_dedup_by(|a, b| {
					turns += again(a) as u64;
					turns += again(b) as u64;
					again(a);
					std::mem::swap(a, b);
					std::mem::swap(a, b);
					cmp_el(a, b).is_eq()
				})
			};
			seen += turns;
			for x in &mut d {
				seen += again(x) as u64;
			}
			for x in &mut e {
				seen += again(x) as u64;
			}
			if let (Some(a), Some(b)) = (d.first_mut(), e.first_mut()) {
				std::mem::swap(a, b);
				again(a);
			}
		}
	}
	hook::reset();
	oracle::conserved(keys, &host.out())?;
	host.check_canaries()?;
	ctx.eval(oracle::digest_keys(keys) ^ mix(seen) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)), n >= 2);
	ctx.ev("returned references used", 1);
	Ok(())
}
fn use_any(ctx: &mut Ctx, r: &mut Rng, i: usize, n: usize) -> Res {
	let op = [Op::Select, Op::Many, Op::Dedup, Op::ParMany][i % 4];
	let lay = gen_layout(r, n);
	let ty = r.below(3);
	let (keys, _) = gen_content(r, op, Form::By, n, if ty == 0 { B3::MAXKEY } else { u32::MAX });
	match ty {
		0 => used::<B3>(ctx, r, op, &keys, lay),
		1 => used::<Hb>(ctx, r, op, &keys, lay),
		_ => used::<A64>(ctx, r, op, &keys, lay),
	}
}

fn zero(ctx: &mut Ctx, i: usize) -> Res {
	let ix = |n: usize| Array1::from_vec(if n > 2 { vec![0, n / 2, n - 1] } else { (0..n).collect() });
	match i / 15 % 13 {
		0 => zst::check(ctx, i, "sort_unstable", |v| v.sort_unstable()),
		1 => zst::check(ctx, i, "sort", |v| v.sort()),
		2 => zst::check(ctx, i, "sort_by_cached_key", |v| v.sort_by_cached_key(|_| 1)),
		3 => zst::check(ctx, i, "select_nth_unstable", |v| {
			if v.len() > 0 {
				let n = v.len() / 2;
				let _ = v.select_nth_unstable(n);
			}
		}),
		4 => zst::check(ctx, i, "select_many_nth_unstable", |v| {
			let x = ix(v.len());
			v.select_many_nth_unstable(&x, &mut vec![])
		}),
		5 => zst::check(ctx, i, "partition_dedup", |v| {
			v.partition_dedup();
		}),
		6 => zst::check(ctx, i, "binary_search", |v| {
			let z = zst::Z::new();
			let _ = v.binary_search(&z);
		}),
		7 => zst::check(ctx, i, "is_sorted", |v| {
			let _ = v.is_sorted();
		}),
		8 => zst::check(ctx, i, "reverse", |v| v.reverse()),
		9 => zst::check(ctx, i, "par_sort_unstable", |v| par::pools()[1].install(|| v.par_sort_unstable())),
		10 => zst::check(ctx, i, "par_sort", |v| par::pools()[1].install(|| v.par_sort())),
		11 => zst::check(ctx, i, "par_sort_by_cached_key", |v| par::pools()[1].install(|| v.par_sort_by_cached_key(|_| 1))),
		_ => zst::check(ctx, i, "par_select_many_nth_unstable", |v| {
			let x = ix(v.len());
			par::pools()[1].install(|| v.par_select_many_nth_unstable(&x, &mut vec![]))
		}),
	}
}

fn attack(r: &mut Rng, op: Op, n: usize, arg: &Arg, rev: bool) -> Vec<u32> {
	match op {
		Op::Select => select_killer(r, n, arg.index, rev),
		Op::Many => {
			let i = arg.many.first().copied().unwrap_or(0);
			select_killer(r, n, i, rev)
		}
		Op::ParMany => par_select_killer(r, n, &arg.many, rev),
		Op::ParU => adv::record(r, n, rev, |v, f| par::pools()[0].install(|| v.par_sort_unstable_by(|a, b| f(a, b)))).0,
		_ => adv::record(r, n, rev, |v, f| v.sort_unstable_by(|a, b| f(a, b))).0,
	}
}

fn one(ctx: &mut Ctx, r: &mut Rng, op: Op, n: usize, ty: usize, lay: Option<Layout>, mode: Mode, killer: bool) -> Res {
	let max = if ty % 7 == 1 { B3::MAXKEY } else { u32::MAX };
	let n = if ty % 7 == 1 { n.min(50_000) } else { n };
	let form = if cfg!(miri) && n > 2000 { Form::By } else { pick_form(r) };
	// Equality with a made-up element has no identity to spare on the narrow type.
	let form = if form == Form::Ord && matches!(op, Op::Bin) { Form::By } else { form };
	if n == 0 && op == Op::Select || ty % 7 == 1 && op == Op::Contains {
		return Ok(());
	}
	let (mut keys, p) = match cfg!(miri) && n > 2000 {
		// Few comparisons: long runs to merge, few values to partition.
		true if op == Op::ParS => ((0..n as u32).map(|i| i % 400).collect(), 99),
		true => ((0..n as u32).map(|i| i * 7919 % 6).collect(), 98),
		false => gen_content(r, op, form, n, max),
	};
	let arg = gen_arg(r, &keys);
	if killer && n > 0 {
		let rev = r.chance(1, 2);
		keys = attack(r, op, n, &arg, rev);
		genk::squeeze(&mut keys, max);
	}
	let lay = lay.unwrap_or_else(|| gen_layout(r, n));
	let pool = r.below(par::pools().len());
	let what = if killer { "adversary".into() } else { format!("pattern{p}") };
	dispatch(ctx, ty, &Case { op, form, keys: &keys, arg: &arg, lay, mode, pool, what: &what })
}
fn gen_mode(r: &mut Rng, n: usize) -> Mode {
	match r.below(4) {
		0 => Mode::Panic(r.logu(4 * n + 4) as u64 - 1, r.chance(1, 3)),
		1 => Mode::Lie(r.range(1, hook::LIES as usize) as u64, r.next()),
		_ => Mode::Plain,
	}
}

/// Little for the interpreter, chosen to reach every unsafe piece of the crate.
fn interpreted(ctx: &mut Ctx) {
	// (operation, length, adversarial)
	const LONG: &[(Op, usize, bool)] = &[
		(Op::ParS, 2060, false),
		(Op::ParU, 2060, false),
		(Op::SortU, 290, false),
		(Op::SortS, 300, false),
		(Op::Select, 290, false),
		(Op::Many, 290, false),
		(Op::ParMany, 280, false),
		(Op::SortU, 150, true),
		(Op::Reverse, 40, false),
		(Op::Bin, 20, false),
		(Op::Select, 200, true),
		(Op::Many, 120, true),
		(Op::ParMany, 90, true),
		(Op::ParU, 90, true),
		(Op::Cached, 260, false),
		(Op::ParCached, 260, false),
		(Op::Point, 40, false),
		(Op::Contains, 20, false),
		(Op::Dedup, 100, false),
	];
	// Tracking borrows takes time quadratic in the length.
	const SHORT: &[(Op, usize, bool)] = &[
		(Op::SortU, 120, false),
		(Op::Select, 120, false),
		(Op::SortS, 110, false),
		(Op::Many, 120, false),
		(Op::ParMany, 110, false),
		(Op::SortU, 60, true),
		(Op::Select, 70, true),
		(Op::ParU, 90, false),
		(Op::ParS, 60, false),
		(Op::Dedup, 40, false),
		(Op::Cached, 30, false),
		(Op::SortS, 50, false),
		(Op::Many, 50, true),
		(Op::Bin, 30, false),
		(Op::ParMany, 50, true),
		(Op::ParCached, 20, false),
		(Op::Reverse, 20, false),
		(Op::SortU, 25, false),
		(Op::Contains, 15, false),
		(Op::Select, 25, false),
		(Op::IsSorted, 15, false),
		(Op::SortS, 30, false),
		(Op::Point, 15, false),
		(Op::ParU, 60, true),
	];
	let long = ctx.extra == "long";
	let th = ctx.thorough;
	let list = if long { LONG } else { SHORT };
	ctx.fixed("list", list.len() as u64 * if th { 12 } else { 1 }, |ctx, r, i| {
		let (op, n, killer) = list[i as usize % list.len()];
		// No diagonal of long ones, as its square matrix takes too long to set up.
		let class = r.below(9);
		let lay = layout_class(if class == 7 && n > 120 { 2 } else { class });
		// The longest one in the cheapest way.
		let ty = if n > 2000 { 0 } else { r.below(7) };
		let n = if n > 100 { n - r.below(10) } else { n };
		one(ctx, r, op, n, ty, Some(lay), Mode::Plain, killer)
	});
	// Every operation on every type of elements.
	let ops: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let each = if th { 8 } else { !long as u64 };
	ctx.fixed("each", ops.len() as u64 * 7 * each, |ctx, r, i| {
		let i = i as usize;
		let n = r.pick(&[4, 7, 9, 13, 22, 24]);
		one(ctx, r, ops[i % ops.len()], n, i / ops.len() % 7, None, Mode::Plain, false)
	});
	ctx.fixed("returned", if th { 64 } else { 16 }, |ctx, r, i| {
		let n = if long { r.range(40, 120) } else { r.range(5, 40) };
		use_any(ctx, r, i as usize, n)
	});
	if !long || th {
		ctx.fixed("zero", if th { 15 * 13 } else { 16 }, |ctx, r, i| {
			let i = if th { i as usize } else { i as usize % 13 * 15 + r.range(1, 10) };
			// Short ones only.
			zero(ctx, i / 15 * 15 + i % 15 % 9)
		});
	}
	ctx.timed("random", 1.0, 2, |ctx, r, i| {
		let op = if i % 3 == 0 { r.pick(&ops) } else { r.pick(SEQ_MUT) };
		let n = if long && r.chance(1, 4) { r.range(100, 400) } else { r.range(2, 45) };
		let mode = if r.chance(1, 2) { gen_mode(r, n) } else { Mode::Plain };
		// An inconsistent order makes too many calls on long ones.
		let n = if matches!(mode, Mode::Lie(..)) { n.min(40) } else { n };
		let ty = r.below(7);
		let killer = op != Op::Dedup && op.sorts() && r.chance(1, 8);
		one(ctx, r, op, n, ty, None, mode, killer)
	});
}

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C25");
	if cfg!(miri) {
		interpreted(&mut ctx);
		return ctx.finish();
	}
	let th = ctx.thorough;
	let ops: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let lens = [2usize, 3, 12, 21, 50, 130, 257, 300, 600, 2100, 5200];
	let mut tab = vec![];
	for &op in &ops {
		for &n in &lens {
			for class in 0..9 {
				if class < 8 || n <= 300 {
					tab.push((op, n, class));
				}
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (op, n, class) = tab[i as usize % tab.len()];
		let n = if class == 7 { n.min(400) } else { n };
		let ty = r.below(7);
		let killer = r.chance(1, 6) && op != Op::Dedup && !matches!(op, Op::Bin | Op::Point);
		one(ctx, r, op, n, ty, Some(layout_class(class)), Mode::Plain, killer)
	});
	ctx.fixed("pending", if th { 80 } else { 8 }, |ctx, r, i| {
		let keys = genk::pending(r, 17 + i as usize / 8 % 2);
		let lay = harness::sortcase::pick_layout(r, keys.len());
		let mode = if r.chance(1, 3) { Mode::Panic(r.below(6 * keys.len()) as u64, false) } else { Mode::Plain };
		let arg = Arg::default();
		case::<P8>(ctx, &Case { op: Op::SortS, form: Form::By, keys: &keys, arg: &arg, lay, mode, pool: 0, what: "pending" })
	});
	ctx.fixed("zero", 15 * 13, |ctx, _, i| zero(ctx, i as usize));
	ctx.fixed("returned", if th { 4000 } else { 400 }, |ctx, r, i| {
		let n = genk::gen_len(r, 3000).max(1);
		use_any(ctx, r, i as usize, n)
	});
	let _ = FORMS;
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = if r.chance(1, 2) { r.pick(&ops) } else { r.pick(SEQ_MUT) };
		let n = genk::gen_len(r, if th { 20_000 } else { 6000 });
		let mode = gen_mode(r, n);
		let n = if matches!(mode, Mode::Lie(..)) { n.min(400) } else { n };
		let ty = r.below(7);
		let killer = op.sorts() && r.chance(1, 10);
		one(ctx, r, op, n, ty, None, mode, killer)
	});
	ctx.finish();
}
