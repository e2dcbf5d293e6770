//! C28: what is available in several feature configurations gives identical results, return values
//! and callback counts in each. The same cases are run by one process per configuration, which
//! records what it saw; the driver compares the records. Case generation never depends on the
//! configuration.
use harness::anyop::{Arg, Op, gen_arg, gen_content, run_op};
use harness::elem::{B3, D, El, Hb, P8, W72};
use harness::host::{Host, Layout, gen_layout, layout_class};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{adv, genk, hook, oracle};

const ALL: &[Op] = &[
	Op::SortU,
	Op::SortS,
	Op::Cached,
	Op::Select,
	Op::Many,
	Op::Dedup,
	Op::Bin,
	Op::Point,
	Op::Contains,
	Op::IsSorted,
	Op::Reverse,
	Op::ParU,
	Op::ParS,
	Op::ParCached,
	Op::ParMany,
];

fn here(op: Op) -> bool {
	match op {
		Op::SortS => cfg!(feature = "alloc"),
		Op::Cached => cfg!(feature = "std"),
		_ if op.par() => cfg!(feature = "par"),
		_ => true,
	}
}

struct Case<'a> {
	op: Op,
	form: Form,
	keys: &'a [u32],
	arg: &'a Arg,
	lay: Layout,
	what: &'a str,
}

fn case<T: El + Sync>(ctx: &mut Ctx, c: &Case) -> Res {
	let n = c.keys.len();
	ctx.begin(format_args!("{:?} {:?} on {} n={n} {:?} {}", c.op, c.form, T::NAME, c.lay, c.what));
	if !here(c.op) {
		ctx.ev("cases not available here", 1);
		return Ok(());
	}
	let mut host = Host::<T>::new(c.lay, c.keys);
	hook::reset();
	hook::cap(loop_cap(n));
	let res = {
		let mut v = host.view_mut();
		guard(|| run_op(c.op, c.form, &mut v, c.arg))
	};
	let calls = if c.op.par() { 0 } else { hook::calls() };
	hook::reset();
	let ret = res.map_err(|p| payload(&*p))?;
	let out = host.out();
	host.check_canaries()?;
	let h = out.iter().fold(1, |h, &(k, i)| mix(h ^ (k as u64) << 32 ^ i as u64));
	let name = format!("{:?}", c.op);
	let ret = ret.iter().fold(2, |h, &x| mix(h ^ x as u64));
	ctx.record(&name, &format!("outcome {h:x}, returned {ret:x}, callback calls {calls}"));
	let moved = out.iter().enumerate().any(|(i, x)| x.1 as usize != i);
	ctx.ev(&format!("runs of {name}"), 1);
	let sig = oracle::digest_keys(c.keys) ^ mix(c.form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(c.lay)) ^ mix(c.op as u64 + 50);
	ctx.eval(mix(sig ^ c.arg.many.iter().fold(c.arg.index as u64, |h, &i| mix(h ^ i as u64))), n >= 2 && (moved || !c.op.sorts()));
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, p: Option<usize>, lay: Option<Layout>) -> Res {
	if n == 0 && matches!(op, Op::Select | Op::Many | Op::ParMany) {
		return Ok(());
	}
	let kind = r.below(8);
	let max = if kind == 0 && n < 50_000 { B3::MAXKEY } else { u32::MAX };
	let (mut keys, p) = match p {
		Some(p) if !matches!(op, Op::Bin | Op::Point) => (genk::pattern(r, n, p), p),
		_ => gen_content(r, op, form, n, max),
	};
	if r.chance(1, 3) && !matches!(op, Op::Bin | Op::Point) {
		let d = r.pick(&[2u32, 5, 40, 1000]);
		keys.iter_mut().for_each(|k| *k %= d);
	}
	let arg = gen_arg(r, &keys);
	let mut what = format!("pattern{p}");
	// An adversary against this very configuration; one that decides differently is a difference.
	if op == Op::SortU && n < 3000 && r.chance(1, 8) {
		keys = adv::record(r, n, false, |v, f| {
			use harness::Slice1Ext;
			v.sort_unstable_by(|a, b| f(a, b))
		})
		.0;
		what = "adversary".into();
	}
	genk::squeeze(&mut keys, max);
	let lay = lay.unwrap_or_else(|| gen_layout(r, n));
	let c = Case { op, form, keys: &keys, arg: &arg, lay, what: &what };
	match kind {
		0 if n < 50_000 => case::<B3>(ctx, &c),
		1 if n < 30_000 => case::<W72>(ctx, &c),
		2 if n < 4_000 => case::<D>(ctx, &c),
		3 if n < 30_000 => case::<Hb>(ctx, &c),
		_ => case::<P8>(ctx, &c),
	}
}

fn main() {
	let mut ctx = Ctx::new("C28");
	let th = ctx.thorough;
	let mut tab = vec![];
	for p in 0..genk::NPAT {
		for n in [2usize, 8, 21, 60, 300, 2100] {
			for &op in ALL {
				tab.push((p, n, op));
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (p, n, op) = tab[i as usize % tab.len()];
		let form = FORMS[r.below(5)];
		let lay = layout_class(i as usize % 7);
		any(ctx, r, op, form, n, Some(p), Some(lay))
	});
	ctx.fixed("large", if th { 600 } else { 60 }, |ctx, r, i| {
		let op = ALL[i as usize % ALL.len()];
		any(ctx, r, op, Form::By, if i % 7 == 0 { 140_000 } else { 40_000 }, Some(i as usize / 4 % genk::NPAT), None)
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(ALL);
		let n = genk::gen_len(r, if th { 100_000 } else { 8_000 });
		let form = pick_form(r);
		any(ctx, r, op, form, n, None, None)
	});
	ctx.finish();
}
